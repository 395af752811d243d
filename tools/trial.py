"""developer aid: run one profile through gen + Conf and summarise"""
import sys, os, tempfile, collections, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
first = int(sys.argv[4]) if len(sys.argv) > 4 else 0
work = tempfile.mkdtemp(prefix="trial")
r = check.Run(prop, "quick", seed, work)
r.known = []
r.bin = os.path.join(check.ROOT, "harness/target/release/vmh")
import time
t = time.time()
try:
    r.rand(prop, n, first=first)
except check.ToolError as e:
    print("TOOLERR", str(e)[-2500:])
print(prop, "cases", r.cov["cases"], "traces", r.cov["traces"], "ops", r.cov["ops"], "steps", r.cov["steps"], "viol", len(r.viol), "%.0fs" % (time.time() - t))
print("  ", r.cov["outcomes"])
h = collections.defaultdict(list)
for d, c, b in r.viol:
    h[(b["eng"], b["op"], tuple(sorted({x[0] for x in b["bad"]})))].append((d, c, b))
for k, v in sorted(h.items(), key=lambda x: -len(x[1])):
    print("  ", k, len(v), v[0][0][:400])
os.makedirs("/verif/work/viol", exist_ok=True)
json.dump([{"what": d, "case": c, "verdict": b} for d, c, b in r.viol], open("/verif/work/viol/%s.json" % prop, "w"))
import shutil; shutil.rmtree(work)
