"""developer aid: run models and replay their behaviours, without known findings
mtrial.py NAME [tier]"""
import sys, os, tempfile, collections, json, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check, models
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
work = tempfile.mkdtemp(prefix="trial")
r = check.Run("M", tier, 1, work)
r.known = []
r.bin = os.path.join(check.ROOT, "harness/target/release/vmh")
t = time.time()
try:
    models.run(r, sys.argv[1])
except check.ToolError as e:
    print("TOOLERR", str(e)[-2500:])
print(json.dumps(r.cov["stages"]))
print("cases", r.cov["cases"], "traces", r.cov["traces"], "ops", r.cov["ops"], "viol", len(r.viol), "%.0fs" % (time.time() - t))
print("  ", r.cov["outcomes"])
h = collections.defaultdict(list)
for d, c, b in r.viol:
    h[(b["eng"], b["op"], tuple(sorted({x[0] for x in b["bad"]})))].append((d, c, b))
for k, v in sorted(h.items(), key=lambda x: -len(x[1])):
    print("  ", k, len(v), v[0][0][:400])
os.makedirs("/verif/work/viol", exist_ok=True)
json.dump([{"what": d, "case": c, "verdict": b} for d, c, b in r.viol], open("/verif/work/viol/%s.json" % sys.argv[1], "w"))
import shutil; shutil.rmtree(work)
