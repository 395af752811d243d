"""developer aid: show one violation recorded by trial.py"""
import json, sys
d = json.load(open("/verif/work/viol/%s.json" % sys.argv[1]))
idx = sys.argv[2]
for v in d:
    if v["verdict"]["id"] == idx or idx == "all":
        c = v["case"]
        print(v["what"][:600])
        print({k: c[k] for k in c if k not in ("script", "progs", "blobs")}, "blobs", len(c.get("blobs", [])))
        b = v["verdict"]
        print({k: b[k] for k in b if k not in ("bad",)} if len(sys.argv) > 3 else {k: str(b[k])[:1500] for k in b if k not in ("bad",)})
        for i, e in enumerate(c["script"]):
            s = json.dumps(e)
            print(i + 1, s[:700 if len(sys.argv) < 4 else 100000])
        print()
