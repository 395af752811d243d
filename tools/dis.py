"""developer aid: disassemble the code blob of a case: dis.py PROP ID [lo hi]"""
import json,sys,subprocess,os
d=json.load(open("/verif/work/viol/%s.json"%sys.argv[1]))
c=[v["case"] for v in d if v["verdict"]["id"]==sys.argv[2]][0]
for e in c["script"][:3]:
    if e["op"]=="init" and e["fl"]&2:
        by=b"".join(int(h).to_bytes(2,"little") for h in c["blobs"][e["b"]-1])[:e["len"]]
        n=lambda w:sum(x<<(16*i) for i,x in enumerate(w))
        base=n(e["a"])+n(e["off"])
        open("/tmp/x.bin","wb").write(by)
        open("/tmp/x.s","w").write('.incbin "/tmp/x.bin"\n')
        t="riscv%d"%c["x"]
        subprocess.run(["llvm-mc","-triple="+t,"-filetype=obj","-o","/tmp/x.o","/tmp/x.s"],check=True)
        o=subprocess.run(["llvm-objdump","-d","-M","no-aliases","--mattr=+m,+a,+c,+zba,+zbb,+zbc,+zbs","--adjust-vma=%d"%base,"/tmp/x.o"],stdout=subprocess.PIPE,text=True).stdout
        print("\n".join(o.splitlines()[6:]))
