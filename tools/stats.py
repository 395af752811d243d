import json,sys,collections
c=collections.Counter(); cyc=0
for l in open(sys.argv[1]):
    k=json.loads(l)
    for e in k['script']:
        if e['op'] in('run','step'):
            c[k['cls']+':'+(e['o']['k'] or 'ok')]+=1; cyc+=e['o']['cyc'][0]
print(dict(c),cyc)
