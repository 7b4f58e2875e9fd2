import json,os,pathlib
R=pathlib.Path('/verif')
seeds={}
for d in sorted((R/'seeded').iterdir()):
    m=json.loads((d/'meta.json').read_text()); seeds.setdefault(m['property'],[]).append((d.name,m))
out=[]
for p in sorted(seeds):
    for n,m in seeds[p]:
        out.append(f"| {n} | {p} | {m['needs'].strip().rstrip('.')} |")
tab="| planted bug | caught by | needs |\n|---|---|---|\n"+"\n".join(out)
t=(R/'tools'/'DESIGN.in.md').read_text()
(R/'DESIGN.md').write_text(t.replace('@@SEEDED@@',tab).replace('@@NSEEDED@@',str(len(out))))
