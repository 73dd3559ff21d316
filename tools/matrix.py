"""Rewrite the catch matrix at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught=dict(l.split(None,1) for l in open(V+"/tools/caught.txt") if l.strip())
rows=["| planted bug | property | quick check | needs |","|---|---|---|---|"]
for b in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(f"{V}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['property']} | {caught.get(b,'not run').strip()} | {m['needs']} |")
p=V+"/DESIGN.md"; s=open(p).read(); k="<!-- matrix -->"
s=s.split(k)[0].rstrip()+"\n\n"+k+"\n"+"\n".join(rows)+"\n"
open(p,"w").write(s)
