"""rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and caught.txt"""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted bug | caught by | breaks | needs |","|---|---|---|---|"]
c=dict(l.split(None,1) for l in open(V+"/tools/caught.txt") if l.strip())
for f in sorted(glob.glob(V+"/seeded/*/meta.json")):
    d=json.load(open(f)); i=f.split('/')[-2]
    rows.append("| %s | %s | %s | %s |"%(i,c.get(i,'(not run)').strip(),d["what_it_breaks"],d["needs"]))
p=V+"/DESIGN.md"; s=open(p).read()
B,E="<!-- seeds -->","<!-- /seeds -->"; t=B+"\n"+"\n".join(rows)+"\n"+E
s=s.replace("@SEEDS@",t) if "@SEEDS@" in s else s[:s.index(B)]+t+s[s.index(E)+len(E):]
open(p,"w").write(s)
