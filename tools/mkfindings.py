"""known_findings.txt: one line per repaired defect (tools/findings.map: commit property)"""
import subprocess
m={l.split()[0]:l.split()[1] for l in open("/verif/tools/findings.map") if l.strip()}
out=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","04ff336..HEAD"],capture_output=True,text=True).stdout
lines=[]
for l in out.splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    if h not in m: print("unmapped",l); continue
    lines.append(f"fixed: property={m[h]} {h} {s[5:]}")
open("/verif/known_findings.txt","w").write("\n".join(lines)+"\n"); print(len(lines))
