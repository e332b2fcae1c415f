p='/verif/DESIGN.md'; s=open(p).read()
import glob,os
d={}
for x in sorted(glob.glob('/verif/seeded/*')):
    n=os.path.basename(x); d.setdefault(n[:3].upper(),[]).append(n[4:])
rows="\n".join(f"| {k} | {', '.join(v)} |" for k,v in d.items())
if "BUGS" in s: s=s.replace("BUGS",rows)
else:
    a=s.index("| check | bugs |\n|---|---|\n")+len("| check | bugs |\n|---|---|\n"); b=s.index("\n\nMissed when")
    s=s[:a]+rows+s[b:]
open(p,'w').write(s)
