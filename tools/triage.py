#!/usr/bin/env python3
# triage.py PROP [engine options]: runs with --keep-going and prints distinct shrunk failures, shortest first.
import subprocess,sys,re
out=subprocess.run([__import__("os").environ.get("CHK","/verif/check.sh"),sys.argv[1],"quick","--keep-going"]+sys.argv[2:],capture_output=True,text=True,errors="replace")
blocks=re.split(r"(?m)^(?=---- )",out.stdout)
print(blocks[0] if not blocks[0].startswith("----") else "")
seen={}
for b in blocks:
    if not b.startswith("----"): continue
    k=re.sub(r"case \d+","case",b.split("VIOLATION")[0]); k=re.sub(r"0x[0-9a-f]+|/tmp/\S+|==\d+==","",k)
    fr=re.findall(r"#\d+ \S+ in (\S+) (/repo\S+|/root/w/repo\S+|/verif/build/regen\S+)",b)
    if fr: k=re.sub(r"0x[0-9a-f]+|==\d+==","",b.split("\n")[1])[:60]+" ".join(f[0]+f[1] for f in fr[:1])
    old=seen.get(k)
    if old and len(b)<len(old[1]): old[1]=b
    seen.setdefault(k,[0,b]); seen[k][0]+=1
for k,(n,b) in sorted(seen.items(),key=lambda x:len(x[1][1]))[:12]: print("#%d "%n+b[:1500]); print()
print(out.stdout.strip().split("\n")[-1]); print(out.stderr[-1500:])
