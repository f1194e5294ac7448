#!/usr/bin/env python3
# Writes MANIFEST.json. CLAIMED maps property -> group of harness.
import json,re,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
props=[json.loads(l) for l in open("properties.jsonl")]
src="".join(open("harness/"+f).read() for f in sorted(os.listdir("harness")) if f.startswith("p_") and f.endswith(".cc"))
have=set(re.findall(r"^PART\((C\d\d),",src,re.M))
TECH="property-based testing: generated inputs, "
ORACLE=json.load(open("tools/oracles.json"))
groups=sorted(f[2:-3] for f in os.listdir("harness") if f.startswith("p_") and f.endswith(".cc"))
m={"version":1,"setup_cmd":"bash harness/build.sh "+" ".join(groups),
 "checks":[],"not_applicable":[],
 "notes":"No hooks: the harness links /repo's sources unmodified. quick runs a fixed number of generated cases per VERIF_SEED; thorough runs about 20 times as many. Any failure is shrunk and written to replays/, run again with './check.sh <id> quick --replay <file>'."}
for p in props:
    i=p["id"]
    if i in have:
        t,n=ORACLE[i]
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":TECH+t,"level":"exploration","level_note":n})
    else: m["not_applicable"].append({"property":i,"reason":"the check is not built yet"})
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
print(len(m["checks"]),"checks",len(m["not_applicable"]),"not claimed")
