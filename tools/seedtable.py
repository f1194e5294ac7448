"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,glob,os
p='/verif/DESIGN.md'; s=open(p).read()
cut=s.find('SEEDED-TABLE')
if cut<0: cut=s.index('| id | property | what it breaks |')
rows=['| id | property | what it breaks | needs | caught by |','|---|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); c=lambda t:' '.join(t.split()).rstrip('.').replace('|','\\|')
    rows.append('| %s | %s | %s | %s | %s |'%(os.path.basename(os.path.dirname(f)),m['property'],c(m['what_it_breaks']),c(m['needs']),m.get('caught_by',m['property'])))
open(p,'w').write(s[:cut]+'\n'.join(rows)+'\n')
