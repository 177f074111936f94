#!/usr/bin/env python3
# catches.py: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import json,os
b='/verif/seeded'
s=open('/verif/DESIGN.md').read()
i=s.find('## Planted bugs')
if i>=0: s=s[:i]
s=s.rstrip('\n')+'\n\n## Planted bugs\n\nEach is caught by the check of the property it was planted for (`bash check.sh <property>` exits 1 with the patch applied).\n\n| planted bug | caught by | what it needs |\n|---|---|---|\n'
for d in sorted(os.listdir(b)):
    m=json.load(open(b+'/'+d+'/meta.json'))
    s+='| %s | %s | %s |\n'%(d,m['property'],m['needs'].replace('|','/').replace('\n',' '))
open('/verif/DESIGN.md','w').write(s)
