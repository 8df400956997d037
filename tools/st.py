#!/usr/bin/env python3
"""st.py ID 'title or -' < statement : edit one property's statement."""
import json, sys
L=[json.loads(l) for l in open('properties.jsonl')]
i,t=sys.argv[1:3]
s=sys.stdin.read().strip()
for p in L:
    if p['id']==i:
        if t!='-': p['title']=t
        if s: p['statement']=s
open('properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in L))
