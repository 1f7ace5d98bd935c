"""Helper: change fields of a property in properties.jsonl. usage: reprop.py ID field text"""
import json,sys
p='/verif/properties.jsonl'
L=[json.loads(l) for l in open(p)]
i,f,t=sys.argv[1:4]
for d in L:
    if d['id']==i:
        if f=='text': d['quantifier']['text']=t
        else: d[f]=t
open(p,'w').write(''.join(json.dumps(d)+'\n' for d in L))
