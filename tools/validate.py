#!/opt/veriftools/pyvenv/bin/python
import json,jsonschema,os,sys
S='/root/.vp/'
sch=json.load(open(S+'PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    o=json.loads(l); 
    try: jsonschema.validate(o,sch)
    except Exception as e: print(o['id'],str(e)[:300])
    for f in o['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(o['id'],f)
if os.path.exists('/verif/MANIFEST.json'):
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open(S+'MANIFEST.schema.json')))
for f in sorted(os.listdir('/verif/evidence')):
    jsonschema.validate(json.load(open('/verif/evidence/'+f)),json.load(open(S+'EVIDENCE.schema.json')))
