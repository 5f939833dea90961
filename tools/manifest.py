"""write /verif/MANIFEST.json: python3-vt tools/manifest.py"""
import json, os, jsonschema
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
notes=json.load(open(root+'/tools/levels.json'))
na=notes.pop('_na',{})
checks=[];no=[]
for p in props:
    i=p['id']
    if i in notes:
        checks.append(dict(property=i,technique=notes[i][0],level='model_checking',level_note=notes[i][1],
            quick_cmd='python3 check.py %s quick'%i, thorough_cmd='python3 check.py %s thorough'%i))
    else:
        no.append(dict(property=i,reason=na.get(i,'no check built yet')))
m=dict(version=1,setup_cmd='python3 check.py setup',checks=checks,not_applicable=no)
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(no),'n/a')
