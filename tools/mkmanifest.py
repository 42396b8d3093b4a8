"""writes MANIFEST.json from properties.jsonl and the checks present"""
import json,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(l) for l in open(H+'/properties.jsonl')]
TECH='contract verification: symbolic execution of the compiled functions (LLVM IR of /repo), obligations discharged by polynomial identity testing, z3 and exact arithmetic'
# property: (level, technique, note)
L=json.load(open(H+'/tools/levels.json'))
NA=json.load(open(H+'/tools/notapplicable.json'))
checks=[];na=[]
for p in P:
    i=p['id']
    if i in L and os.path.exists(f'{H}/checks/{i}.py'):
        l=L[i]
        checks.append(dict(property=i,quick_cmd=f'python3-vt checks/{i}.py --tier quick',thorough_cmd=f'python3-vt checks/{i}.py --tier thorough',evidence_file=f'evidence/{i}.json',technique=l.get('technique',TECH),level=l.get('level','proof'),level_note=l['note']))
    else: na.append(dict(property=i,reason=NA.get(i,'no check finished yet')))
m=dict(version=1,setup_cmd='bash tools/setup.sh',checks=checks,not_applicable=na)
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1); print(len(checks),'claimed',len(na),'not')
