import json,sys
d=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 3
print({k:v for k,v in d.items() if k!='trace'})
tr=d['trace']
print(json.dumps(tr[0])[:3000])
k=0
for e in tr[1:]:
    if e['ev']==d['ev'] or d['ev']=='Crash':
        print(json.dumps(e)[:1500]); k+=1
        if k>=n: break
