import json,collections,sys
R=[json.loads(l) for l in open(sys.argv[1])]
print(collections.Counter(r['verdict'] for r in R))
for i,r in enumerate(R):
    if r['verdict'] in('SURVIVED','error') and i>=int((sys.argv+[0,0])[2]): print(i,r['file'],r['line'],r['what'],'|',r['src'],{k:v for k,v in r.get('rcs',{}).items() if v},r.get('msg') or '')
