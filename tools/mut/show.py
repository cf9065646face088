import json,collections,sys
R=[json.loads(l) for l in open(sys.argv[1])]
seen=set(json.load(open('/tmp/mut/seen.json'))) if __import__('os').path.exists('/tmp/mut/seen.json') else set()
print(collections.Counter(r['r'] for r in R))
new=[r for r in R if r['r']=='SURVIVED' and r['key'] not in seen]
for r in sorted(new,key=lambda r:(r['file'],r['line'])):
    print('%s:%d %s  %r -> %r %s'%(r['file'],r['line'],r['op'],r['old'][:70],r['new'][:70],[(b[0],b[1]) for b in r['by']]))
json.dump(sorted(seen|{r['key'] for r in new}),open('/tmp/mut/seen.json','w'))
