import json,sys
f,cid=sys.argv[1:3]
for l in open(f):
    c=json.loads(l)
    if c['id']==cid:
        for i,o in enumerate(c['ops'],1):
            print(i,o['op'],{k:v for k,v in o.items() if k not in('op','post')})
            t=o.get('post')
            if t:
                for n,e in enumerate(t['edges'],1): print('   e',n,e['p'],e['r'])
                for g,r in enumerate(t['regions'],1): print('   r',g,r)
