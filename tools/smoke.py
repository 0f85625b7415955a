import sys; sys.path.insert(0,'/verif/lib')
import gen, run, build, json, os, time, collections
n=int(sys.argv[1]); seed=int(sys.argv[2]) if len(sys.argv)>2 else 1
prof=json.loads(sys.argv[3]) if len(sys.argv)>3 else {}
d=build.build(['driver'])['driver']
os.makedirs('/tmp/w',exist_ok=True)
scs=[];P={}
for i in range(n):
    s=gen.Gen(seed*100000+i,prof,'s%d'%i).make(); P[s.id]=s.lower(); scs.append(s)
t=time.time()
logs=run.run_driver(d,scs,'/tmp/w')
print('driver',time.time()-t, 'records',sum(map(len,logs.values())))
c=collections.Counter(r['e'] for l in logs.values() for r in l); print(c)
json.dump({k:[P[k],logs[k]] for k in P},open('/tmp/w/all.json','w'))
t=time.time()
res,st,errs=run.judge([(k,P[k],logs[k]) for k in P],'/tmp/w')
print('tlc',time.time()-t,st)
bad={k:v for k,v in res.items() if v}
print(len(bad),'rejected of',n)
cc=collections.Counter((v.split('"')[1] if '"' in v else v) for v in bad.values())
print(cc)
for k in list(bad)[:12]: print(k,bad[k][:300])
for e in errs[:1]: print(e[-3000:])
