"""rshow.py REPLAYDIR FROM TO: pretty-print the plan and log of a saved violation; also raw TLC verdicts"""
import sys,json,os; sys.path.insert(0,'/verif/lib'); import run
d=sys.argv[1]
if '/' not in d: d='/verif/build/replay/%s/%s'%(d.split('_')[0],d)
P=json.load(open(d+'/plan.json')); log=json.load(open(d+'/log.json'))
def sh(e):
    if not isinstance(e,list): return str(e)
    k=e[0]
    if k=='c': return str(e[1][1] if len(e[1])>1 else 'unk')
    if k=='v': return 'v%s'%e[1]
    if k=='l':
        L=P['lks'][e[1]-1]; return 'L%d%s(%s%s)'%(e[1],'+' if L['on'] else '',','.join([sh(L['n'])]+[sh(a) for a in L['args']]),'' if L['tol']==['0'] else ' tol '+sh(L['tol']))
    if k=='o': return '%s(%s)'%(e[1],', '.join(sh(x) for x in e[3]))
    if k=='np': return '%s(n%s)'%(e[1],e[2])
    if k in('ns','no','nf','nh'): return '%s:%s'%(k,e[1])
    if k=='e': return '%s[%s]'%(sh(e[1]),sh(e[2]))
    return str(e)
for i,n in enumerate(P['nodes'],1):
    print(i,n['ty'],'par',n['par'],'kids',n['kids'],{k:sh(v) for k,v in n['c'].items() if v!=['0']},
      'pr',n.get('pr'),'res',n['res'],{k:(sh(v) if k!='args' else list(map(sh,v))) for k,v in n.items() if k in('rhs','idx','name','args','dst') or k=='var'},
      [(p['k'],sh(p['x'])) for p in n.get('pairs',[])])
for i,v in enumerate(P['vars'],1): print('v%d'%i,v['node'],v['ty'],'arr' if v['arr'] else '',sh(v['init']))
a=int(sys.argv[2]) if len(sys.argv)>2 else 1; b=int(sys.argv[3]) if len(sys.argv)>3 else 999
for i,r in enumerate(log,1):
    if a<=i<=b: print(i,json.dumps(r) if r['e']!='end' else json.dumps({k:x for k,x in r.items() if x}))
