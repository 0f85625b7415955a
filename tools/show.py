import sys,json,re
sys.path.insert(0,'/verif/lib')
d=json.load(open('/tmp/w/all.json')); k=sys.argv[1]; P,log=d[k]
to=int(sys.argv[2]) if len(sys.argv)>2 else 999
fr=int(sys.argv[3]) if len(sys.argv)>3 else 1
def e(x):
    if x[0]=='c': return str(x[1][1]) if len(x[1])>1 else 'UNK'
    if x[0]=='v': return 'v%d'%x[1]
    if x[0]=='l':
        L=P['lks'][x[1]-1]; return 'L%d%s(%s%s%s)'%(x[1],'+' if L['on'] else '',e(L['n']),','.join(['']+[e(a) for a in L['args']]),'' if L['tol']==['0'] else ' tol '+e(L['tol']))
    if x[0]=='o': return '%s(%s)'%(x[1],', '.join(map(e,x[3])))
    if x[0]=='e': return '%s[%s]'%(e(x[1]),e(x[2]))
    return str(x[0])+':'+','.join(map(str,x[1:]))
for i,n in enumerate(P['nodes'],1):
    print(i,n['ty'],'par',n['par'],'kids',n['kids'],'pr' if n['pr']<9999 else '',n['pr'] if n['pr']<9999 else '',n['res'] or '',{c:e(x) for c,x in n['c'].items() if x!=['0']}, {q:(e(n[q]) if isinstance(n[q],list) and n[q] and isinstance(n[q][0],str) else n[q]) for q in ('var','idx','elt','rhs','name','dst') if q in n}, [e(a) for a in n.get('args',[])],[{kk:e(vv) for kk,vv in r.items()} for r in n.get('rs',[])])
for i,v in enumerate(P['vars'],1): print('v%d'%i,v['node'],v['ty'],'arr' if v['arr'] else '',v['init'] if v['init']==['0'] else e(v['init']))
for i,r in enumerate(log,1):
    if fr<=i<=to:
        s=dict(r); 
        s=' '.join('%s=%s'%(a,json.dumps(b)) for a,b in r.items() if b not in ([],)) 
        print(i,s[:900])
