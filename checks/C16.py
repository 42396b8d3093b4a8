"""C16  Variable declarations.  The set of legal index strings is finite: every one of them is declared through the code and compared with
an oracle that reads the string as what it denotes - letters i..l run over x,y,z, letters a..d over t,x,y,z, letters q..t over 1,2; brackets
or written out permutations generate a symmetry group, and there is one component for every orbit of index tuples the symmetry does not force
to vanish, represented by its lexicographically first tuple.  Look-up and lists are checked on data bases of mixed declarations."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
import itertools
NAMES={'i':'xyz','a':'txyz','q':'12'}
AX={'x':0,'y':1,'z':2,'t':None,'1':0,'2':1}
def kind(c): return 'i' if c in 'ijkl' else 'a' if c in 'abcd' else 'q'
def parse(s):
    """letters of the tensor and the generators (permutation of positions, sign) of its symmetry group"""
    gens=[]; letters=[]; stack=[]
    if '+' in s or '-' in s:
        terms=[]; sg=1; cur=''
        for ch in s+'+':
            if ch in '+-':
                terms.append((cur,sg)); cur=''; sg=1 if ch=='+' else -1
            else: cur+=ch
        base=terms[0][0]; letters=list(base)
        for t,g in terms[1:]: gens.append((tuple(t.index(c) for c in base),g))
        return letters,gens
    for ch in s:
        if ch in '([': stack.append((ch,len(letters)))
        elif ch in ')]':
            o,p=stack.pop(); n=len(letters)
            for k in range(p,n-1):
                q=list(range(99)); q[k],q[k+1]=k+1,k; gens.append((q,1 if ch==')' else -1))
        else: letters.append(ch)
    n=len(letters); return letters,[(tuple(g[0][:n]),g[1]) for g in gens]
def group(n,gens):
    e=(tuple(range(n)),1); G={e}; new=[e]
    while new:
        p,s=new.pop()
        for q,t in gens:
            r=(tuple(p[q[i]] for i in range(n)),s*t)
            if r not in G: G.add(r); new.append(r)
    return G
def comps(s):
    L,gens=parse(s.lower()); n=len(L); G=group(n,gens); out=[]
    for t in itertools.product(*[NAMES[kind(c)] for c in L]):
        o=[(tuple(t[p[i]] for i in range(n)),sg) for p,sg in G]
        key=lambda u:[NAMES[kind(c)].index(x) for c,x in zip(L,u)]
        if any(u==t and sg<0 for u,sg in o): continue
        if min((u for u,_ in o),key=key)!=t: continue
        sym=[1,1,1]
        for x in t:
            if AX[x] is not None: sym[AX[x]]*=-1
        out.append((''.join(t),tuple(sym)))
    return out
LEGAL=['','i','ij','ij+ji','(ij)','ij-ji','[ij]','ijk','ijk+ikj','i(jk)','(ij)k','ijk+jik','ijk-jik','[ij]k','ijkl','ijkl+ijlk+jikl+jilk','(ij)(kl)',
 'a','ab','ai','ab+ba','(ab)','abc+acb','a(bc)','aij+aji','a(ij)','abc+bac','(ab)c','abi+bai','(ab)i','abij+abji+baij+baji','(ab)(ij)',
 'q','qr','qr+rq','(qr)','qrs+rqs','(qr)s','qrst+qrts+rqst+rqts','(qr)(st)','iq','iqr','iqr+irq','i(qr)']
def mk(sym,pars={},grid=False): return mkworld(sym,{'nboxes':'2','physics':'ADMvars','boundary':'none',**boxpars(2,n=3),**pars},grid=grid)
def info(W,i): return (W.str(W.call('VarName',i,ret='p')),W.call('VarComponent',i),W.call('VarNComponents',i),tuple(W.call('VarSymmetry',i,d) for d in range(3)),W.call('IndComponent0',i),W.str(W.call('VarTensorIndices',i,ret='p')),W.call('VarConstantFlag',i))
def expect(name,s,i0,const=0):
    c=comps(s); return [(name+x,k,len(c),sg,i0,s,const) for k,(x,sg) in enumerate(c)]
def nvdb(W): return W.M.load(W.M.glob('globalnvariables',W.M.prog.globs['globalnvariables'][0]),4,'i') if W.sym else W.glob('globalnvariables').value
def declare(s):
    def f(ctx):
        W=ctx.W; i0=nvdb(W); W.call('AddVar','T',s,'tensor '+s,ret='v'); w=expect('T',s,i0); n=nvdb(W)-i0
        ctx.true('number of components',n==len(w),(n,len(w)))
        for k in range(min(n,len(w))): ctx.true(f'component {w[k][0]}',info(W,i0+k)==w[k],(info(W,i0+k),w[k]))
        for k in range(min(n,len(w))): ctx.true('index of name',W.call('Ind',w[k][0])==i0+k and W.call('IndLax',w[k][0])==i0+k)
        ctx.true('component 0 of name',all(W.str(W.call('VarNameComponent0',x[0],ret='p'))==w[0][0] for x in w))
        v=W.call('vlalloc',None,ret='p'); W.call('vlpush',v,i0,ret='v'); ctx.true('list of all components',[W.call('vl_idx',v,k) for k in range(W.call('vl_n',v))]==list(range(i0,i0+len(w))))
        if s: ctx.rejects('declared twice',lambda: W.call('AddVar','T',s,'',ret='v'))
    return f
def illegal(s): return lambda ctx: ctx.rejects(f'index string {s}',lambda: ctx.W.call('AddVar','T',s,'',ret='v'))
MIX=[('vg','(ij)'),('vgx',''),('vK','(ij)'),('vA','i'),('vgxxx',''),('vB','AB'),('vPsi',''),('vpsi',''),('vdg','i(jk)'),('vw','[ij]'),('vh','a(bc)'),('vs','(qr)s')]
def lookup(ctx):
    W=ctx.W; w=[]; i0=nvdb(W)
    old=[info(W,i) for i in range(i0)]
    for n,s in MIX:
        i=nvdb(W); W.call('AddConstantVar' if n in('vK','vpsi') else 'AddVar',n,s,f'd {n}',ret='v'); w+=expect(n,s,i,int(n in ('vK','vpsi')))
    N=nvdb(W); ctx.true('all declared',N==i0+len(w)); ctx.true('old entries kept',[info(W,i) for i in range(i0)]==old); names=[x[0] for x in old]+[x[0] for x in w]
    for k,x in enumerate(w): ctx.true('entry',info(W,i0+k)==x,(info(W,i0+k),x))
    starts=range(N)
    for st in starts:
        r=W.call('Set_vdb_iStart_AtPar',names[st]); ctx.true('search start',r==st)
        ks=range(N) if st in (0,1,i0,i0+3,N-1) else {0,max(st-1,0),st,min(st+1,N-1),N-1}
        bad=[k for k in ks if W.call('IndLax',names[k])!=k]; ctx.true('look-up from any start',not bad,(st,bad))
        ctx.true('absent names',all(W.call('IndLax',z)==-1 for z in('','vG','vgxz_','vgx ','vgxy0','nosuch','x_')),st)
    ctx.rejects('Ind of an absent name',lambda: W.call('Ind','nosuch'))
def attributes(ctx):
    W=ctx.W; i0=nvdb(W)
    for n,s in MIX: W.call('AddVar',n,s,'',ret='v')
    N=nvdb(W); before=[info(W,i) for i in range(N)]; val={}
    for k,n in enumerate(('vKyy','vgx','vAx')):
        v=[ctx.var(f'{n}{q}',-3,3) for q in range(3)]; val[n]=v; W.call('VarNameSetBoundaryInfo',n,*v,ret='v')
    for i in range(i0,N):
        n=before[i][0]
        for g,v in zip(('VarFarLimit','VarFallOff','VarPropSpeed'),val.get(n,[T.ZERO]*3)): ctx.eq(f'{g} {n in val}',W.call(g,i,ret='d'),v)
    W.call('VarNameSetConstantFlag','vgxx' if ctx.sym else 'vgxy',ret='v')
    ctx.true('constant flag of the whole tensor only',[W.call('VarConstantFlag',i) for i in range(N)]==[int(i0<=i<i0+6) or before[i][6] for i in range(N)])
    ctx.true('rest unchanged',[info(W,i)[:6] for i in range(N)]==[x[:6] for x in before])
def restart(ctx):
    """declarations repeated after a restart change nothing"""
    W=ctx.W
    for n,s in MIX: W.call('AddVar',n,s,'',ret='v')
    N=nvdb(W); b=[info(W,i) for i in range(N)]
    if ctx.sym: W.M.store(W.M.glob('sgrid_restarts',W.M.prog.globs['sgrid_restarts'][0]),1,4)
    else: W.glob('sgrid_restarts').value=1
    for n,s in MIX: W.call('AddVar',n,s,'',ret='v')
    ctx.true('unchanged',nvdb(W)==N and [info(W,i) for i in range(N)]==b)
    W.call('AddVar','new','i','',ret='v'); ctx.true('new one added',[info(W,i) for i in range(N,nvdb(W))]==expect('new','i',N))
def freedb(ctx):
    W=ctx.W; W.call('AddVar','vg','(ij)','',ret='v'); W.call('free_global_vdb',ret='v'); ctx.true('empty',nvdb(W)==0 and W.call('IndLax','vgxx')==-1)
    W.call('AddVar','vK','ij','',ret='v'); ctx.true('first again',[info(W,i) for i in range(nvdb(W))]==expect('vK','ij',0)); W.call('free_global_vdb',ret='v')
def duplicate(ctx):
    """AddDuplicate keeps order, components and parities and gives the grid storage for the new variables"""
    W=ctx.W; v=W.call('vlalloc',W.g,ret='p'); I=W.ind; nv0=W.call('vs_nvariables',W.g); seq=['vAx','vgxx','vPsi','vdgxxx']
    for n in seq: W.call('vlpush',v,I(n),ret='v')
    W.call('VarNameSetBoundaryInfo','vgxy',1.5,2.5,-3.25,ret='v')
    ix=[W.call('vl_idx',v,k) for k in range(W.call('vl_n',v))]; src=[info(W,i) for i in ix]
    W.call('AddVarToGrid',W.g,'vPsi_old','','',ret='v'); pre=nvdb(W)
    d=W.call('AddDuplicate',v,'_old',ret='p'); dx=[W.call('vl_idx',d,k) for k in range(W.call('vl_n',d))]
    ctx.true('as many',len(dx)==len(ix)); ctx.true('existing one reused',dx[ix.index(I('vPsi'))]==pre-1); ctx.true('others new',sorted(set(dx)-{pre-1})==list(range(pre,nvdb(W))) and nvdb(W)==pre+len(ix)-1)
    for i,s in zip(dx,src):
        t=info(W,i); ctx.true('name',t[0]==s[0]+'_old',t)
        if i!=pre-1: ctx.true('attributes',t[1:4]==s[1:4] and t[5:]==s[5:],(t,s))
    j=I('vgxy_old'); ctx.true('boundary information',(W.call('VarFarLimit',j,ret='d'),W.call('VarFallOff',j,ret='d'),W.call('VarPropSpeed',j,ret='d')) in ((1.5,2.5,-3.25),tuple(T.const(Fr(x)) for x in(1.5,2.5,-3.25))))
    ctx.true('storage slots',W.call('vs_nvariables',W.g)==nvdb(W)); ctx.true('no storage yet',all(W.v(b,i) is None for b in W.box for i in dx))
    W.call('enablevarlist',d,ret='v'); ctx.true('storage',all(W.v(b,i) is not None for b in W.box for i in dx))
    ctx.true('original list',[W.call('vl_idx',v,k) for k in range(W.call('vl_n',v))]==ix)
    for b in W.box:
        for i in dx: ctx.true('pointer look-up',W.call('IndFromPtr',b,W.v(b,i))==i)
    e=W.call('VLPtrEnable1',W.g,'vw'+'xy',ret='p'); ctx.true('one variable list',[W.call('vl_idx',e,k) for k in range(W.call('vl_n',e))]==[I('vwxy'),I('vwxz'),I('vwyz')] and W.v(W.box[0],'vwxy') is not None)
    ctx.rejects('push of a component that is not the first',lambda: W.call('vlpush',v,I('vgxy'),ret='v'))
def mkg(sym):
    W=Sym('main') if sym else Real('main')
    W.initmods({'nboxes':'2','physics':'ADMvars','boundary':'none',**boxpars(2,n=3)})
    for n,s in MIX: W.call('AddVar',n,s,'',ret='v')
    W.g=W.call('make_grid',0,ret='p'); W.nb=2; W.box=[W.call('vs_box',W.g,b,ret='p') for b in range(2)]
    return W
C=lambda n,f,**k: Case(n,f,base=lambda:mk(True),rbase=lambda:mk(False),group='b',timeout=200,**k)
cases=[C(f'declare "{s}"',declare(s)) for s in LEGAL]
cases+=[C(f'declare "{s}"',declare(s)) for s in ('I','IJ+JI','(iJ)','A(BC)','[IJ]K')]
cases+=[C(f'reject "{s}"',illegal(s)) for s in ('ji','ik','x','iij','(ij','ij)','i j','b','[ab]','ijkl+ijlk+jikl+jilk)',' ','+')]
cases+=[C('look-up',lookup,bounded='12 declarations'),C('attributes',attributes),C('restart',restart),C('free',freedb),
 Case('duplicates and lists',duplicate,base=lambda:mkg(True),rbase=lambda:mkg(False),group='g',timeout=200,bounded='one mixed list')]
if __name__=='__main__':
    main('C16',cases,level='proof',assumptions=['2d indices 1,2 are taken to carry the parity of the first and second axis, as in the code'])
