"""C15  Parameter data base.  The routines run as written on every history of a bounded length over an alphabet of names, values and operations and
on every parameter file of a bounded length over the alphabet of significant characters, each compared with a dictionary / tokenizer oracle that
shares nothing with the code.  Bounded: the alphabets and lengths are stated per case (more in the native run than in the deductive one)."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
import files, itertools, re
def mk(sym): return mkworld(sym,{'nboxes':'1','physics':'ADMvars','boundary':'none'},grid=False)
BOOL=('yes','Yes','YES','on','On','ON','true','True','TRUE')
PI={'pi':1,'-pi':-1,'pi/2':.5,'-pi/2':-.5,'2*pi':2,'-2*pi':-2}
def stored(v): return '%.18e'%(PI[v]*math.pi) if v in PI else v
def cint(v):
    m=re.match(r'\s*([-+]?\d+)',v); return int(m.group(1)) if m else 0
def cdbl(v):
    m=re.match(r'\s*([-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?))',v); return float(m.group(1)) if m else 0.
def cbool(v): return 1 if any(t in v for t in BOOL) else cint(v)
class DB:
    """the data base under contract next to a dictionary"""
    def __init__(s,ctx): s.ctx=ctx; s.W=ctx.W; s.bad=[]; s.n=0
    def reset(s): s.W.call('free_global_parameter_database_contents',ret='v'); s.d={}; s.hist=[]
    def chk(s,c,*what):
        s.n+=1
        if not c and len(s.bad)<4: s.bad.append((tuple(s.hist),what))
    def str(s,p): return None if p is None else s.W.str(p)
    def dbl(s,x): return float(T.num(x)) if isinstance(x,T.Term) else float(x)
    def op(s,o,*a):
        W=s.W; s.hist.append((o,)+a)
        if o in('make','add'):
            W.call({'make':'makeparameter','add':'AddPar'}[o],*a,'about '+a[0],ret='v'); s.d.setdefault(a[0],stored(a[1]))
        elif o=='addmod': W.call('AddOrModifyPar',*a,'',ret='v'); s.d[a[0]]=stored(a[1])
        elif o=='start': s.chk(W.call('Set_pdb_iStart_AtPar',a[0])==list(s.d).index(a[0]),'index')
        elif o=='sets': W.call('Sets',*a,ret='v'); s.d[a[0]]=stored(a[1])
        elif o=='setself': W.call('Sets',a[0],s.W.call('Gets',a[0],ret='p'),ret='v')
        elif o=='seti': W.call('Seti',*a,ret='v'); s.d[a[0]]=str(a[1])
        elif o=='setd': W.call('Setd',a[0],T.fconst(a[1]) if W.sym else a[1],ret='v'); s.d[a[0]]='%.20e'%a[1]
        elif o=='app':
            W.call('Appends',*a,ret='v')
            if a[1] not in s.d[a[0]].split(' '): s.d[a[0]]+=' '+a[1]
    def names(s): return ('a','ab','b','A')
    def reads(s):
        W=s.W; s.chk(W.call('GetnParameters')==len(s.d),'number of parameters')
        for i,(n,v) in enumerate(s.d.items()):
            s.chk(s.str(W.call('Gets',n,ret='p'))==v,'Gets',n,v); s.chk(W.call('Geti',n)==cint(v),'Geti',n,v); s.chk(s.dbl(W.call('Getd',n,ret='d'))==cdbl(v),'Getd',n,v)
            s.chk(W.call('GetParIndex',n)==i,'GetParIndex',n); s.chk(s.str(W.call('GetnameInd',i,ret='p'))==n and s.str(W.call('GetsInd',i,ret='p'))==v,'by index',n)
            s.chk(s.dbl(W.call('GetCachedNumValByParIndex',i,ret='d'))==cdbl(v),'cached number',n,v); s.chk(W.call('GetCachedBoolValByParIndex',i)==cbool(v),'cached boolean',n,v)
        for n in s.names(): s.chk(s.str(W.call('GetsLax',n,ret='p'))==s.d.get(n),'GetsLax',n)
        s.chk(W.call('GetsInd',len(s.d),ret='p') is None and W.call('GetsInd',-1,ret='p') is None and W.call('GetnameInd',len(s.d),ret='p') is None,'index out of range')
        for n in list(s.d)+['zz']:
            ent=s.d.get(n,'').split(' ')
            for e in set([x for x in ent if x]+['a','x','xy']): s.chk(W.call('GetvLax',n,e)==int(e in ent),'GetvLax',n,e)
    def done(s): s.ctx.true('every read returns the last value set',not s.bad,s.bad); s.ctx.true('histories were run',s.n>50,s.n)
OPS=[('make','a','x'),('make','ab','3'),('addmod','b','x y'),('add','a','yes'),('addmod','a','pi'),('sets','a','xy x'),('sets','ab','-2*pi'),('seti','a',-7),('setd','ab',1e-300),('app','a','x'),('app','a','y'),('app','ab','xy'),('start','ab'),('start','a'),('make','A','on'),('setself','a'),('sets','a',''),('app','b','xyx')]
def histories(L,Ls):
    def f(ctx):
        db=DB(ctx)
        n=Ls if ctx.sym else L
        for h in itertools.product(OPS,repeat=n):
            if h[0][0] not in('make','add','addmod') or any(x==y for x,y in zip(h,h[1:])): continue
            known=set(); ok=True
            for o in h:
                if o[0] in('make','add','addmod'): known.add(o[1])
                elif o[1] not in known: ok=False; break
            if not ok: continue
            db.reset()
            for o in h: db.op(*o)
            db.reads()
        db.done()
    return f
def longhist(ctx):
    """long random histories, all reads after every step"""
    db=DB(ctx); import random; r=random.Random(5)
    for t in range(6 if ctx.sym else 300):
        db.reset(); names=['a','ab','b','A','abc','a_b']; db.names=lambda: names
        for k in range(25):
            known=list(db.d); o=r.choice(['make','addmod','sets','seti','setd','app','start','setself','add']) if known else 'make'
            n=r.choice(names) if o in('make','addmod','add') else r.choice(known)
            v=r.choice(['x','xy','x y','y x xy','pi','-pi','pi/2','-pi/2','2*pi','-2*pi','2','-3.5e4','1e5','yes','no','on','true','True','off','0','1','',' x','x ','+4','.5','1.','7 8','no yes','pi x','/tmp/d-e_f.par'])
            if o in('make','addmod','add','sets'): db.op(o,n,v)
            elif o=='seti': db.op(o,n,r.choice([0,-1,7,2147483647,-2147483648]))
            elif o=='setd': db.op(o,n,r.choice([0.,-0.1,math.pi,1e-308,5e-324,-1.7976931348623157e308,1/3,1e22,123456789.123456789]))
            elif o=='app': db.op(o,n,r.choice(['x','xy','y','yx']))
            else: db.op(o,n)
            if k%(8 if ctx.sym else 3)==0: db.reads()
        db.reads()
    db.done()
def member(ctx):
    W=ctx.W; W.call('free_global_parameter_database_contents',ret='v'); W.call('AddPar','p','','',ret='v'); n=4 if ctx.sym else 7; bad=[]; cnt=0
    if ctx.sym:
        for k in range(n+1):
            for t in itertools.product('ab ',repeat=k):
                v=''.join(t); W.call('Sets','p',v,ret='v')
                for m in range(1,4):
                    for u in itertools.product('ab',repeat=m):
                        e=''.join(u); cnt+=1
                        for f in ('Getv','GetvLax'):
                            if W.call(f,'p',e)!=int(e in v.split(' ')): bad.append((f,v,e))
    else:
        es=[''.join(u) for m in range(1,5) for u in itertools.product('ab',repeat=m)]; F=ctypes_fn(W,'Getv')
        S=ctypes_fn(W,'Sets',None); be=[(e,e.encode()) for e in es]
        for k in range(n+1):
            for t in itertools.product('ab ',repeat=k):
                v=''.join(t); S(b'p',v.encode()); sp=set(v.split(' '))
                for e,b in be:
                    cnt+=1
                    if F(b'p',b)!=int(e in sp): bad.append((v,e))
    ctx.true('membership is exact',not bad,bad[:5]); ctx.true('all strings',cnt>1000,cnt)
    ctx.true('absent parameter',W.call('GetvLax','q','a')==0)
    ctx.rejects('membership in an absent parameter',lambda: W.call('Getv','q','a'))
def ctypes_fn(W,name,ret=None):
    import ctypes
    f=getattr(W.lib,world.REN.get(name,name),None) or getattr(W.lib,name); f.argtypes=None; f.restype=ctypes.c_int; return f
def absent(f,*a): return lambda ctx: ctx.rejects(f'{f} of an absent parameter',lambda: ctx.W.call(f,'no_such',*a,ret='i' if f!='Gets' else 'p'))
def fullname(ctx):
    """names are compared in full"""
    W=ctx.W; db=DB(ctx); db.reset()
    ns=['abc','ab','a','abcd','Abc','b','c','bc']
    for k,n in enumerate(ns): db.op('make',n,str(k))
    for st in ns:
        db.op('start',st)
        for k,n in enumerate(ns): db.chk(W.call('Geti',n)==k,'value',n,st); db.chk(W.call('GetParIndex',n)==k,'index',n)
        for n in('','abcde','ABC','d'): db.chk(W.call('GetsLax',n,ret='p') is None,'absent',n)
    db.reads(); db.done()
# ------------------------------------------------------------------ parameter files
def tokens(txt):
    """the documented meaning of a file; None: not of the form  name = value ... """
    t=re.sub(r'#[^\n]*','',txt).replace('"',' '); toks=re.findall(r'=|[^\s=]+',t); out=[]
    if not toks: return []
    if re.search(r'=[^\s=]+\s*=',t): return None
    eq=[i for i,x in enumerate(toks) if x=='=']
    if not eq or eq[0]!=1: return None
    for k,i in enumerate(eq):
        if toks[i-1]=='=': return None
        end=eq[k+1]-1 if k+1<len(eq) else len(toks)
        if end<i+1: return None
        out.append((toks[i-1],' '.join(toks[i+1:end])))
    return out
def parse(alpha,nr,ns,pre=''):
    def f(ctx):
        W=ctx.W; bad=[]; cnt=0; P='parse_parameter_file'
        with files.Store(ctx) as st:
            for k in range((ns if ctx.sym else nr)+1):
                for t in itertools.product(alpha,repeat=k):
                    x=pre+''.join(t); w=tokens(x)
                    if w is None: continue
                    cnt+=1; W.call('free_global_parameter_database_contents',ret='v'); st.write('p.par',x.encode())
                    W.call(P,st.dir+'/p.par',ret='v'); d={}
                    for n,v in w: d[n]=stored(v)
                    got={W.str(W.call('GetnameInd',i,ret='p')):W.str(W.call('GetsInd',i,ret='p')) for i in range(W.call('GetnParameters'))}
                    if got!=d or list(got)!=list(d): bad.append((x,got))
                    if len(bad)>3: break
        ctx.true('file gives exactly its assignments',not bad,bad[:4]); ctx.true('files were parsed',cnt>20,cnt)
    return f
def parsetext(ctx):
    """realistic files: comments, quotes, tabs, CR, several per line, repeats, values over lines, existing parameters, buffer boundaries"""
    W=ctx.W; T0='''# header = 1
  nboxes =  2   # number = of boxes
"physics"="ADMvars   TestID"
a=1 b = 2 c= 3 d =4
list = x
       y # z
   "w w" v
\tbox0_min1 =\t-1.5e3\r
empty =
last = pi
a = 7   # again
path = ../x-y_z/#no
q="-2*pi"'''
    texts=[T0,T0+'\n',T0+'\n\n# end',T0+' # end','\n\n'+T0,'#\n#\n'+T0,'',' ','#','# only = comment','\n','a=','a=\n','a = b','a=b#','="'[1:]+'a=b"']
    for L in list(range(985,1012))+list(range(1985,2010)) if not ctx.sym else (995,996,997,998,999,1000,1001,1997,1998):
        texts+=['a = '+'v'*(L-4),'a = v\n'+'n'*(L-10)+' = w']
    r=__import__('random').Random(2)
    for k in range(15 if ctx.sym else 1500):
        s=''
        for j in range(r.randint(1,8)):
            n=r.choice(['a','b','ab','long_name','box0_n1','x'])
            s+=r.choice(['','\n',' ','# c = d "\n','\n#\n','\t'])+n+r.choice(['=',' =','= ',' = ','\n=\n','  =  '])+r.choice(['1','x y','"x"','" x  y "','x # y\n','x#y=z\n','pi','','x\ny','a b ab','1e-5','x\r','x\t\ty'])+r.choice([' ','\n','\n\n','# e\n'])
        texts.append(s)
    bad=[]; cnt=0
    with files.Store(ctx) as st:
        for x in texts:
            w=tokens(x)
            if w is None: continue
            cnt+=1; W.call('free_global_parameter_database_contents',ret='v'); d={}
            if len(x)%2:
                W.call('AddPar','b','default','',ret='v'); W.call('AddPar','old','kept','',ret='v'); d={'b':'default','old':'kept'}
            st.write('p.par',x.encode()); W.call('parse_parameter_file',st.dir+'/p.par',ret='v')
            for n,v in w: d[n]=stored(v)
            got={W.str(W.call('GetnameInd',i,ret='p')):W.str(W.call('GetsInd',i,ret='p')) for i in range(W.call('GetnParameters'))}
            if got!=d: bad.append((x[:200],{k:got.get(k,'')[:60] for k in set(got)|set(d) if got.get(k)!=d.get(k)}))
            # a default registered afterwards by a module does not replace the value of the file
            for n in d: W.call('AddPar',n,'module default','',ret='v')
            if any(W.str(W.call('Gets',n,ret='p'))!=d[n] for n in d): bad.append((x[:200],'default replaced the value'))
        ctx.true('file gives exactly its assignments',not bad,bad[:3]); ctx.true('files were parsed',cnt>20,cnt)
        ctx.rejects('missing file',lambda: W.call('parse_parameter_file',st.dir+'/none.par',ret='v'))
# ------------------------------------------------------------------ entries of a list
def entries(ctx):
    W=ctx.W; bad=[]; n=5 if ctx.sym else 7; cnt=0
    def walk(v):
        p=W.str  # the same list is passed until NULL comes back
        out=[]; L=W.arr([0])if False else v
        while len(out)<20:
            q=W.call('NextEntry',L,ret='p')
            if q is None: return out
            out.append(W.str(q))
        return out
    for k in range(n+1):
        for t in itertools.product('ab ',repeat=k):
            v=''.join(t)
            if v!=v.strip(' ') or '  ' in v: continue
            cnt+=1
            if walk(v)!=[x for x in v.split(' ') if x]: bad.append(v)
    ctx.true('entries in order',not bad,bad[:5])
    W.call('NextEntry','aa bb cc',ret='p'); W.call('NextEntry','aa bb cc',ret='p'); ctx.true('restart',W.call('NextEntry',None,ret='p') is None)
    ctx.true('restarted with another list',walk('x yy z')==['x','yy','z'] and walk('q')==['q']); W.call('NextEntry','aa bb',ret='p'); ctx.true('restart with empty list',W.call('NextEntry','',ret='p') is None and walk('aa bb')==['aa','bb'])
# ------------------------------------------------------------------ copies of the data base
def copies(ctx):
    W=ctx.W; db=DB(ctx); db.reset()
    for n,v in (('a','x y'),('b','pi'),('ab','3'),('A','on')): db.op('make',n,v)
    pd=W.call('GetPointerTo_pbd',ret='p'); pp=W.arr([0.]) if not ctx.sym else Ptr(Obj('pp',8,'zero'),0)
    W.call('create_copy_of_pdb1_in_pdb2',pd,4,10,pp,ret='v'); q=W.get(pp,0,'p'); e=W.call('make_empty_pdb',6,ret='p'); W.call('copy_pdb',pd,4,e,ret='v')
    snap=dict(db.d)
    def rd(p): return {db.str(W.call('vs_pdb_str',p,i,0,ret='p')):(db.str(W.call('vs_pdb_str',p,i,1,ret='p')),db.str(W.call('vs_pdb_str',p,i,2,ret='p')),db.dbl(W.call('vs_pdb_num',p,i,ret='d')),W.call('vs_pdb_bool',p,i)) for i in range(4)}
    w={n:(v,'about '+n,cdbl(v),cbool(v)) for n,v in snap.items()}
    ctx.true('copy',rd(q)==w and rd(e)==w,(rd(q),rd(e)))
    db.op('sets','a','changed value that is longer'); db.op('seti','b',5); db.op('make','new','1')
    ctx.true('copies are independent',rd(q)==w and rd(e)==w); db.reads()
    ctx.true('unused entries are empty',all(W.call('vs_pdb_str',p,i,k,ret='p') is None for p in(e,q) for i in(4,5) for k in(0,1,2)))
    W.call('copy_pdb',q,4,pd,ret='v'); db.d.update(snap); db.hist.append('copy back'); db.reads(); db.done()
    db.op('sets','a','z'); W.call('copy_pdb',pd,4,e,ret='v'); w2=dict(w); w2['a']=('z','about a',0.,0); ctx.true('copy over a filled data base',rd(e)==w2 and rd(q)==w)
    W.call('free_pdb',q,4,ret='v'); W.call('free_pdb',e,4,ret='v'); db.reads(); db.done()
# ------------------------------------------------------------------ command line
def argv(ctx,W,av):
    if ctx.sym:
        o=Obj('argv',8*(len(av)+1),'zero')
        for i,a in enumerate(av): o.cells[8*i]=(W.M.newstr(a),8)
        return Ptr(o,0)
    import ctypes
    b=(ctypes.c_char_p*(len(av)+1))(*[a.encode() for a in av],None); W.keep.append(b); return world.RP(ctypes.addressof(b))
def cmdline(av,want):
    def f(ctx):
        W=ctx.W; W.call('free_global_parameter_database_contents',ret='v'); W.call('read_command_line',len(av),argv(ctx,W,av))
        W.call('AddOrModifyPar','n','1','',ret='v'); W.call('parse_command_line_options')
        for n,v in want.items(): 
            q=W.call('GetsLax',n,ret='p'); ctx.true(f'{n}',(None if q is None else W.str(q))==v,(n,None if q is None else W.str(q),v))
    return f
def badoption(o):
    def f(ctx):
        W=ctx.W; W.call('free_global_parameter_database_contents',ret='v')
        ctx.rejects(f'option {o}',lambda: W.call('read_command_line',3,argv(ctx,W,['sgrid','x.par',o])))
    return f
# ------------------------------------------------------------------ iterated parameters
def iterate(ctx):
    W=ctx.W
    with files.Store(ctx) as st:
        W.call('free_global_parameter_database_contents',ret='v')
        for n,v in (('iterate_parameters','yes'),('parameterfile',st.dir+'/run.par'),('outdir',st.dir+'/run'),('n1','3'),('amp','0.1'),('iterate_parameter1','n1 5 7 9'),('iterate_parameter2','amp 1 2 4')): W.call('AddPar',n,v,'',ret='v')
        W.call('iterate_parameters',0); seen=[]; st.mkdir('run_5_1'); st.write('run_5_1/old','1'.encode()); st.mkdir('run_5_1_previous'); st.mkdir('run_5_1_previous/sub'); st.write('run_5_1_previous/older',b'0'); st.write('run_5_1_previous/sub/f',b'0')
        while len(seen)<6 and W.call('iterate_parameters',1): seen.append((W.call('Geti','n1'),W.str(W.call('Gets','amp',ret='p')),W.str(W.call('Gets','outdir',ret='p')),st.isdir(W.str(W.call('Gets','outdir',ret='p'))[len(st.dir)+1:])))
        ctx.true('every value once, in order',seen==[(a,b,f'{st.dir}/run_{a}_{b}',True) for a,b in ((5,'1'),(7,'2'),(9,'4'))],seen)
        ctx.true('previous output kept aside',st.ls()==['run_5_1_previous/old'],st.ls())
        W.call('iterate_parameters',0); ctx.true('new start',W.call('iterate_parameters',1)==1 and W.call('Geti','n1')==5)
        ctx.true('previous output kept aside',st.isdir('run_5_1_previous'))
        W.call('Sets','iterate_parameters','no',ret='v'); W.call('iterate_parameters',0); ctx.true('off: one run',[W.call('iterate_parameters',1) for _ in range(2)]==[1,0])
def strings(ctx):
    """trim_whitespace and name/value splitting of one line"""
    W=ctx.W; bad=[]; n=4 if ctx.sym else 6
    def buf(x): return W.M.newstr(x) if ctx.sym else strbuf(W,x)
    def strbuf(W,x):
        import ctypes
        b=ctypes.create_string_buffer(x.encode(),len(x)+1); W.keep.append(b); return world.RP(ctypes.addressof(b))
    for k in range(n+1):
        for t in itertools.product('a \t\n',repeat=k):
            x=''.join(t); p=buf(x); W.call('trim_whitespace',p,ret='v')
            if W.str(p)!=x.strip(' \t\n'): bad.append(x)
    ctx.true('white space trimmed',not bad,bad[:5])
    for x,w in (('a=1',('a','1')),(' a  = 1 2 ',('a','1 2')),('name=\tv\n',('name','v')),('a=b=c',None)):
        nm,vl=buf(' '*40),buf(' '*40); r=W.call('get_par_from_str',x,nm,'=',vl,40)
        if w: ctx.true('split at the delimiter',r==1 and (W.str(nm),W.str(vl))==w,(x,W.str(nm),W.str(vl)))
    nm,vl=buf(' '*40),buf(' '*40); ctx.true('no delimiter',W.call('get_par_from_str','abc',nm,'=',vl,40)==0)
B=lambda:mk(True); R=lambda:mk(False)
C=lambda n,f,b='alphabet and length as in the case',**k: Case(n,f,base=B,rbase=R,group='b',timeout=300,bounded=b,**k)
A8=['a','b','=',' ','\n','#','"','1']
cases=[C('histories',histories(4,2),'18 operations, all histories of length 2 (deductive) and 4 (native)'),C('long histories',longhist,'random histories of 25 operations'),
 C('membership',member,'all values up to 4 (deductive) / 7 (native) characters, all entries up to 3/4'),C('full names',fullname)]
cases+=[C(f'absent {f}',absent(f,*a)) for f,a in (('Gets',()),('Geti',()),('Sets',('1',)),('Seti',(1,)),('Appends',('x',)),('Set_pdb_iStart_AtPar',()))]
cases+=[C('parse short files',parse(A8,6,4),'all files up to 4 (deductive) / 6 (native) characters'),C('parse after an assignment',parse(A8,5,3,'x=a'),'x=a followed by all strings up to 3/5 characters'),C('parse after a comment',parse(['a','=','\n','#',' ','"'],5,3,'c="q" #z'),'up to 3/5 characters'),
 C('parse texts',parsetext,'listed and random texts'),C('list entries',entries,'all lists up to 5/7 characters'),C('copies',copies),C('iterated parameters',iterate),C('strings',strings)]
cl=[(['sgrid','run.par'],dict(outdir='run',parameterfile='run.par',n='1',sgrid_options=None,sgrid_arg2=None)),(['sgrid','run'],dict(outdir='run',parameterfile='run.par')),
 (['sgrid','d/a.par.par'],dict(outdir='d/a.par',parameterfile='d/a.par.par')),(['sgrid','a.parx'],dict(outdir='a.parx',parameterfile='a.parx.par')),(['sgrid','par'],dict(outdir='par',parameterfile='par.par')),(['sgrid','.par'],dict(outdir='.par',parameterfile='.par.par')),
 (['sgrid','r.par','one','--keep_previous','two'],dict(sgrid_arg2='one',sgrid_arg3='two',sgrid_options='--keep_previous',n='1')),
 (['sgrid','r.par','--modify-par:n=5'],dict(n='5')),(['sgrid','r.par','--modify-par:n=5 6','--modify-par:m=x y','--keep_previous'],dict(n='5 6',m='x y')),
 (['sgrid','r.par','--keep_previous','--modify-par:n=','--modify-par:k=--modify'],dict(n='',k='--modify')),(['sgrid','r.par','--modify-par:n=2','--modify-par:n=pi'],dict(n=stored('pi')))]
cases+=[C('command line '+' '.join(a[1:]),cmdline(a,w)) for a,w in cl]
cases+=[C(f'reject option {o}',badoption(o)) for o in('-','-x')]
if __name__=='__main__':
    main('C15',cases,level='other',assumptions=['C library string and file functions behave as documented','lists are separated by single blanks (the form the parser produces)'])
