"""C19  Checkpoints.  A grid with arbitrary contents is written, the memory is overwritten, and the file is read back by the code under contract;
files live in a disk model whose bytes carry the symbolic doubles (deductive) or in a scratch directory (native, with arbitrary bit patterns).
Write errors are injected at chosen byte positions.  Byte order routines run on arbitrary bytes."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
import files, struct, itertools, signal, re
VARS=['ua','ub','wx','wy','wz','keep','other']
def mk(sym,n=((2,2,1),(1,2,3)),pars={}):
    def ex(W):
        for v,t in (('ua',''),('ub',''),('w','i'),('keep',''),('other','')): W.call('AddVar',v,t,'',ret='v')
    p={'nboxes':'2','physics':'ADMvars','boundary':'none','checkpoint':'yes','amp':'0.25','label':'x y','eps':'1e-3','outdir':'run','parameterfile':'run.par','iterations':'10','finaltime':'5','empty':''}
    for b in range(2):
        for k in (1,2,3):
            p[f'box{b}_n{k}']=str(n[b][k-1]); p[f'box{b}_basis{k}']='ChebExtrema' if n[b][k-1]>1 else 'Fourier'
            p[f'box{b}_min{k}']=str(3.*b); p[f'box{b}_max{k}']=str(3.*b+1.5)
    W=mkworld(sym,{**p,**pars},extra=ex)
    v=W.call('vlalloc',W.g,ret='p')
    for n_ in ('ua','wx','other','ub','keep'): W.call('vlpush',v,W.ind(n_),ret='v')
    W.call('enablevarlist',v,ret='v'); W.all=v
    u=W.call('vlalloc',W.g,ret='p')
    for n_ in ('wx','ub'): W.call('vlpush',u,W.ind(n_),ret='v')
    W.call('evolve_vlregister',u,ret='v'); W.call('checkpoint_varlist',W.g,ret='p') if False else None
    W.sz=[W.call('vs_nnodes',W.box[b]) for b in range(2)]
    return W
NASTY=[0.,-0.,float('inf'),-float('inf'),5e-324,-1.7976931348623157e308,1/3,math.pi]
class G:
    def __init__(s,ctx):
        s.ctx=ctx; s.W=ctx.W
        if ctx.sym: # the C library rounds decimals to the nearest double: keep exactly that number
            def dec(M,p):
                m=re.match(rb'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)',M.cstr(p)); return T.const(Fr(float(m.group(0)))) if m else T.ZERO
            ctx.W.M.stubs['atof']=dec
    def enabled(s,b): return [i for i in range(s.W.call('vs_nvariables',s.W.g)) if s.W.v(s.W.box[b],i) is not None]
    def fill(s,tag,names=None):
        """arbitrary contents; returns what was put there"""
        d={}; W=s.W
        for b in range(2):
            for i in s.enabled(b):
                n=varname(W,i)
                if names and n not in names: continue
                p=W.v(W.box[b],i); l=[]
                for k in range(W.sz[b]):
                    if s.ctx.sym: v=T.var(f'{tag}{n}b{b}p{k}'); s.ctx.dom[v.a[0]]=(-2,2); W.set(p,k,v); l.append(v)
                    else:
                        if k<2: x=struct.pack('<d',s.ctx.rng.choice(NASTY))
                        else: x=s.ctx.rng.randbytes(8)
                        if tag=='new' and k%3==0: x=bytes([0x24,0x62,10,13,0x20,0x3d,0xff,0x3f]) if k%2 else b'$variabl'
                        W.vec2(p,k,x); l.append(x)
                d[b,n]=l
        return d
    def read(s):
        d={}; W=s.W
        for b in range(2):
            for i in s.enabled(b):
                p=W.v(W.box[b],i); n=varname(W,i)
                d[b,n]=[W.get(p,k) if s.ctx.sym else W.bytes(p,k) for k in range(W.sz[b])]
        return d
    def same(s,lab,got,want):
        for k in want:
            if s.ctx.sym: 
                for q,(x,y) in enumerate(zip(got.get(k,[None]*99),want[k])): s.ctx.true(f'{lab}: {k[1]}',x is y or (isinstance(x,T.Term) and T.sub(x,y)==T.ZERO),(k,q,x,y))
            else: s.ctx.true(f'{lab}: {k[1]}',got.get(k)==want[k],(k,got.get(k),want[k]))
    def setpar(s,n,v): s.W.call('AddOrModifyPar',n,v,'',ret='v')
    def par(s,n): return s.W.str(s.W.call('Gets',n,ret='p'))
    def time(s): x=s.W.call('vs_time',s.W.g,ret='d'); return float(T.num(x)) if isinstance(x,T.Term) else x
    def settime(s,t,it): s.W.call('vs_settime',s.W.g,T.const(Fr(t)) if s.ctx.sym else t,ret='v'); s.W.call('vs_setiter',s.W.g,it,ret='v')
    def setdt(s,t): s.W.call('vs_setdt',s.W.g,T.const(Fr(t)) if s.ctx.sym else t,ret='v')
    def allpars(s): return {s.W.str(s.W.call('GetnameInd',i,ret='p')):s.W.str(s.W.call('GetsInd',i,ret='p')) for i in range(s.W.call('GetnParameters'))}
    def where(s,st,outdir='run',ind='',outd=''):
        s.setpar('outdir',st.dir+'/'+outdir); s.setpar('checkpoint_indir',ind and st.dir+'/'+ind); s.setpar('checkpoint_outdir',outd and st.dir+'/'+outd)
def vec2(W,p,k,x):
    import ctypes
    ctypes.memmove(int(p)+8*k,x,8)
def rbytes(W,p,k):
    import ctypes
    return ctypes.string_at(int(p)+8*k,8)
world.Real.vec2=vec2; world.Real.bytes=rbytes
TIMES=[(0.,0),(1/3,7),(123456.78901234567,2000000000),(1e-17,1),(0.1+0.2,3),(5e-324,12)]
def roundtrip(mode,time=TIMES[1],add='',chg=None):
    def f(ctx):
        g=G(ctx); W=ctx.W
        with files.Store(ctx) as st:
            for d in('run','run_previous'): st.mkdir(d)
            g.where(st); g.setpar('checkpoint_variables',mode); g.setpar('checkpoint_additional_variables',add); g.settime(*time)
            a=g.fill('new'); pars=g.allpars(); W.call('checkpoint_write',W.g,ret='v'); ctx.true('writing changes nothing in memory',g.allpars()==pars and g.time()==time[0] and W.call('vs_iter',W.g)==time[1]); g.same('writing changes nothing in memory',g.read(),a)
            ctx.true('one file',st.ls()==['run/checkpoint.0'],st.ls()); st.write('run_previous/checkpoint.0',bytes(st.read('run/checkpoint.0')) if not ctx.sym else st.read('run/checkpoint.0'))
            g.settime(777.,99); b=g.fill('old')
            if chg: chg(ctx,g)
            W.call('checkpoint_read',W.g,ret='v')
            ctx.true('time restored exactly',g.time()==time[0],(g.time(),time[0])); ctx.true('iteration restored',W.call('vs_iter',W.g)==time[1])
            want=dict(b); sel=None if mode=='all' else {'wx','wy','wz','ub'}|set(add.split())
            for k in a:
                if sel is None or k[1] in sel: want[k]=a[k]
            g.same('variable restored bit for bit',g.read(),want); ctx.true('same storage',set(g.read())==set(a))
            after=g.allpars(); ctx.true('parameters restored',after==pars or chg,{k:(after.get(k),pars[k]) for k in pars if after.get(k)!=pars[k]})
    return f
def skipvars(ctx):
    """a stored variable that has no storage any more is skipped, the ones after it are restored"""
    g=G(ctx); W=ctx.W
    with files.Store(ctx) as st:
        for d in('run','in'): st.mkdir(d)
        g.where(st,ind='in',outd='in'); g.setpar('checkpoint_variables','all'); g.settime(2.5,4); a=g.fill('new'); W.call('checkpoint_write',W.g,ret='v')
        ctx.true('directory for writing',st.ls()==['in/checkpoint.0'],st.ls())
        x=st.read('in/checkpoint.0'); txt=bytes(c if type(c) is int else 1 for c in x)
        i=txt.index(b'$variable = ub'); y=list(x); y[i+12:i+14]=list(b'zz'); st.write('in/checkpoint.0',y if ctx.sym else bytes(y))
        W.call('disablevar',W.g,W.ind('ua'),ret='v'); b=g.fill('old'); W.call('checkpoint_read',W.g,ret='v'); want={k:(b[k] if k==(0,'ub') else a[k]) for k in b}
        g.same('restored',g.read(),want); ctx.true('no storage made',W.v(W.box[0],'ua') is None)
def mismatch(ctx):
    g=G(ctx); W=ctx.W
    with files.Store(ctx) as st:
        st.mkdir('in'); g.where(st,ind='in',outd='in'); g.setpar('checkpoint_variables','all'); g.fill('new'); W.call('checkpoint_write',W.g,ret='v')
        x=st.read('in/checkpoint.0'); txt=bytes(c if type(c) is int else 1 for c in x); i=txt.index(b'box->nnodes = 4'); y=list(x); y[i+14]=ord('5'); st.write('in/checkpoint.0',y if ctx.sym else bytes(y))
        ctx.rejects('wrong number of points',lambda: W.call('checkpoint_read',W.g,ret='v'))
def nofile(ctx):
    g=G(ctx); W=ctx.W
    with files.Store(ctx) as st:
        st.mkdir('run'); g.where(st); g.settime(3.5,2); a=g.fill('new'); p=g.allpars(); ctx.true('no restart without file',W.call('checkpoint_checkforfiles','_previous')==0)
        W.call('checkpoint_checkifrestart',W.g); W.call('checkpoint_read',W.g,ret='v'); g.same('unchanged',g.read(),a); ctx.true('unchanged',g.allpars()==p and g.time()==3.5 and W.call('vs_iter',W.g)==2)
def pars(ctx):
    """every parameter value survives, also odd ones; those on the no-read list keep the new value"""
    g=G(ctx); W=ctx.W
    odd={'amp':'7.5e-3','label':'a  b ','empty':'','eq':'--modify-par:x=1 --y=2','sp':'v','long':'l'*3000,'dollar':'$time = 3','num':'%.20e'%(1/3),'iterations':'77','finaltime':'88','box0_max1':'1.75','lead':' two'}
    with files.Store(ctx) as st:
        for d in('run','run_previous'): st.mkdir(d)
        g.where(st)
        for k,v in odd.items(): g.setpar(k,v)
        g.settime(1.5,6); W.call('checkpoint_write',W.g,ret='v'); c=st.read('run/checkpoint.0'); st.write('run_previous/checkpoint.0',c if ctx.sym else bytes(c)); saved=g.allpars()
        new={'amp':'1','label':'','empty':'full','eq':'x','long':'s','dollar':'q','num':'0','iterations':'5','finaltime':'6','sp':'v w','box0_max1':'1.5','lead':''}
        for k,v in new.items(): g.setpar(k,v)
        g.setpar('added_since','stays'); W.call('checkpoint_read',W.g,ret='v'); got=g.allpars()
        for k in saved: ctx.true(f'parameter {k}',got[k]==(new[k] if k in('iterations','finaltime') else saved[k]),(k,got[k][:50],saved[k][:50]))
        ctx.true('parameter not in the file',got['added_since']=='stays'); bb=W.call('vs_bbox',W.box[0],1,ret='d'); ctx.true('box structure follows the parameters',float(T.num(bb)) ==1.75 if isinstance(bb,T.Term) else bb==1.75,bb)
        ctx.true('points follow the parameters',W.call('vs_nnodes',W.box[0])==W.sz[0])
def fault(ctx):
    """a write error at any position leaves the previous checkpoint as it was and stops the run"""
    g=G(ctx); W=ctx.W
    with files.Store(ctx) as st:
        st.mkdir('run'); g.where(st); g.setpar('checkpoint_variables','all'); g.settime(1.,1); g.fill('old'); W.call('checkpoint_write',W.g,ret='v'); old=st.read('run/checkpoint.0'); n=len(old)
        g.settime(2.,2); g.fill('new'); pos=[0,1,60,n//3,n-200,n-60,n-16,n-1]
        for k in pos:
            if ctx.sym:
                st.d.room=k
                ctx.rejects(f'error stops the run',lambda: W.call('checkpoint_write',W.g,ret='v'))
            else:
                import resource
                def go():
                    signal.signal(signal.SIGXFSZ,signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE,(k,k)); W.call('checkpoint_write',W.g,ret='v')
                ctx.rejects('error stops the run',go)
            ctx.true('old checkpoint intact',st.read('run/checkpoint.0')==old,k)
        if ctx.sym: st.d.room=None
        W.call('checkpoint_write',W.g,ret='v'); ctx.true('then written',st.read('run/checkpoint.0')!=old and st.ls()==['run/checkpoint.0'],st.ls())
def schedule(dt,cdt,cdi,rit):
    def f(ctx):
        g=G(ctx); W=ctx.W
        with files.Store(ctx) as st:
            st.mkdir('run'); g.where(st); g.setpar('checkpoint','yes'); g.setpar('checkpoint_dt',str(cdt)); g.setpar('checkpoint_di',str(cdi)); g.setpar('checkpoint_restart_it',str(rit)); g.setdt(dt)
            di=round(cdt/dt) if cdt>0 else cdi
            for it in range(0,9):
                g.settime(it*dt,it); r=W.call('checkpoint',W.g); w=st.ls()==['run/checkpoint.0']; want=it%di==0 and not(it==0 and rit>0)
                ctx.true('written when due',w==want and r==0,(it,w,want))
                if w:
                    c=bytes(x if type(x) is int else 1 for x in st.read('run/checkpoint.0')); m=re.search(rb'iteration = (\d+)',c); ctx.true('current state',int(m.group(1))==it)
                    if ctx.sym: del st.d.f[st.dir+'/run/checkpoint.0']
                    else: os.remove(st.dir+'/run/checkpoint.0')
    return f
def off(ctx):
    g=G(ctx); W=ctx.W
    with files.Store(ctx) as st:
        st.mkdir('run'); st.mkdir('run_previous'); g.where(st); g.setpar('checkpoint','no'); ctx.true('off',W.call('checkpoint',W.g)==0 and st.ls()==[])
def restart(prev,DT,rit,opt=None):
    """the whole restart: state taken over, previous output taken over, clock extended"""
    def f(ctx):
        g=G(ctx); W=ctx.W
        with files.Store(ctx) as st:
            st.mkdir('run'); g.where(st); g.setdt(0.5); g.settime(4.,8); a=g.fill('new'); g.setpar('checkpoint_variables','all'); g.setpar('checkpoint_di','4'); g.setpar('checkpoint_restart_it',str(rit)); g.setpar('checkpoint_previous',prev)
            if opt: g.setpar('sgrid_options',opt)
            g.setpar('checkpoint_DeltaT',str(DT)); W.call('checkpoint',W.g); ctx.true('written',st.ls()==['run/checkpoint.0'])
            c=st.read('run/checkpoint.0'); st.mkdir('run_previous'); st.write('run_previous/checkpoint.0',c if ctx.sym else bytes(c)); st.write('run_previous/data',b'12'); st.mkdir('run_previous/sub'); st.write('run_previous/sub/f',b'3'); st.write('run/junk',b'0'); st.mkdir('run/j2'); st.write('run/j2/junk',b'0')
            W.call('checkpoint_checkifrestart',W.g); ctx.true('restart phase',g.par('checkpoint')=='restart'); b=g.fill('old')
            seq=[it for it in (0,1,2)]; done=None
            for it in seq:
                g.settime(it*.5,it); r=W.call('checkpoint',W.g)
                if r==1: done=it; break
                g.same('nothing read yet',g.read(),b); ctx.true('nothing written in the restart phase',len(st.ls())==(6 if True else 0),st.ls())
            ctx.true('restarts at the iteration asked for',done==(rit if rit>=0 else 0),done); g.same('state taken over',g.read(),a); ctx.true('clock taken over',g.time()==4. and W.call('vs_iter',W.g)==8)
            ctx.true('checkpointing goes on',g.par('checkpoint')=='yes')
            if DT>0: ctx.true('runs longer by DeltaT',float(g.par('finaltime'))==4.+DT and int(g.par('iterations'))==int((4.+DT)/.5+.5))
            else: ctx.true('end of run unchanged',g.par('finaltime')=='5' and g.par('iterations')=='10')
            keep=not(prev=='no' and not opt); out=st.ls()
            if not keep: ctx.true('previous output taken over',out==['run/checkpoint.0','run/data','run/sub/f'],out)
            elif ctx.sym: ctx.true('previous output copied',any(x[0]=='system' and x[1]==f'cp -pr {st.dir}/run_previous {st.dir}/run' for x in st.d.calls) and not st.isdir('run'),st.d.calls[-3:])
            else: ctx.true('previous output copied',out==['run/checkpoint.0','run/data','run/sub/f','run_previous/checkpoint.0','run_previous/data','run_previous/sub/f'],out)
            g.settime(6.,12); W.call('checkpoint',W.g) if not (ctx.sym and keep) else None
    return f
def rmdir(absolute):
    def f(ctx):
        W=ctx.W
        with files.Store(ctx) as st:
            for d in('a','a/b','a/b/c','other'): st.mkdir(d)
            for n in('a/x','a/b/y','a/b/c/z','other/keep'): st.write(n,b'1')
            if not ctx.sym:
                os.symlink(st.dir+'/other',st.dir+'/a/link'); os.symlink(st.dir+'/other/keep',st.dir+'/a/b/flink'); n0=len(os.listdir('/proc/self/fd'))
            W.call('system2','rm -rf',st.dir+'/a'); ctx.true('directory gone, nothing else',st.ls()==['other/keep'] and not st.isdir('a') and st.isdir('other'),st.ls())
            if not ctx.sym: ctx.true('no open directory left',len(os.listdir('/proc/self/fd'))==n0)
            W.call('system2','rm -rf',st.dir+'/none'); ctx.true('missing directory ignored',st.ls()==['other/keep'])
    return f
# ------------------------------------------------------------------ current parameters on disk
def parfile(ctx):
    g=G(ctx); W=ctx.W
    with files.Store(ctx) as st:
        st.mkdir('run'); g.where(st); W.call('parameterio_write_current_pars',W.g); a=g.allpars(); c=st.read('run/sgrid_current_parameters.par'); lines=bytes(c).decode().split('\n')
        ctx.true('all parameters written',sorted(lines)==sorted([f'{k} = {v}' for k,v in a.items()]+['']),lines[:5])
        st.write('run/sgrid_update_parameters.par',b'amp = 9.5 \nlabel =two words\nunknown = 3\n\nempty = now=this'); W.call('parameterio_update_pars',W.g)
        b=dict(a); b.update({'amp':'9.5 ','label':'two words','empty':'now=this'}); n=g.allpars(); ctx.true('updated',n==b,{k:n.get(k) for k in n if n.get(k)!=b.get(k)})
        ctx.true('update used once',W.call('parameterio_update_pars',W.g)==0 and 'run/sgrid_update_parameters.par_done' in st.ls(),st.ls())
# ------------------------------------------------------------------ byte order
def endian(size,n):
    def f(ctx):
        W=ctx.W; N=size*n
        if ctx.sym:
            src=[W.M.sym(f'byte{k}',0,127) for k in range(N)]; o=Obj('src',N,'zero')
            for k,x in enumerate(src): o.cells[k]=(x,1)
            p=Ptr(o,0)
        else:
            import ctypes
            src=list(ctx.rng.randbytes(N)); b=ctypes.create_string_buffer(bytes(src),N); W.keep.append(b); p=world.RP(ctypes.addressof(b))
        sw=[src[e*size+size-1-k] for e in range(n) for k in range(size)]
        def same(x,y): return x is y or x==y or (ctx.sym and W.M.entails(ICond('eq',x,y)) is True)
        def sz(v): return v
        with files.Store(ctx) as st:
            for name,want in (('SGRID_fwrite_little',src),('SGRID_fwrite_big',sw),('SGRID_fwrite_swapbytes',sw)):
                fp=fopen(ctx,W,st.dir+'/f','wb'); r=call64(ctx,W,name,p,size,n,fp); fclose(ctx,W,fp); got=st.read('f')
                ctx.true(f'{name}: bytes in the declared order',len(got)==N and all(same(x,y) for x,y in zip(got,want)) and r==n,(r,got,want))
            for name,want in (('SGRID_fread_little',src),('SGRID_fread_big',sw),('SGRID_fread_swapbytes',sw)):
                st.write('f',src if ctx.sym else bytes(src)); q=buf(ctx,W,N); fp=fopen(ctx,W,st.dir+'/f','rb'); r=call64(ctx,W,name,q,size,n,fp); fclose(ctx,W,fp)
                got=bytesat(ctx,W,q,N); ctx.true(f'{name}: bytes in the declared order',all(same(x,y) for x,y in zip(got,want)) and r==n,(r,got,want))
    return f
def doubles(ctx):
    W=ctx.W; n=5; vals=[ctx.var(f'd{k}',-3,3) for k in range(n)]
    with files.Store(ctx) as st:
        p=W.arr(vals) if ctx.sym else buf(ctx,W,8*n,ctx.rng.randbytes(8*n)); q=buf(ctx,W,8*n)
        fp=fopen(ctx,W,st.dir+'/f','wb'); r=W.call('fwrite_double_little',p,n,fp); fclose(ctx,W,fp); x=st.read('f'); src=[(T.lift(v),j) for v in vals for j in range(8)] if ctx.sym else bytesat(ctx,W,p,8*n)
        ctx.true('little endian bytes',list(x)==list(src) and r==n)
        fp=fopen(ctx,W,st.dir+'/f','rb'); r=W.call('fread_double_little',q,n,fp); fclose(ctx,W,fp)
        ctx.true('read back',r==n and (all(W.get(q,k) is T.lift(vals[k]) for k in range(n)) if ctx.sym else bytesat(ctx,W,q,8*n)==src))
        if not ctx.sym: ctx.true('little endian host',W.call('SGRID_return_BYTE_ORDER_LITTLE')==1)
def fopen(ctx,W,path,mode):
    if ctx.sym: return W.M.stubs['fopen'](W.M,W.M.newstr(path),W.M.newstr(mode))
    import ctypes
    f=ctypes.CDLL(None).fopen; f.restype=ctypes.c_void_p; return world.RP(f(path.encode(),mode.encode()))
def fclose(ctx,W,fp):
    if ctx.sym: return W.M.stubs['fclose'](W.M,fp)
    import ctypes
    ctypes.CDLL(None).fclose(ctypes.c_void_p(int(fp)))
def buf(ctx,W,N,init=None):
    if ctx.sym: return Ptr(Obj('buf',N,'zero'),0)
    import ctypes
    b=ctypes.create_string_buffer(init or bytes(N),N); W.keep.append(b); return world.RP(ctypes.addressof(b))
def bytesat(ctx,W,q,N):
    if ctx.sym: 
        return [(lambda v: v&255 if type(v) is int else v)(W.M.load(Ptr(q.o,k),1,'i')) for k in range(N)]
    import ctypes
    return list(ctypes.string_at(int(q),N))
def call64(ctx,W,name,p,size,n,fp): return W.call(name,p,size,n,fp)
# ------------------------------------------------------------------ the small parser
def parser(ctx):
    W=ctx.W; bad=[]
    t='$a = 1 , $bb=22\nccc  =3 x\n$a: $ab = 5\nlast line\n\nend'
    with files.Store(ctx) as st:
        st.write('f',t.encode()); v=buf(ctx,W,200)
        def at(par): return W.call('fgetparameter',fp,par,v)
        fp=fopen(ctx,W,st.dir+'/f','rb')
        for par,w in (('$a','1'),('$bb','22'),('ccc','3'),('$ab','5')):
            r=at(par); ctx.true('value after the name',r!=-1 and W.str(v)==w,(par,W.str(v)))
        W.call('fscanline',fp,v); l=[]
        for _ in range(4): l.append((W.call('fscanline',fp,v),W.str(v)))
        ctx.true('lines',l==[(9,'last line'),(0,''),(3,'end'),(-1,'')],l); ctx.true('absent',at('zzz')==-1 and W.str(v)==''); fclose(ctx,W,fp)
        fp=fopen(ctx,W,st.dir+'/f','rb'); ctx.true('label',W.call('fgotonext',fp,'$a:')!=-1 and at('$ab')!=-1 and W.str(v)=='5' and W.call('fgotonext',fp,'$a:')==-1); fclose(ctx,W,fp)
        b,a=buf(ctx,W,50),buf(ctx,W,50); n=4 if ctx.sym else 6; bad=[]
        for k in range(n+1):
            for t in itertools.product('a= ',repeat=k):
                x=''.join(t); r=W.call('extrstr_before_after_EQ',x,b,a); i=x.find('='); w=(i,x[:i],x[i+1:]) if i>=0 else (-1,x,'')
                if (r,W.str(b),W.str(a))!=w: bad.append((x,r,W.str(b),W.str(a)))
        ctx.true('split at the first =',not bad,bad[:4])
B=lambda:mk(True); R=lambda:mk(False)
C=lambda n,f,**k: Case(n,f,base=B,rbase=R,group='b',timeout=200,**k)
def chgpars(ctx,g):
    for n,v in (('amp','33'),('label','q')): g.setpar(n,v)
BD='two boxes of 4 and 6 points; arbitrary contents'
cases=[C(f'round trip {m} time {t[0]:.3g}',roundtrip(m,t),bounded=BD) for m in('all','auto') for t in (TIMES if m=='all' else TIMES[1:2])]
cases+=[C('round trip with additional variables',roundtrip('auto',add='keep ub other'),bounded=BD),C('skipped variables',skipvars,bounded=BD),C('wrong size',mismatch,bounded=BD),C('no checkpoint',nofile,bounded=BD),
 C('parameters',pars,bounded='the listed values'),C('write errors',fault,bounded='8 byte positions'),C('off',off)]
cases+=[C(f'schedule {a}',schedule(*a),bounded='9 iterations') for a in ((.5,0,3,1),(.5,1.5,1,1),(.1,.3,7,0),(1.,0,1,-1),(.1,.2,1,1))]
cases+=[C(f'restart {p} {d} {r} {o}',restart(p,d,r,o),bounded=BD) for p,d,r,o in(('no',0,1,None),('no',3,0,None),('no',0,-1,None),('no',0.5,1,'--keep_previous'),('yes',0,1,None))]
cases+=[C('remove directory',rmdir(1),bounded='one tree'),C('parameter files',parfile,bounded='the listed values'),C('doubles',doubles),C('parser',parser,bounded='listed text; strings up to 4/6 characters')]
cases+=[C(f'byte order {s} x {n}',endian(s,n)) for s,n in((1,3),(2,3),(4,2),(8,2),(3,2),(8,0))]
if __name__=='__main__':
    main('C19',cases,level='other',assumptions=['C library file functions behave as the disk model','host is little endian in the deductive layer; the swapping routines are checked themselves'])
