"""Two interpretations of the same C program behind one interface:
  Sym  – the symbolic executor over the IR of /repo's sources (deductive layer)
  Real – the natively compiled shared library (replay / bounded layer)"""
import os, sys, ctypes as C, pickle, time, signal, traceback, json, threading
from fractions import Fraction as Fr
import build, llir, exec as X, terms as T
from exec import *
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VSUP=HERE+'/csrc/vsupport.c'

_progs={}
def _renames():
    import re
    try: return dict(re.findall(r'^#define\s+(\w+)\s+(\w+)\s*$',open(build.SRC+'/main/main/rename_symbols.h').read(),re.M))
    except OSError: return {}
REN=_renames()
def srcs(conf): return [c[len(build.SRC)+1:] for m in build.MODS[conf] for c in build.module_sources(m) if c.endswith('.c')]
def vsup_ir(conf,src=VSUP):
    import hashlib
    h=hashlib.sha256(open(src,'rb').read()+conf.encode()).hexdigest()[:10]
    out=f'{build.workdir()}/vs_{h}.ll'
    if not os.path.exists(out):
        tmp=f'{out}.{os.getpid()}'
        build.run(['clang','-w',*(['-DVS_MAIN'] if conf=='main' else []),*build.CW,*build.DEFS,*build.incs(conf),*build.modincs(conf),'-S','-emit-llvm','-O1','-Xclang','-disable-llvm-passes','-ffp-contract=off','-o',tmp,src])
        build.run(['opt','-S',f'-passes={build.PASSES}',tmp,'-o',tmp+'2']); os.rename(tmp+'2',out); os.remove(tmp)
    return out
def program(conf='main',only=None):
    """lazily parsed program: function -> file"""
    k=conf
    if k not in _progs:
        p=X.Program(); p.conf=conf; p.failed={}
        from concurrent.futures import ThreadPoolExecutor
        fs=srcs(conf)
        def one(f):
            try: return f,build.ir(f,conf)
            except build.BuildError as e: return f,e
        build.workdir(); build.autodir(conf)
        with ThreadPoolExecutor(8) as ex: R=list(ex.map(one,fs))
        p.src={}
        for f,q in R:
            if isinstance(q,Exception): p.failed[f]=str(q); continue
            m=load(q); p.addm(m) if hasattr(p,'addm') else addm(p,m)
            for n in m.funcs: p.src.setdefault(n,f)
        addm(p,load(vsup_ir(conf)))
        _progs[k]=p
    return _progs[k]
def load(path):
    pk=path+'.pkl'
    if os.path.exists(pk):
        try: return pickle.load(open(pk,'rb'))
        except Exception: pass
    m=llir.Module(open(path).read(),path)
    tmp=f'{pk}.{os.getpid()}'
    pickle.dump(m,open(tmp,'wb'),-1); os.rename(tmp,pk)
    return m
def addm(s,m):
    s.mods.append(m)
    for n,f in m.funcs.items():
        s.funcs.setdefault(n,(m,f)); s.funcs[(id(m),n)]=(m,f)
    for n,g in m.globals.items():
        if g[1] is not None:
            s.globs.setdefault(n,(m,)+g); s.globs[(id(m),n)]=(m,)+g

class Base:
    """operations written once in terms of call()"""
    def initmods(s,pars,mods=None):
        for k,v in pars.items(): s.call('makeparameter',k,str(v),'',ret='v')
        s.call('sgrid_main',ret='i')
        for m in (mods if mods is not None else build.MODS[s.conf]):
            n=m.split('/')[-1]
            if n!='main': s.call('sgrid_'+n,ret='i')
    def ind(s,name): return s.call('Ind',name,ret='i')
    def v(s,box,name): return s.call('vs_v',box,name if isinstance(name,int) else s.ind(name),ret='p')

class Sym(Base):
    sym=True
    def __init__(s,conf='main',decisions=(),stubs=None,M=None):
        s.conf=conf; s.prog=program(conf); s.M=M or Machine(s.prog,decisions,stubs)
    def call(s,name,*a,ret='i'):
        if name not in s.prog.funcs and name not in s.M.stubs: name=REN.get(name,name)
        return s.M.call(name,*a)
    def arr(s,vals,name='arr'):
        o=Obj(name,8*len(vals),None); 
        for i,v in enumerate(vals): o.cells[8*i]=(T.lift(v),8)
        return Ptr(o,0)
    def iarr(s,vals,name='iarr'):
        o=Obj(name,4*len(vals),None)
        for i,v in enumerate(vals): o.cells[4*i]=(v,4)
        return Ptr(o,0)
    def get(s,p,i,kind='d'):
        sz={'d':8,'i':4,'p':8,'b':1}[kind]
        return s.M.load(Ptr(p.o,p.f+sz*i),sz,'i' if kind=='b' else kind)
    def set(s,p,i,v,kind='d'):
        sz={'d':8,'i':4,'p':8}[kind]
        s.M.store(Ptr(p.o,p.f+sz*i),T.lift(v) if kind=='d' else v,sz)
    def str(s,p): return s.M.cstr(p).decode('latin1')

class RP(int): pass
class Real(Base):
    sym=False
    def __init__(s,conf='main',lib=None):
        s.conf=conf; s.lib=C.CDLL(lib or reallib(conf)); s.keep=[]; s.fc={}
    env={}
    def num(s,x):
        if isinstance(x,T.Term): return float(T.evalf(x,s.env))
        return float(x)
    def fun(s,name,ret):
        k=(name,ret)
        if k not in s.fc:
            try: f=getattr(s.lib,name)
            except AttributeError: f=getattr(s.lib,REN.get(name,name))
            fn=C.cast(f,C.c_void_p).value
            s.fc[k]=fn
        return s.fc[k]
    def call(s,name,*a,ret='i'):
        addr=s.fun(name,ret); types=[]; vals=[]
        for x in a:
            if isinstance(x,RP): types.append(C.c_void_p); vals.append(int(x))
            elif x is None: types.append(C.c_void_p); vals.append(None)
            elif isinstance(x,bool) or isinstance(x,int): types.append(C.c_int); vals.append(int(x))
            elif isinstance(x,(float,Fr)): types.append(C.c_double); vals.append(float(x))
            elif isinstance(x,str): types.append(C.c_void_p); b=C.create_string_buffer(x.encode('latin1')); s.keep.append(b); vals.append(C.addressof(b))
            elif isinstance(x,T.Term): types.append(C.c_double); vals.append(s.num(x))
            else: # callback
                types.append(C.c_void_p); s.keep.append(x); vals.append(C.cast(x,C.c_void_p))
        rt={'i':C.c_int,'d':C.c_double,'p':C.c_void_p,'v':None}[ret]
        f=C.CFUNCTYPE(rt,*types)(addr)
        r=f(*vals)
        if ret=='p': return RP(r) if r else None
        return r
    def addr(s,name): return RP(s.fun(name,'i'))
    def glob(s,name,kind='i'):
        t={'i':C.c_int,'d':C.c_double,'p':C.c_void_p}[kind]; return t.in_dll(s.lib,name)
    def arr(s,vals,name=''):
        b=(C.c_double*max(1,len(vals)))(*[s.num(v) for v in vals]); s.keep.append(b); return RP(C.addressof(b))
    def iarr(s,vals,name=''):
        b=(C.c_int*max(1,len(vals)))(*vals); s.keep.append(b); return RP(C.addressof(b))
    def get(s,p,i,kind='d'):
        t={'d':C.c_double,'i':C.c_int,'p':C.c_void_p,'b':C.c_ubyte}[kind]
        v=t.from_address(int(p)+C.sizeof(t)*i).value
        return RP(v) if kind=='p' and v else v
    def set(s,p,i,v,kind='d'):
        t={'d':C.c_double,'i':C.c_int,'p':C.c_void_p,'b':C.c_ubyte}[kind]
        t.from_address(int(p)+C.sizeof(t)*i).value=s.num(v) if kind=='d' else v
    def str(s,p): return C.string_at(int(p)).decode('latin1')
    def vec(s,p,n): return (C.c_double*n).from_address(int(p))

def reallib(conf='main',src=VSUP):
    import hashlib
    lib=build.sharedlib(conf)
    h=hashlib.sha256(open(src,'rb').read()).hexdigest()[:10]
    out=f'{build.workdir()}/libvs_{conf}_{h}.so'
    if not os.path.exists(out):
        tmp=f'{out}.{os.getpid()}'
        build.run(['gcc','-w',*(['-DVS_MAIN'] if conf=='main' else []),'-fPIC','-shared','-O1',*build.DEFS,*build.incs(conf),*build.modincs(conf),'-Wl,--no-as-needed','-o',tmp,src,lib,f'-Wl,-rpath,{build.workdir()}'])
        os.rename(tmp,out)
    return out

class Crash(Exception): pass
def child(fn,*args,timeout=300,mem=8<<30):
    """run fn(*args) in a forked child with stdout silenced; returns ('ok',value)|('exit',code)|('signal',n)|('exc',text)|('timeout',)"""
    r,w=os.pipe(); pid=os.fork()
    if pid==0:
        try:
            os.close(r)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE,(0,0))
            dn=os.open('/dev/null',os.O_WRONLY)
            ef=os.open(f'/tmp/sgvc_child_err.{os.getpid()}',os.O_WRONLY|os.O_CREAT|os.O_TRUNC,0o600)
            os.dup2(dn,1); os.dup2(ef,2)
            try: res=('ok',fn(*args))
            except BaseException: res=('exc',traceback.format_exc()[-3000:])
            with os.fdopen(w,'wb') as f: pickle.dump(res,f)
        finally:
            os._exit(0)
    os.close(w)
    import select
    buf=b''; t0=time.time(); to=False
    while True:
        left=timeout-(time.time()-t0)
        if left<=0: to=True; os.kill(pid,signal.SIGKILL); break
        rl,_,_=select.select([r],[],[],min(left,5))
        if rl:
            d=os.read(r,1<<20)
            if not d: break
            buf+=d
    os.close(r); _,st=os.waitpid(pid,0)
    ep=f'/tmp/sgvc_child_err.{pid}'
    err=''
    try: err=open(ep,errors='replace').read()[-800:]; os.remove(ep)
    except OSError: pass
    if to: return ('timeout',)
    if buf:
        try: return pickle.loads(buf)
        except Exception as e: return ('exc','unpickle '+str(e))
    if os.WIFSIGNALED(st): return ('signal',os.WTERMSIG(st),err)
    return ('exit',os.WEXITSTATUS(st),err)
