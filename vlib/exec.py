"""Symbolic execution of the LLVM IR that clang produces from /repo's C files (the verification-condition
generator).  ints: concrete, or polynomials (IE) over integer symbols; doubles: Terms; pointers: (object,offset).
Loops with a symbolic trip count are handled by the generic-iteration rule (see Machine.loophead)."""
import re, sys, math, functools
from fractions import Fraction as Fr
import llir, terms as T
from terms import Term
sys.setrecursionlimit(20000)

class Undecided(Exception): pass       # outside what the engine can express: never a violation
class PathEnd(Exception): pass         # exit()/abort()/errorexit on this path
class MemError(Exception): pass        # definite memory-safety violation on this path
class Infeasible(Exception): pass

# ------------------------------------------------------------------ symbolic integers
class IE:
    __slots__=('p','h')
    def __init__(s,p): s.p=p; s.h=None
    @staticmethod
    def sym(n): return IE({(n,):1})
    @staticmethod
    def norm(p):
        p={k:v for k,v in p.items() if v}
        if not p: return 0
        if len(p)==1 and () in p: return p[()]
        return IE(p)
    def __add__(s,o):
        p=dict(s.p)
        if isinstance(o,int): p[()]=p.get((),0)+o
        else:
            for k,v in o.p.items(): p[k]=p.get(k,0)+v
        return IE.norm(p)
    __radd__=__add__
    def __neg__(s): return IE({k:-v for k,v in s.p.items()})
    def __sub__(s,o): return s+(-o)
    def __rsub__(s,o): return (-s)+o
    def __mul__(s,o):
        if isinstance(o,int): return IE.norm({k:v*o for k,v in s.p.items()})
        p={}
        for k,v in s.p.items():
            for k2,v2 in o.p.items():
                kk=tuple(sorted(k+k2)); p[kk]=p.get(kk,0)+v*v2
        return IE.norm(p)
    __rmul__=__mul__
    def key(s):
        if s.h is None: s.h=tuple(sorted(s.p.items()))
        return s.h
    def __hash__(s): return hash(s.key())
    def __eq__(s,o): return isinstance(o,IE) and s.key()==o.key()
    def __repr__(s): return '+'.join((f'{v}*' if v!=1 or not k else '')+('*'.join(k) if k else '1') for k,v in s.key())
    def __bool__(s): raise TypeError('symbolic int as bool')
    def term(s):
        r=T.ZERO
        for k,v in s.key():
            m=T.const(v)
            for x in k: m=T.mul(m,T.var(x))
            r=T.add(r,m)
        return r
    def divexact(s,k):
        if all(v%k==0 for v in s.p.values()): return IE.norm({a:v//k for a,v in s.p.items()})
        return None
    def syms(s): return {x for k in s.p for x in k}
def ikey(x): return x if isinstance(x,int) else x.key()
class ICond:
    """integer condition  a pred b   (pred: lt le eq ne)"""
    __slots__=('pred','a','b')
    def __init__(s,pred,a,b): s.pred=pred; s.a=a; s.b=b
    def key(s): return (s.pred,ikey(s.a),ikey(s.b))
    def neg(s):
        return {'lt':ICond('le',s.b,s.a),'le':ICond('lt',s.b,s.a),'eq':ICond('ne',s.a,s.b),'ne':ICond('eq',s.a,s.b)}[s.pred]
    def __repr__(s): return f'{s.a} {s.pred} {s.b}'

def ieq(a,b): return (a==b) if isinstance(a,int)==isinstance(b,int) else False
class Obj:
    __slots__=('id','name','size','cells','init','freed','ro','kind','nsym')
    cnt=0
    def __init__(s,name,size,init=None,kind='heap'):
        Obj.cnt+=1; s.id=Obj.cnt; s.name=name; s.size=size; s.cells={}; s.init=init; s.freed=False; s.ro=False; s.kind=kind; s.nsym=0
    def __repr__(s): return f'<{s.name}:{s.size}>'
class Ptr:
    __slots__=('o','f')
    def __init__(s,o,f): s.o=o; s.f=f
    def __eq__(s,o): return isinstance(o,Ptr) and s.o is o.o and s.f==o.f
    def __hash__(s): return hash((s.o.id,s.f))
    def __repr__(s): return f'&{s.o.name}+{s.f}'
class FP:
    __slots__=('name',)
    def __init__(s,n): s.name=n
    def __eq__(s,o): return isinstance(o,FP) and s.name==o.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return '&'+s.name
ABS=Obj('abs',1<<62)
class UndefV:
    def __repr__(s): return 'undef'
UNDEF=UndefV()

def ty_kind(t):
    if t.k=='i': return 'i'
    if t.k=='f': return 'd'
    if t.k=='p': return 'p'
    return t.k

# ------------------------------------------------------------------ program: linked modules
class Program:
    def __init__(s):
        s.mods=[]; s.funcs={}; s.globs={}; s.cfuncs={}
    def add(s,path):
        m=llir.Module(open(path).read(),path); s.mods.append(m)
        for n,f in m.funcs.items():
            s.funcs.setdefault(n,(m,f))
            s.funcs[(id(m),n)]=(m,f)
        for n,g in m.globals.items():
            if g[1] is not None: 
                s.globs.setdefault(n,(m,)+g)
                s.globs[(id(m),n)]=(m,)+g
        return m
    def cf(s,name,mod=None):
        k=(id(mod),name) if mod is not None and (id(mod),name) in s.funcs else name
        c=s.cfuncs.get(k)
        if c is None:
            if k not in s.funcs: return None
            m,f=s.funcs[k]; c=s.cfuncs[k]=CFunc(s,m,f)
        return c

def uses(x,names):
    """does an instruction (nested tuples) use one of the registers?"""
    if isinstance(x,(tuple,list)):
        if len(x)==2 and x[0]=='reg' and x[1] in names: return True
        return any(uses(y,names) for y in x)
    return False
class CFunc:
    """IR function compiled to Python block functions"""
    def __init__(s,prog,mod,f):
        s.prog=prog; s.mod=mod; s.f=f; s.name=f.name
        s.slots={}; s.bi={b:i for i,b in enumerate(f.order)}
        for t,n in f.params: s.slot(n)
        for b in f.order:
            for ins in f.blocks[b]:
                if len(ins)>1 and ins[1] is not None: s.slot(ins[1])
        s.consts=[]
        s.loops=s.findloops()
        s.gen()
    def slot(s,n):
        if n not in s.slots: s.slots[n]=len(s.slots)
        return s.slots[n]
    def succ(s,b):
        l=s.f.blocks[b][-1]
        if l[0]=='br': return [l[2]]
        if l[0]=='cbr': return [l[3],l[4]]
        if l[0]=='switch': return [l[4]]+[x[1] for x in l[5]]
        return []
    def findloops(s):
        order=s.f.order; succ={b:s.succ(b) for b in order}; pred={b:[] for b in order}
        for b in order:
            for c in succ[b]: pred[c].append(b)
        # dominators (iterative)
        rpo=[];seen=set()
        st=[(order[0],iter(succ[order[0]]))]; seen.add(order[0])
        while st:
            b,it=st[-1]
            for c in it:
                if c not in seen: seen.add(c); st.append((c,iter(succ[c]))); break
            else: rpo.append(b); st.pop()
        rpo.reverse(); idx={b:i for i,b in enumerate(rpo)}
        idom={rpo[0]:rpo[0]}
        ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                ps=[p for p in pred[b] if p in idom]
                if not ps: continue
                n=ps[0]
                for p in ps[1:]:
                    a=p
                    while a!=n:
                        while idx[a]>idx[n]: a=idom[a]
                        while idx[n]>idx[a]: n=idom[n]
                if idom.get(b)!=n: idom[b]=n; ch=True
        def dom(a,b):
            while True:
                if a==b: return True
                if b==rpo[0]: return False
                b=idom[b]
        loops={}
        for b in rpo:
            for c in succ[b]:
                if dom(c,b):
                    body=loops.setdefault(c,{'latches':[],'body':{c}})
                    body['latches'].append(b)
                    st=[b]
                    while st:
                        x=st.pop()
                        if x in body['body']: continue
                        body['body'].add(x); st.extend(p for p in pred[x] if p in idx)
        s.defs={}
        for b in order:
            for ins in s.f.blocks[b]:
                if len(ins)>1 and ins[1] is not None: s.defs[ins[1]]=ins
        out={}
        for h,l in loops.items():
            phis=[]
            for ins in s.f.blocks[h]:
                if ins[0]!='phi': break
                step=None; ln=None
                for v,b in ins[3]:
                    if b in l['latches']:
                        ln=v
                        if v[0]=='reg':
                            d=s.defs.get(v[1])
                            if d and d[0]=='add' and ('reg',ins[1]) in (d[3],d[4]):
                                o=d[4] if d[3]==('reg',ins[1]) else d[3]
                                if o[0]=='c': step=o[1]
                            elif d and d[0]=='gep' and d[3]==('reg',ins[1]) and len(d[4])==1 and d[4][0][1][0]=='c':
                                step=d[4][0][1][1]*s.mod.size(d[2])
                phis.append((s.slot(ins[1]),ins[2],step,ln))
            hd={i[1] for i in s.f.blocks[h] if i[0]!='phi' and len(i)>1 and i[1] is not None}
            pure=all(i[0] not in('call','store') for i in s.f.blocks[h])
            live=pure and any(uses(i,hd) for b in order if b not in l['body'] for i in s.f.blocks[b])
            out[s.bi[h]]={'live':live,'body':{s.bi[x] for x in l['body']},'latches':[s.bi[x] for x in l['latches']],'phis':phis,'name':h}
        return out
    # ---------------- codegen
    def k(s,v):
        s.consts.append(v); return f'K[{len(s.consts)-1}]'
    def val(s,v,t):
        q=v[0]
        if q=='reg': return f'R[{s.slots[v[1]]}]'
        if q=='c':
            if t.k=='f': return s.k(T.fconst(v[1]))
            x=v[1]
            if t.k=='i' and t.n==1: return str(int(x)&1)
            return f'({x})' if x<0 else str(x)
        if q=='null': return 'None'
        if q=='undef': return s.k(UNDEF)
        if q=='zero': 
            if t.k=='f': return s.k(T.ZERO)
            if t.k=='p': return 'None'
            if t.k in('s','a','named'): return s.k(UNDEF)
            return '0'
        if q=='glob': return f'M.glob({v[1]!r},{s.k(s.mod)})'
        if q=='ce':
            if v[1]=='gep':
                return f'gepc({s.val(v[3],llir.PTR)},{s.gepconst(v[2],v[4])})'
            if v[1] in('bitcast','addrspacecast'): return s.val(v[3],v[2])
            if v[1]=='ptrtoint': return f'p2i({s.val(v[3],v[2])})'
            if v[1]=='inttoptr': return f'i2p({s.val(v[3],v[2])})'
            raise Undecided('const expr '+v[1])
        if q=='agg': return s.k(UNDEF)
        raise Undecided('operand '+str(v))
    def gepconst(s,bt,idx):
        off=0; t=bt
        for k,(it,iv) in enumerate(idx):
            n=0 if iv[0] in('zero',) else iv[1]
            if k==0: off+=n*s.mod.size(t)
            else:
                t=s.mod.res(t)
                if t.k=='s': off+=s.mod.offs(t)[n]; t=t.f[n]
                else: t=t.e; off+=n*s.mod.size(t)
        return off
    def gen(s):
        L=['def make(M,K,rt):','  '+'; '.join(f'{n}=rt[{n!r}]' for n in RTNAMES)]
        for b in s.f.order:
            i=s.bi[b]; L.append(f'  def b{i}(M,R):')
            n0=len(L)
            for ins in s.f.blocks[b]: s.ins(L,ins,b)
            if len(L)==n0: L.append('    pass')
        L.append('  return ['+','.join(f'b{i}' for i in range(len(s.f.order)))+']')
        s.src='\n'.join(L)
        s.code=compile(s.src,f'<{s.name}>','exec')
    def instantiate(s,M):
        ns={}; exec(s.code,ns)
        return ns['make'](M,s.consts,RT)
    def edge(s,b,tgt,ind='    '):
        dst=[];src=[]
        for ins in s.f.blocks[tgt]:
            if ins[0]!='phi': break
            for v,p in ins[3]:
                if p==b:
                    dst.append(f'R[{s.slots[ins[1]]}]'); src.append(s.val(v,ins[2])); break
        out=[]
        if dst: out.append(ind+','.join(dst)+'='+','.join(src))
        out.append(f'{ind}return {s.bi[tgt]}')
        return out
    def ins(s,L,ins,b):
        op=ins[0]; A=lambda x: L.append('    '+x)
        d=f'R[{s.slots[ins[1]]}]' if len(ins)>1 and ins[1] is not None else None
        if op=='phi': return
        if op in('add','sub','mul'):
            sy={'add':'+','sub':'-','mul':'*'}[op]; n=ins[2].n
            a,c=s.val(ins[3],ins[2]),s.val(ins[4],ins[2])
            A(f'x={a}{sy}{c}')
            A(f'if type(x) is int and not {-(1<<n-1)}<=x<{1<<n-1}: x=wrap(x,{n})')
            A(f'{d}=x'); return
        if op in('sdiv','udiv','srem','urem','shl','lshr','ashr','and','or','xor'):
            A(f'{d}=ibin({op!r},{s.val(ins[3],ins[2])},{s.val(ins[4],ins[2])},{ins[2].n},M)'); return
        if op in('fadd','fsub','fmul','fdiv','frem'):
            f={'fadd':'tadd','fsub':'tsub','fmul':'tmul','fdiv':'tdiv','frem':'tfmod'}[op]
            A(f'{d}={f}({s.val(ins[3],ins[2])},{s.val(ins[4],ins[2])})'); return
        if op=='fneg': A(f'{d}=tneg({s.val(ins[3],ins[2])})'); return
        if op=='icmp':
            A(f'{d}=icmp({ins[2]!r},{s.val(ins[4],ins[3])},{s.val(ins[5],ins[3])},{ins[3].n if ins[3].k=="i" else 0})'); return
        if op=='fcmp': A(f'{d}=fcmp({ins[2]!r},{s.val(ins[4],ins[3])},{s.val(ins[5],ins[3])})'); return
        if op in('sext','zext','trunc','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc','bitcast','ptrtoint','inttoptr'):
            a=s.val(ins[3],ins[2]); t,t2=ins[2],ins[4]
            if op=='sext': A(f'{d}=sextv({a},{t.n},M)')
            elif op=='zext': A(f'{d}=zextv({a},{t.n},M)')
            elif op=='trunc': A(f'{d}=truncv({a},{t2.n})')
            elif op in('sitofp','uitofp'): A(f'{d}=i2f({a},{t.n},{op=="uitofp"})')
            elif op in('fptosi','fptoui'): A(f'{d}=f2i({a},M)')
            elif op in('fpext','fptrunc','bitcast'): A(f'{d}={a}')
            elif op=='ptrtoint': A(f'{d}=p2i({a})')
            else: A(f'{d}=i2p({a})')
            return
        if op=='load':
            t=s.mod.res(ins[2]); 
            A(f'{d}=M.load({s.val(ins[3],llir.PTR)},{s.mod.size(t)},{ty_kind(t)!r})'); return
        if op=='store':
            t=s.mod.res(ins[2]); v=ins[3]
            A(f'M.store({s.val(ins[4],llir.PTR)},{s.val(v,t)},{s.mod.size(t)})'); return
        if op=='alloca':
            sz=s.mod.size(ins[2])
            n='1' if ins[3] is None else s.val(ins[3][1],ins[3][0])
            A(f'{d}=M.alloca({s.name+"."+ins[1]!r},{sz}*{n})'); return
        if op=='gep':
            t=ins[2]; c=0; parts=[]
            for k,(it,iv) in enumerate(ins[4]):
                if k==0: sc=s.mod.size(t)
                else:
                    t=s.mod.res(t)
                    if t.k=='s': n=0 if iv[0]=='zero' else iv[1]; c+=s.mod.offs(t)[n]; t=t.f[n]; continue
                    t=t.e; sc=s.mod.size(t)
                if iv[0]=='c': c+=iv[1]*sc
                elif iv[0]=='zero': pass
                else: parts.append(f'{s.val(iv,it)}*{sc}')
            e='+'.join(parts+([str(c)] if c or not parts else [])).replace('+-','-')
            A(f'{d}=gepc({s.val(ins[3],llir.PTR)},{e})'); return
        if op=='br':
            L.extend(s.edge(b,ins[2])); return
        if op=='cbr':
            c=s.val(ins[2],llir.INT(1)); A(f'c={c}')
            if s.bi[b] in s.loops:
                # a symbolic exit test of a loop: generic-iteration rule
                lp=s.loops[s.bi[b]]; inb=[x for x in (ins[3],ins[4]) if s.bi[x] in lp['body']]
                if len(inb)==1:
                    pol=inb[0]==ins[3]
                    A(f'if type(c) is not int: c=M.loophead({s.k(s)},{s.bi[b]},R,c,{pol})')
            A('if type(c) is not int: c=M.decide(c)')
            A('if c:'); L.extend(s.edge(b,ins[3],'      ')); L.extend(s.edge(b,ins[4])); return
        if op=='switch':
            A(f'x={s.val(ins[3],ins[2])}')
            A("if type(x) is not int: x=M.concretize(x)")
            done=set()
            for cv,tg in ins[5]:
                A(f'if x=={cv}:'); L.extend(s.edge(b,tg,'      '))
            L.extend(s.edge(b,ins[4])); return
        if op=='ret':
            A(f'M.retv={s.val(ins[3],ins[2]) if ins[3] is not None else "None"}'); A('return -1'); return
        if op=='select':
            t=ins[2]
            A(f'{d}=selectv({s.val(ins[3],llir.INT(1))},{s.val(ins[4],t)},{s.val(ins[5],t)},M)'); return
        if op=='call':
            cal=ins[3]; args=[s.val(v,s.mod.res(t)) for t,v in ins[4] if t.k!='m']
            if cal[0]=='glob':
                nm=cal[1]
                if nm.startswith(('llvm.lifetime','llvm.dbg','llvm.experimental.noalias','llvm.stack','llvm.assume','llvm.prefetch')):
                    if d: A(f'{d}=None')
                    return
                A(('%s='%d if d else '')+f'M.callf({nm!r},{s.k(s.mod)},[{",".join(args)}])')
            else:
                A(('%s='%d if d else '')+f'M.callp({s.val(cal,llir.PTR)},[{",".join(args)}])')
            return
        if op=='unreachable': A('raise PathEnd("unreachable")'); return
        if op in('extractvalue',): A(f'{d}=M.extractv({s.val(ins[3],ins[2])},{ins[4]})'); return
        if op in('insertvalue',): A(f'{d}=M.insertv({s.val(ins[3],ins[2])},{s.val(ins[5],ins[4])},{ins[6]})'); return
        A(f'raise Undecided("instruction {op}")')

# ------------------------------------------------------------------ runtime helpers
def wrap(x,n):
    m=1<<n; x%=m
    return x-m if x>=m>>1 else x
def gepc(p,off):
    if type(p) is Ptr: return Ptr(p.o,p.f+off)
    if p is None:
        if type(off) is int and off==0: return None
        return Ptr(ABS,off)
    raise Undecided(f'gep on {p}')
def p2i(p):
    if p is None: return 0
    if isinstance(p,Ptr):
        if p.o is ABS: return p.f
        return PI_(p)
    return p
class PI_:
    """integer made from a pointer"""
    def __init__(s,p): s.p=p
    def __sub__(s,o):
        if isinstance(o,PI_):
            if o.p.o is s.p.o: return s.p.f-o.p.f
            raise Undecided('pointer difference of different objects')
        return PI_(Ptr(s.p.o,s.p.f-o))
    def __add__(s,o): return PI_(Ptr(s.p.o,s.p.f+o))
def i2p(x):
    if isinstance(x,PI_): return x.p
    if isinstance(x,int): return None if x==0 else Ptr(ABS,x)
    raise Undecided('inttoptr')
def ibin(op,a,b,n,M):
    if type(a) is int and type(b) is int:
        m=(1<<n)-1
        if op in('sdiv','srem'):
            if b==0: raise MemError('integer division by zero')
            q=abs(a)//abs(b); q=q if (a<0)==(b<0) else -q
            return q if op=='sdiv' else a-q*b
        ua,ub=a&m,b&m
        if op=='udiv': return wrap(ua//ub,n)
        if op=='urem': return wrap(ua%ub,n)
        if op=='shl': return wrap(ua<<ub,n) if n>1 else 0
        if op=='lshr': return wrap(ua>>ub,n)
        if op=='ashr': return a>>ub
        r={'and':ua&ub,'or':ua|ub,'xor':ua^ub}[op]
        return r if n==1 else wrap(r,n)
    if n==1:
        if type(a) is not int:
            if type(b) is int:
                if op=='xor': return (condneg(a) if b else a)
                if op=='and': return a if b else 0
                if op=='or': return 1 if b else a
            a=M.decide(a)
        if type(b) is not int:
            if op=='and': return b if a else 0
            if op=='or': return 1 if a else b
            return condneg(b) if a else b
        return ibin(op,a,b,n,M)
    if isinstance(a,PI_) and op in('sdiv','ashr','udiv'): raise Undecided('pointer arithmetic')
    if isinstance(a,IE) and type(b) is int:
        if op=='shl': return a*(1<<b)
        if op in('sdiv','udiv'):
            e=a.divexact(b)
            if e is not None: return e
        if op=='ashr':
            e=a.divexact(1<<b)
            if e is not None: return e
            return M.idiv(a,1<<b)
        if op in('sdiv','udiv'): return M.idiv(a,b)
        if op in('srem','urem'): return a-b*M.idiv(a,b)
        if op=='and' and b==1: return a-2*M.idiv(a,2)
        if op=='lshr': return M.idiv(a,1<<b)
    raise Undecided(f'int op {op} on {a},{b}')
def condneg(c):
    if isinstance(c,ICond): return c.neg()
    if isinstance(c,Term): 
        r=T.not_(c)
        return r
    return 1-c
def icmp(p,a,b,n):
    if type(a) is int and type(b) is int:
        if p[0]=='u':
            m=(1<<n)-1; a&=m; b&=m
        if p=='eq': return int(a==b)
        if p=='ne': return int(a!=b)
        q=p[1:]
        return int(a<b if q=='lt' else a<=b if q=='le' else a>b if q=='gt' else a>=b)
    if n==0:
        if p in('eq','ne'):
            if a is UNDEF or b is UNDEF: raise Undecided('compare undef pointer')
            if type(a) is Ptr and type(b) is Ptr and a.o is b.o:
                return icmp(p,a.f,b.f,64)
            e=(a==b) if not(a is None or b is None) else (a is b)
            return int(e==(p=='eq'))
        if type(a) is Ptr and type(b) is Ptr and a.o is b.o: return icmp('s'+p[1:],a.f,b.f,64)
        if type(a) is Ptr and b is None: return int(p[1] =='g')
        raise Undecided(f'pointer order {a} {b}')
    if isinstance(a,PI_) and isinstance(b,PI_): return icmp(p,a.p.f,b.p.f,64) if a.p.o is b.p.o else int(p=='ne')
    if isinstance(a,PI_) and b==0: return int(p=='ne')
    if a is UNDEF or b is UNDEF: raise Undecided('compare undef')
    if isinstance(a,(Term,ICond)) and n==1:   # i1 compare
        if type(b) is int: return a if (b==1)==(p=='eq') else condneg(a)
    if p in('eq','ne'): return simp(ICond(p,a,b))
    q=p[1:]
    if q=='lt': return simp(ICond('lt',a,b))
    if q=='le': return simp(ICond('le',a,b))
    if q=='gt': return simp(ICond('lt',b,a))
    return simp(ICond('le',b,a))
def simp(c):
    d=c.a-c.b
    if isinstance(d,int): return int({'lt':d<0,'le':d<=0,'eq':d==0,'ne':d!=0}[c.pred])
    return c
def infsign(t):
    if t.op=='v' and t.a[0] in('inf','minf'): return 1 if t.a[0]=='inf' else -1
    return 0
def fcmp(p,a,b):
    if p in('ord','uno'):
        nan=any(isinstance(x,Term) and x.op=='nan' for x in (a,b)); return int(nan==(p=='uno'))
    if a is UNDEF or b is UNDEF: raise Undecided('fcmp undef')
    if a.op=='nan' or b.op=='nan': return int(p[0]=='u')
    q=p[1:]
    ia,ib=infsign(a),infsign(b)
    if ia or ib: return int({'lt':ia<ib,'le':ia<=ib,'gt':ia>ib,'ge':ia>=ib,'eq':ia==ib,'ne':ia!=ib}[q])     # every other value is finite
    if q=='lt': r=T.cmp_('lt',a,b)
    elif q=='le': r=T.cmp_('le',a,b)
    elif q=='gt': r=T.cmp_('lt',b,a)
    elif q=='ge': r=T.cmp_('le',b,a)
    elif q=='eq': r=T.cmp_('eq',a,b)
    elif q=='ne':
        r=T.cmp_('eq',a,b); r=(not r) if isinstance(r,bool) else T.not_(r)
    else: raise Undecided('fcmp '+p)
    return int(r) if isinstance(r,bool) else r
def sextv(a,n,M):
    if n==1: return -M.tobool(a)
    return a
def zextv(a,n,M):
    if n==1: return M.tobool(a)
    if type(a) is int and a<0: return a&((1<<n)-1)
    return a
def truncv(a,n):
    if type(a) is int: return wrap(a,n) if n>1 else a&1
    return a
def i2f(a,n,u):
    if type(a) is int: return T.const(a if not(u and a<0) else a&((1<<n)-1))
    if isinstance(a,IE): return a.term()
    raise Undecided(f'i2f {a}')
def f2i(a,M):
    if a.op=='c': return math.trunc(a.a[0])
    if T.numeric(a):
        x=T.num(a)
        if x is not None and abs(x-round(x))>1e-9: return math.trunc(x)
    return M.f2i(a)
def selectv(c,a,b,M):
    if type(c) is int: return a if c else b
    if isinstance(c,Term) and isinstance(a,Term) and isinstance(b,Term) and a.op not in('cmp','not') and b.op not in('cmp','not'):
        k=M.pathmap.get(c.id)
        if k is not None: return a if k else b
        if not M.forkselect: return T.ite(c,a,b)
    return a if M.decide(c) else b
def chk(x):
    if x is UNDEF: raise Undecided('undefined value used')
def tw(f):
    def g(*a):
        try: return f(*a)
        except AttributeError:
            raise Undecided(f'undefined double used {[x for x in a if not isinstance(x,Term)]}')
    return g
RT=dict(wrap=wrap,gepc=gepc,p2i=p2i,i2p=i2p,ibin=ibin,icmp=icmp,fcmp=fcmp,sextv=sextv,zextv=zextv,truncv=truncv,i2f=i2f,f2i=f2i,selectv=selectv,
  tadd=tw(T.add),tsub=tw(T.sub),tmul=tw(T.mul),tdiv=tw(T.div),tneg=tw(T.neg),tfmod=lambda a,b:LIBM['fmod'](a,b),PathEnd=PathEnd,Undecided=Undecided,UNDEF=UNDEF)
RTNAMES=list(RT)
def cfold(name,f):
    def g(a):
        return f(a)
    return g
def _floor(a):
    if T.numeric(a):
        x=T.num(a)
        if a.op=='c': return T.const(math.floor(a.a[0]))
        if abs(x-round(x))>1e-9: return T.const(math.floor(x))
    return T.fn('floor',a)
def _fmod(a,b):
    if a.op=='c' and b.op=='c':
        x,y=a.a[0],b.a[0]; q=abs(x)//abs(y); r=abs(x)-q*abs(y); return T.const(r if x>=0 else -r)
    return T.fn('fmod',a,b)
LIBM={'sqrt':T.sqrt,'sin':T.sin,'cos':T.cos,'tan':T.tan,'exp':T.exp,'log':T.log,'sinh':T.sinh,'cosh':T.cosh,'tanh':T.tanh,'atan':T.atan,'atan2':T.atan2,
 'acos':T.acos,'asin':T.asin,'pow':T.pow_,'fabs':T.fabs,'floor':_floor,'fmod':_fmod,'cbrt':lambda a:T.root(a,3),'ceil':lambda a:T.neg(_floor(T.neg(a))),
 'log10':lambda a:T.div(T.log(a),T.log(T.const(10))),'erf':lambda a:T.fn('erf',a)}
LIBM.update({'exp2':lambda a:T.pow_(T.const(2),a),'exp10':lambda a:T.pow_(T.const(10),a),'log2':lambda a:T.div(T.log(a),T.log(T.const(2))),
 'expm1':lambda a:T.sub(T.exp(a),T.ONE),'log1p':lambda a:T.log(T.add(T.ONE,a)),'hypot':lambda a,b:T.sqrt(T.add(T.mul(a,a),T.mul(b,b))),
 'asinh':lambda a:T.log(T.add(a,T.sqrt(T.add(T.mul(a,a),T.ONE)))),'acosh':lambda a:T.log(T.add(a,T.sqrt(T.sub(T.mul(a,a),T.ONE)))),
 'atanh':lambda a:T.div(T.log(T.div(T.add(T.ONE,a),T.sub(T.ONE,a))),T.const(2)),
 'rint':lambda a:_round(a,0),'nearbyint':lambda a:_round(a,0),'round':lambda a:_round(a,1),'trunc':lambda a:_round(a,2)})
def _round(a,how):
    """rounding of constants (0: to even, 1: away from zero, 2: towards zero)"""
    if a.op!='c': return T.fn(('rint','round','trunc')[how],a)
    x=Fr(a.a[0])
    if how==0: return T.const(round(x))
    y=math.floor(abs(x)+(Fr(1,2) if how==1 else 0)); return T.const(y if x>=0 else -y)
for k in list(LIBM): LIBM[k+'l']=LIBM[k]; LIBM['llvm.'+k+'.f64']=LIBM[k]; LIBM['llvm.'+k+'.f80']=LIBM[k]

def _divt(a,b): return T.div(a,b)
# ------------------------------------------------------------------ machine
class Machine:
    def __init__(s,prog,decisions=(),stubs=None):
        s.prog=prog; s.inst={}; s.globs={}; s.retv=None
        s.stubs=dict(STUBS); s.stubs.update(stubs or {})
        s.dec=list(decisions); s.dpos=0; s.path=[]       # path: list of (cond,bool,forced)
        s.pathmap={}; s.assume=[]                        # integer assumptions (ICond)
        s.gens={}; s.loopstack=[]; s.idivs={}; s.forkselect=False; s.out=[]; s.steps=0; s.maxsteps=None
        s.writes=None; s.z3cache={}; s.oracle=None; s.undefct=0; s.depth=0; s.files={}
        s.calls={}                                      # name -> count (functions actually interpreted)
        s.strict_undef=False
    # ---- memory
    def new(s,name,size,init=None,kind='heap'): return Obj(name,size,init,kind)
    def alloca(s,name,size): return Ptr(Obj(name,size,None,'stack'),0)
    def glob(s,name,mod):
        k=(id(mod),name) if (id(mod),name) in s.prog.globs else name
        if k in s.globs: return s.globs[k]
        own=s.prog.globs.get(k); own=own is not None and own[0] is mod   # defined by this module: wins over a function of another one
        if not own and (name in s.stubs or name in s.prog.funcs or (id(mod),name) in s.prog.funcs):
            r=FP(name)
        else:
            g=s.prog.globs.get(k)
            if g is None:
                if name in mod.decls: r=FP(name)
                else: r=Ptr(Obj('@'+name,1<<40,None,'ext'),0)
            else:
                gk=(id(g[0]),name)
                if k!=gk and False: pass
                if gk in s.globs and not isinstance(k,tuple): r=s.globs[gk]
                else:
                    r=s.mkglob(name,g)
                    # external linkage: same object from everywhere
                    if not name.startswith('.str') and s.prog.globs.get(name) is g or s.prog.globs.get(name)==g: s.globs[name]=r
                    s.globs[gk]=r
        s.globs[k]=r
        return r
    def mkglob(s,name,g):
        m,t,init,const=g
        o=Obj('@'+name,m.size(t),'zero','global'); p=Ptr(o,0)
        s.globs[(id(m),name)]=p
        s.initglob(o,0,m,t,init); o.ro=const
        return p
    def initglob(s,o,off,m,t,v):
        t=m.res(t); q=v[0]
        if q in('zero','undef'): return
        if q=='bytes':
            for i,b in enumerate(v[1]): o.cells[off+i]=(b if b<128 else b-256,1)
            return
        if q=='agg':
            if t.k=='s':
                for f,oo,(tt,vv) in zip(t.f,m.offs(t),v[1]): s.initglob(o,off+oo,m,f,vv)
            else:
                sz=m.size(t.e)
                for i,(tt,vv) in enumerate(v[1]): s.initglob(o,off+i*sz,m,t.e,vv)
            return
        if q=='null': o.cells[off]=(None,8); return
        if q=='c': o.cells[off]=(T.fconst(v[1]) if t.k=='f' else v[1],m.size(t)); return
        if q=='glob': o.cells[off]=(s.glob(v[1],m),8); return
        if q=='ce' and v[1]=='gep':
            c=CFunc.__new__(CFunc); c.mod=m
            o.cells[off]=(gepc(s.glob(v[3][1],m),CFunc.gepconst(c,v[2],v[4])),8); return
        raise Undecided('global init '+str(v)[:80])
    def zero(s,kind):
        return T.ZERO if kind=='d' else None if kind=='p' else 0
    def bound(s,p,sz,what):
        o=p.o
        if o.freed: raise MemError(f'{what} of freed {o}')
        f=p.f
        if type(f) is int and type(o.size) is int:
            if f<0 or f+sz>o.size: raise MemError(f'{what} out of bounds: {o} offset {f}')
        elif not s.nobounds:
            for c in (ICond('le',0,f),ICond('le',f+sz,o.size)):
                c=simp(c) if not(type(c.a) is int and type(c.b) is int) else int(c.a<=c.b)
                if c!=1 and (c==0 or s.entails(c) is not True): s.oob.append((what,o.name,str(f),str(o.size)))
    nobounds=True
    def load(s,p,sz,kind):
        if type(p) is not Ptr: raise MemError('null pointer read') if p is None else Undecided(f'load from {p}')
        o=p.o; f=p.f
        if o.freed or type(f) is not int or type(o.size) is not int or f<0 or f+sz>o.size: s.bound(p,sz,'read')
        if s.loopstack: s.lread(o,f)
        c=o.cells.get(f)
        if c is not None:
            if c[1]==sz or (sz>=10 and c[1]>=10): 
                v=c[0]
                if kind=='p' and type(v) is int: return None if v==0 else Ptr(ABS,v)
                if kind=='i' and (v is None or isinstance(v,(Ptr,FP))): return p2i(v)
                if kind=='d' and type(v) is int and v==0: return T.ZERO
                return v
            return s.partload(o,f,sz,kind,c)
        if o.cells and type(f) is int and (kind=='i'):
            r=s.partload(o,f,sz,kind,None)
            if r is not None: return r
        if o.nsym or type(f) is not int: s.alias(o,f,'read')
        i=o.init
        if i=='zero': return s.zero(kind)
        if i is not None: 
            v=i(f,sz,kind)
            o.cells_init(f) if False else None
            return v
        return UNDEF
    def partload(s,o,f,sz,kind,c):
        if kind!='i' or type(f) is not int:
            if c is not None and c[0]==0 and type(c[0]) is int: return s.zero(kind)
            if c is None: return None
            if c[0] is UNDEF: return UNDEF
            raise Undecided(f'mixed-size load {o} {f} {sz} {c}')
        bs=[]; anyc=False
        for k in range(f,f+sz):
            b=None
            for d in range(0,8):
                cc=o.cells.get(k-d)
                if cc is not None:
                    if cc[1]>d:
                        v=cc[0]
                        if v is None: v=0
                        if v is T.ZERO: v=0
                        if v is UNDEF: break
                        if type(v) is not int: raise Undecided(f'byte of {v}')
                        b=(v>>(8*d))&255; anyc=True
                    break
            bs.append(b)
        if not anyc: return None
        if any(b is None for b in bs):
            if o.init=='zero': bs=[b or 0 for b in bs]
            else: return UNDEF
        x=0
        for i,b in enumerate(bs): x|=b<<(8*i)
        return wrap(x,8*sz)
    def alias(s,o,f,what):
        for k in o.cells:
            if k is f or k==f: continue
            if type(k) is int and type(f) is int: continue
            d=k-f
            if type(d) is int:
                continue
            r=s.entails(ICond('ne',k,f))
            if r is not True: raise Undecided(f'{what} {o.name}[{f}] may alias written cell [{k}]')
    def store(s,p,v,sz):
        if type(p) is not Ptr: raise MemError('null pointer write') if p is None else Undecided(f'store to {p}')
        o=p.o; f=p.f
        if o.freed or type(f) is not int or type(o.size) is not int or f<0 or f+sz>o.size: s.bound(p,sz,'write')
        if o.ro: raise MemError(f'write to constant {o}')
        if type(f) is not int:
            if f not in o.cells: s.alias(o,f,'write'); 
            o.nsym=1
        elif o.nsym and f not in o.cells: s.alias(o,f,'write')
        if s.loopstack: s.lwrite(o,f)
        if s.writes is not None: s.writes.setdefault(o.id,(o,{}))[1][f]=v
        c=o.cells.get(f)
        if type(f) is int and (c is None or c[1]!=sz):
            s.split(o,f,sz)
        o.cells[f]=(v,sz)
    def split(s,o,f,sz):
        cells=o.cells
        if sz<8:
            for d in range(1,8):
                cc=cells.get(f-d)
                if cc is not None:
                    if cc[1]>d and type(f-d) is int: s.tobytes(o,f-d,cc)
                    break
        cc=cells.get(f)
        if cc is not None and cc[1]>sz: s.tobytes(o,f,cc)
        for d in range(1,sz):
            cc=cells.get(f+d)
            if cc is not None:
                if d+cc[1]>sz: s.tobytes(o,f+d,cc)
                cells.pop(f+d,None)
    def tobytes(s,o,k,cc):
        v=cc[0]
        if v is None or v is T.ZERO: v=0
        if v is UNDEF: del o.cells[k]; return
        if type(v) is not int: raise Undecided(f'splitting cell {o} {k} {cc}')
        del o.cells[k]
        for i in range(cc[1]): o.cells[k+i]=(wrap(v>>(8*i),8),1)
    # ---- strings
    def cstr(s,p):
        if p is None: raise MemError('string function on NULL')
        if type(p) is not Ptr: raise Undecided('cstr')
        b=bytearray(); o=p.o; f=p.f
        while True:
            c=s.load(Ptr(o,f),1,'i')
            if c is UNDEF: raise Undecided(f'undefined byte in string {o} {f}')
            if c==0: break
            b.append(c&255); f+=1
        return bytes(b)
    def putstr(s,p,b):
        for i,c in enumerate(b+b'\0'): s.store(Ptr(p.o,p.f+i),c if c<128 else c-256,1)
    def newstr(s,x):
        b=x.encode() if isinstance(x,str) else x
        o=Obj('str',len(b)+1,'zero','heap'); p=Ptr(o,0); s.putstr(p,b); return p
    # ---- calls
    def callf(s,name,mod,args):
        st=s.stubs.get(name)
        if st is not None: return st(s,*args)
        return s.run(s.prog.cf(name,mod),args,name)
    def callp(s,p,args):
        if type(p) is FP:
            return s.callf(p.name,None,args)
        if p is None: raise MemError('call through NULL')
        raise Undecided(f'call through {p}')
    def call(s,name,*args):
        a=[]
        for x in args:
            if isinstance(x,(str,bytes)): x=s.newstr(x)
            elif isinstance(x,float): x=T.fconst(x)
            elif isinstance(x,Fr): x=T.const(x)
            a.append(x)
        return s.callf(name,None,a)
    def run(s,cf,args,name=None):
        if cf is None: raise Undecided(f'no body or contract for function {name}')
        s.calls[cf.name]=s.calls.get(cf.name,0)+1
        bl=s.inst.get(id(cf))
        if bl is None: bl=s.inst[id(cf)]=cf.instantiate(s)
        R=[UNDEF]*(len(cf.slots)+1)
        for i,(t,n) in enumerate(cf.f.params):
            if i<len(args): R[i]=args[i]
        if cf.f.vararg: R[-1]=args[len(cf.f.params):]; s.vastack=getattr(s,'vastack',[])+[args[len(cf.f.params):]]
        s.depth+=1
        if s.depth>400: raise Undecided('call depth')
        b=0; n=0
        try:
            while b>=0:
                b=bl[b](s,R)
                n+=1
                if s.maxsteps is not None:
                    s.steps+=1
                    if s.steps>s.maxsteps: raise Undecided('step limit')
        finally:
            s.depth-=1
            if cf.f.vararg: s.vastack.pop()
        return s.retv
    # ---- decisions
    def tobool(s,c):
        return c if type(c) is int else s.decide(c)
    def z3int(s,e):
        import z3
        if isinstance(e,int): return z3.IntVal(e)
        r=z3.IntVal(0)
        for k,v in e.p.items():
            m=z3.IntVal(v)
            for x in k: m=m*z3.Int(x)
            r=r+m
        return r
    def z3cond(s,c):
        a,b=s.z3int(c.a),s.z3int(c.b)
        return {'lt':a<b,'le':a<=b,'eq':a==b,'ne':a!=b}[c.pred]
    def entails(s,c):
        """True / False (negation entailed) / None"""
        if type(c) is int: return bool(c)
        k=(c.key(),len(s.assume))
        if k in s.z3cache: return s.z3cache[k]
        import z3
        sv=z3.Solver(); sv.set('timeout',3000)
        for a in s.assume: sv.add(s.z3cond(a))
        q=s.z3cond(c); r=None
        sv.push(); sv.add(z3.Not(q))
        if sv.check()==z3.unsat: r=True
        sv.pop()
        if r is None:
            sv.push(); sv.add(q)
            if sv.check()==z3.unsat: r=False
            sv.pop()
        s.z3cache[k]=r
        s.smt=getattr(s,'smt',0)+1
        return r
    def decide(s,c):
        if type(c) is int: return c
        if isinstance(c,ICond):
            r=s.entails(c)
            if r is not None: return int(r)
            b=s.fork(c); s.assume.append(c if b else c.neg()); return int(b)
        if isinstance(c,Term):
            neg=False
            while c.op=='not': c=c.a[0]; neg=not neg
            if c.op=='cmp':
                r=s.pathmap.get(c.id)
                if r is None and s.oracle is not None: r=s.oracle(s,c)
                if r is None and c.a[0]!='eq':
                    # a<=b after b<a etc.
                    o=T.mk('cmp','lt' if c.a[0]=='le' else 'le',c.a[2],c.a[1]); q=s.pathmap.get(o.id)
                    if q is not None: r=not q
                if r is None: r=s.fork(c); s.pathmap[c.id]=r
                return int(bool(r)!=neg)
        if c is UNDEF: raise Undecided('branch on undefined value')
        raise Undecided(f'decide {c}')
    def fork(s,c):
        if s.dpos<len(s.dec): b=s.dec[s.dpos]
        else: b=True; s.dec.append(True)
        s.dpos+=1; s.path.append((c,b)); return b
    def concretize(s,x):
        raise Undecided(f'switch on symbolic {x}')
    def f2i(s,a):
        h=getattr(s,'f2ihook',None)
        if h: return h(s,a)
        raise Undecided(f'double to int of symbolic {T.show(a,4)}')
    def idiv(s,a,k):
        key=(a,k)
        if key not in s.idivs:
            q=IE.sym(f'q{len(s.idivs)}'); s.idivs[key]=q
            s.assume+= [ICond('le',q*k,a),ICond('lt',a,q*k+k)]
        return s.idivs[key]
    def sym(s,name,lo=None,hi=None):
        e=IE.sym(name)
        if lo is not None: s.assume.append(ICond('le',lo,e))
        if hi is not None: s.assume.append(ICond('le',e,hi))
        return e
    # ---- generic iteration rule
    def generic(s,lo,hi):
        k=(ikey(lo),ikey(hi))
        if k not in s.gens:
            nm='I' if not s.gens else f'I{len(s.gens)}'
            g=IE.sym(nm); s.gens[k]=g
            s.assume+= [ICond('le',lo,g),ICond('lt',g,hi)]
            s.genrange=getattr(s,'genrange',{}); s.genrange[nm]=(lo,hi)
        return s.gens[k]
    def lread(s,o,f):
        for fr in s.loopstack:
            if o.id<=fr['maxid']:
                k=(o.id,f)
                if k not in fr['w']: fr['r'][k]=o
    def lwrite(s,o,f):
        for fr in s.loopstack:
            if o.id<=fr['maxid']: fr['w'][(o.id,f)]=o
    def loophead(s,cf,blk,R,c,pol):
        """symbolic exit test in loop header. Returns the value of the condition at which execution continues.
        Rule: a loop `for(i=lo;i<hi;i++)` whose body, run once for an arbitrary i in [lo,hi), carries nothing from
        one iteration to the next except (a) inductions v+=const, (b) sums acc+=t(i), and writes array elements only at
        positions that are functions of i, has after it: every element written as computed for its own i, sums = Sum t."""
        if not isinstance(c,ICond): return c
        if not pol: c=c.neg()
        lp=cf.loops[blk]; fr=getattr(s,'inloop',{})
        if cf in fr: return fr[cf]
        cond=c
        cand=None
        for slot,t,step,_ in lp['phis']:
            x=R[slot]
            if not step or (t.k=='p' and not isinstance(x,Ptr)) or t.k not in 'ip': continue
            if t.k=='p': x=x.f
            # the loop runs for x, x+step, ... while x<end (step>0) or x>end (step<0)
            if step>0:
                if cond.pred in('lt','ne') and ieq(cond.a,x): end=cond.b
                elif cond.pred=='ne' and ieq(cond.b,x): end=cond.a
                elif cond.pred=='le' and ieq(cond.a,x): end=cond.b+1
                else: continue
            else:
                if cond.pred=='ne' and ieq(cond.a,x): end=cond.b
                elif cond.pred in('lt','ne') and ieq(cond.b,x): end=cond.a
                elif cond.pred=='le' and ieq(cond.b,x): end=cond.a+(-1)
                else: continue
            d=end-x
            if t.k=='p' and cond.pred=='le' and abs(step)!=1: d=d+(step-1 if step>0 else step+1)
            n=(d//step if d%step==0 else None) if isinstance(d,int) else (d.divexact(abs(step)) if step>0 else (-d).divexact(-step))
            if n is None: continue
            cand=(slot,n,step,t); break
        if cand is None or len(lp['latches'])!=1:
            r=s.entails(c)
            if r is not None: return int(r==pol)
            raise Undecided(f'loop {cf.name}:{lp["name"]} with symbolic exit {c}')
        slot,cnt,step0,t0=cand
        if isinstance(cnt,int): return int((cnt>0)==bool(pol))
        r=s.entails(ICond('lt',0,cnt))
        if r is False: 
            return int(not pol)
        # generic iteration: I counts upward from the lowest value of the index
        if t0.k=='i' and step0==1: lo=R[slot]; hi=lo+cnt
        elif t0.k=='i' and step0==-1:
            lo=R[slot]-cnt; hi=R[slot]                       # indices lo+1..hi, canonical range [lo,hi) if it starts at 0, as in while(n--)
            if not (isinstance(lo,int) and lo==0): lo=lo+1; hi=hi+1
        else: lo=0; hi=cnt
        nonempty=r
        g=s.generic(lo,hi)
        entry={}; accs={}
        for sl,t,step,_ in lp['phis']:
            entry[sl]=R[sl]
            if step is not None and not isinstance(R[sl],Term):
                it=(cnt-1)-(g-lo) if t0.k=='i' and step0==-1 else g-lo
                R[sl]=(gepc(R[sl],it*step) if t.k=='p' else R[sl]+it*step)
            elif isinstance(R[sl],Term):
                s.undefct+=1; a=T.var(f'acc#{s.undefct}'); accs[sl]=a; R[sl]=a
            else: accs[sl]=R[sl]
        frame={'maxid':Obj.cnt,'r':{},'w':{}}
        s.loopstack.append(frame)
        bl=s.inst[id(cf)]
        f=cf.f
        last=f.blocks[f.order[blk]][-1]
        tgt=last[3] if pol else last[4]
        # run body
        bi=cf.bi; b=None
        fr[cf]=int(pol); s.inloop=fr
        try: b=bl[blk](s,R)            # the test itself, for the generic index
        finally: del fr[cf]
        while b!=blk:
            if b not in lp['body']: raise Undecided(f'generic loop {cf.name}:{lp["name"]} left early')
            b=bl[b](s,R)
            if b==-1: raise Undecided(f'return inside generic loop {cf.name}')
        s.loopstack.pop()
        # loop-carried memory
        for k in frame['w']:
            o=frame['w'][k]; off=k[1]
            dep=isinstance(off,IE) and bool(off.syms() & set(g.syms()))
            if not dep:
                if k in frame['r']: raise Undecided(f'loop {cf.name}:{lp["name"]} carries memory {o}[{off}]')
                o.cells[off]=(UNDEF,o.cells[off][1])
            # reads of the same object at other generic positions
        rd={}
        for (oid,off) in frame['r']: rd.setdefault(oid,set()).add(off)
        for (oid,off) in frame['w']:
            if isinstance(off,IE):
                for o2 in rd.get(oid,()):
                    if o2!=off and s.entails(ICond('eq',o2,off)) is not False or (o2!=off and isinstance(o2,IE) and o2.syms()&g.syms()):
                        raise Undecided(f'loop {cf.name}:{lp["name"]} reads {frame["w"][(oid,off)]}[{o2}] and writes [{off}]')
        for sl,t,step,_ in lp['phis']:
            if sl in accs:
                new=R[sl]; a=accs[sl]
                if new is a or (not isinstance(new,Term) and new==a and not isinstance(a,UndefV)): R[sl]=entry[sl]; continue
                if isinstance(new,Term) and isinstance(a,Term):
                    t0=T.subst(new,{a.a[0]:T.ZERO})
                    import decide
                    z,_i=decide.pit_zero(T.sub(T.sub(new,a),t0))
                    if z is True:
                        R[sl]=T.add(entry[sl],T.fn('Sum:'+repr(g)+f'[{lo},{hi})',t0)); continue
                R[sl]=UNDEF; continue
            else:
                e=entry[sl]; n=cnt if nonempty else s.maxie(0,cnt)
                R[sl]=gepc(e,n*step) if t.k=='p' else e+n*step
        if lp['live'] and cf not in fr:
            fr[cf]=int(not pol); s.inloop=fr
            try: bl[blk](s,R)          # values of the header used behind the loop
            finally: del fr[cf]
        return int(not pol)
    def maxie(s,lo,hi):
        r=s.entails(ICond('le',lo,hi))
        if r: return hi
        raise Undecided('possibly empty range with unknown end')
    def extractv(s,a,idx): raise Undecided('extractvalue')
    def insertv(s,a,b,idx): raise Undecided('insertvalue')
    def libm(s,n,*a): return LIBM[n](*a)

# ------------------------------------------------------------------ stubs (contracts of libc/libm)
STUBS={}
def stub(*names):
    def d(f):
        for n in names: STUBS[n]=f
        return f
    return d
for _n,_f in LIBM.items():
    STUBS[_n]=(lambda f:(lambda M,*a:tw(f)(*a)))(_f)
@stub('fabs','fabsl','llvm.fabs.f64','llvm.fabs.f80')
def _fabs(M,x):
    """|x|, resolved where the preconditions decide the sign"""
    x=T.lift(x) if not isinstance(x,T.Term) else x
    if infsign(x): return T.var('inf')
    if M.oracle is not None and x.op!='c':
        c=T.cmp_('lt',x,T.ZERO)
        if isinstance(c,T.Term): c=M.oracle(M,c)
        if c is True: return T.neg(x)
        if c is False: return x
    return tw(T.fabs)(x)
@stub('malloc')
def _malloc(M,n): return Ptr(Obj('heap',n),0)
@stub('calloc')
def _calloc(M,a,b): return Ptr(Obj('heap',a*b,'zero'),0)
@stub('realloc')
def _realloc(M,p,n):
    if p is None: return _malloc(M,n)
    if p.o.freed: raise MemError('realloc of freed')
    o=Obj(p.o.name,n,p.o.init); 
    o.cells={k:v for k,v in p.o.cells.items() if not(type(k) is int and type(n) is int) or k<n}
    if o.init=='zero': 
        # bytes beyond the old size are indeterminate
        old=p.o.size
        o.init=(lambda f,sz,kind,old=old: M.zero(kind) if type(f) is int and f+sz<=old else UNDEF)
    elif callable(o.init): pass
    p.o.freed=True
    return Ptr(o,0)
@stub('free')
def _free(M,p):
    if p is None: return
    if p.o.freed: raise MemError('double free')
    if p.o.kind!='heap' or p.f!=0: raise MemError(f'free of non-heap pointer {p}')
    p.o.freed=True
@stub('cblas_dgemv')
def _dgemv(M,order,trans,m,n,alpha,A,lda,x,incx,beta,y,incy):
    """contract of the BLAS: y = alpha op(A) x + beta y ; y is not read when beta is zero; y overlaps neither A nor x"""
    if order not in(101,102) or trans not in(111,112,113): raise MemError('cblas_dgemv: illegal order or transposition')
    if (order==101)!=(trans==111): raise Undecided('cblas_dgemv: transposed')
    if lda<n or n<0 or m<0 or incx<=0 or incy<=0: raise MemError('cblas_dgemv: illegal dimensions')
    if (order==102): raise Undecided('cblas_dgemv: column major')
    at=lambda p,i: M.load(Ptr(p.o,p.f+8*i),8,'d')
    X=[T.lift(at(x,j*incx)) for j in range(n)]; r=[]
    z=T.lift(beta); z=z.op=='c' and z.a[0]==0; al=T.lift(alpha)
    if y.o is x.o and y.f==x.f or y.o is A.o and A.f<=y.f<A.f+8*lda*m: raise MemError('cblas_dgemv: output overlaps input')
    for i in range(m):
        t=T.ZERO
        for j in range(n): t=t+T.lift(at(A,lda*i+j))*X[j]
        t=al*t
        if not z: t=t+T.lift(beta)*at(y,i*incy)
        r.append(t)
    for i in range(m): M.store(Ptr(y.o,y.f+8*i*incy),r[i],8)
@stub('__errno_location')
def _errno(M): return Ptr(Obj('errno',4,'zero'),0)
@stub('exit','abort','_exit','__assert_fail')
def _exit(M,*a): raise PathEnd('exit')
@stub('printf','fprintf','puts','putchar','fflush','fputs','perror','fputc','setlinebuf','setvbuf','fwrite_unlocked','usleep','sleep')
def _printf(M,*a): return 0
@stub('llvm.memcpy.p0.p0.i64','memcpy','memmove','llvm.memmove.p0.p0.i64')
def _memcpy(M,d,sr,n,*a):
    if type(n) is not int: raise Undecided('memcpy symbolic')
    if n==0: return d
    M.bound(d,n,'write'); M.bound(sr,n,'read')
    if type(d.f) is not int or type(sr.f) is not int: raise Undecided('memcpy symbolic offset')
    src=sr.o.cells; tmp={k-sr.f:v for k,v in src.items() if type(k) is int and sr.f<=k<sr.f+n} if len(src)<n else {i:src[sr.f+i] for i in range(n) if (sr.f+i) in src}
    for k,v in tmp.items():
        if k+v[1]>n: raise Undecided('memcpy splits cell')
    for k in [k for k in d.o.cells if type(k) is int and d.f<=k<d.f+n]: del d.o.cells[k]
    if sr.o.init=='zero' or callable(sr.o.init):
        zi=d.o.init=='zero' and sr.o.init=='zero'
        if not zi:
            covered=set()
            for k,v in tmp.items(): covered.update(range(k,k+v[1]))
            for i in range(n):
                if i not in covered:
                    if sr.o.init=='zero': d.o.cells[d.f+i]=(0,1)
                    elif i%8==0: d.o.cells[d.f+i]=(sr.o.init(sr.f+i,8,'d'),8)
    elif d.o.init is not None:
        covered=set()
        for k,v in tmp.items(): covered.update(range(k,k+v[1]))
        for i in range(n):
            if i not in covered: d.o.cells[d.f+i]=(UNDEF,1)
    for k,v in tmp.items():
        d.o.cells[d.f+k]=v
        if M.writes is not None: M.writes.setdefault(d.o.id,(d.o,{}))[1][d.f+k]=v[0]
        if M.loopstack: M.lwrite(d.o,d.f+k); M.lread(sr.o,sr.f+k)
    return d
@stub('llvm.memset.p0.i64','memset')
def _memset(M,d,c,n,*a):
    if type(n) is not int or type(d.f) is not int: raise Undecided('memset symbolic')
    if n==0: return d
    M.bound(d,n,'write')
    for k in [k for k in d.o.cells if type(k) is int and d.f<=k<d.f+n]: del d.o.cells[k]
    if not(c==0 and d.o.init=='zero'):
        for i in range(n): d.o.cells[d.f+i]=(wrap(c,8),1)
    return d
@stub('strlen')
def _strlen(M,p): return len(M.cstr(p))
@stub('strcmp')
def _strcmp(M,a,b):
    x,y=M.cstr(a),M.cstr(b); return 0 if x==y else (1 if x>y else -1)
@stub('strncmp')
def _strncmp(M,a,b,n):
    x,y=M.cstr(a)[:n],M.cstr(b)[:n]; return 0 if x==y else (1 if x>y else -1)
@stub('strcasecmp')
def _strcasecmp(M,a,b):
    x,y=M.cstr(a).lower(),M.cstr(b).lower(); return 0 if x==y else (1 if x>y else -1)
@stub('strncasecmp')
def _strncasecmp(M,a,b,n):
    x,y=M.cstr(a)[:n].lower(),M.cstr(b)[:n].lower(); return 0 if x==y else (1 if x>y else -1)
@stub('memcmp','bcmp')
def _memcmp(M,a,b,n):
    if not isinstance(n,int): raise Undecided('memcmp of symbolic length')
    for k in range(n):
        x,y=(M.load(Ptr(q.o,q.f+k),1,'i') for q in (a,b))
        if x is UNDEF or y is UNDEF: raise Undecided('memcmp of undefined memory')
        if type(x) is not int or type(y) is not int: raise Undecided('memcmp of symbolic bytes')
        if x!=y: return 1 if x%256>y%256 else -1
    return 0
@stub('stpcpy')
def _stpcpy(M,d,s_):
    b=M.cstr(s_); M.putstr(d,b); return Ptr(d.o,d.f+len(b))
@stub('memchr')
def _memchr(M,a,c,n):
    for k in range(n):
        if (M.load(Ptr(a.o,a.f+k),1,'i')-c)%256==0: return Ptr(a.o,a.f+k)
    return None
@stub('putc','fputc_unlocked','putc_unlocked')
def _putc(M,c,f): return c
@stub('fwrite')
def _fwrite(M,p,sz,n,f): return n
@stub('strcpy')
def _strcpy(M,d,s_): M.putstr(d,M.cstr(s_)); return d
@stub('strncpy')
def _strncpy(M,d,s_,n):
    b=M.cstr(s_)[:n]; b=b+b'\0'*(n-len(b))
    for i,c in enumerate(b): M.store(Ptr(d.o,d.f+i),c if c<128 else c-256,1)
    return d
@stub('strcat')
def _strcat(M,d,s_): 
    n=len(M.cstr(d)); M.putstr(Ptr(d.o,d.f+n),M.cstr(s_)); return d
@stub('strncat')
def _strncat(M,d,s_,k):
    n=len(M.cstr(d)); M.putstr(Ptr(d.o,d.f+n),M.cstr(s_)[:k]); return d
@stub('strdup')
def _strdup(M,a): return M.newstr(M.cstr(a))
@stub('strstr')
def _strstr(M,a,b):
    i=M.cstr(a).find(M.cstr(b)); return None if i<0 else Ptr(a.o,a.f+i)
@stub('strchr')
def _strchr(M,a,c):
    x=M.cstr(a)+b'\0'; i=x.find(bytes([c&255])); return None if i<0 else Ptr(a.o,a.f+i)
@stub('strrchr')
def _strrchr(M,a,c):
    x=M.cstr(a)+b'\0'; i=x.rfind(bytes([c&255])); return None if i<0 else Ptr(a.o,a.f+i)
@stub('strspn')
def _strspn(M,a,b):
    x,y=M.cstr(a),M.cstr(b); i=0
    while i<len(x) and x[i] in y: i+=1
    return i
@stub('strcspn')
def _strcspn(M,a,b):
    x,y=M.cstr(a),M.cstr(b); i=0
    while i<len(x) and x[i] not in y: i+=1
    return i
@stub('strpbrk')
def _strpbrk(M,a,b):
    x,y=M.cstr(a),M.cstr(b)
    for i,c in enumerate(x):
        if c in y: return Ptr(a.o,a.f+i)
    return None
def _numpre(x,flt):
    m=re.match(rb'\s*([-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?))' if flt else rb'\s*([-+]?\d+)',x)
    return (m.group(1),m.end()) if m else (None,0)
@stub('atof')
def _atof(M,p):
    v,_=_numpre(M.cstr(p),True)
    return T.fconst(float(v)) if v else T.ZERO
@stub('atoi','atol')
def _atoi(M,p):
    v,_=_numpre(M.cstr(p),False)
    return int(v) if v else 0
@stub('strtod')
def _strtod(M,p,e):
    v,n=_numpre(M.cstr(p),True)
    if e is not None: M.store(e,Ptr(p.o,p.f+n),8)
    return T.fconst(float(v)) if v else T.ZERO
@stub('strtol')
def _strtol(M,p,e,b):
    v,n=_numpre(M.cstr(p),False)
    if e is not None: M.store(e,Ptr(p.o,p.f+n),8)
    return int(v) if v else 0
@stub('isspace')
def _isspace(M,c): return int(c in(32,9,10,11,12,13))
@stub('isalpha')
def _isalpha(M,c): return int(chr(c&255).isalpha() and c<128)
@stub('isdigit')
def _isdigit(M,c): return int(48<=c<58)
@stub('isalnum')
def _isalnum(M,c): return int(48<=c<58 or 65<=c<=90 or 97<=c<=122)
@stub('tolower')
def _tolower(M,c): return c+32 if 65<=c<=90 else c
@stub('toupper')
def _toupper(M,c): return c-32 if 97<=c<=122 else c
@stub('abs','labs')
def _abs(M,c):
    if type(c) is int: return abs(c)
    raise Undecided('abs')
STUBS['llvm.abs.i32']=lambda M,c,z:_abs(M,c)
def _mx(sel):
    def f(M,a,b):
        if type(a) is int and type(b) is int: return max(a,b) if sel=='max' else min(a,b)
        c=M.decide(icmp('slt',a,b,32)); return (b if c else a) if sel=='max' else (a if c else b)
    return f
for _b in('i32','i64'):
    STUBS['llvm.smax.'+_b]=_mx('max'); STUBS['llvm.smin.'+_b]=_mx('min'); STUBS['llvm.umax.'+_b]=_mx('max'); STUBS['llvm.umin.'+_b]=_mx('min')
@stub('llvm.fmuladd.f64','fma')
def _fma(M,a,b,c): return T.add(T.mul(a,b),c)
@stub('fmax','llvm.maxnum.f64')
def _fmax(M,a,b):
    c=T.cmp_('lt',a,b); return T.ite(c,b,a)
@stub('fmin','llvm.minnum.f64')
def _fmin(M,a,b):
    c=T.cmp_('lt',a,b); return T.ite(c,a,b)
@stub('llvm.copysign.f64','copysign')
def _copysign(M,a,b):
    return T.ite(T.cmp_('lt',b,T.ZERO),T.neg(T.fabs(a)),T.fabs(a))
@stub('__isnan','isnan')
def _fpc(M,*a): return 0
@stub('llvm.is.fpclass.f64','llvm.is.fpclass.f80')
def _fpclass(M,x,mask):
    """mask: classes of numbers asked for (3 nan, 0x204 infinite, 0x108 normal, 0x90 subnormal, 0x60 zero); a term denotes a real number"""
    x=T.lift(x)
    if x.op=='nan': return int(bool(mask&3))
    if x.op=='v' and x.a[0] in('inf','minf'): return int(bool(mask&(0x200 if x.a[0]=='inf' else 4)))
    if mask&0x1f8==0x1f8: return 1
    if mask&0x1f8==0: return 0
    raise Undecided(f'is.fpclass {mask}')
STUBS['finite']=STUBS['__finite']=lambda M,a:1
@stub('clock','time')
def _clk(M,*a): return 0
@stub('omp_get_thread_num')
def _otn(M): return 0
@stub('omp_get_max_threads','omp_get_num_threads')
def _omt(M): return 1
def cformat(M,fmt,args):
    out=b'';i=0;args=list(args)
    while i<len(fmt):
        c=fmt[i:i+1]
        if c!=b'%': out+=c;i+=1; continue
        m=re.match(rb'%([-+ #0]*)(\*|\d*)(\.(\*|\d+))?(hh|h|ll|l|L|z)?([a-zA-Z%])',fmt[i:])
        if not m: raise Undecided('format '+repr(fmt))
        i+=m.end(); cv=m.group(6)
        if cv==b'%': out+=b'%'; continue
        w=m.group(2); pr=m.group(4)
        if w==b'*': w=str(args.pop(0)).encode()
        if pr==b'*': pr=str(args.pop(0)).encode()
        spec='%'+m.group(1).decode()+w.decode()+('.'+pr.decode() if pr is not None else '')
        a=args.pop(0)
        if cv==b's': a=M.cstr(a).decode('latin1'); out+=(spec+'s').__mod__(a).encode('latin1')
        elif cv in b'di': out+=((spec+'d')%a).encode()
        elif cv in b'u': out+=((spec+'d')%(a&0xffffffff)).encode()
        elif cv in b'xXo': out+=((spec+cv.decode())%a).encode()
        elif cv==b'c': out+=bytes([a&255])
        elif cv in b'geEfGF':
            v=T.num(a)
            if v is None or not T.numeric(a): raise Undecided('formatting a symbolic double')
            out+=((spec+cv.decode())%float(v)).encode()
        elif cv==b'p': out+=b'ptr'
        else: raise Undecided('format conv '+cv.decode())
    return out
@stub('sprintf')
def _sprintf(M,d,f,*a):
    b=cformat(M,M.cstr(f),a); M.putstr(d,b); return len(b)
@stub('snprintf')
def _snprintf(M,d,n,f,*a):
    b=cformat(M,M.cstr(f),a)
    if n>0: M.putstr(d,b[:n-1])
    return len(b)
@stub('qsort')
def _qsort(M,base,n,w,cmp):
    tmp=[]
    for i in range(n):
        o=Obj('q',w,None); _memcpy(M,Ptr(o,0),Ptr(base.o,base.f+i*w),w); tmp.append(o)
    tmp.sort(key=functools.cmp_to_key(lambda a,b:M.callp(cmp,[Ptr(a,0),Ptr(b,0)])))
    for i,o in enumerate(tmp): _memcpy(M,Ptr(base.o,base.f+i*w),Ptr(o,0),w)

def explore(mk,body,maxpaths=200):
    """mk(decisions)->Machine ; body(M)->result.  Runs every path; yields (M,result|exception)"""
    dec=[]; out=[]
    while True:
        M=mk(dec)
        try: r=body(M)
        except (PathEnd,Undecided,MemError,Infeasible) as e: r=e
        out.append((M,r))
        d=M.dec[:M.dpos]
        while d and d[-1] is False: d.pop()
        if not d: break
        d[-1]=False; dec=d
        if len(out)>=maxpaths: raise Undecided('too many paths')
    return out
def _ctype_tab(fn,sz):
    import ctypes
    lc=ctypes.CDLL(None); f=getattr(lc,fn); f.restype=ctypes.c_void_p
    base=ctypes.c_void_p.from_address(f()).value
    ct={2:ctypes.c_ushort,4:ctypes.c_int}[sz]
    return [ct.from_address(base+sz*i).value for i in range(-128,256)]
def _mkctype(fn,sz):
    def st(M):
        p=M.globs.get('#'+fn)
        if p is None:
            o=Obj(fn,384*sz,None,'global')
            for i,v in enumerate(_ctype_tab(fn,sz)): o.cells[i*sz]=(wrap(v,8*sz),sz)
            h=Obj(fn+'.p',8,None,'global'); h.cells[0]=(Ptr(o,128*sz),8); p=M.globs['#'+fn]=Ptr(h,0)
        return p
    return st
STUBS['__ctype_b_loc']=_mkctype('__ctype_b_loc',2)
STUBS['__ctype_tolower_loc']=_mkctype('__ctype_tolower_loc',4)
STUBS['__ctype_toupper_loc']=_mkctype('__ctype_toupper_loc',4)
@stub('strtok')
def _strtok(M,p,d):
    if p is None: p=getattr(M,'tokp',None)
    if p is None: return None
    return _strtok_at(M,p,d,lambda q:setattr(M,'tokp',q))
def _strtok_at(M,p,d,save):
    dl=M.cstr(d); x=M.cstr(p); i=0
    while i<len(x) and x[i] in dl: i+=1
    if i==len(x): save(None); return None
    j=i
    while j<len(x) and x[j] not in dl: j+=1
    if j<len(x): M.store(Ptr(p.o,p.f+j),0,1); save(Ptr(p.o,p.f+j+1))
    else: save(None)
    return Ptr(p.o,p.f+i)
@stub('strtok_r','__strtok_r')
def _strtok_r(M,p,d,sp):
    if p is None: p=M.load(sp,8,'p')
    if p is None: return None
    return _strtok_at(M,p,d,lambda q:M.store(sp,q,8))
@stub('sscanf','__isoc99_sscanf','__isoc23_sscanf')
def _sscanf(M,p,f,*a):
    fm=M.cstr(f); x=M.cstr(p); k=0;i=0;n=0
    while i<len(fm):
        c=fm[i:i+1]
        if c.isspace():
            while k<len(x) and x[k:k+1].isspace(): k+=1
            i+=1; continue
        if c!=b'%':
            if x[k:k+1]!=c: return n
            k+=1;i+=1; continue
        m=re.match(rb'%(\d*)(l|ll|h)?([a-z])',fm[i:])
        if not m: raise Undecided('sscanf '+repr(fm))
        i+=m.end(); cv=m.group(3)
        if cv in b'dfegs':
            while k<len(x) and x[k:k+1].isspace(): k+=1
        if k>=len(x) : return n if n or x.strip() else -1
        if cv==b'd': v,l=_numpre(x[k:],False)
        elif cv in b'feg': v,l=_numpre(x[k:],True)
        elif cv==b's':
            mm=re.match(rb'\S+',x[k:]); v,l=(mm.group(0),mm.end()) if mm else (None,0)
        else: raise Undecided('sscanf conv')
        if not v: return n
        if cv==b'd': M.store(a[n],int(v),4)
        elif cv==b's': M.putstr(a[n],v)
        else: M.store(a[n],T.fconst(float(v)),8)
        k+=l; n+=1
    return n
