"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) produced from /repo's C files.

Produces Module objects with struct layouts, global initialisers and functions made of
basic blocks with pre-decoded instructions (plain tuples)."""
import re, struct

# ---------------------------------------------------------------- types
class T:
    __slots__=('k','n','e','f','sz','al','offs')
    def __init__(s,k,n=None,e=None,f=None): s.k=k;s.n=n;s.e=e;s.f=f;s.sz=None
    def __repr__(s):
        return {'i':f'i{s.n}','f':f'f{s.n}','p':'ptr','a':f'[{s.n} x {s.e}]','s':'{%s}'%(s.f,),'v':'void','l':'label','m':'md','x':f'<{s.n} x {s.e}>','named':str(s.n)}[s.k]
PTR=T('p'); VOID=T('v'); LABEL=T('l'); MD=T('m')
_ints={}
def INT(n):
    if n not in _ints: _ints[n]=T('i',n)
    return _ints[n]
F64=T('f',64); F32=T('f',32); F80=T('f',80)

class IRError(Exception): pass

TOK=re.compile(r'''\s*(?:
 (?P<str>c"[^"]*")|(?P<qname>[%@]"[^"]*")|(?P<name>[%@][-a-zA-Z$._0-9]+)|(?P<md>![-a-zA-Z$._0-9]*)|(?P<qs>"[^"]*")|
 (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|(?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+)|(?P<attr>\#\d+)|
 (?P<dots>\.\.\.)|(?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)|(?P<p>[][(){}<>,=*:|])
)''',re.X)

def tokenize(s):
    out=[];i=0;n=len(s)
    while i<n:
        m=TOK.match(s,i)
        if not m:
            if s[i:].strip()=='' : break
            raise IRError('tok '+s[i:i+60])
        i=m.end()
        k=m.lastgroup; v=m.group(k)
        if k=='qname': v=v[0]+v[2:-1]; k='name'
        out.append((k,v))
    out.append(('eof',''))
    return out

PARAM_ATTRS={'noundef','nocapture','readonly','writeonly','noalias','signext','zeroext','nonnull','returned','immarg','readnone','inreg','nest','byval','sret','align','dereferenceable','dereferenceable_or_null','nofree','noreturn','inrange','swiftself','allocptr','allocalign','writable','dead_on_unwind'}
FLAGS={'nuw','nsw','exact','inbounds','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint','nneg','volatile','tail','musttail','notail','fastcc','ccc','samesign'}

class P:
    def __init__(s,toks,mod): s.t=toks;s.i=0;s.m=mod
    def peek(s): return s.t[s.i]
    def next(s): r=s.t[s.i]; s.i+=1; return r
    def acc(s,v):
        if s.t[s.i][1]==v and s.t[s.i][0]!='str': s.i+=1; return True
        return False
    def exp(s,v):
        if not s.acc(v): raise IRError(f'expected {v} got {s.t[s.i]} in {" ".join(x[1] for x in s.t[:60])}')
    def skipflags(s):
        while s.peek()[0]=='word' and s.peek()[1] in FLAGS: s.i+=1
    def skipattrs(s):
        while True:
            k,v=s.peek()
            if k=='word' and v in PARAM_ATTRS:
                s.i+=1
                if v=='align':
                    if s.acc('('): s.next(); s.exp(')')
                    else: s.next()
                elif s.peek()[1]=='(':
                    d=0
                    while True:
                        w=s.next()[1]
                        if w=='(':d+=1
                        if w==')':
                            d-=1
                            if d==0: break
            elif k=='attr': s.i+=1
            else: break
    def type(s):
        k,v=s.next()
        if k=='word':
            if v=='ptr': t=PTR
            elif v=='void': t=VOID
            elif v=='label': t=LABEL
            elif v=='metadata': t=MD
            elif v=='double': t=F64
            elif v=='float': t=F32
            elif v=='x86_fp80': t=F80
            elif re.fullmatch(r'i\d+',v): t=INT(int(v[1:]))
            elif v=='opaque': t=T('s',f=[])
            else: raise IRError('type '+v)
        elif k=='name': t=T('named',n=v)
        elif v=='[':
            n=int(s.next()[1]); s.exp('x'); e=s.type(); s.exp(']'); t=T('a',n,e)
        elif v=='{':
            f=[]
            if not s.acc('}'):
                while True:
                    f.append(s.type())
                    if s.acc('}'): break
                    s.exp(',')
            t=T('s',0,None,f)
        elif v=='<':
            if s.acc('{'):
                f=[]
                if not s.acc('}'):
                    while True:
                        f.append(s.type())
                        if s.acc('}'): break
                        s.exp(',')
                s.exp('>'); t=T('s',1,None,f)
            else:
                n=int(s.next()[1]); s.exp('x'); e=s.type(); s.exp('>'); t=T('x',n,e)
        else: raise IRError('type tok '+v)
        while True:
            if s.peek()[1]=='(' and s.peek()[0]=='p' and s.in_call_type():
                # function type
                d=0
                while True:
                    w=s.next()[1]
                    if w=='(':d+=1
                    if w==')':
                        d-=1
                        if d==0: break
                continue
            break
        return t
    callctx=False
    def in_call_type(s): return s.callctx
    def value(s,t):
        """operand of type t -> ('reg',name)|('glob',name)|('c',pyval)|('undef',)|('zero',t)|('ce',...)|('agg',[(t,v)..])"""
        s.skipattrs()
        k,v=s.next()
        if k=='name': return ('reg',v[1:]) if v[0]=='%' else ('glob',v[1:])
        if k=='num':
            if t.k=='f': return ('c',float(v))
            return ('c',int(v))
        if k=='hex': return ('c',hexfloat(v,t))
        if k=='word':
            if v=='true': return ('c',1)
            if v=='false': return ('c',0)
            if v=='null': return ('null',)
            if v in('undef','poison'): return ('undef',)
            if v=='zeroinitializer': return ('zero',t)
            if v=='none': return ('null',)
            if v in('getelementptr',):
                s.skipflags(); 
                if s.acc('inrange'):
                    while not s.acc(')'): s.next()
                s.exp('('); bt=s.type(); s.exp(','); pt=s.type(); pv=s.value(pt); idx=[]
                while s.acc(','):
                    s.skipattrs()
                    it=s.type(); idx.append((it,s.value(it)))
                s.exp(')')
                return ('ce','gep',bt,pv,idx)
            if v in('bitcast','ptrtoint','inttoptr','trunc','sext','zext','addrspacecast'):
                s.exp('('); ft=s.type(); fv=s.value(ft); s.exp('to'); tt=s.type(); s.exp(')')
                return ('ce',v,ft,fv,tt)
            if v in('add','sub','mul','icmp','shl'):
                pred=None
                s.skipflags()
                if v=='icmp': pred=s.next()[1]
                s.exp('('); ft=s.type(); a=s.value(ft); s.exp(','); s.type(); b=s.value(ft); s.exp(')')
                return ('ce',v,ft,a,b,pred)
            raise IRError('value '+v)
        if k=='str':
            return ('bytes',decode_cstr(v[2:-1]))
        if v in('[','{','<'):
            close={'[':']','{':'}','<':'>'}[v]; items=[]
            if v=='<' and s.peek()[1]=='{': s.next(); close='}>'
            c0=close[0]
            if not s.acc(c0):
                while True:
                    it=s.type(); items.append((it,s.value(it)))
                    if s.acc(c0): break
                    s.exp(',')
            if close=='}>': s.exp('>')
            return ('agg',items)
        raise IRError(f'value tok {k} {v}')

def decode_cstr(s):
    b=bytearray();i=0
    while i<len(s):
        if s[i]=='\\':
            if s[i+1]=='\\': b.append(92); i+=2
            else: b.append(int(s[i+1:i+3],16)); i+=3
        else: b.append(ord(s[i])); i+=1
    return bytes(b)

def hexfloat(v,t):
    if v.startswith('0xK'):
        x=int(v[3:],16); sign=-1 if x>>79 else 1; e=(x>>64)&0x7fff; m=x&((1<<64)-1)
        if m==0 and e==0: return 0.0
        if e==0x7fff: return float('inf')*sign if m==1<<63 else float('nan')
        from fractions import Fraction
        fr=Fraction(m)*(Fraction(2)**(e-16383-63))*sign
        return fr
    if v.startswith('0x') and v[2] in 'LMHR': raise IRError('float '+v)
    return struct.unpack('>d',int(v[2:],16).to_bytes(8,'big'))[0]

class Func:
    __slots__=('name','ret','params','blocks','order','decl','vararg','attrs','loops','module')
class Mod: pass

class Module:
    def __init__(s,text,fname=''):
        s.structs={}; s.globals={}; s.funcs={}; s.decls={}; s.fname=fname; s.aliases={}
        s.parse(text)
    # ---- layout
    def res(s,t):
        while t.k=='named': t=s.structs[t.n]
        return t
    def layout(s,t):
        if t.sz is not None: return t
        if t.k=='named':
            r=s.layout(s.structs[t.n]); t.sz=r.sz; t.al=r.al
            return t
        if t.k=='i':
            b=(t.n+7)//8; p=1
            while p<b: p*=2
            t.sz=p; t.al=min(p,16)
        elif t.k=='f': t.sz,t.al={64:(8,8),32:(4,4),80:(16,16)}[t.n]
        elif t.k=='p': t.sz=t.al=8
        elif t.k=='a': s.layout(t.e); t.sz=t.n*t.e.sz; t.al=t.e.al
        elif t.k=='s':
            o=0;al=1;offs=[]
            for f in t.f:
                s.layout(f); a=1 if t.n==1 else f.al
                o=(o+a-1)//a*a; offs.append(o); o+=f.sz; al=max(al,a)
            o=(o+al-1)//al*al; t.sz=o;t.al=al;t.offs=offs
        elif t.k=='x': s.layout(t.e); t.sz=t.n*t.e.sz; t.al=t.sz
        else: t.sz=0;t.al=1
        return t
    def size(s,t): return s.layout(t).sz
    def offs(s,t): t=s.res(t); s.layout(t); return t.offs
    # ---- parse
    def parse(s,text):
        lines=text.split('\n'); i=0; n=len(lines)
        while i<n:
            ln=lines[i]
            if ln.startswith('define'):
                j=i
                while lines[j]!='}': j+=1
                s.parse_func(lines[i:j]); i=j+1; continue
            if ln.startswith('declare'):
                m=re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(',ln); s.decls[m.group(1).strip('"')]=ln
            elif ln.startswith('%'):
                m=re.match(r'(%"[^"]*"|%[-a-zA-Z$._0-9]+) = type (.*)$',ln)
                nm=m.group(1).replace('"',''); 
                if m.group(2).strip()=='opaque': s.structs[nm]=T('s',0,None,[])
                else: s.structs[nm]=P(tokenize(m.group(2)),s).type()
            elif ln.startswith('@'):
                s.parse_global(ln)
            i+=1
    def parse_global(s,ln):
        m=re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$',ln); nm=m.group(1).strip('"'); rest=m.group(2)
        p=P(tokenize(rest),s); const=False; ext=False
        while True:
            k,v=p.peek()
            if v in('global','constant'): const=(v=='constant'); p.next(); break
            if v=='external': ext=True
            if v=='alias': return
            p.next()
            if k=='eof': raise IRError('global '+ln)
        t=p.type(); init=None
        if not ext and p.peek()[1] not in(',','') : init=p.value(t)
        s.globals[nm]=(t,init,const)
    def parse_func(s,lines):
        hdr=lines[0]
        m=re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(',hdr); nm=m.group(1).strip('"')
        pre=hdr[:m.start()]
        f=Func(); f.name=nm; f.decl=False; f.vararg=False; f.module=s
        words=pre.split()
        # return type is last token(s) in pre
        tt=tokenize(pre[len('define'):])
        pp=P(tt,s)
        while True:
            k,v=pp.peek()
            if k=='word' and (v in('dso_local','internal','external','hidden','linkonce_odr','weak','private','fastcc','ccc','available_externally','protected','noalias','noundef','zeroext','signext','nonnull','unnamed_addr','local_unnamed_addr') ): pp.next(); continue
            if k=='word' and v in('dereferenceable','dereferenceable_or_null','align'):
                pp.next()
                if pp.acc('('): pp.next(); pp.exp(')')
                else: pp.next()
                continue
            break
        f.ret=pp.type()
        # params
        p=P(tokenize(hdr[m.end():]),s); f.params=[]; cnt=0
        if not p.acc(')'):
            while True:
                if p.acc('...'): f.vararg=True; p.exp(')'); break
                t=p.type(); p.skipattrs(); k,v=p.peek()
                if k=='name': p.next(); f.params.append((t,v[1:]))
                else: f.params.append((t,str(cnt)))
                cnt+=1
                if p.acc(')'): break
                p.exp(',')
        f.blocks={}; f.order=[]; cur=None
        entry=str(len(f.params))
        i=1;n=len(lines); label=None
        buf=[]
        def start(lbl):
            f.blocks[lbl]=[]; f.order.append(lbl); return f.blocks[lbl]
        while i<n:
            ln=lines[i]
            i+=1
            if not ln.strip() or ln.lstrip().startswith(';'): continue
            if not ln.startswith(' '):
                mm=re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):',ln)
                cur=start(mm.group(1).strip('"')); continue
            if cur is None: cur=start(entry)
            st=ln.strip()
            # multi-line switch
            if st.startswith('switch') and st.endswith('['):
                while not lines[i].strip().startswith(']'): st+=' '+lines[i].strip(); i+=1
                st+=' ]'; i+=1
            cur.append(s.parse_inst(st))
        s.funcs[nm]=f
    def parse_inst(s,st):
        # strip metadata / comments
        c=st.find(', !')
        if c>=0 and '"' not in st: st=st[:c]
        toks=tokenize(st)
        p=P(toks,s)
        dst=None
        if p.peek()[0]=='name' and toks[1][1]=='=':
            dst=p.next()[1][1:]; p.next()
        k,op=p.next()
        if op in('tail','musttail','notail'): k,op=p.next()
        if op in('add','sub','mul','sdiv','udiv','srem','urem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
            p.skipflags(); t=p.type(); a=p.value(t); p.exp(','); b=p.value(t)
            return (op,dst,t,a,b)
        if op=='fneg':
            p.skipflags(); t=p.type(); a=p.value(t); return (op,dst,t,a)
        if op in('icmp','fcmp'):
            p.skipflags(); pred=p.next()[1]; t=p.type(); a=p.value(t); p.exp(','); b=p.value(t)
            return (op,dst,pred,t,a,b)
        if op in('sext','zext','trunc','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc','bitcast','ptrtoint','inttoptr','addrspacecast'):
            p.skipflags(); t=p.type(); a=p.value(t); p.exp('to'); t2=p.type()
            return (op,dst,t,a,t2)
        if op=='load':
            p.skipflags(); t=p.type(); p.exp(','); pt=p.type(); a=p.value(pt); return (op,dst,t,a)
        if op=='store':
            p.skipflags(); t=p.type(); v=p.value(t); p.exp(','); pt=p.type(); a=p.value(pt); return (op,None,t,v,a)
        if op=='alloca':
            t=p.type(); cnt=None
            if p.acc(','):
                if p.peek()[1]!='align':
                    it=p.type(); cnt=(it,p.value(it))
            return (op,dst,t,cnt)
        if op=='getelementptr':
            p.skipflags(); bt=p.type(); p.exp(','); pt=p.type(); a=p.value(pt); idx=[]
            while p.acc(','):
                it=p.type(); idx.append((it,p.value(it)))
            return ('gep',dst,bt,a,idx)
        if op=='br':
            if p.peek()[1]=='label':
                p.next(); return ('br',None,p.next()[1][1:])
            t=p.type(); c=p.value(t); p.exp(','); p.exp('label'); a=p.next()[1][1:]; p.exp(','); p.exp('label'); b=p.next()[1][1:]
            return ('cbr',None,c,a,b)
        if op=='switch':
            t=p.type(); v=p.value(t); p.exp(','); p.exp('label'); d=p.next()[1][1:]; p.exp('['); cs=[]
            while not p.acc(']'):
                ct=p.type(); cv=p.value(ct); p.exp(','); p.exp('label'); cs.append((cv[1],p.next()[1][1:]))
            return ('switch',None,t,v,d,cs)
        if op=='ret':
            t=p.type()
            return ('ret',None,t,None if t.k=='v' else p.value(t))
        if op=='phi':
            p.skipflags(); t=p.type(); inc=[]
            while True:
                p.exp('['); v=p.value(t); p.exp(','); b=p.next()[1][1:]; p.exp(']'); inc.append((v,b))
                if not p.acc(','): break
            return ('phi',dst,t,inc)
        if op=='select':
            p.skipflags(); t=p.type(); c=p.value(t); p.exp(','); t1=p.type(); a=p.value(t1); p.exp(','); t2=p.type(); b=p.value(t2)
            return ('select',dst,t1,c,a,b)
        if op=='call':
            p.skipflags()
            p.skipattrs()
            p.callctx=True; t=p.type(); p.callctx=False
            callee=p.value(PTR)
            p.exp('('); args=[]
            if not p.acc(')'):
                while True:
                    at=p.type(); 
                    if at.k=='m':
                        d=0
                        while p.peek()[1] not in(',',')') : p.next()
                        args.append((at,None))
                    else: args.append((at,p.value(at)))
                    if p.acc(')'): break
                    p.exp(',')
            return ('call',dst,t,callee,args)
        if op=='unreachable': return ('unreachable',None)
        if op=='freeze':
            t=p.type(); a=p.value(t); return ('bitcast',dst,t,a,t)
        if op=='extractvalue':
            t=p.type(); a=p.value(t); idx=[]
            while p.acc(','): idx.append(int(p.next()[1]))
            return ('extractvalue',dst,t,a,idx)
        if op=='insertvalue':
            t=p.type(); a=p.value(t); p.exp(','); t2=p.type(); b=p.value(t2); idx=[]
            while p.acc(','): idx.append(int(p.next()[1]))
            return ('insertvalue',dst,t,a,t2,b,idx)
        if op=='va_arg': return ('va_arg',dst)
        raise IRError('inst '+st)
