"""Files in both worlds.
Deductive: a disk model (path -> list of bytes; a byte of a stored double is the pair (value,position), so symbolic values can be written and
read back), with the C library functions the code uses as trusted models.  Writes can be made to fail after a given number of bytes.
Real: a scratch directory; the shared library's destructive calls are confined to it (csrc/vwrap.c)."""
import os,tempfile,shutil,ctypes,build
from exec import *
from exec import cformat
import exec as X
class FileP:
    def __init__(s,path,mode): s.path=path; s.mode=mode; s.pos=0; s.eof=False; s.err=False; s.open=True
class Disk:
    def __init__(s,W):
        s.W=W; s.M=M=W.M; s.f={}; s.dirs=set(); s.log=[]; s.handles={}; s.room=None; s.lost=False; s.opened=[]; s.calls=[]
        S=M.stubs
        for n in ('fopen','fclose','fgetc','getc','fputc','putc','fputs','fprintf','fwrite','fread','feof','ferror','fflush','rename','remove','mkdir','rmdir','unlink','system','fgetpos','fsetpos','rewind','fgets','ftell','fseek','sscanf','opendir','readdir','closedir','stat','lstat'):
            S[n]=getattr(s,'c_'+n)
        S['getc']=s.c_fgetc
    def text(s,p): return s.M.cstr(p).decode('latin1')
    def path(s,p): x=s.text(p); return os.path.normpath(x) if x else ''
    def isdir(s,a): return a in s.dirs or any(x.startswith(a+'/') for x in s.f)
    def c_opendir(s,M,p):
        a=s.path(p)
        if not a or not s.isdir(a): return None
        o=Obj('DIR',64,'zero'); names={x[len(a)+1:].split('/')[0] for x in list(s.f)+list(s.dirs) if x.startswith(a+'/')}
        s.handles[o]=['.','..']+sorted(names); return Ptr(o,0)
    def c_readdir(s,M,d):
        l=s.handles[d.o]
        if not l: return None
        e=Ptr(Obj('dirent',280,'zero'),0); M.putstr(Ptr(e.o,19),l.pop(0).encode()); return e
    def c_closedir(s,M,d): s.handles.pop(d.o,None); return 0
    def c_lstat(s,M,p,b):
        a=s.path(p); m=0o040755 if s.isdir(a) else 0o100644 if a in s.f else None
        if m is None: return -1
        M.store(Ptr(b.o,b.f+24),m,4); return 0
    c_stat=c_lstat
    def h(s,fp):
        if fp is None: raise MemError('NULL FILE')
        h=s.handles.get(fp.o) if type(fp) is Ptr else None
        if h is None: return None
        if not h.open: raise MemError('use of closed FILE')
        return h
    def c_fopen(s,M,p,m):
        path=s.path(p); mode=s.text(m); s.calls.append(('fopen',path,mode))
        if mode[0]=='r':
            if path not in s.f: return None
        elif mode[0]=='w': s.f[path]=[]
        elif path not in s.f: s.f[path]=[]
        o=Obj('FILE',216,'zero'); s.handles[o]=FileP(path,mode)
        if mode[0]=='a': s.handles[o].pos=len(s.f[path])
        s.handles[o].data=s.f[path]
        return Ptr(o,0)
    def c_fclose(s,M,fp):
        h=s.h(fp); h.open=False; return -1 if h.err else 0
    def put(s,h,bs):
        if h.mode[0]=='r' and '+' not in h.mode: raise MemError('write to a file opened for reading')
        d=h.data; n=len(bs)
        if s.room is not None:
            k=max(0,min(n,s.room)); s.room-=k
            if k<n: h.err=True; s.lost=True
            bs=bs[:k]
        d[h.pos:h.pos+len(bs)]=bs; h.pos+=len(bs); return len(bs)
    def c_fgetc(s,M,fp):
        h=s.h(fp)
        if h.pos>=len(h.data): h.eof=True; return -1
        c=h.data[h.pos]; h.pos+=1
        return c if type(c) is int else UNDEF
    c_getc=c_fgetc
    def c_fputc(s,M,c,fp):
        h=s.h(fp); return c if h is None or s.put(h,[c&255]) else -1
    c_putc=c_fputc
    def c_fputs(s,M,p,fp):
        h=s.h(fp); b=M.cstr(p); return 0 if h is None or s.put(h,list(b))==len(b) else -1
    def c_fprintf(s,M,fp,f,*a):
        h=s.h(fp)
        if h is None: return 0
        b=cformat(M,M.cstr(f),a); return len(b) if s.put(h,list(b))==len(b) else -1
    def c_fwrite(s,M,p,sz,n,fp):
        h=s.h(fp); N=sz*n; bs=[]
        if h is None: return n
        if N==0: return 0
        M.bound(p,N,'read'); k=0
        while k<N:
            c=p.o.cells.get(p.f+k)
            if k%8==0 and k+8<=N and (c is None or c[1]==8):
                v=M.load(Ptr(p.o,p.f+k),8,'d'); bs+=[(T.lift(v),j) for j in range(8)]; k+=8
            else: bs.append(s.byte(p,k)); k+=1
        return s.put(h,bs)//sz
    def byte(s,p,k):
        v=s.M.load(Ptr(p.o,p.f+k),1,'i')
        return v&255 if type(v) is int else v
    def c_fread(s,M,p,sz,n,fp):
        h=s.h(fp); N=min(sz*n,len(h.data)-h.pos)
        if N<sz*n: h.eof=True
        bs=h.data[h.pos:h.pos+N]; h.pos+=N; k=0
        while k<N:
            b=bs[k]
            if type(b) is tuple:
                if b[1]!=0 or k+8>N or any(bs[k+j]!=(b[0],j) for j in range(8)):
                    for j in range(k,N): s.M.store(Ptr(p.o,p.f+j),bs[j] if type(bs[j]) is int else UNDEF,1)
                    s.torn=True; break
                M.store(Ptr(p.o,p.f+k),b[0],8); k+=8
            else: M.store(Ptr(p.o,p.f+k),b if type(b) is not int or b<128 else b-256,1); k+=1
        return N//sz
    def c_fgets(s,M,p,n,fp):
        h=s.h(fp); out=[]
        while len(out)<n-1 and h.pos<len(h.data):
            c=h.data[h.pos]; h.pos+=1; out.append(c)
            if c==10: break
        if not out: h.eof=True; return None
        M.putstr(p,bytes(out)); return p
    def c_feof(s,M,fp): return int(s.h(fp).eof)
    def c_ferror(s,M,fp): return int(s.h(fp).err)
    def c_fflush(s,M,fp=None):
        h=s.h(fp) if fp is not None else None
        return -1 if h is not None and h.err else 0
    def c_fgetpos(s,M,fp,pos): M.store(pos,s.h(fp).pos,8); return 0
    def c_fsetpos(s,M,fp,pos): h=s.h(fp); h.pos=M.load(pos,8,'i'); h.eof=False; return 0
    def c_ftell(s,M,fp): return s.h(fp).pos
    def c_fseek(s,M,fp,o,w): h=s.h(fp); h.pos=(0,h.pos,len(h.data))[w]+o; h.eof=False; return 0
    def c_rewind(s,M,fp): s.c_fseek(M,fp,0,0)
    def c_sscanf(s,M,p,f,*a):
        fm=M.cstr(f); x=M.cstr(p)
        if fm!=b'%s': raise Undecided('sscanf '+fm.decode())
        w=x.split()
        if not w: return -1
        M.putstr(a[0],w[0]); return 1
    def c_rename(s,M,a,b):
        a,b=s.path(a),s.path(b); s.calls.append(('rename',a,b))
        if a in s.f: s.f[b]=s.f.pop(a); return 0
        k=[x for x in s.f if x.startswith(a+'/')]
        if not k and a not in s.dirs: return -1
        if a in s.f or b in s.f or any(x.startswith(b+'/') for x in list(s.f)+list(s.dirs)): return -1
        for x in k: s.f[b+x[len(a):]]=s.f.pop(x)
        for x in [x for x in s.dirs if x.startswith(a+'/')]: s.dirs.discard(x); s.dirs.add(b+x[len(a):])
        s.dirs.discard(a); s.dirs.add(b); return 0
    def c_remove(s,M,a):
        a=s.path(a); s.calls.append(('remove',a)); r=(a in s.f or a in s.dirs) and not any(x.startswith(a+'/') for x in list(s.f)+list(s.dirs));
        if not r: return -1
        s.f.pop(a,None); s.dirs.discard(a); return 0 if r else -1
    c_unlink=c_remove; c_rmdir=c_remove
    def c_mkdir(s,M,a,m): a=s.path(a); s.calls.append(('mkdir',a)); r=s.isdir(a); s.dirs.add(a); return -1 if r else 0
    def c_system(s,M,a): s.calls.append(('system',s.text(a))); return 0
class Scratch:
    """real world scratch directory; the library's remove/rename/mkdir/... work only inside"""
    def __init__(s,W):
        s.W=W; s.dir=tempfile.mkdtemp(prefix='scr_',dir=build.BUILD)
        buf=(ctypes.c_char*4096).in_dll(W.lib,'vs_scratch') if not isinstance(W,str) else None
        buf.value=s.dir.encode()
    def close(s): shutil.rmtree(s.dir,ignore_errors=True)
    def __enter__(s): return s
    def __exit__(s,*a): s.close()
    def write(s,path,b): open(s.dir+'/'+path,'wb').write(b)
class Store:
    """same interface for both worlds: paths relative to a scratch directory"""
    def __init__(s,ctx):
        s.ctx=ctx
        if ctx.sym: s.d=Disk(ctx.W); s.dir='/scratch'; s.d.dirs.add(s.dir)
        else: s.r=Scratch(ctx.W); s.dir=s.r.dir
    def __enter__(s): return s
    def __exit__(s,*a):
        if not s.ctx.sym: s.r.close()
    def write(s,path,b):
        if s.ctx.sym: s.d.f[s.dir+'/'+path]=list(b)
        else: s.r.write(path,b)
    def read(s,path):
        if s.ctx.sym:
            d=s.d.f.get(s.dir+'/'+path); return None if d is None else list(d)
        try: return open(s.dir+'/'+path,'rb').read()
        except OSError: return None
    def ls(s):
        if s.ctx.sym: return sorted(x[len(s.dir)+1:] for x in s.d.f if x.startswith(s.dir+'/'))
        return sorted(os.path.relpath(os.path.join(a,f),s.dir) for a,_,fs in os.walk(s.dir) for f in fs)
    def mkdir(s,p):
        if s.ctx.sym: s.d.dirs.add(s.dir+'/'+p)
        else: os.makedirs(s.dir+'/'+p,exist_ok=True)
    def isdir(s,p): return (s.dir+'/'+p in s.d.dirs) if s.ctx.sym else os.path.isdir(s.dir+'/'+p)
