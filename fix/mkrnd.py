"""Random HDF5 files written with libhdf5: types within types, layouts, filters, partial
writes, attributes of any type, groups; old and new formats."""
import random,struct,ctypes as C
from h5 import *
import h5
from mkh5 import *
INTS=[a+b for a in('STD_I','STD_U') for b in('8','16','32','64')]
def rint(r): return T[r.choice(INTS)+r.choice(['LE','BE'])] if False else None
def basics(r):
    k=r.choice(['i','i','i','f','s','v','e','o'])
    if k=='i':
        n=r.choice(['I8','U8','I16','U16','I32','U32','I64','U64']); e='BE' if r.random()<.4 else None
        if e: return T['STD_'+n+'BE']
        return T['NATIVE_'+('INT' if n[0]=='I' else 'UINT')+n[1:]]
    if k=='f': return T[r.choice(['NATIVE_FLOAT','NATIVE_DOUBLE','IEEE_F32BE','IEEE_F64BE'])]
    if k=='s': return fstr(r.choice([2,3,4,7,8,9,16]),r.choice([0,1]))
    if k=='v': return vstr()
    if k=='o':
        t=H5Tcreate(OPQ,r.choice([1,2,3,5,8,12])); H5Tset_tag(t,r.choice(['','t','tag of it']).encode()); return t
    b=r.choice(['I8','U8','I16','I32','U64']); bt=T['STD_'+b+'BE'] if r.random()<.3 else T['NATIVE_'+('INT' if b[0]=='I' else 'UINT')+b[1:]]
    t=H5Tenum_create(bt); z=H5Tget_size(bt)
    for i,v in enumerate([0]+r.sample(range(1,100),r.randint(0,4))):
        H5Tenum_insert(t,('M%d'%i+'x'*r.randint(0,9)).encode(),v.to_bytes(z,'big' if H5Tget_order(bt)==1 else 'little'))
    return t
def rtype(r,depth=0,novl=False):
    # libhdf5 loses lists and strings that are in arrays and in compounds in compounds when it converts them
    k=r.random()
    if depth>2 or k<.5:
        t=basics(r)
        while novl and hasvl(t): t=basics(r)
        return t
    if k<.75:
        ms=[(('f%d'%i)+'y'*r.randint(0,9),rtype(r,depth+1,novl or depth>0)) for i in range(r.randint(1,5))]
        gap=r.random()<.3; off=0; offs=[]
        for n,t in ms: offs.append(off); off+=H5Tget_size(t)+(r.randint(0,5) if gap else 0)
        t=H5Tcreate(CMP,off)
        for (n,m),o in zip(ms,offs): H5Tinsert(t,n.encode(),o,m)
        return t
    if k<.87 and not novl: return H5Tvlen_create(rtype(r,depth+1,depth>0))
    d=[r.randint(1,3) for _ in range(r.randint(1,2))]
    return H5Tarray_create2(rtype(r,depth+1,True),len(d),arr(d))
def keep(b):
    x=C.create_string_buffer(b,max(1,len(b))); KEEP.append(x); return C.addressof(x)
def enc(r,t):
    c=H5Tget_class(t); n=H5Tget_size(t)
    if c==INT: return bytes([r.choice([0,0xff,0x7f,0x80,r.randrange(256)]) for _ in range(n)]) if r.random()<.7 else bytes(n)
    if c==FLOAT: return struct.pack(('>' if H5Tget_order(t)==1 else '<')+('f' if n==4 else 'd'),r.choice([0,1.5,-2.25,1e30,r.uniform(-1e5,1e5)]))
    if c==STR:
        s=''.join(r.choice('abcXYZ .09') for _ in range(r.randint(0,7))).strip()
        if H5Tis_variable_str(t)>0: return struct.pack('<Q',keep(s.encode()+b'\0'))
        return s.encode()[:n-1].ljust(n,b'\0')
    if c==OPQ: return bytes(r.randrange(256) for _ in range(n))
    if c==CMP:
        b=bytearray(n)
        for i in range(H5Tget_nmembers(t)):
            o=H5Tget_member_offset(t,i); m=H5Tget_member_type(t,i); e=enc(r,m); b[o:o+len(e)]=e
        return bytes(b)
    if c==ENUM:
        b=C.create_string_buffer(16); H5Tget_member_value(t,r.randrange(H5Tget_nmembers(t)),b); return b.raw[:n]
    if c==VLEN:
        s=H5Tget_super(t); k=r.choice([0,1,1,2,3]); return struct.pack('<QQ',k,keep(b''.join(enc(r,s) for _ in range(k))) if k else 0)
    if c==ARR:
        s=H5Tget_super(t); return b''.join(enc(r,s) for _ in range(n//H5Tget_size(s)))
    raise RuntimeError('class')
def rdata(r,t,n): return b''.join(enc(r,t) for _ in range(n))
def prod(s):
    p=1
    for x in s: p*=x
    return p
def hasvl(t):
    c=H5Tget_class(t)
    if c==VLEN or c==STR and H5Tis_variable_str(t)>0: return True
    if c==CMP: return any(hasvl(H5Tget_member_type(t,i)) for i in range(H5Tget_nmembers(t)))
    if c==ARR: return hasvl(H5Tget_super(t))
    return False
def rfile(p,seed):
    r=random.Random(seed); low,high=r.choice([(0,1),(0,1),(1,1),(0,0) if False else (1,1)]); order=r.random()<.5
    f=fcreate(p,low,high,order=order); cnt=[0]
    def nm(x): cnt[0]+=1; return x+r.choice(['','_','é','long'*r.randint(1,9)])+str(cnt[0])
    def attrs(o):
        for _ in range(r.choice([0,0,1,2,3,12])):
            t=rtype(r); sh=r.choice([None,None,[1],[r.randint(2,4)],[2,r.randint(1,3)]])
            att(o,nm('a').encode(),t,sh,rdata(r,t,prod(sh or [])))
    def fill(g,depth):
        for _ in range(r.randint(1,5)):
            t=rtype(r) if r.random()<.6 else basics(r); sh=r.choice([None,[r.randint(1,9)],[r.randint(1,12)],[r.randint(1,6),r.randint(1,6)],[r.randint(1,5) for _ in range(3)],[r.randint(1,3) for _ in range(4)]])
            k={}; mx=None; lay=r.choice(['contig','compact','chunk','chunk','chunk']) if sh else r.choice(['contig','compact']); n=prod(sh or [])
            vlt=hasvl(t)
            if lay=='compact' and n*H5Tget_size(t)>3000: lay='contig'
            if lay=='compact': k['layout']=0
            if lay=='chunk':
                k['chunk']=[r.randint(1,x+1) for x in sh]; mx=[None if r.random()<.3 else max(x,c)+r.randint(0,5) for x,c in zip(sh,k['chunk'])] 
                if not vlt or r.random()<.5:
                    if r.random()<.4: k['deflate']=r.randint(0,9)
                    if r.random()<.4: k['shuffle']=True
                    if r.random()<.4: k['fletcher']=True
            if r.random()<.3: k['alloc']=r.choice([1,2,3]) if lay!='compact' else 1
            if not vlt and r.random()<.4: k['fill']=(t,enc(r,t)); k['filltime']=r.choice([0,2])
            if order or r.random()<.3: k['order']=True
            d=ds(g,nm('v').encode(),t,sh,mx=mx,**k)
            w=r.choice(['all','all','all','part','none'])
            if vlt: w='all' if n else 'none'
            if w=='all': H5Dwrite(d,t,0,0,0,rdata(r,t,n))
            if w=='part' and sh:
                for _ in range(r.randint(1,3)):
                    st=[r.randrange(x) for x in sh]; ct=[r.randint(1,x-s) for x,s in zip(sh,st)]; part(d,t,st,ct,rdata(r,t,prod(ct)))
            if mx and not vlt and r.random()<.4:
                new=[r.randint(0,x+3) if m is None else r.randint(0,m) for x,m in zip(sh,mx)]; H5Dset_extent(d,arr(new))
            attrs(d); H5Dclose(d)
        if depth<2:
            for _ in range(r.choice([0,0,1,2])):
                s=group(g,nm('g').encode(),order=order); attrs(s); fill(s,depth+1); H5Gclose(s)
    attrs(f) if False else None
    g=H5Gopen2(f,'/',0); attrs(g); fill(g,0); H5Gclose(g); H5Fclose(f)
def make_rnd(want,save,TMP,n):
    for s in range(1,n+1):
        nme='rh5-%03d'%s
        if not want(nme): continue
        p=f'{TMP}/{nme}.h5'; KEEP.clear()
        try: rfile(p,s)
        except RuntimeError as e: print(nme,'not made:',e); continue
        save(nme,p,False)
