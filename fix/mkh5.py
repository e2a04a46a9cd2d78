"""HDF5 files written with libhdf5 directly: what netCDF tools do not produce on their own."""
import random,struct,ctypes as C
from h5 import *
import h5
DENSE,=[0]
def plist(c): return H5Pcreate(c)
def fapl(low=None,high=None):
    p=plist(P_FACC); H5Pset_fclose_degree(p,3)
    if low is not None: H5Pset_libver_bounds(p,low,high)
    return p
EARL,V18,V110=0,1,2
def fcreate(path,low=None,high=None,order=False,fcpl=None):
    fc=fcpl or plist(P_FILE)
    if order: H5Pset_link_creation_order(fc,3); H5Pset_attr_creation_order(fc,3)
    return H5Fcreate(path,2,fc,fapl(low,high))
def space(shape,mx=None):
    if shape is None: return H5Screate(0)
    if shape=='null': return H5Screate(2)
    return H5Screate_simple(len(shape),arr(shape),arr([UNL if m is None else m for m in mx]) if mx else None)
def dcpl(chunk=None,deflate=None,shuffle=False,fletcher=False,layout=None,fill=None,alloc=None,order=False,filltime=None,phase=None):
    p=plist(P_DCR)
    if layout is not None: H5Pset_layout(p,layout)
    if chunk: H5Pset_chunk(p,len(chunk),arr(chunk))
    if shuffle: H5Pset_shuffle(p)
    if deflate is not None: H5Pset_deflate(p,deflate)
    if fletcher: H5Pset_fletcher32(p)
    if fill: H5Pset_fill_value(p,fill[0],fill[1])
    if alloc is not None: H5Pset_alloc_time(p,alloc)
    if filltime is not None: H5Pset_fill_time(p,filltime)
    if order: H5Pset_attr_creation_order(p,3)
    if phase: H5Pset_attr_phase_change(p,*phase)
    H5Pset_obj_track_times(p,0)
    return p
def ds(f,name,t,shape,data=None,mx=None,**k):
    d=H5Dcreate2(f,name,t,space(shape,mx),0,dcpl(**k),0)
    if data is not None: H5Dwrite(d,t,0,0,0,data)
    return d
def part(d,t,start,count,data):
    s=H5Dget_space(d); H5Sselect_hyperslab(s,0,arr(start),None,arr(count),None); m=H5Screate_simple(len(count),arr(count),None)
    H5Dwrite(d,t,m,s,0,data)
def att(o,name,t,shape,data):
    a=H5Acreate2(o,name,t,space(shape),0,0)
    if data is not None: H5Awrite(a,t,data)
    H5Aclose(a)
def group(f,name,order=False,**k):
    g=plist(P_GCR)
    if order: H5Pset_link_creation_order(g,3); H5Pset_attr_creation_order(g,3)
    if 'phase' in k: H5Pset_link_phase_change(g,*k['phase'])
    H5Pset_obj_track_times(g,0)
    return H5Gcreate2(f,name,0,g,0)
def ints(r,n,fmt='i',lo=-1000,hi=1000): return struct.pack('<%d%s'%(n,fmt),*[r.randint(lo,hi) for _ in range(n)])
def dbl(r,n): return struct.pack('<%dd'%n,*[r.uniform(-1e6,1e6) for _ in range(n)])
I32=T['NATIVE_INT32']; F64=T['NATIVE_DOUBLE']; U8=T['NATIVE_UINT8']; I16=T['NATIVE_INT16']
def fstr(n,pad=0):
    t=H5Tcopy(T['C_S1']); H5Tset_size(t,n); H5Tset_strpad(t,pad); return t
def vstr():
    t=H5Tcopy(T['C_S1']); H5Tset_size(t,2**64-1); return t
def strs(xs):
    b=[C.c_char_p(x.encode('latin1')) for x in xs]; return (C.c_char_p*len(xs))(*[x.value for x in b])
class hvl(C.Structure): _fields_=[('n',C.c_size_t),('p',C.c_void_p)]
KEEP=[]
def vl(lists,fmt):
    a=(hvl*len(lists))()
    for i,l in enumerate(lists):
        b=l if isinstance(l,bytes) else struct.pack('<%d%s'%(len(l),fmt),*l); KEEP.append(C.create_string_buffer(b,max(1,len(b))))
        a[i].n=len(l) if not isinstance(l,bytes) else fmt(l); a[i].p=C.addressof(KEEP[-1])
    return a

CASES=[]
def case(f=None,**k):
    def w(f): CASES.append((f.__name__.replace('_','-'),f,k)); return f
    return w(f) if f else w

for low,high,sfx in ((0,1,'e'),(1,1,'18'),(1,2,'110')):
    def mk(low,high,sfx):
        def layouts(p):
            r=random.Random(7+low); f=fcreate(p,low,high)
            ds(f,'compact',I32,[3,4],ints(r,12),layout=0)
            ds(f,'contig',F64,[5,3],dbl(r,15))
            ds(f,'scalar',I32,None,ints(r,1))
            ds(f,'neverwritten',I32,[4])
            ds(f,'neverfill',I32,[4],fill=(I32,struct.pack('<i',77)))
            ds(f,'zero',I32,[0,3])
            ds(f,'nullspace',I32,'null') if False else None
            if sfx!='110':
                ds(f,'chunk1',I16,[10],ints(r,10,'h'),chunk=[4])
                ds(f,'chunk2',I32,[7,5],ints(r,35),chunk=[3,2])
                ds(f,'chunk3',U8,[5,4,6],ints(r,120,'B',0,255),chunk=[2,3,4],deflate=6,shuffle=True)
                ds(f,'fletch',I32,[7,5],ints(r,35),chunk=[3,2],fletcher=True)
                ds(f,'fletch8',U8,[11],ints(r,11,'B',0,255),chunk=[3],fletcher=True)
                ds(f,'allf',F64,[9,4],dbl(r,36),chunk=[4,3],deflate=9,shuffle=True,fletcher=True)
                d=ds(f,'sparse',I32,[20,20],mx=[None,None],chunk=[4,4],fill=(I32,struct.pack('<i',-9)))
                part(d,I32,[5,9],[3,7],ints(r,21)); part(d,I32,[17,0],[2,2],ints(r,4))
                ds(f,'unlim0',I32,[0],mx=[None],chunk=[8])
                ds(f,'nodata',F64,[6],chunk=[4],fill=(F64,struct.pack('<d',2.5)))
                d=ds(f,'grown',I32,[3],ints(r,3),mx=[None],chunk=[2],deflate=1); H5Dset_extent(d,arr([9]))
                d=ds(f,'shrunk',I32,[9],ints(r,9),mx=[None],chunk=[2]); H5Dset_extent(d,arr([4]))
                ds(f,'whole',I32,[6,6],ints(r,36),chunk=[6,6],shuffle=True)
                ds(f,'bigger',I32,[3],ints(r,3),mx=[None],chunk=[50],deflate=4)
                d=ds(f,'early',I32,[9],chunk=[4],alloc=1,fill=(I32,struct.pack('<i',5)),filltime=0)
                d=ds(f,'neverft',I32,[9],chunk=[4],alloc=3,fill=(I32,struct.pack('<i',6)),filltime=1); part(d,I32,[0],[9],ints(r,9))
            H5Fclose(f)
        layouts.__name__='h5-layouts-'+sfx; case(layouts)
        def types(p):
            r=random.Random(9+low); f=fcreate(p,low,high)
            for t in ['STD_I8BE','STD_U8BE','STD_I16BE','STD_U16BE','STD_I32BE','STD_U32BE','STD_I64BE','STD_U64BE','IEEE_F32BE','IEEE_F64BE','NATIVE_INT8','NATIVE_UINT8','NATIVE_INT16','NATIVE_UINT16','NATIVE_INT32','NATIVE_UINT32','NATIVE_INT64','NATIVE_UINT64','NATIVE_FLOAT','NATIVE_DOUBLE']:
                n=H5Tget_size(T[t]); ds(f,t.lower(),T[t],[2,3],bytes(r.randrange(256) for _ in range(6*n)) if not ('F32' in t or 'F64' in t or 'FLO' in t or 'DOU' in t) else b'\x40\x49\x0f\xdb\x01\x02\x03\x04'*6)
                att(f,'a_'+t.lower(),T[t],[3],b'\x40\x49\x0f\xdb\x01\x02\x03\x04'*3)
            t=fstr(5); ds(f,'fs',t,[3],b'abc\0\0hello\0\0\0\0\0'); ds(f,'fs0',t,None,b'xyz\0\0'); ds(f,'fs2',t,[2,2],b'abcdeabcd\0abc\0\0a\0\0\0\0')
            t1=fstr(1); ds(f,'ch',t1,[4],b'wxyz'); ds(f,'ch0',t1,None,b'q'); ds(f,'ch2',t1,[2,3],b'abcdef'); ds(f,'ch3',t1,[2,2,2],b'stuvwxyz')
            att(f,'fsa',t,[3],b'abc\0\0hello\0\0\0\0\0'); att(f,'fs1',t,[1],b'ab\0\0\0'); att(f,'fss',t,None,b'abcd\0'); att(f,'cha',t1,[4],b'wxyz'); att(f,'fs22',t,[2,2],b'abcdeabcd\0abc\0\0a\0\0\0\0')
            v=vstr(); ds(f,'vs',v,[3],strs(['','one','a longer string']));ds(f,'vs2',v,[2,2],strs(['a','bb','ccc','dddd'])); ds(f,'vs0',v,None,strs(['scalar'])); ds(f,'vsnull',v,[3])
            att(f,'vsa',v,[2],strs(['p','qq'])); att(f,'vss',v,None,strs(['one'])); att(f,'vs22',v,[2,2],strs(['a','bb','ccc','dddd']))
            H5Fclose(f)
        types.__name__='h5-types-'+sfx; case(types)
        def user(p):
            r=random.Random(11+low); f=fcreate(p,low,high)
            c=H5Tcreate(6,24); H5Tinsert(c,'a',0,I32); H5Tinsert(c,'b',8,F64); H5Tinsert(c,'c',18,I16)
            ds(f,'cmp',c,[3],bytes(range(72))); att(f,'cmpa',c,[2],bytes(range(48))); att(f,'cmp1',c,None,bytes(range(24)))
            one=H5Tcreate(6,4); H5Tinsert(one,'only',0,I32); att(f,'one',one,None,b'\1\0\0\0'); ds(f,'onev',one,[2],b'\1\0\0\0\2\0\0\0'); att(f,'onea',one,[1],b'\7\0\0\0')
            nest=H5Tcreate(6,40); H5Tinsert(nest,'in',8,c); H5Tinsert(nest,'x',0,U8); H5Tinsert(nest,'ar',32,H5Tarray_create2(I16,2,arr([2,2])))
            ds(f,'nest',nest,[2],bytes(range(80)))
            en=H5Tenum_create(T['NATIVE_INT16'])
            for i,n in enumerate(['RED','GREEN','BLUE']): H5Tenum_insert(en,n,struct.pack('<h',i*100-100))
            ds(f,'en',en,[4],struct.pack('<4h',-100,0,100,0)); att(f,'ena',en,[2],struct.pack('<2h',100,0)); att(f,'en1',en,None,struct.pack('<h',100)); ds(f,'en0',en,None,struct.pack('<h',0))
            enb=H5Tenum_create(T['STD_I32BE'])
            for i,n in enumerate(['ONE','TWO']): H5Tenum_insert(enb,n,struct.pack('>i',i+1))
            ds(f,'enb',enb,[2],struct.pack('>2i',2,1))
            op=H5Tcreate(5,7); H5Tset_tag(op,b'my tag'); ds(f,'op',op,[2],bytes(range(14))); att(f,'opa',op,None,bytes(range(7))); ds(f,'op0',op,None,bytes(7))
            v=H5Tvlen_create(I32); ds(f,'vl',v,[3],vl([[1,2,3],[],[-4]],'i')); att(f,'vla',v,[2],vl([[5],[6,7]],'i')); ds(f,'vl2',v,[2,2],vl([[1],[2,3],[],[4,5,6]],'i'))
            vc=H5Tvlen_create(c); ds(f,'vlc',vc,[2],vl([bytes(range(48)),bytes(range(24))],lambda b:len(b)//24))
            vv=H5Tvlen_create(v); a=vl([[1,2],[3]],'i'); KEEP.append(a); b=(hvl*2)(); b[0].n=2; b[0].p=C.addressof(a); ds(f,'vlv',vv,[2],b)
            ar=H5Tarray_create2(I32,2,arr([2,3])); ds(f,'arr',ar,[2],ints(r,12)); att(f,'arra',ar,None,ints(r,6)); ds(f,'arr0',ar,None,ints(r,6))
            ac=H5Tarray_create2(c,1,arr([2])); ds(f,'arc',ac,[2],bytes(range(96)))
            ae=H5Tarray_create2(en,1,arr([2])); ds(f,'are',ae,[2],struct.pack('<4h',-100,0,100,0))
            cs=H5Tcreate(6,32); H5Tinsert(cs,'s',0,vstr()); H5Tinsert(cs,'v',8,v); H5Tinsert(cs,'f',24,fstr(6))
            l=vl([[9,8]],'i'); sbuf=C.create_string_buffer(b'text'); KEEP.append(sbuf)
            ds(f,'cs',cs,[1],struct.pack('<QQQ',C.addressof(sbuf),l[0].n,l[0].p)+b'fixed\0\0\0')
            if sfx!='110':
                ds(f,'cmpz',c,[7],bytes(i%251 for i in range(168)),chunk=[3],deflate=5,shuffle=True,fletcher=True)
                ds(f,'cmpfill',c,[3],chunk=[2],fill=(c,bytes(range(100,124))))
                ds(f,'enz',en,[5],struct.pack('<5h',-100,0,100,0,0),chunk=[2],deflate=5)
                ds(f,'opz',op,[4],bytes(range(28)),chunk=[3],fletcher=True)
                ds(f,'arz',ar,[3],ints(r,18),chunk=[2],deflate=2,shuffle=True)
                ds(f,'vlz',v,[4],vl([[1,2,3],[],[-4],[8,9]],'i'),chunk=[3],deflate=1)
            H5Fclose(f)
        user.__name__='h5-user-'+sfx; case(user)
    mk(low,high,sfx)

def mixed(p,low):
    """every kind of member before every other"""
    f=fcreate(p,low,1)
    op=H5Tcreate(5,5); H5Tset_tag(op,b'a tag of more than eight'); op0=H5Tcreate(5,3); H5Tset_tag(op0,b'')
    en=H5Tenum_create(T['NATIVE_INT8'])
    for i,n in enumerate(['A','BB','CCC_long_name']): H5Tenum_insert(en,n,struct.pack('<b',i))
    inner=H5Tcreate(6,12); H5Tinsert(inner,'o',0,op); H5Tinsert(inner,'i',8,I32)
    v=H5Tvlen_create(I16); ar=H5Tarray_create2(op0,1,arr([2])); ai=H5Tarray_create2(inner,2,arr([2,1]))
    r=random.Random(77)
    parts=[('op',op,5),('op0',op0,3),('en',en,1),('inner',inner,12),('ar',ar,6),('ai',ai,24),('fs',fstr(4),4),('i',I32,4),('be',T['STD_I16BE'],2),('d',T['IEEE_F64BE'],8)]
    for k in range(8):
        ps=list(parts); r.shuffle(ps); off=0; mem=[]
        for n,t,z in ps: off+=r.choice([0,0,1,3]); mem.append((n,t,off)); off+=z
        if k%2: r.shuffle(mem)
        off+=r.choice([0,2]); c=H5Tcreate(6,off)
        for n,t,o in mem: H5Tinsert(c,n,o,t)
        raw=bytearray(r.randrange(1,120) for _ in range(2*off))
        for n,t,o in mem:
            if n=='en':
                for e in range(2): raw[e*off+o]=r.randrange(3)
            if n=='d':
                for e in range(2): raw[e*off+o:e*off+o+8]=struct.pack('>d',r.random())
        ds(f,'c%d'%k,c,[2],bytes(raw)); att(f,'a%d'%k,c,None,bytes(raw[:off]))
        vc=H5Tvlen_create(c); ds(f,'v%d'%k,vc,[2],vl([bytes(raw),bytes(raw[:off])],lambda b,o=off:len(b)//o))
    cv=H5Tcreate(6,24); H5Tinsert(cv,'o',16,op); H5Tinsert(cv,'v',0,v); l=vl([[9,8,-7]],'h')
    ds(f,'cv',cv,[1],struct.pack('<QQ',l[0].n,l[0].p)+b'12345678')
    H5Fclose(f)
@case
def h5_mixed_old(p): mixed(p,0)
@case
def h5_mixed_18(p): mixed(p,1)
@case
def h5_big_enum_compound(p):
    f=fcreate(p)
    for n,b,fm in ((300,'NATIVE_INT16','h'),(256,'NATIVE_UINT8','B'),(257,'NATIVE_INT32','i')):
        en=H5Tenum_create(T[b])
        for i in range(n): H5Tenum_insert(en,'M%d'%i,struct.pack('<'+fm,i))
        ds(f,'en%d'%n,en,[3],struct.pack('<3'+fm,0,n//2,n-1))
    for n in (255,256,300):
        c=H5Tcreate(6,2*n)
        for i in range(n): H5Tinsert(c,'m%d'%i,2*i,I16)
        ds(f,'c%d'%n,c,[2],bytes(i%256 for i in range(4*n)))
    H5Fclose(f)
@case
def h5_big_offsets_18(p):
    f=fcreate(p,1,1)
    c=H5Tcreate(6,70000); H5Tinsert(c,'first',0,I32); H5Tinsert(c,'last',69990,F64); ds(f,'c3',c,[1],bytes(i%256 for i in range(70000)),chunk=[1],deflate=9)
    c=H5Tcreate(6,300); H5Tinsert(c,'first',0,I32); H5Tinsert(c,'last',290,F64); ds(f,'c2',c,[1],bytes(i%256 for i in range(300)))
    H5Fclose(f)
@case
def h5_big_opaque_18(p):
    f=fcreate(p,1,1)
    for n in (255,256,65535,65536):
        o=H5Tcreate(5,n-12); c=H5Tcreate(6,n); H5Tinsert(c,'first',0,I32); H5Tinsert(c,'blob',4,o); H5Tinsert(c,'last',n-8,F64)
        one=struct.pack('<i',n)+bytes((i*7+n)%251 for i in range(n-12))+struct.pack('<d',n/8)
        ds(f,'c%d'%n,c,[2],one+one[:3]+b'\x01'+one[4:],chunk=[2],deflate=9)
    H5Fclose(f)
@case
def h5_links_old(p):
    f=fcreate(p); g=group(f,'g'); h=H5Gcreate2(g,b'h',0,0,0)
    ds(f,'v',I32,[2],b'\1\0\0\0\2\0\0\0'); ds(g,'w',I32,[1],b'\3\0\0\0'); ds(h,'deep',I32,[1],b'\4\0\0\0')
    H5Lcreate_hard(f,'v',f,'v2',0,0); H5Lcreate_hard(f,'v',g,'vg',0,0)
    H5Fclose(f)
@case
def h5_links_18(p):
    f=fcreate(p,1,1); g=group(f,'g'); h=H5Gcreate2(g,b'h',0,0,0)
    ds(f,'v',I32,[2],b'\1\0\0\0\2\0\0\0'); ds(g,'w',I32,[1],b'\3\0\0\0'); ds(h,'deep',I32,[1],b'\4\0\0\0')
    H5Lcreate_hard(f,'v',f,'v2',0,0); H5Lcreate_hard(f,'v',g,'vg',0,0)
    H5Fclose(f)
for low,sfx in ((0,'old'),(1,'18')):
    def mk2(low,sfx):
        def soft(p):
            f=fcreate(p,low,1); g=group(f,'g')
            ds(f,'v',I32,[2],b'\1\0\0\0\2\0\0\0'); ds(g,'w',I32,[1],b'\3\0\0\0')
            H5Lcreate_soft('/v',g,'softv',0,0); H5Lcreate_soft('/nowhere',f,'dangling',0,0)
            H5Fclose(f)
        soft.__name__='h5-soft-'+sfx; case(soft,tags=['mayrefuse'])
        def ext(p):
            f=fcreate(p,low,1)
            ds(f,'v',I32,[2],b'\1\0\0\0\2\0\0\0'); H5Lcreate_external('other.h5','/x',f,'ext',0,0)
            H5Fclose(f)
        ext.__name__='h5-ext-'+sfx; case(ext,tags=['mayrefuse'])
        def committed(p):
            f=fcreate(p,low,1)
            c=H5Tcreate(6,16); H5Tinsert(c,'a',0,I32); H5Tinsert(c,'b',8,F64); H5Tcommit2(f,'ctype',c,0,0,0)
            en=H5Tenum_create(T['NATIVE_INT16'])
            for i,n in enumerate(['RED','GREEN']): H5Tenum_insert(en,n,struct.pack('<h',i))
            H5Tcommit2(f,'etype',en,0,0,0)
            i=H5Tcopy(I32); H5Tcommit2(f,'itype',i,0,0,0)
            d=ds(f,'cv',c,[2],bytes(range(32))); ds(f,'ev',en,[2],b'\1\0\0\0'); ds(f,'iv',i,[2],b'\1\0\0\0\2\0\0\0')
            g=group(f,'g'); ds(g,'civ',c,[1],bytes(16))
            att(f,'ca',c,[2],bytes(range(32))); att(d,'ea',en,[2],b'\1\0\0\0'); att(d,'ia',i,None,b'\5\0\0\0')
            H5Fclose(f)
        committed.__name__='h5-committed-'+sfx; case(committed,tags=['mayrefuse'])
        def manygroups(p,order=False):
            f=fcreate(p,low,1)
            g=group(f,'many')
            for i in range(400): ds(g,'v%d'%(i*7919%400),T['NATIVE_INT8'],None,bytes([i%100]))
            g=group(f,'few')
            for i in range(30): H5Gclose(group(g,'sub%d'%i))
            H5Fclose(f)
        manygroups.__name__='h5-manylinks-'+sfx; case(manygroups,big=True)
        def manyattrs(p):
            r=random.Random(3); f=fcreate(p,low,1); d=ds(f,'v',I32,[2],b'\1\0\0\0\2\0\0\0',phase=(8,6) if low else None)
            for i in range(60): att(d,'attr_%d'%i,I32,[1+i%3],ints(r,1+i%3))
            for i in range(9): att(f,'g%d'%i,F64,None,dbl(r,1))
            g=group(f,'g')
            for i in range(20): att(g,'s%d'%i,fstr(10+i*3),None,b'x'*(9+i*3)+b'\0')
            H5Fclose(f)
        manyattrs.__name__='h5-manyattrs-'+sfx; case(manyattrs)
    mk2(low,sfx)
@case
def h5_order_dense(p):
    r=random.Random(5); f=fcreate(p,1,1,order=True)
    ns=['n%d'%i for i in range(40)]; r.shuffle(ns)
    for n in ns: ds(f,n,T['NATIVE_INT8'],None,bytes([int(n[1:])]),order=True)
    d=ds(f,'withattrs',I32,None,b'\1\0\0\0',order=True); r.shuffle(ns)
    for n in ns: att(d,n,I32,None,struct.pack('<i',int(n[1:])))
    for n in ns[:12]: att(f,n,I32,None,struct.pack('<i',int(n[1:])))
    for n in ns[:20]: H5Gclose(group(f,'g'+n,order=True))
    H5Fclose(f)
@case(big=True)
def h5_order_huge(p):
    r=random.Random(6); f=fcreate(p,1,1,order=True)
    ns=['name_number_%d'%i for i in range(700)]; r.shuffle(ns)
    g=group(f,'g',order=True)
    for n in ns: H5Gclose(group(g,n,order=False))
    H5Fclose(f)
@case(big=True)
def h5_heap_deep_links(p):
    f=fcreate(p,1,1); g=group(f,'g',phase=(0,0)); v=ds(f,'v',I32,[2],b'\1\0\0\0\2\0\0\0')
    for i in range(290): H5Lcreate_hard(f,'v',g,'n%03d'%(i*7%290)+'x'*(3700+i),0,0)
    H5Fclose(f)
@case(big=True)
def h5_heap_deep_attrs(p):
    f=fcreate(p,1,1); d=ds(f,'v',I32,None,b'\1\0\0\0',phase=(0,0))
    for i in range(210): att(d,'a%03d'%(i*11%210),U8,[2600+i],bytes([i%10])*(2599+i)+b'\7')
    H5Fclose(f)
@case(big=True)
def h5_btree_deep_links(p):
    f=fcreate(p,1,1); g=group(f,'g',phase=(0,0)); v=ds(f,'v',I32,[2],b'\1\0\0\0\2\0\0\0')
    for i in range(2500): H5Lcreate_hard(f,'v',g,'n%d'%(i*7%2500),0,0)
    H5Fclose(f)
@case(big=True)
def h5_btree_deep_attrs(p):
    f=fcreate(p,1,1); d=ds(f,'v',I32,None,b'\1\0\0\0',phase=(0,0))
    for i in range(2000): att(d,'a%d'%(i*7%2000),U8,None,bytes([i%251]))
    H5Fclose(f)
@case(big=True)
def h5_heap_deep_sparse(p):
    f=fcreate(p,1,1); g=group(f,'g',phase=(0,0)); v=ds(f,'v',I32,[2],b'\1\0\0\0\2\0\0\0')
    keep=[0,1,200,700,701,1200,1201,1330,1331,1430,1431,1458,1459]
    for i in range(1460): H5Lcreate_hard(f,'v',g,'n%04d'%i+'x'*3800,0,0)
    for i in range(1460):
        if i not in keep: H5Ldelete(g,'n%04d'%i+'x'*3800,0)
    H5Fclose(f)
for low,high,sfx in ((0,1,'old'),(1,1,'18')):
    def mk4(low,high,sfx):
        def undeffill(p):
            r=random.Random(21); f=fcreate(p,low,high)
            def d(name,t,shape,data,**k):
                pl=dcpl(**k); H5Pset_fill_value(pl,t,None)
                d=H5Dcreate2(f,name,t,space(shape,k.get('mx')),0,pl,0); H5Dwrite(d,t,0,0,0,data)
            d('contig',I32,[3,4],ints(r,12)); d('chunked',I32,[5,7],ints(r,35),chunk=[2,3])
            d('deflated',F64,[5,7],dbl(r,35),chunk=[2,3],deflate=3,shuffle=True)
            d('compact',I16,[4],ints(r,4,'h'),layout=0); d('scalar',F64,None,dbl(r,1))
            d('str',fstr(5),[3],b'ab\0\0\0cdefghijkl'); d('vstr',vstr(),[3],strs(['a','','xyz']))
            d('vl',H5Tvlen_create(I32),[2],vl([[1,2],[3]],'i'))
            c=H5Tcreate(6,16); H5Tinsert(c,'a',0,I32); H5Tinsert(c,'b',8,F64)
            d('comp',c,[2],bytes(range(32)))
            en=H5Tenum_create(T['NATIVE_INT16'])
            for i,n in enumerate(['RED','GREEN']): H5Tenum_insert(en,n,struct.pack('<h',i))
            d('enum',en,[2],b'\1\0\0\0'); d('op',H5Tcreate(5,3),[2],b'abcdef')
            d('early',I32,[3],ints(r,3),alloc=1); d('ealloc',I32,[3,3],ints(r,9),chunk=[2,2],alloc=1)
            H5Fclose(f)
        undeffill.__name__='h5-undeffill-'+sfx; case(undeffill)
    mk4(low,high,sfx)
@case
def h5_order_deleted(p):
    r=random.Random(8); f=fcreate(p,1,1,order=True)
    d=ds(f,'v',I32,None,b'\1\0\0\0',order=True)
    for i in range(7): att(d,'z%d'%(9-i),I32,None,struct.pack('<i',i))
    H5Adelete(d,'z5'); H5Adelete(d,'z8'); att(d,'aa',I32,None,b'\1\0\0\0')
    for i in range(30): att(f,'y%d'%(99-i),I32,None,struct.pack('<i',i))
    for i in range(0,30,2): H5Adelete(f,'y%d'%(99-i))
    for i in range(12): ds(f,'w%d'%(50-i),I32,None,struct.pack('<i',i))
    for i in range(0,12,3): H5Ldelete(f,'w%d'%(50-i),0)
    H5Fclose(f)
@case
def h5_bigattr_18(p):
    f=fcreate(p,1,1); d=ds(f,'v',I32,None,b'\1\0\0\0')
    att(d,'big',U8,[40000],bytes(i*7%256 for i in range(40000))); att(d,'small',I32,None,b'\1\0\0\0')
    H5Fclose(f)
@case(tags=['mayrefuse'])
def h5_hugeattr_18(p):
    f=fcreate(p,1,1); d=ds(f,'v',I32,None,b'\1\0\0\0',phase=(0,0))
    att(d,'huge',U8,[70000],bytes(i*7%256 for i in range(70000))); att(d,'small',I32,None,b'\1\0\0\0')
    H5Fclose(f)
@case
def h5_btree_chunks(p):
    r=random.Random(12); f=fcreate(p)
    ds(f,'many1',I16,[500],ints(r,500,'h'),chunk=[2])
    ds(f,'many2',U8,[40,40],ints(r,1600,'B',0,255),chunk=[3,3],fletcher=True)
    d=ds(f,'backwards',I16,[300],mx=[None],chunk=[2])
    for i in range(149,-1,-1): part(d,I16,[i*2],[2],ints(r,2,'h'))
    H5Fclose(f)
@case
def h5_btree_deep(p):
    r=random.Random(13); fc=plist(P_FILE); H5Pset_istore_k(fc,2); f=fcreate(p,fcpl=fc)
    ds(f,'many1',I16,[200],ints(r,200,'h'),chunk=[2]); ds(f,'many2',U8,[20,20],ints(r,400,'B',0,255),chunk=[3,3],deflate=1)
    H5Fclose(f)
@case
def h5_symk(p):
    fc=plist(P_FILE); H5Pset_sym_k(fc,2,4); f=fcreate(p,fcpl=fc)
    g=group(f,'g')
    for i in range(60): ds(g,'v%d'%(i*37%60),T['NATIVE_INT8'],None,bytes([i]))
    H5Fclose(f)
@case
def h5_symk1(p):
    fc=plist(P_FILE); H5Pset_sym_k(fc,3,1); f=fcreate(p,fcpl=fc)
    for i in range(25): ds(f,'v%d'%(i*7%25),T['NATIVE_INT8'],None,bytes([i]))
    H5Fclose(f)
@case
def h5_longheap(p):
    f=fcreate(p)
    for i in range(30): ds(f,('v%d_'%i)+'x'*(20+3*i),T['NATIVE_INT8'],None,bytes([i]))
    H5Fclose(f)
@case
def h5_globalheap(p):
    r=random.Random(14); f=fcreate(p); v=vstr()
    ds(f,'s',v,[300],strs([''.join(r.choice('abcdefgh') for _ in range(r.randint(0,90))) for _ in range(300)]))
    ds(f,'long',v,[3],strs(['x'*5000,'y','z'*12000]))
    t=H5Tvlen_create(F64); ds(f,'vl',t,[4],vl([[r.random() for _ in range(n)] for n in (0,1,700,3)],'d'))
    H5Fclose(f)
@case
def h5_fletcher_ffff(p):
    f=fcreate(p)
    # 16-bit words whose sums are multiples of 65535 without being all zero
    ds(f,'s1',T['NATIVE_UINT16'],[4],struct.pack('<4H',0xffff,0,0,0),chunk=[4],fletcher=True)
    ds(f,'s2',T['NATIVE_UINT16'],[4],struct.pack('<4H',1,0xfffe,0,0),chunk=[4],fletcher=True)
    ds(f,'s3',T['NATIVE_UINT16'],[6],struct.pack('<6H',0xffff,0xffff,0xffff,0,0xffff,0),chunk=[2],fletcher=True)
    ds(f,'s0',T['NATIVE_UINT16'],[4],bytes(8),chunk=[4],fletcher=True)
    ds(f,'odd',U8,[5],b'\xff\xff\0\0\1',chunk=[5],fletcher=True); ds(f,'odd2',U8,[7],b'\1\2\3\4\5\6\xff',chunk=[7],fletcher=True)
    ds(f,'odd3',U8,[3],b'\0\0\xff',chunk=[3],fletcher=True); ds(f,'odd1',U8,[1],b'\xff',chunk=[1],fletcher=True)
    ds(f,'long',T['NATIVE_UINT16'],[2000],struct.pack('<2000H',*[(i*40503)%65536 for i in range(2000)]),chunk=[1000],fletcher=True)
    ds(f,'ones',T['NATIVE_UINT16'],[2000],b'\xff'*4000,chunk=[721],fletcher=True)
    H5Fclose(f)
@case
def h5_filtermask(p):
    f=fcreate(p); r=random.Random(4)
    d=ds(f,'v',I32,[8],chunk=[4],deflate=4,shuffle=True)
    raw=ints(r,4); H5Dwrite_chunk(d,0,3,arr([0]),len(raw),raw)   # both filters skipped
    part(d,I32,[4],[4],ints(r,4))
    d=ds(f,'w',I32,[8],chunk=[4],deflate=4,fletcher=True)
    part(d,I32,[0],[4],ints(r,4)); raw=ints(r,4); H5Dwrite_chunk(d,0,3,arr([4]),len(raw),raw)
    import zlib
    d=ds(f,'x',I32,[8],chunk=[4],deflate=4,shuffle=True); raw=zlib.compress(ints(r,4)); H5Dwrite_chunk(d,0,1,arr([0]),len(raw),raw)
    H5Fclose(f)
@case(tags=['mayrefuse'])
def h5_userblock(p):
    fc=plist(P_FILE); H5Pset_userblock(fc,512); f=fcreate(p,fcpl=fc); ds(f,'v',I32,[2],b'\1\0\0\0\2\0\0\0'); att(f,'a',I32,None,b'\1\0\0\0'); H5Fclose(f)
@case(tags=['mayrefuse'])
def h5_sizes4(p):
    fc=plist(P_FILE); H5Pset_sizes(fc,4,4); f=fcreate(p,fcpl=fc); ds(f,'v',I32,[2],b'\1\0\0\0\2\0\0\0'); H5Fclose(f)
@case(tags=['mayrefuse'])
def h5_v4chunks(p):
    r=random.Random(15); f=fcreate(p,2,2)
    ds(f,'ok',I32,[3],ints(r,3)); ds(f,'single',I32,[4],ints(r,4),chunk=[4]); H5Fclose(f)
for kind in range(4):
    def mk3(kind):
        def v4(p):
            r=random.Random(15); f=fcreate(p,2,2)
            if kind==0: ds(f,'fixed',I32,[9],ints(r,9),chunk=[2])
            if kind==1: ds(f,'ea',I32,[9],ints(r,9),mx=[None],chunk=[2])
            if kind==2: ds(f,'bt2',I32,[5,5],ints(r,25),mx=[None,None],chunk=[2,2])
            if kind==3: ds(f,'impl',I32,[9],ints(r,9),chunk=[2],alloc=1)
            H5Fclose(f)
        v4.__name__='h5-v4-%d'%kind; case(v4,tags=['mayrefuse'])
    mk3(kind)
@case(tags=['mayrefuse'])
def h5_sohm_fill(p):
    fc=plist(P_FILE); H5Pset_shared_mesg_nindexes(fc,1); H5Pset_shared_mesg_index(fc,0,0x20,1); f=fcreate(p,1,1,fcpl=fc)
    for i in range(3): ds(f,'v%d'%i,I32,[4],fill=(I32,struct.pack('<i',77)))
    H5Fclose(f)
@case(tags=['mayrefuse'])
def h5_sohm_space(p):
    fc=plist(P_FILE); H5Pset_shared_mesg_nindexes(fc,1); H5Pset_shared_mesg_index(fc,0,2,1); f=fcreate(p,1,1,fcpl=fc)
    for i in range(3): ds(f,'v%d'%i,I32,[4,5],fill=(I32,struct.pack('<i',77)))
    H5Fclose(f)
@case(tags=['mayrefuse'])
def h5_sohm_pline(p):
    fc=plist(P_FILE); H5Pset_shared_mesg_nindexes(fc,1); H5Pset_shared_mesg_index(fc,0,0x800,1); f=fcreate(p,1,1,fcpl=fc)
    for i in range(3): ds(f,'v%d'%i,I32,[4,5],bytes(range(80)),chunk=[2,2],deflate=4,shuffle=True)
    H5Fclose(f)
@case(tags=['mayrefuse'])
def h5_sohm_attr(p):
    fc=plist(P_FILE); H5Pset_shared_mesg_nindexes(fc,1); H5Pset_shared_mesg_index(fc,0,0x1000,1); f=fcreate(p,1,1,fcpl=fc)
    for i in range(3):
        d=ds(f,'v%d'%i,I32,[2],b'\1\0\0\0\2\0\0\0')
        for k in range(3): att(d,'att%d'%k,I32,[4],bytes(range(16)))
    H5Fclose(f)
@case(tags=['mayrefuse'])
def h5_sohm(p):
    fc=plist(P_FILE); H5Pset_shared_mesg_nindexes(fc,1); H5Pset_shared_mesg_index(fc,0,0x1f,10); f=fcreate(p,1,1,fcpl=fc)
    c=H5Tcreate(6,16); H5Tinsert(c,'a',0,I32); H5Tinsert(c,'b',8,F64)
    for i in range(3): d=ds(f,'v%d'%i,c,[2],bytes(range(32))); att(d,'att',c,[1],bytes(16))
    H5Fclose(f)
@case(tags=['mayrefuse'])
def h5_nbit(p):
    f=fcreate(p); t=H5Tcopy(I32); pl=dcpl(chunk=[4]); H5Pset_nbit(pl); d=H5Dcreate2(f,b'v',t,space([8]),0,pl,0); H5Dwrite(d,t,0,0,0,bytes(range(32))); H5Fclose(f)
@case
def h5_dimscales(p):
    f=fcreate(p); x=ds(f,'x',F64,[3],struct.pack('<3d',1,2,3)); y=ds(f,'y',F64,[2],struct.pack('<2d',1,2)); v=ds(f,'v',I32,[3,2],bytes(24))
    HL.H5DSset_scale(x,b'x'); HL.H5DSset_scale(y,b'y'); HL.H5DSattach_scale(v,x,0); HL.H5DSattach_scale(v,y,1)
    H5Fclose(f)
@case
def h5_attrshapes(p):
    f=fcreate(p); r=random.Random(2)
    att(f,'s',I32,None,ints(r,1)); att(f,'a1',I32,[1],ints(r,1)); att(f,'a5',I32,[5],ints(r,5)); att(f,'m',I32,[2,3],ints(r,6)); att(f,'m3',I16,[2,2,2],ints(r,8,'h'))
    att(f,'vs1',vstr(),[1],strs(['only'])); att(f,'vl1',H5Tvlen_create(I32),[1],vl([[4,5,6]],'i')); att(f,'vl11',H5Tvlen_create(I32),[1],vl([[4]],'i'))
    att(f,'e0',vstr(),None,strs([''])); att(f,'zero',I32,[0],None)
    H5Fclose(f)
@case
def h5_empty(p): H5Fclose(fcreate(p))
@case
def h5_empty_18(p): H5Fclose(fcreate(p,1,1))
@case
def h5_opened_twice(p):
    """grown over several sessions: continuation blocks, free space"""
    f=fcreate(p); d=ds(f,'v',I32,[4],bytes(16),mx=[None],chunk=[2]); H5Fclose(f)
    for s in range(6):
        f=H5Fopen(p,1,fapl()); d=H5Dopen2(f,b'v',0)
        for i in range(4): att(d,'s%d_%d'%(s,i),fstr(20+s*9),None,b'q'*(10+s)+bytes(10+8*s))
        att(f,'g%d'%s,I32,[s+1],bytes(4*s+4)); H5Dset_extent(d,arr([6+s])); ds(f,'new%d'%s,I32,None,struct.pack('<i',s))
        H5Fclose(f)
@case
def h5_opened_twice_18(p):
    f=fcreate(p,1,1,order=True); d=ds(f,'v',I32,[4],bytes(16),mx=[None],chunk=[2],order=True); H5Fclose(f)
    for s in range(6):
        f=H5Fopen(p,1,fapl(1,1)); d=H5Dopen2(f,b'v',0)
        for i in range(4): att(d,'s%d_%d'%(s,i),fstr(20+s*9),None,b'q'*(10+s)+bytes(10+8*s))
        att(f,'g%d'%s,I32,[s+1],bytes(4*s+4)); H5Dset_extent(d,arr([6+s])); ds(f,'new%d'%s,I32,None,struct.pack('<i',s))
        H5Fclose(f)

# number types with their bits in unusual places: these are read correctly or refused
def odd(base,prec=None,off=None,pad=None,fields=None,ebias=None,norm=None,inpad=None,order=None):
    t=H5Tcopy(base)
    if fields: H5Tset_fields(t,*fields)
    if prec is not None: H5Tset_precision(t,prec)
    if off is not None: H5Tset_offset(t,off)
    if pad is not None: H5Tset_pad(t,*pad)
    if ebias is not None: H5Tset_ebias(t,ebias)
    if norm is not None: H5Tset_norm(t,norm)
    if inpad is not None: H5Tset_inpad(t,inpad)
    if order is not None: H5Tset_order(t,order)
    return t
I8,I64,U16,U32,U64,F32=[T['NATIVE_'+x] for x in ['INT8','INT64','UINT16','UINT32','UINT64','FLOAT']]
ODD={
 'i16-p12':(I16,dict(prec=12)),'u16-p12':(U16,dict(prec=12)),'i32-p17':(I32,dict(prec=17)),'i64-p40':(I64,dict(prec=40)),'i8-p5':(I8,dict(prec=5)),'u64-p33':(U64,dict(prec=33)),
 'i16-o3':(I16,dict(prec=12,off=3)),'u32-o8':(U32,dict(prec=16,off=8)),'u16-pad1':(U16,dict(prec=12,pad=(0,1))),'u16-lpad1':(U16,dict(prec=12,off=4,pad=(1,0))),'i32-padbg':(I32,dict(prec=20,pad=(0,2))),
 'f32-m10':(F32,dict(fields=(31,23,8,0,10))),'f32-m10hi':(F32,dict(fields=(31,23,8,13,10))),'f32-inpad1':(F32,dict(fields=(31,23,8,13,10),inpad=1)),'f32-e7':(F32,dict(fields=(31,24,7,0,23),ebias=63)),'f32-e7same':(F32,dict(fields=(31,23,7,0,23),ebias=63)),
 'f32-bias':(F32,dict(ebias=120)),'f64-bias':(F64,dict(ebias=1000)),'f32-norm0':(F32,dict(norm=2)),'f64-m20':(F64,dict(fields=(63,52,11,0,20))),'f64-m51':(F64,dict(fields=(63,52,11,0,51))),
 'f32-sign':(F32,dict(fields=(0,23,8,1,22))),'f32-sign30':(F32,dict(fields=(22,23,8,0,22))),'f64-sign':(F64,dict(fields=(51,52,11,0,51))),'f32-swap':(F32,dict(fields=(31,0,8,8,23))),'f64-swap':(F64,dict(fields=(63,0,11,11,52))),
 'f64-p32':(F64,dict(fields=(31,23,8,0,23),prec=32,ebias=127)),'f64-p32o':(F64,dict(fields=(31,23,8,0,23),prec=32,off=16,ebias=127)),'f32-p16':(F32,dict(fields=(15,10,5,0,10),prec=16,ebias=15)),'f64-e8':(F64,dict(fields=(63,55,8,0,52),ebias=127)),'f32-pad1':(F32,dict(fields=(30,22,8,0,22),prec=31,pad=(0,1))),
}
def mkodd(n,how):
    base,k=ODD[n]
    def f(p):
        f=fcreate(p); t=odd(base,**k); size=int(H5Tget_size(t)); flt=base in(F32,F64)
        def data(m):
            r=random.Random(m)
            if flt: raw=struct.pack('<%dd'%m,*[r.choice([0,1,-1,.5,-3.25,1000,-0.0078125,2.5]) for _ in range(m)]); src=F64
            else:
                b=k['prec']; lo,hi=(0,2**b-1) if base in(U16,U32,U64) else (-2**(b-1),2**(b-1)-1)
                raw=struct.pack('<%d%s'%(m,'Q' if lo==0 else 'q'),*[r.choice([lo,hi,1,0,r.randint(lo,hi),-1 if lo else 5]) for _ in range(m)]); src=U64 if lo==0 else I64
            return raw,src
        raw,src=data(6); ds(f,'plain',I32,[2],struct.pack('<2i',4,-5))
        if how=='d':
            d=H5Dcreate2(f,b'v',t,space([6]),0,dcpl(),0); H5Dwrite(d,src,0,0,0,raw)
        elif how=='a':
            d=ds(f,'w',I32,[1],bytes(4)); a=H5Acreate2(d,b'odd',t,space([6]),0,0); H5Awrite(a,src,raw)
        elif how=='c':
            c=H5Tcreate(CMP,size+4); H5Tinsert(c,b'a',0,I32); H5Tinsert(c,b'b',4,t)
            m=H5Tcreate(CMP,12); H5Tinsert(m,b'a',0,I32); H5Tinsert(m,b'b',4,src)
            d=H5Dcreate2(f,b'v',c,space([6]),0,dcpl(),0); H5Dwrite(d,m,0,0,0,b''.join(struct.pack('<i',i)+raw[8*i:8*i+8] for i in range(6)))
        H5Fclose(f)
    f.__name__='h5-odd-%s-%s'%(how,n)
    CASES.append((f.__name__,f,dict(tags=['mayrefuse'])))
for n in ODD: mkodd(n,'d')
for n in ['i16-p12','u16-pad1','f32-m10','f64-bias','f32-swap','f64-sign']: mkodd(n,'a')
def make(want,save,TMP):
    for n,f,k in CASES:
        if not want(n): continue
        p=f'{TMP}/{n}.h5'
        try: f(p)
        except RuntimeError as e: print(n,'not made:',e); continue
        save(n,p,False,**k)
