#!/usr/bin/env python3
"""Makes the fixtures of HDF5 files larger than 4 GiB: sparse files, of which only what is
not zero is kept.   mkhuge.py OUTDIR [NAME...]"""
import sys,os,struct,json,gzip,shutil,random
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
from h5 import *
import h5
from mkh5 import *
OUT=sys.argv[1]; ONLY=sys.argv[2:]
TMP='/tmp/fxhuge'; shutil.rmtree(TMP,ignore_errors=True); os.makedirs(TMP); os.makedirs(OUT,exist_ok=True)
G64=0x9E3779B97F4A7C15; M64=2**64-1
def h(x): return (x*G64&M64)>>56
def raw(t,i):
    """element i of a data set as it lies in memory"""
    n=t['size']; b=bytes(h(i*n+j) for j in range(n))
    k=t['k']
    if k=='float': b=b[:-1]+bytes([b[-1]&0xbf])
    elif k=='str': b=bytes(97+x%26 for x in b)
    elif k=='enum': b=t['values'][h(i)%len(t['values'])].to_bytes(n,'little',signed=t['base']['signed'])
    return b
HUGE={}
def hds(f,name,t,shape,regions,fill=None,path=None,**k):
    """a huge data set of which only the given regions are written"""
    tr=tree(t)
    pl=dcpl(filltime=(None if fill is not None else 1),**{x:y for x,y in k.items() if x!='mx'})
    fb=None
    if fill is not None: H5Pset_fill_value(pl,t,fill)
    d=H5Dcreate2(f,name,t,space(shape,k.get('mx')),0,pl,0)
    strd=[1]*len(shape)
    for i in range(len(shape)-2,-1,-1): strd[i]=strd[i+1]*shape[i+1]
    def flat(s,c):
        if not s: return [0]
        if len(s)==1: return range(s[0],s[0]+c[0])
        n=len(s); rest=strd[len(shape)-n]
        return [x*rest+y for x in range(s[0],s[0]+c[0]) for y in flat(s[1:],c[1:])]
    for s,c in regions:
        part(d,H5Tget_native_type(t,0),s,c,b''.join(raw(tr,i) for i in flat(s,c)))
    HUGE[(path or '/')+name]={'regions':[[list(s),list(c)] for s,c in regions],'fill':list(fill) if fill else []}
    return d
N=2**32
def small(f,r,low,vlen=True):
    """small things, wherever the library finds room"""
    ds(f,'s_contig',F64,[5,3],dbl(r,15)); ds(f,'s_compact',I32,[3],ints(r,3),layout=0)
    ds(f,'s_chunk',I32,[7,5],ints(r,35),chunk=[2,3],deflate=5,shuffle=True)
    ds(f,'s_fletch',I16,[40],ints(r,40,'h'),chunk=[16],fletcher=True)
    d=ds(f,'s_vstr',vstr(),[4],strs(['a','','hello there','x'*300])); ds(f,'s_vl',H5Tvlen_create(I32),[3],vl([[1,2],[],[3]],'i'))
    att(d,'s_at',I32,[3],ints(r,3)); att(d,'s_vat',vstr(),[2],strs(['p','qq']))
    g=group(f,'g_more'); ds(g,'s_in',I32,[2],ints(r,2)); g2=group(g,'g_deep')
    for i in range(20): ds(g2,'v%d'%(i*7%20),I16,None,ints(r,1,'h'))
    e=ds(f,'s_dense',I32,None,ints(r,1),phase=(0,0) if low else None)
    for i in range(15): att(e,'a%d'%(i*4%15),I32,[2],ints(r,2))
    for i in range(10): att(g,'b%d'%i,F64,None,dbl(r,1))
CASES=[]
def case(f): CASES.append((f.__name__.replace('_','-'),f)); return f
def around(n,*pts): return [((max(0,min(p,n-k)),),(k,)) for p,k in pts]
for low,high,sfx in ((0,1,'old'),(1,1,'18'),(1,2,'110')):
    def mk(low,high,sfx):
        def contig(p):
            r=random.Random(31+low); f=fcreate(p,low,high)
            n=2**30+7
            hds(f,'big',I32,[n],around(n,(0,9),(2**29-4,9),(2**30-4,11),(12345678,50)),alloc=1)
            small(f,r,low)
            H5Fclose(f)
        contig.__name__='huge-contig-'+sfx; case(contig)
    mk(low,high,sfx)
@case
def huge_kinds(p):
    f=fcreate(p)
    n=2**31+5
    hds(f,'i1',T['NATIVE_INT8'],[n],around(n,(0,20),(2**31-9,14),(77777777,9)),alloc=1)
    n=2**29+3
    hds(f,'f8',F64,[n],around(n,(0,20),(2**29-9,12),(2**28-3,9)),alloc=1)
    hds(f,'i8be',T['STD_I64BE'] if 'STD_I64BE' in T else T['NATIVE_INT64'],[n],around(n,(3,5),(2**29-9,12)),alloc=1)
    n=900_000_001
    hds(f,'str',fstr(5),[n],around(n,(0,6),(N//5-3,7),(n,5)),alloc=1)
    hds(f,'op',H5Tcreate(5,7),[n],around(n,(0,6),(N//7-3,7),(n,5)),alloc=1)
    en=H5Tenum_create(T['NATIVE_INT16'])
    for i,m in enumerate(['RED','GREEN','BLUE']): H5Tenum_insert(en,m,struct.pack('<h',i*300-1))
    n=2**31+1
    hds(f,'enum',en,[n],around(n,(0,6),(2**31-5,6)),alloc=1)
    H5Fclose(f)
@case
def huge_md(p):
    f=fcreate(p,1,1)
    hds(f,'md2',T['NATIVE_INT64'],[2**21,401],[((0,0),(2,401)),((2**20+1,398),(3,3)),((2**21-2,0),(2,20)),((N//8//401-1,0),(3,401))],alloc=1)
    hds(f,'md3',I16,[2**20,33,101],[((0,0,0),(1,33,101)),((2**18,5,5),(2,3,90)),((2**19-1,32,90),(1,1,11)),((N//2//3333,0,0),(2,33,10))],alloc=1)
    H5Fclose(f)
for low,high,sfx in ((0,1,'old'),(1,1,'18')):
    def mk2(low,high,sfx):
        def chunked(p):
            r=random.Random(77+low); f=fcreate(p,low,high)
            n=2**33+3
            hds(f,'c1',T['NATIVE_INT8'],[n],around(n,(0,9),(2**31-5,20),(2**32-5,20),(2**32+70000,20),(n,7)),fill=b'\x2a',chunk=[65536],deflate=1)
            n=2**31+9
            hds(f,'c4',I32,[n],around(n,(100,9),(2**29-5,20),(2**30-5,20),(2**31-5,14)),fill=b'\1\2\3\4',chunk=[1000])
            hds(f,'c8',F64,[2**30+2],around(2**30+2,(0,3),(2**29-2,4),(2**30-3,5)),fill=b'\0'*6+b'\x45\x40',chunk=[4096],deflate=3,shuffle=True,fletcher=True)
            hds(f,'cmd',I16,[2**20+3,2**12+1],[((0,0),(1,9)),((2**18-1,4000),(3,97)),((2**19-1,0),(3,100)),((2**20+1,4090),(2,7))],fill=b'\7\0',chunk=[64,128],deflate=1)
            hds(f,'unl',I32,[2**32+10,3],[((0,0),(2,3)),((2**30-2,0),(5,3)),((2**32-3,1),(6,2)),((2**32+9,0),(1,3))],fill=b'\5\0\0\0',chunk=[2048,2],mx=[None,3])
            small(f,r,low)
            H5Fclose(f)
        chunked.__name__='huge-chunk-'+sfx; case(chunked)
    mk2(low,high,sfx)
def far(low):
    def far(p):
        """chunks and everything else beyond 4 GiB"""
        r=random.Random(99+low); f=fcreate(p,low,1)
        n=2**32+11
        hds(f,'pad',T['NATIVE_UINT8'],[n],around(n,(0,3),(2**31-2,4),(n,3)),alloc=1)
        n=2**32+100
        hds(f,'c1',T['NATIVE_INT8'],[n],around(n,(0,9),(2**31-5,20),(2**32-5,20),(n,7)),fill=b'\x2a',chunk=[30000],deflate=1)
        hds(f,'c2',I32,[2**30,2],[((0,0),(2,2)),((2**29-3,0),(6,2)),((2**30-3,1),(3,1))],fill=b'\x2a\0\0\0',chunk=[700,2],fletcher=True)
        small(f,r,low)
        g=group(f,'late')
        for i in range(60): ds(g,'w%d'%i,I32,[3],ints(r,3),chunk=[2],deflate=1)
        H5Fclose(f)
    far.__name__='huge-far-'+('18' if low else 'old'); case(far)
far(0); far(1)

def extents(path):
    """what is not zero, in blocks"""
    fd=os.open(path,os.O_RDONLY); size=os.fstat(fd).st_size; out=[]; data=[]; pos=0; B=256
    while pos<size:
        try: a=os.lseek(fd,pos,os.SEEK_DATA)
        except OSError: break
        b=os.lseek(fd,a,os.SEEK_HOLE); pos=b
        while a<b:
            k=min(1<<20,b-a); x=os.pread(fd,k,a)
            if x.count(0)!=k:
                for i in range(0,k,B):
                    y=x[i:i+B]
                    if y.count(0)==len(y): continue
                    if out and out[-1][0]+out[-1][1]==a+i: out[-1][1]+=len(y); data[-1]+=y
                    else: out.append([a+i,len(y)]); data.append(y)
            a+=k
    os.close(fd); return size,out,b''.join(data)
def put(fn,b):
    if len(b)>100000: fn+='.gz'; b=gzip.compress(b,9,mtime=0)
    open(fn,'wb').write(b)
for n,fn in CASES:
    if ONLY and n not in ONLY: continue
    HUGE.clear(); p=f'{TMP}/{n}.h5'; fn(p)
    d=dump(p,False)
    size,ext,data=extents(p)
    j={'root':d,'tags':[],'regions':[],'big':True,'huge':{'size':size,'extents':ext,'vars':HUGE}}
    put(f'{OUT}/{n}.bin',data); put(f'{OUT}/{n}.json',json.dumps(j,separators=(',',':')).encode())
    print(n,size,len(ext),len(data)); os.remove(p)
shutil.rmtree(TMP)
