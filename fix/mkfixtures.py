#!/usr/bin/env python3
"""Makes the fixtures: files written by the reference tools (ncgen, nccopy, h5repack,
libhdf5) and, as JSON, what the reference libraries read from them.  Needs those tools;
run once, the results are committed.   mkfixtures.py OUTDIR [NAME...]"""
import sys,os,gzip,json,subprocess,glob,random,struct,shutil,ctypes as C
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
from h5 import *
import h5
OUT=sys.argv[1]; ONLY=sys.argv[2:]
TMP='/tmp/fxwork'; shutil.rmtree(TMP,ignore_errors=True); os.makedirs(TMP); os.makedirs(OUT,exist_ok=True)
TD='/repo/netcdf/hdf5/testdata/'
def sh(*a): subprocess.run(a,check=True,stdout=subprocess.DEVNULL)
def want(n): return not ONLY or any(n==o or (o.endswith('*') and n.startswith(o[:-1])) for o in ONLY)
done=[]
SLOW={'cdl-testvtypes','h5-order-huge','h5-bigattr'}
def put(fn,b):
    if len(b)>300000: fn+='.gz'; b=gzip.compress(b,9,mtime=0)
    open(fn,'wb').write(b)
def save(name,path,nc,tags=(),big=False):
    try: d=dump(path,nc)
    except RuntimeError as e: return print(name,'NOT READ',e)
    if nc: nctypes(d,path)
    j={'root':d,'tags':list(tags),'regions':chunks(path),'big':big or os.path.getsize(path)>60000 or name in SLOW}
    put(f'{OUT}/{name}.bin',open(path,'rb').read())
    put(f'{OUT}/{name}.json',json.dumps(j,separators=(',',':')).encode())
    done.append((name,os.path.getsize(path)))
def nctypes(d,path):
    """adds the names of user-defined types as netCDF reports them, where the group declares them"""
    i=C.c_int(); assert N.nc_open(path.encode(),0,C.byref(i))==0
    def walk(g,gid):
        own={t['name'] for t in g['types']}
        for v in g['vars']:
            vid=C.c_int(); N.nc_inq_varid(gid,v['name'].encode(),C.byref(vid)); ty=C.c_int(); N.nc_inq_vartype(gid,vid,C.byref(ty))
            if ty.value>12:
                nm=C.create_string_buffer(300); N.nc_inq_user_type(gid,ty,nm,None,None,None,None)
                if nm.value.decode() in own: v['nctype']=nm.value.decode()
        for s in g['groups']:
            o=C.c_int(); N.nc_inq_grp_ncid(gid,s['name'].encode(),C.byref(o)); walk(s,o)
    walk(d,i); N.nc_close(i)

# ---- CDL ---------------------------------------------------------------------
def cdl(name,path,kind='nc4',**k):
    if not want(name): return
    o=f'{TMP}/{name}.nc'; sh('ncgen','-k',kind,'-o',o,path); save(name,o,True,**k); return o
def variants():
    for p in sorted(glob.glob(TD+'*.cdl')):
        b=os.path.basename(p)[:-4].replace('test_','t_')
        if b in('testdimensions','testslicer','testarray'): continue
        o=cdl('cdl-'+b,p)
        if o is None: continue
    def nccopy(name,src,*a):
        if not want(name): return
        o=f'{TMP}/{name}.nc'; sh('ncgen','-k','nc4','-o',TMP+'/s.nc',TD+src+'.cdl')
        try: sh('nccopy',*a,TMP+'/s.nc',o)
        except subprocess.CalledProcessError: return print(name,'not made')
        save(name,o,True)
    def repack(name,src,*a,nc=True):
        if not want(name): return
        o=f'{TMP}/{name}.nc'; sh('ncgen','-k','nc4','-o',TMP+'/s.nc',TD+src+'.cdl'); sh('h5repack',*a,TMP+'/s.nc',o); save(name,o,nc,tags=['mayrefuse'] if '-L' in a else ())
    for s in ['testtypes','testlayout2','testcompounds','testvlen','testopaque','test_strings','testfilters','test_alltypes','test_multidim','testunlimited','testenum']:
        b=s.replace('test_','t_')
        nccopy('ncd-'+b,s,'-d','5','-s')
        repack('rpf-'+b,s,'-f','FLET')
        repack('rpl-'+b,s,'-L','-f','GZIP=3')
    for s in ['testtypes','test_multidim','testonedim']:
        b=s.replace('test_','t_')
        repack('rpcomp-'+b,s,'-l','COMPA'); repack('rpcont-'+b,s,'-l','CONTI'); repack('rplow-'+b,s,'--low=0','--high=1')
    repack('rpub-types','testtypes','-u','/dev/null','-b','1024') if False else None

# ---- random CDL ----------------------------------------------------------------
ATOM={'byte':(-128,127),'ubyte':(0,255),'short':(-32768,32767),'ushort':(0,65535),'int':(-2**31,2**31-1),'uint':(0,2**32-1),'int64':(-2**63,2**63-1),'uint64':(0,2**64-1)}
SUF={'byte':'b','ubyte':'UB','short':'s','ushort':'US','int':'','uint':'U','int64':'LL','uint64':'ULL','float':'f','double':''}
def randcdl(seed):
    r=random.Random(seed); cnt=[0]
    def nm(p): cnt[0]+=1; return r.choice(['','a','Zed_','x-','é']) .replace('é','é')+p+str(cnt[0])
    def lit(t):
        if t in ATOM:
            a,b=ATOM[t]; v=r.choice([a+1 if a<0 else a,b,r.randint(a+1,b),r.randint(0,100),0]); return str(v)+SUF[t]
        if t=='float': return repr(struct.unpack('f',struct.pack('f',r.uniform(-1e6,1e6)))[0])+'f'
        if t=='double': return r.choice([repr(r.uniform(-1e9,1e9)),'1e300','-0.5','3.'])
        if t=='string': return '"'+''.join(r.choice('abcXYZ 09') for _ in range(r.randint(0,9)))+'"'
        if t=='char': return '"'+''.join(r.choice('abcXYZ09') for _ in range(r.randint(1,9)))+'"'
    types=list(ATOM)+['float','double','string']
    def val(t,ut):
        if t in ut:
            k,d=ut[t]
            if k=='enum': return r.choice(d)
            if k=='compound': return '{'+', '.join(('{'+', '.join(val(x,ut) for _ in range(n))+'}') if n else val(x,ut) for x,n in d)+'}'
            if k=='vlen': return '{'+', '.join(val(d,ut) for _ in range(r.randint(0,4)))+'}'
            if k=='opaque': return '0x'+''.join(r.choice('0123456789abcdef') for _ in range(2*d))
        return lit(t)
    def group(depth,outer,ind):
        out=[];I='  '*ind; ut={}
        T=[]
        if depth==0 and r.random()<.7:
            for _ in range(r.randint(1,4)):
                k=r.choice(['enum','compound','vlen','opaque']); n='T%d'%len(ut)+k
                if k=='enum':
                    b=r.choice(list(ATOM)); ms=['M%d_%d'%(len(ut),i) for i in range(r.randint(1,6))]; lo,hi=ATOM[b]
                    vs=r.sample(range(0,100),len(ms)); T.append(f'{b} enum {n} {{{", ".join(f"{m} = {v}" for m,v in zip(ms,vs))}}};'); ut[n]=(k,ms)
                elif k=='compound':
                    ms=[(r.choice(types+list(ut)),r.choice([0,0,0,r.randint(2,3)])) for _ in range(r.randint(1,5))]
                    ms=[(x,0 if x in ut and ut[x][0]=='vlen' or x=='string' else n2) for x,n2 in ms]
                    T.append(f'compound {n} {{ '+' '.join(f'{x} f{i}{"("+str(n2)+")" if n2 else ""};' for i,(x,n2) in enumerate(ms))+' };'); ut[n]=(k,ms)
                elif k=='vlen':
                    b=r.choice([x for x in types if x!='string']+[u for u in ut if ut[u][0] in('compound',)]); T.append(f'{b}(*) {n};'); ut[n]=(k,b)
                else:
                    s=3+2*len(ut); T.append(f'opaque({s}) {n};'); ut[n]=(k,s)
        allut=dict(ut)
        dims=dict(outer); own={}
        for _ in range(r.randint(0,4)):
            n=nm('d'); own[n]=None if r.random()<.25 else r.randint(1,7)
        D=[f'{n} = {"UNLIMITED" if l is None else l};' for n,l in own.items()]
        dims.update(own); V=[];A=[];DATA=[]
        # an unlimited dimension's length is one number for all its variables
        ln={n:(l if l else r.randint(1,6)) for n,l in dims.items()}
        names=[]
        for i in range(r.randint(1,6)):
            t=r.choice(types+['char']+list(ut)*2)
            nd=r.choice([0,1,1,1,2,2,3]); ds=[r.choice(list(dims)) for _ in range(nd)] if dims else []
            ds=list(dict.fromkeys(ds))
            if t=='char': ds=ds[:2]
            if r.random()<.25 and own and t not in ut and t not in('string','char'):
                n=r.choice(list(own));
                if n in names: continue
                if r.random()<.7: ds=[n]
            else: n=nm('v')
            names.append(n)
            V.append(f'{t} {n}{"("+", ".join(ds)+")" if ds else ""};')
            if ds and r.random()<.75 and t!='string' and not(t in ut and ut[t][0] in ('vlen','compound')):
                ch=[max(1,r.randint(1,ln[d] if dims[d] else 4)) for d in ds]
                A.append(f'{n}:_Storage = "chunked"; {n}:_ChunkSizes = {", ".join(map(str,ch))};')
                if r.random()<.6: A.append(f'{n}:_DeflateLevel = {r.randint(1,9)};')
                if r.random()<.4: A.append(f'{n}:_Shuffle = "true";')
                if r.random()<.4: A.append(f'{n}:_Fletcher32 = "true";')
            if t not in ut and t not in('string','char') and r.random()<.3: A.append(f'{n}:_Endianness = "{r.choice(["big","little"])}";')
            if t in ATOM and r.random()<.3: A.append(f'{n}:_FillValue = {lit(t)};')
            for _ in range(r.choice([0,0,1,2,3,10])):
                at=r.choice(types+['char']+list(ut)); c=1 if at=='char' else r.randint(1,4)
                A.append(f'{at} {n}:{nm("att")} = {", ".join(val(at,ut) for _ in range(c))};')
            if r.random()<.85:
                tot=1
                for d in ds: tot*=ln[d]
                if t=='char':
                    if not ds: DATA.append(f'{n} = "{r.choice("abc")}";')
                    elif len(ds)==1: DATA.append(f'{n} = "{"".join(r.choice("abcxyz") for _ in range(ln[ds[0]]))}";')
                    else: DATA.append(f'{n} = '+', '.join('"'+''.join(r.choice("abcxyz") for _ in range(ln[ds[1]]))+'"' for _ in range(ln[ds[0]]))+';')
                elif any(dims[d] is None for d in ds[1:]): pass
                else:
                    DATA.append(f'{n} = '+', '.join(val(t,ut) if t in ut or r.random()<.95 or (t=='string') else '_' for _ in range(tot))+';')
        for _ in range(r.choice([0,1,3,12])):
            at=r.choice(types+['char']+list(ut)); c=1 if at=='char' else r.randint(1,4)
            A.append(f'{at} :{nm("g")} = {", ".join(val(at,ut) for _ in range(c))};')
        if T: out.append(I+'types:\n'+'\n'.join(I+'  '+x for x in T))
        if D: out.append(I+'dimensions:\n'+'\n'.join(I+'  '+x for x in D))
        out.append(I+'variables:\n'+'\n'.join(I+'  '+x for x in V+A))
        if DATA: out.append(I+'data:\n'+'\n'.join(I+'  '+x for x in DATA))
        if depth<2:
            for _ in range(r.choice([0,0,1,2])):
                out.append(I+f'group: {nm("grp")} {{\n'+group(depth+1,dims,ind+1)+'\n'+I+'}')
        return '\n'.join(out)
    return 'netcdf r {\n'+group(0,{},0)+'\n}\n'
def randoms(n):
    k=0;seed=0
    while k<n and seed<3*n:
        seed+=1; name='rnd-%03d'%seed
        if not want(name): k+=1; continue
        s=randcdl(seed); p=f'{TMP}/{name}.cdl'; open(p,'w').write(s)
        try: subprocess.run(['ncgen','-k','nc4','-o',p[:-3]+'nc',p],check=True,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,timeout=20)
        except (subprocess.CalledProcessError,subprocess.TimeoutExpired) as e:
            print(name,'ncgen:',getattr(e,'stderr',b'')[:200] if getattr(e,'stderr',None) else e); continue
        if os.path.getsize(p[:-3]+'nc')>200000: continue
        save(name,p[:-3]+'nc',True); k+=1
if __name__=='__main__':
    variants(); randoms(150)
    import mkh5
    mkh5.make(want,save,TMP)
    import mkrnd; mkrnd.make_rnd(want,save,TMP,150)
    import mknc
    for n,f in mknc.NCASES:
        if want(n): f(f'{TMP}/{n}.nc'); save(n,f'{TMP}/{n}.nc',True)
    print(len(done),'fixtures',sum(x for _,x in done),'bytes')
