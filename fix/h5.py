"""A small binding to the reference libraries (libhdf5, libnetcdf), used only when
fixtures are made: it writes HDF5 files and decodes what the libraries read."""
import ctypes as C, os, struct, shutil
D='/usr/lib/x86_64-linux-gnu/'
L=C.CDLL(D+'libhdf5_serial.so.103',mode=C.RTLD_GLOBAL)
HL=C.CDLL(D+'libhdf5_serial_hl.so.100')
import glob
N=C.CDLL(sorted(glob.glob(D+'libnetcdf.so*'))[0])
hid=C.c_int64; hs=C.c_uint64; sz=C.c_size_t; ci=C.c_int; cp=C.c_char_p; vp=C.c_void_p
def F(name,res,*args):
    f=getattr(L,name); f.restype=res; f.argtypes=args
    def call(*a):
        r=f(*[x.encode() if isinstance(x,str) else x for x in a])
        if res in (hid,ci,C.c_ssize_t,C.c_int64) and r<0: raise RuntimeError(name)
        return r
    globals()[name]=call
    return call
for d in """H5open ci;H5Fcreate hid cp C.c_uint hid hid;H5Fopen hid cp C.c_uint hid;H5Fclose ci hid;H5Fflush ci hid ci;
H5Screate hid ci;H5Screate_simple hid ci vp vp;H5Sget_simple_extent_ndims ci hid;H5Sget_simple_extent_dims ci hid vp vp;H5Sget_simple_extent_type ci hid;H5Sclose ci hid;
H5Sselect_hyperslab ci hid ci vp vp vp vp;H5Scopy hid hid;
H5Pcreate hid hid;H5Pset_chunk ci hid ci vp;H5Pset_deflate ci hid C.c_uint;H5Pset_shuffle ci hid;H5Pset_fletcher32 ci hid;H5Pset_layout ci hid ci;
H5Pset_fill_value ci hid hid vp;H5Pset_fill_time ci hid ci;H5Pset_alloc_time ci hid ci;H5Pset_libver_bounds ci hid ci ci;H5Pset_userblock ci hid hs;H5Pset_fclose_degree ci hid ci;H5Pset_link_creation_order ci hid C.c_uint;
H5Pset_attr_creation_order ci hid C.c_uint;H5Pset_attr_phase_change ci hid C.c_uint C.c_uint;H5Pset_link_phase_change ci hid C.c_uint C.c_uint;H5Pset_sym_k ci hid C.c_uint C.c_uint;H5Pset_istore_k ci hid C.c_uint;
H5Pset_obj_track_times ci hid ci;H5Pset_est_link_info ci hid C.c_uint C.c_uint;H5Pset_create_intermediate_group ci hid C.c_uint;H5Pget_layout ci hid;H5Pget_nfilters ci hid;H5Pget_filter2 ci hid C.c_uint vp vp vp sz vp vp;H5Pset_local_heap_size_hint ci hid sz;
H5Pget_link_creation_order ci hid vp;H5Pget_attr_creation_order ci hid vp;H5Pset_sizes ci hid sz sz;H5Pset_char_encoding ci hid ci;H5Pset_shared_mesg_nindexes ci hid C.c_uint;H5Pset_shared_mesg_index ci hid C.c_uint C.c_uint C.c_uint;
H5Pset_file_space_strategy ci hid ci C.c_bool hs;H5Pset_filter ci hid ci C.c_uint sz vp;H5Pget_chunk ci hid ci vp;H5Pset_nbit ci hid;
H5Gcreate2 hid hid cp hid hid hid;H5Gopen2 hid hid cp hid;H5Gclose ci hid;H5Gget_create_plist hid hid;
H5Dcreate2 hid hid cp hid hid hid hid hid;H5Dopen2 hid hid cp hid;H5Dclose ci hid;H5Dwrite ci hid hid hid hid hid vp;H5Dread ci hid hid hid hid hid vp;H5Dget_type hid hid;H5Dget_space hid hid;H5Dset_extent ci hid vp;H5Dget_create_plist hid hid;
H5Dwrite_chunk ci hid hid C.c_uint32 vp sz vp;H5Dget_num_chunks ci hid hid vp;H5Dget_chunk_info ci hid hid hs vp vp vp vp;H5Dget_offset hs hid;H5Dget_storage_size hs hid;
H5Acreate2 hid hid cp hid hid hid hid;H5Awrite ci hid hid vp;H5Aread ci hid hid vp;H5Aclose ci hid;H5Aget_type hid hid;H5Aget_space hid hid;H5Aget_num_attrs ci hid;H5Aopen_by_idx hid hid cp ci ci hs hid hid;H5Aget_name C.c_ssize_t hid sz vp;H5Aopen hid hid cp hid;H5Adelete ci hid cp;
H5Tcreate hid ci sz;H5Tcopy hid hid;H5Tset_size ci hid sz;H5Tset_strpad ci hid ci;H5Tset_cset ci hid ci;H5Tset_order ci hid ci;H5Tinsert ci hid cp sz hid;H5Tenum_create hid hid;H5Tenum_insert ci hid cp vp;H5Tvlen_create hid hid;H5Tarray_create2 hid hid C.c_uint vp;H5Tcommit2 ci hid cp hid hid hid hid;
H5Topen2 hid hid cp hid;H5Tset_tag ci hid cp;H5Tget_class ci hid;H5Tget_size sz hid;H5Tget_sign ci hid;H5Tget_native_type hid hid ci;H5Tget_nmembers ci hid;H5Tget_member_name vp hid C.c_uint;H5Tget_member_type hid hid C.c_uint;H5Tget_member_offset sz hid C.c_uint;
H5Tget_member_value ci hid C.c_uint vp;H5Tget_super hid hid;H5Tget_array_ndims ci hid;H5Tget_array_dims2 ci hid vp;H5Tis_variable_str ci hid;H5Tcommitted ci hid;H5Tclose ci hid;H5Tget_strpad ci hid;H5Tpack ci hid;H5Tset_precision ci hid sz;H5Tset_offset ci hid sz;H5Tset_pad ci hid ci ci;H5Tset_fields ci hid sz sz sz sz sz;H5Tset_ebias ci hid sz;H5Tset_norm ci hid ci;H5Tset_inpad ci hid ci;H5Tconvert ci hid hid sz vp vp hid;H5Tset_sign ci hid ci;H5Tget_order ci hid;
H5Iget_name C.c_ssize_t hid vp sz;H5Rdereference2 hid hid hid ci vp;H5Rcreate ci vp hid cp ci hid;
H5Literate ci hid ci ci vp vp vp;H5Lcreate_soft ci cp hid cp hid hid;H5Lcreate_hard ci hid cp hid cp hid hid;H5Lcreate_external ci cp cp hid cp hid hid;H5Ldelete ci hid cp hid;H5Lget_info ci hid cp vp hid;H5Lmove ci hid cp hid cp hid hid;
H5Oopen hid hid cp hid;H5Oclose ci hid;H5Iget_type ci hid;H5Oget_info1 ci hid vp;H5Eset_auto2 ci hid vp vp;H5free_memory ci vp;H5Fget_create_plist hid hid;H5Pget_userblock ci hid vp""".replace('\n','').split(';'):
    p=d.split()
    try: F(p[0],*[eval(x) for x in p[1:]])
    except AttributeError as e: print('missing',p[0])
H5open()
HL.H5DSset_scale.argtypes=[hid,cp]; HL.H5DSattach_scale.argtypes=[hid,hid,C.c_uint]
def G(n): return hid.in_dll(L,n).value
class T_: pass
T={}
for n in ['NATIVE_INT8','NATIVE_UINT8','NATIVE_INT16','NATIVE_UINT16','NATIVE_INT32','NATIVE_UINT32','NATIVE_INT64','NATIVE_UINT64','NATIVE_FLOAT','NATIVE_DOUBLE','STD_I8BE','STD_U8BE','STD_I16BE','STD_U16BE','STD_I32BE','STD_U32BE','STD_I64BE','STD_U64BE','IEEE_F32BE','IEEE_F64BE','STD_I32LE','C_S1','STD_REF_OBJ','STD_B8LE']:
    T[n]=G('H5T_'+n+'_g')
P_FILE=G('H5P_CLS_FILE_CREATE_ID_g'); P_FACC=G('H5P_CLS_FILE_ACCESS_ID_g'); P_DCR=G('H5P_CLS_DATASET_CREATE_ID_g'); P_GCR=G('H5P_CLS_GROUP_CREATE_ID_g'); P_LCR=G('H5P_CLS_LINK_CREATE_ID_g'); P_TCR=G('H5P_CLS_DATATYPE_CREATE_ID_g')
def arr(xs): return (hs*max(1,len(xs)))(*xs)
S_ALL=0
INT,FLOAT,TIME,STR,BITF,OPQ,CMP,REF,ENUM,VLEN,ARR=range(11)
UNL=2**64-1

# ---- decoding ---------------------------------------------------------------
def iname(i):
    n=H5Iget_name(i,None,0)
    b=C.create_string_buffer(n+1); H5Iget_name(i,b,n+1)
    return b.value.decode('utf8')
def mname(t,i):
    p=H5Tget_member_name(t,i); s=C.string_at(p).decode('utf8'); H5free_memory(p); return s
def tree(t):
    c=H5Tget_class(t); n=H5Tget_size(t)
    d={'k':['int','float','time','str','bitfield','opaque','compound','ref','enum','vlen','array'][c],'size':n}
    if H5Tcommitted(t)>0:
        d['name']=iname(t)
    if c==INT: d['signed']=H5Tget_sign(t)!=0
    if c==STR:
        if H5Tis_variable_str(t)>0: d['k']='vstr'
        else: d['pad']=H5Tget_strpad(t)
    if c==CMP: d['members']=[{'name':mname(t,i),'type':tree(H5Tget_member_type(t,i))} for i in range(H5Tget_nmembers(t))]
    if c==ENUM:
        b=tree(H5Tget_super(t)); d['base']=b; d['names']=[]; d['values']=[]
        nt=H5Tget_native_type(t,0); ns=H5Tget_size(nt); signed=b['signed']
        for i in range(H5Tget_nmembers(nt)):
            buf=C.create_string_buffer(16); H5Tget_member_value(nt,i,buf)
            d['names'].append(mname(nt,i)); d['values'].append(int.from_bytes(buf.raw[:ns],'little',signed=signed))
        # in the order of the file
        order=[mname(t,i) for i in range(H5Tget_nmembers(t))]
        m=dict(zip(d['names'],d['values'])); d['names']=order; d['values']=[m[x] for x in order]
    if c==VLEN: d['base']=tree(H5Tget_super(t))
    if c==ARR:
        nd=H5Tget_array_ndims(t); a=arr([0]*nd); H5Tget_array_dims2(t,a); d['dims']=list(a)[:nd]; d['base']=tree(H5Tget_super(t))
    return d
def mem(addr,n): return C.string_at(addr,n)
def decode(nt,b):
    """b: bytes of one element laid out as native type nt"""
    c=H5Tget_class(nt); n=H5Tget_size(nt)
    if c==INT: return int.from_bytes(b[:n],'little',signed=H5Tget_sign(nt)!=0)
    if c==FLOAT: return int.from_bytes(b[:n],'little')
    if c==STR:
        if H5Tis_variable_str(nt)>0:
            p=int.from_bytes(b[:8],'little')
            return '' if p==0 else C.string_at(p).decode('latin1')
        s=b[:n]
        return s.decode('latin1')
    if c==OPQ: return b[:n].hex()
    if c==CMP:
        out=[]
        for i in range(H5Tget_nmembers(nt)):
            o=H5Tget_member_offset(nt,i); m=H5Tget_member_type(nt,i)
            out.append(decode(m,b[o:o+H5Tget_size(m)])); H5Tclose(m)
        return out
    if c==ENUM:
        s=H5Tget_super(nt); return decode(s,b)
    if c==VLEN:
        l=int.from_bytes(b[:8],'little'); p=int.from_bytes(b[8:16],'little')
        s=H5Tget_super(nt); k=H5Tget_size(s)
        if l==0: return []
        raw=mem(p,l*k)
        return [decode(s,raw[i*k:(i+1)*k]) for i in range(l)]
    if c==ARR:
        s=H5Tget_super(nt); k=H5Tget_size(s)
        return [decode(s,b[i*k:(i+1)*k]) for i in range(n//k)]
    if c==REF: return int.from_bytes(b[:8],'little')
    raise RuntimeError('class %d'%c)
def shape_of(sp):
    ty=H5Sget_simple_extent_type(sp)
    if ty==2: return None
    nd=H5Sget_simple_extent_ndims(sp); a=arr([0]*nd); 
    if nd: H5Sget_simple_extent_dims(sp,a,None)
    return list(a)[:nd]
def value(obj,kind):
    ft=(H5Dget_type if kind=='d' else H5Aget_type)(obj); sp=(H5Dget_space if kind=='d' else H5Aget_space)(obj)
    t=tree(ft); sh=shape_of(sp); v={'type':t,'shape':sh if sh is not None else [],'data':[]}
    if sh is None:
        v['null']=True; return v
    n=1
    for x in sh: n*=x
    if n>2**22: v['huge']=True; return v
    nt=H5Tget_native_type(ft,0) if H5Tget_class(ft)!=REF else ft
    k=H5Tget_size(nt); buf=C.create_string_buffer(max(1,n*k))
    if n:
        if kind=='d': H5Dread(obj,nt,0,0,0,buf)
        else: H5Aread(obj,nt,buf)
    raw=buf.raw
    cls=H5Tget_class(nt)
    if cls==INT:
        f={1:'b',2:'h',4:'i',8:'q'}[k]
        if not t['signed']: f=f.upper()
        v['data']=list(struct.unpack('<%d%s'%(n,f),raw[:n*k]))
    elif cls==FLOAT and k!=t['size']:
        x=struct.unpack('<%d%s'%(n,{2:'e',4:'f',8:'d'}[k]),raw[:n*k]); y={2:'e',4:'f',8:'d'}[t['size']]
        v['data']=list(struct.unpack('<%d%s'%(n,{'e':'H','f':'I','d':'Q'}[y]),struct.pack('<%d%s'%(n,y),*x)))
    elif cls==FLOAT: v['data']=list(struct.unpack('<%d%s'%(n,{2:'H',4:'I',8:'Q'}[k]),raw[:n*k]))
    else: v['data']=[decode(nt,raw[i*k:(i+1)*k]) for i in range(n)]
    return v
HIDE={"_Netcdf4Dimid","_Netcdf4Coordinates","DIMENSION_LIST","NAME","REFERENCE_LIST","CLASS","_NCProperties"}
def attrs(obj,tracked):
    out=[];special={}
    n=H5Aget_num_attrs(obj)
    for i in range(n):
        a=H5Aopen_by_idx(obj,b'.',1 if tracked else 0,0,i,0,0)
        l=H5Aget_name(a,0,None); b=C.create_string_buffer(l+1); H5Aget_name(a,l+1,b); name=b.value.decode('utf8')
        v=value(a,'a')
        if name in HIDE:
            special[name]=v
        else: out.append({'name':name,'val':v})
        H5Aclose(a)
    return out,special
CB=C.CFUNCTYPE(ci,hid,cp,vp,vp)
def links(g,order):
    names=[]
    def f(g,name,info,data): names.append(name.decode('utf8')); return 0
    L.H5Literate.argtypes=[hid,ci,ci,vp,CB,vp]
    if L.H5Literate(g,order,0,None,CB(f),None)<0: raise RuntimeError('iterate')
    return names
def linktype(g,name):
    buf=C.create_string_buffer(64); H5Lget_info(g,name,buf,0)
    return int.from_bytes(buf.raw[:4],'little',signed=True)
def tracked_attrs(plist):
    f=C.c_uint(0); H5Pget_attr_creation_order(plist,C.byref(f)); return bool(f.value&1)
class Dump:
    def __init__(s,path,nc):
        s.nc=nc; s.ncid=None; s.path=path
        if nc:
            i=C.c_int(); r=N.nc_open(path.encode(),0,C.byref(i))
            if r: raise RuntimeError('nc_open %d'%r)
            s.ncid=i.value
            s.path=path+'.copy'; shutil.copy(path,s.path)
            s.grow()
        s.f=H5Fopen(s.path,0,0)
    def grow(s):
        """makes every variable as long as its dimensions are, so that HDF5 fills up what was not written"""
        f=H5Fopen(s.path,1,0)
        def walk(g,path):
            n=C.c_int(); N.nc_inq_varids(g,C.byref(n),None); ids=(ci*max(1,n.value))(); N.nc_inq_varids(g,None,ids)
            for v in list(ids)[:n.value]:
                nm=C.create_string_buffer(300); N.nc_inq_varname(g,v,nm); nd=C.c_int(); N.nc_inq_varndims(g,v,C.byref(nd))
                if not nd.value: continue
                di=(ci*nd.value)(); N.nc_inq_vardimid(g,v,di); want=[]
                for d in di: l=sz(); N.nc_inq_dimlen(g,d,C.byref(l)); want.append(l.value)
                try: o=H5Dopen2(f,path.encode()+b'_nc4_non_coord_'+nm.value,0)
                except RuntimeError: o=H5Dopen2(f,path.encode()+nm.value,0)
                sp=H5Dget_space(o); have=arr([0]*nd.value); H5Sget_simple_extent_dims(sp,have,None)
                if list(have)[:nd.value]!=want: H5Dset_extent(o,arr(want)); s.grown=getattr(s,'grown',0)+1
                H5Sclose(sp); H5Dclose(o)
            N.nc_inq_grps(g,C.byref(n),None); gi=(ci*max(1,n.value))(); N.nc_inq_grps(g,None,gi)
            for k in list(gi)[:n.value]:
                nm=C.create_string_buffer(300); N.nc_inq_grpname(k,nm); walk(k,path+nm.value.decode()+'/')
        walk(s.ncid,'/'); H5Fclose(f)
    def close(s):
        H5Fclose(s.f)
        if s.ncid is not None: N.nc_close(s.ncid); os.remove(s.path)
    def ncgroup(s,path):
        g=s.ncid
        for p in path.strip('/').split('/'):
            if not p: continue
            o=C.c_int(); r=N.nc_inq_grp_ncid(g,p.encode(),C.byref(o))
            if r: raise RuntimeError('grp')
            g=o.value
        return g
    def group(s,path='/',name=''):
        g=H5Gopen2(s.f,path,0); pl=H5Gget_create_plist(g)
        f=C.c_uint(0); H5Pget_link_creation_order(pl,C.byref(f)); order=bool(f.value&1)
        at=tracked_attrs(pl) if path!='/' or True else False
        a,_=attrs(g,at)
        out={'name':name,'attrs':a,'attrorder':at,'order':order,'vars':[],'groups':[],'dims':[],'types':[],'hasdims':s.nc}
        for n in links(g,1 if order else 0):
            lt=linktype(g,n)
            if lt!=0:
                out.setdefault('links',[]).append({'name':n,'type':lt}); continue
            o=H5Oopen(g,n,0); it=H5Iget_type(o)
            if it==2: out['groups'].append(s.group(path.rstrip('/')+'/'+n,n))
            elif it==3: out['types'].append({'name':n,'type':tree(o)})
            elif it==5:
                v=s.var(o,n,path)
                if v: out['vars'].append(v)
            H5Oclose(o)
        if s.nc:
            gid=s.ncgroup(path); n=C.c_int(); ids=(ci*1024)()
            N.nc_inq_dimids(gid,C.byref(n),ids,0)
            nu=C.c_int(); un=(ci*1024)(); N.nc_inq_unlimdims(gid,C.byref(nu),un); un=list(un)[:nu.value]
            for k in range(n.value):
                nm=C.create_string_buffer(300); ln=sz()
                N.nc_inq_dim(gid,ids[k],nm,C.byref(ln)); d={'name':nm.value.decode('utf8'),'len':ln.value}
                if ids[k] in un: d['unlim']=True
                out['dims'].append(d)
        H5Gclose(g)
        return out
    def var(s,o,n,path):
        pl=H5Dget_create_plist(o); tr=tracked_attrs(pl)
        a,sp=attrs(o,tr)
        if 'CLASS' in sp and 'NAME' in sp:
            nm=sp['NAME']['data'][0].rstrip('\0')
            if nm.startswith('This is a netCDF dimension but not a netCDF variable'): return None
        name=n
        if name.startswith('_nc4_non_coord_'): name=name[15:]
        v=value(o,'d')
        r={'name':name,'val':v,'attrs':a,'attrorder':tr,'dims':[],'layout':H5Pget_layout(pl),'filters':[]}
        for i in range(H5Pget_nfilters(pl)):
            fl=C.c_uint(); ne=sz(0); r['filters'].append(H5Pget_filter2(pl,i,C.byref(fl),C.byref(ne),None,0,None,None))
        if s.nc:
            gid=s.ncgroup(path); vid=C.c_int()
            if N.nc_inq_varid(gid,name.encode(),C.byref(vid)): raise RuntimeError('varid '+name)
            nd=C.c_int(); N.nc_inq_varndims(gid,vid,C.byref(nd)); ids=(ci*32)(); N.nc_inq_vardimid(gid,vid,ids)
            for k in range(nd.value):
                nm=C.create_string_buffer(300); N.nc_inq_dimname(gid,ids[k],nm); r['dims'].append(nm.value.decode('utf8'))
        elif 'DIMENSION_LIST' in sp:
            for l in sp['DIMENSION_LIST']['data']:
                for ref in l:
                    b=hs(ref); t=H5Rdereference2(o,0,0,C.byref(b)); r['dims'].append(iname(t).split('/')[-1]); H5Oclose(t)
        elif 'CLASS' in sp and 'NAME' in sp: r['dims'].append(nm)
        return r
def dump(path,nc):
    d=Dump(path,nc)
    try: return d.group()
    finally: d.close()
# ---- what checksums protect ---------------------------------------------------
def chunks(path):
    """the stored chunks that have a checksum: fletcher32's or zlib's"""
    out=[]; f=H5Fopen(path,0,0)
    try: _chunks(f,'/',out,0)
    finally: H5Fclose(f)
    return out
def _chunks(f,path,out,depth):
    g=H5Gopen2(f,path,0)
    for n in links(g,0):
        if linktype(g,n)!=0 or depth>8: continue
        o=H5Oopen(g,n,0); it=H5Iget_type(o); p=path.rstrip('/')+'/'+n
        if it==2: _chunks(f,p,out,depth+1)
        elif it==5:
            pl=H5Dget_create_plist(o); fs=[]
            for i in range(H5Pget_nfilters(pl)):
                fl=C.c_uint(); ne=sz(0); fs.append(H5Pget_filter2(pl,i,C.byref(fl),C.byref(ne),None,0,None,None))
            if H5Pget_layout(pl)==2 and (1 in fs or 3 in fs):
                sp=H5Dget_space(o); k=hs()
                H5Dget_num_chunks(o,sp,C.byref(k))
                for i in range(k.value):
                    off=(hs*32)(); mask=C.c_uint(); addr=hs(); size=hs()
                    H5Dget_chunk_info(o,sp,i,off,C.byref(mask),C.byref(addr),C.byref(size))
                    on=[x for j,x in enumerate(fs) if not mask.value>>j&1]
                    if 3 in on: out.append({'kind':'fletcher32 chunk','off':addr.value,'len':size.value})
                    elif 1 in on: out.append({'kind':'deflate chunk','off':addr.value,'len':size.value})
        H5Oclose(o)
    H5Gclose(g)
