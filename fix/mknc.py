"""Cases written through libnetcdf itself, for what ncgen does not do."""
import ctypes as C, struct
from h5 import N
NAT={'b':1,'c':2,'h':3,'i':4,'f':5,'d':6,'B':7,'H':8,'I':9,'q':10,'Q':11,'s':12}
def ok(r):
    if r: raise RuntimeError('nc %d'%r)
def e(s): return s.encode()
class NC:
    def __init__(s,path,mode=0x1000):
        i=C.c_int(); ok(N.nc_create(e(path),mode,C.byref(i))); s.i=i.value; s.path=path
    def dim(s,n,l,g=None): i=C.c_int(); ok(N.nc_def_dim(g or s.i,e(n),C.c_size_t(l),C.byref(i))); return i.value
    def grp(s,n,g=None): i=C.c_int(); ok(N.nc_def_grp(g or s.i,e(n),C.byref(i))); return i.value
    def var(s,n,t,dims,g=None,chunk=None,deflate=None,fill=None,nofill=False,fletcher=False,endian=None,contig=False):
        i=C.c_int(); g=g or s.i; ok(N.nc_def_var(g,e(n),NAT[t],len(dims),(C.c_int*max(1,len(dims)))(*dims),C.byref(i)))
        if chunk: ok(N.nc_def_var_chunking(g,i,0,(C.c_size_t*len(chunk))(*chunk)))
        if contig: ok(N.nc_def_var_chunking(g,i,1,None))
        if deflate is not None: ok(N.nc_def_var_deflate(g,i,1,1,deflate))
        if fletcher: ok(N.nc_def_var_fletcher32(g,i,1))
        if fill is not None: ok(N.nc_def_var_fill(g,i,0,struct.pack('<'+t,fill)))
        if nofill: ok(N.nc_def_var_fill(g,i,1,None))
        if endian is not None: ok(N.nc_def_var_endian(g,i,endian))
        return i.value
    def put(s,v,t,start,count,vals,g=None):
        b=vals if isinstance(vals,bytes) else struct.pack('<%d%s'%(len(vals),t),*vals)
        ok(N.nc_put_vara(g or s.i,v,(C.c_size_t*max(1,len(start)))(*start),(C.c_size_t*max(1,len(count)))(*count),b))
    def puts(s,v,start,count,vals,g=None):
        a=(C.c_char_p*len(vals))(*[e(x) for x in vals]); ok(N.nc_put_vara(g or s.i,v,(C.c_size_t*len(start))(*start),(C.c_size_t*len(count))(*count),a))
    def att(s,v,n,t,vals,g=None):
        g=g or s.i
        if t=='c': ok(N.nc_put_att_text(g,v,e(n),C.c_size_t(len(vals)),vals if isinstance(vals,bytes) else e(vals)))
        elif t=='s': a=(C.c_char_p*max(1,len(vals)))(*[e(x) for x in vals]); ok(N.nc_put_att_string(g,v,e(n),C.c_size_t(len(vals)),a))
        else: ok(N.nc_put_att(g,v,e(n),NAT[t],C.c_size_t(len(vals)),struct.pack('<%d%s'%(len(vals),t),*vals)))
    def end(s): ok(N.nc_enddef(s.i))
    def redef(s): ok(N.nc_redef(s.i))
    def close(s): ok(N.nc_close(s.i))
G=-1
NCASES=[]
def ncase(f): NCASES.append((f.__name__.replace('_','-'),f)); return f
@ncase
def nc_unlimited(p):
    n=NC(p); t=n.dim('t',0); u=n.dim('u',0); x=n.dim('x',3); z=n.dim('z',0)
    a=n.var('a','i',[t],chunk=[4]); b=n.var('b','d',[t,x],fill=-1.5,chunk=[2,2]); c=n.var('c','h',[u,t],chunk=[2,3]); tv=n.var('t','d',[t],chunk=[3]); d=n.var('d','b',[t],nofill=True,chunk=[5]); f=n.var('f','f',[t],deflate=3,chunk=[3]); s=n.var('s','s',[t],chunk=[4])
    em=n.var('em','i',[z]); e2=n.var('e2','i',[z,x]); ch=n.var('ch','c',[t,x],chunk=[2,2]); ch1=n.var('ch1','c',[t],chunk=[4])
    g=n.grp('g'); ga=n.var('ga','i',[t],g,chunk=[2]); gu=n.dim('u',0,g); gb=n.var('gb','i',[gu],g,chunk=[6]); gc=n.var('gc','Q',[t,gu],g,chunk=[3,2])
    n.end(); n.put(a,'i',[0],[5],[1,2,3,4,5]); n.put(b,'d',[0,0],[2,3],[1,2,3,4,5,6.5]); n.put(c,'h',[0,0],[2,4],range(8)); n.put(tv,'d',[0],[3],[.5,1.5,2.5]); n.put(f,'f',[1],[1],[9]); n.puts(s,[0],[7],['one','two','','four','5','six','seven'])
    n.put(ga,'i',[0],[7],range(7),g); n.put(gb,'i',[0],[2],[8,9],g); n.put(gc,'Q',[0,0],[1,1],[5],g); n.put(ch,'c',[0,0],[2,3],b'abcdef'); n.put(ch1,'c',[0],[2],b'xy')
    n.close()
@ncase
def nc_coords(p):
    """coordinate variables of several dimensions, ones defined late, and namesakes of dimensions"""
    n=NC(p); x=n.dim('x',3); y=n.dim('y',2); t=n.dim('t',0); w=n.dim('w',4); v=n.dim('v',2)
    a=n.var('a','i',[y,x]); xv=n.var('x','d',[x]); y2=n.var('y','i',[y,x]); tv=n.var('t','h',[t,y],chunk=[3,1]); wv=n.var('w','i',[x]); w0=n.var('v','i',[]); n.end()
    n.put(a,'i',[0,0],[2,3],range(6)); n.put(xv,'d',[0],[3],[1,2,3]); n.put(y2,'i',[0,0],[2,3],range(10,16)); n.put(tv,'h',[0,0],[2,2],range(4)); n.put(wv,'i',[0],[3],[7,8,9]); n.put(w0,'i',[],[],[5])
    g=n.grp('g'); n.redef() if False else None
    gx=n.dim('x',2,g); gv=n.var('x','i',[gx],g); ga=n.var('a','i',[gx,y],g); gy=n.var('y','i',[y],g); h=n.grp('h',g); ha=n.var('ha','i',[gx,x],h); hx=n.var('x','i',[gx],h)
    n.put(gv,'i',[0],[2],[1,2],g); n.put(ga,'i',[0,0],[2,2],range(4),g); n.put(gy,'i',[0],[2],[3,4],g); n.put(ha,'i',[0,0],[2,3],range(6),h); n.put(hx,'i',[0],[2],[6,7],h)
    n.close()
@ncase
def nc_renamed(p):
    n=NC(p); x=n.dim('x',3); y=n.dim('y',2); a=n.var('a','i',[y,x]); xv=n.var('x','d',[x]); n.att(a,'at1','i',[1,2]); n.att(a,'at2','d',[.5]); n.end()
    n.put(a,'i',[0,0],[2,3],range(6)); n.put(xv,'d',[0],[3],[1,2,3]); n.close()
    i=C.c_int(); ok(N.nc_open(e(p),1,C.byref(i))); ok(N.nc_rename_var(i,0,b'renamed')); ok(N.nc_rename_att(i,0,b'at1',b'other')); ok(N.nc_rename_dim(i,1,b'yy')); ok(N.nc_close(i))
@ncase
def nc_attrs(p):
    n=NC(p); x=n.dim('x',3); a=n.var('a','i',[x])
    for v in (G,a):
        n.att(v,'text','c','hello world'); n.att(v,'empty','c',''); n.att(v,'nul','c',b'ab\0cd'); n.att(v,'trail','c',b'ab\0\0'); n.att(v,'one','c','x'); n.att(v,'utf','c','äöü')
        n.att(v,'strs','s',['a','','ccc']); n.att(v,'str1','s',['only']); n.att(v,'e_s','s',[]); n.att(v,'e_i','i',[]); n.att(v,'e_d','d',[])
        for t,vals in (('b',[-1,5]),('B',[255]),('h',[-300,300]),('H',[65535]),('i',[1]),('I',[2**32-1,0]),('q',[-2**63,1]),('Q',[2**64-1]),('f',[1.5,2.5]),('d',[.1])): n.att(v,'num_'+t,t,vals)
    n.end(); n.put(a,'i',[0],[3],[1,2,3]); n.redef(); ok(N.nc_del_att(n.i,a,b'one')); n.att(a,'one','c','again'); n.att(a,'text','c','overwritten with something longer'); n.close()
@ncase
def nc_grown(p):
    """a file that is opened again and changed"""
    n=NC(p); t=n.dim('t',0); a=n.var('a','i',[t],chunk=[2]); n.end(); n.put(a,'i',[0],[3],[1,2,3]); n.close()
    for k in range(6):
        i=C.c_int(); ok(N.nc_open(e(p),1,C.byref(i))); m=NC.__new__(NC); m.i=i.value
        m.put(0,'i',[3+k*4],[4],[k]*4); ok(N.nc_redef(i)); x=m.dim('d%d'%k,k+1); v=m.var('v%d'%k,'d',[t,x] if k%2 else [x],chunk=[3,2] if k%2 else None); m.att(G,'att%d'%k,'i',list(range(k+1))); m.att(0,'att%d'%k,'c','x'*k*20); ok(N.nc_enddef(i))
        m.put(v,'d',[0,0] if k%2 else [0],[2,k+1] if k%2 else [k+1],[k+.5]*((2 if k%2 else 1)*(k+1))); m.close()
@ncase
def nc_fills(p):
    n=NC(p); x=n.dim('x',5)
    for t,f in (('b',-7),('B',200),('h',-300),('H',60000),('i',-70000),('I',4000000000),('q',-2**40),('Q',2**63+1),('f',2.5),('d',-.125)):
        for nm,k in (('def',{}),('fill',{'fill':f}),('nofill',{'nofill':True})):
            if nm=='nofill': continue
            v=n.var(nm+'_'+t,t,[x],chunk=[2],**k); 
            n.end(); n.put(v,t,[1],[2],[1,2]); n.redef()
            n.var(nm+'0_'+t,t,[x],contig=True,**k); n.var(nm+'s_'+t,t,[],**k)
            n.var(nm+'e_'+t,t,[x],endian=2,chunk=[3],**k)
    c=n.var('c','c',[x]); c2=n.var('c2','c',[x,x],chunk=[2,2]); s=n.var('s','s',[x]); n.end(); n.put(c2,'c',[0,0],[1,3],b'abc'); n.puts(s,[1],[2],['p','q']); n.close()
@ncase
def nc_classic_model(p):
    n=NC(p,0x1000|0x100); t=n.dim('t',0); x=n.dim('x',4); a=n.var('a','i',[t,x],chunk=[2,4]); b=n.var('b','f',[x]); c=n.var('c','c',[t,x],chunk=[1,4]); n.att(a,'units','c','m'); n.end(); n.put(a,'i',[0,0],[2,4],range(8)); n.put(b,'f',[0],[4],[1,2,3,4]); n.put(c,'c',[0,0],[3,4],b'abcdefghijkl'); n.close()
