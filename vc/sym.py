"""Symbolic values.  double is modelled by a mathematical real (mode 'real'), or by a real plus a
NaN flag (mode 'nan', used for the comparison-only functions); int by a mathematical integer with
an overflow obligation on every operation; size_t by an integer with explicit wrap-around."""
import z3, re, itertools
class Unsupported(Exception): pass
I=z3.IntVal
_cnt=itertools.count()
def fresh_name(p): return f'{p}!{next(_cnt)}'
INT_MIN,INT_MAX=-2**31,2**31-1
NANMODE=[False]

# ---------------------------------------------------------------- types
def split_args(s):
    out=[];d=0;cur=''
    for ch in s:
        if ch in '<(': d+=1
        if ch in '>)': d-=1
        if ch==',' and d==0: out.append(cur.strip()); cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur.strip())
    return out
_SCALAR={'int':('int',32,True),'long':('int',64,True),'unsigned long':('int',64,False),'size_t':('int',64,False),'unsigned int':('int',32,False),'unsigned':('int',32,False),
 'bool':('bool',),'double':('real',),'float':('real',),'char':('int',8,True),'unsigned char':('int',8,False),'void':('void',),'long long':('int',64,True),'ptrdiff_t':('int',64,True),'short':('int',16,True),
 'std::string':('struct','$str'),'string':('struct','$str'),'$bytes':('bytes',),'std::size_t':('int',64,False),'Index':('int',64,True),'streamsize':('int',64,True)}
class Types:
    def __init__(s): s.alias={}; s.structs={}; s.enums=set()
    def parse(s,t):
        t=t.strip()
        while True:
            o=t
            if t.startswith('const '): t=t[6:].strip()
            if t.endswith(' const'): t=t[:-6].strip()
            if t.endswith('&&'): t=t[:-2].strip()
            elif t.endswith('&'): t=t[:-1].strip()
            if t.startswith('struct ') : t=t[7:]
            if t.startswith('class ') : t=t[6:]
            if t.startswith('enum ') : t=t[5:]
            if o==t: break
        if t in _SCALAR: return _SCALAR[t]
        if t.endswith('*'): return ('ptr',s.parse(t[:-1]))
        m=re.match(r'^(.*)\[(\d+)\]$',t)
        if m: return ('vec',s.parse(m.group(1)))
        m=re.match(r'^([\w:]+)<(.*)>(::\w+)?$',t)
        if m and not m.group(3):
            n,a=m.group(1),split_args(m.group(2))
            b=n.split('::')[-1]
            if b in('vector','span','initializer_list'): return ('vec',s.parse(a[0]))
            if b=='array': return ('vec',s.parse(a[0]))
            if b in('Matrix','Block','Vector','Arr'):
                R=int(a[1]); C=int(a[2]) if len(a)>2 else 1
                if R>0 and C>0: return ('mat',R,C)
                if R==-1 and C==-1: return ('dmat',)
                return ('vec',('real',))
            if b=='ArrB':
                return ('bools',int(a[1])*int(a[2]))
            if b=='MatrixBase': return s.parse(a[0])
            if b in('pair','tuple'): return ('tuple',tuple(s.parse(x) for x in a))
            if b in('__vit','reverse_iterator'): return ('iter',t)
            if b=='stack': return ('vec',s.parse(a[0]))
            if b=='mdspan': return ('mdspan',)
            if b=='Grid': 
                nm='libnurbs::Grid<'+', '.join(s.canon(x) for x in a)+'>'
                if nm in s.structs: return ('struct',nm)
                nm=nm.replace('<Matrix<','<Eigen::Matrix<')
                if nm in s.structs: return ('struct',nm)
                raise Unsupported('type '+t)
        if t in s.structs: return ('struct',t)
        if t in s.enums: return ('int',32,True)
        for pre in ('libnurbs::','libnurbs::KnotVector::','libnurbs::Surface::','std::'):
            if pre+t in s.structs: return ('struct',pre+t)
            if pre+t in s.enums: return ('int',32,True)
        if t in s.alias: return s.parse(s.alias[t])
        b=t.split('::')[-1]
        if b in s.alias: return s.parse(s.alias[b])
        if b=='string' or b=='string_view': return ('struct','$str')
        if b in ('istream','ifstream','stringstream','istringstream'): return ('struct','$is')
        if b in ('ostream','ofstream','ostringstream'): return ('struct','$os')
        return ('opaque',t)
    def canon(s,x):
        x=x.strip()
        if x in s.alias: return s.canon(s.alias[x])
        b=x.split('::')[-1]
        if b in s.alias: return s.canon(s.alias[b])
        return x
T=Types()
# library classes with a ghost model: a string is a window lo..hi of an immutable byte array; an input stream a window with a position;
# an output stream appends to a byte array that is named by its final content (every byte is written once)
MODELS={'$str':[('B','$bytes'),('lo','long'),('hi','long')],
        '$is':[('B','$bytes'),('pos','long'),('end','long'),('fail','bool'),('eof','bool'),('open','bool')],
        '$os':[('B','$bytes'),('n','long'),('fail','bool'),('open','bool'),('prec','int'),('sci','bool')]}
def add_models():
    for k,v in MODELS.items(): T.structs[k]={'fields':[(f,t,None) for f,t in v],'node':None}
REAL=('real',); BOOL=('bool',); INT=('int',32,True); ULONG=('int',64,False); LONG=('int',64,True)
VEC3=('mat',3,1); VEC4=('mat',4,1)
OPAQUE=z3.DeclareSort('Opaque')

def sorts(ty):
    k=ty[0]
    if k=='int': return [z3.IntSort()]
    if k=='bool': return [z3.BoolSort()]
    if k=='real': return [z3.RealSort(),z3.BoolSort()] if NANMODE[0] else [z3.RealSort()]
    if k=='bytes': return [z3.ArraySort(z3.IntSort(),z3.IntSort())]
    if k in('opaque','void','ptr'): return [OPAQUE]
    if k=='mat': return sorts(REAL)*(ty[1]*ty[2])
    if k=='vec': return [z3.IntSort()]+[z3.ArraySort(z3.IntSort(),x) for x in sorts(ty[1])]
    if k=='dmat': return [z3.IntSort(),z3.IntSort()]+[z3.ArraySort(z3.IntSort(),z3.ArraySort(z3.IntSort(),x)) for x in sorts(REAL)]
    if k=='tuple': return [x for t in ty[1] for x in sorts(t)]
    if k=='struct': return [x for _,t in struct_fields(ty[1]) for x in sorts(t)]
    raise Unsupported(f'sorts {ty}')
def struct_fields(name):
    return [(f,T.parse(t)) for f,t,_ in T.structs[name]['fields']]

# ---------------------------------------------------------------- values
class V: pass
class Real(V):
    """double in nan mode"""
    __slots__=('v','nan')
    def __init__(s,v,nan): s.v=v; s.nan=nan
class Vec(V):
    def __init__(s,ety,len,arrs): s.ety=ety; s.len=len; s.arrs=arrs
    def at(s,i):
        i=I(i) if isinstance(i,int) else i
        return unflat(s.ety,[z3.Select(a,i) for a in s.arrs])
    __getitem__=at
    @property
    def a(s): return s.arrs[0]
class Mat(V):
    def __init__(s,r,c,e): s.r=r; s.c=c; s.e=list(e)
    x=property(lambda s:s.e[0]); y=property(lambda s:s.e[1]); z=property(lambda s:s.e[2]); w=property(lambda s:s.e[3])
    def __getitem__(s,i): return s.e[i]
class DMat(V):
    def __init__(s,rows,cols,a): s.rows=rows; s.cols=cols; s.a=a   # a: list of arr-of-arr
    def at(s,i,j): return unflat(REAL,[z3.Select(z3.Select(q,i),j) for q in s.a])
class Struct(V):
    def __init__(s,name,f): s.name=name; s.f=f
    def __getattr__(s,n):
        try: return s.__dict__['f'][n]
        except KeyError: raise AttributeError(n)
class Tup(V):
    def __init__(s,tys,e): s.tys=tys; s.e=list(e)
    def __getitem__(s,i): return s.e[i]
class Opq(V):
    def __init__(s,t,tag=None): s.t=t; s.tag=tag
class Iter(V):
    def __init__(s,lv,idx,rev=False): s.lv=lv; s.idx=idx; s.rev=rev
class Lam(V):
    def __init__(s,node,frame,over): s.node=node; s.frame=frame; s.over=over
class Bools(V):
    def __init__(s,e): s.e=e
class RefTup(V):
    def __init__(s,lvs): s.lvs=lvs
class MdView(V):
    """two-dimensional view of the elements of the container lv, row by row"""
    def __init__(s,lv,rows,cols): s.lv=lv; s.rows=rows; s.cols=cols
class FnRef(V):
    def __init__(s,decl): s.decl=decl
class LVal:
    __slots__=('loc','path')
    def __init__(s,loc,path=()): s.loc=loc; s.path=path
    def ext(s,*p): return LVal(s.loc,s.path+p)
    def __repr__(s): return f'LVal({s.loc},{s.path})'

def tyof(v):
    if isinstance(v,Vec): return ('vec',v.ety)
    if isinstance(v,Mat): return ('mat',v.r,v.c)
    if isinstance(v,DMat): return ('dmat',)
    if isinstance(v,Struct): return ('struct',v.name)
    if isinstance(v,Tup): return ('tuple',tuple(v.tys))
    if isinstance(v,Real): return REAL
    if isinstance(v,Opq): return ('opaque','?')
    if z3.is_array(v): return ('bytes',)
    if z3.is_bool(v): return BOOL
    if z3.is_int(v): return INT
    if z3.is_real(v): return REAL
    raise Unsupported(f'tyof {type(v)}')

def flat(v):
    if isinstance(v,Vec): return [v.len]+v.arrs
    if isinstance(v,Mat): return [y for x in v.e for y in flat(x)]
    if isinstance(v,DMat): return [v.rows,v.cols]+v.a
    if isinstance(v,Struct): return [x for f,_ in struct_fields(v.name) for x in flat(v.f[f])]
    if isinstance(v,Tup): return [x for e in v.e for x in flat(e)]
    if isinstance(v,Real): return [v.v,v.nan]
    if isinstance(v,Opq): return [v.t]
    if isinstance(v,z3.ExprRef): return [v]
    raise Unsupported(f'flat {type(v).__name__}')
def unflat(ty,terms):
    it=iter(terms); r=_unflat(ty,it); return r
def _unflat(ty,it):
    k=ty[0]
    if k in('int','bool','bytes'): return next(it)
    if k=='real': return Real(next(it),next(it)) if NANMODE[0] else next(it)
    if k in('opaque','void','ptr'): return Opq(next(it))
    if k=='mat': return Mat(ty[1],ty[2],[_unflat(REAL,it) for _ in range(ty[1]*ty[2])])
    if k=='vec':
        n=next(it); return Vec(ty[1],n,[next(it) for _ in sorts(ty[1])])
    if k=='dmat':
        r=next(it);c=next(it); return DMat(r,c,[next(it) for _ in sorts(REAL)])
    if k=='tuple': return Tup(ty[1],[_unflat(t,it) for t in ty[1]])
    if k=='struct': return Struct(ty[1],{f:_unflat(t,it) for f,t in struct_fields(ty[1])})
    raise Unsupported(f'unflat {ty}')
def fresh(ty,name):
    if ty[0]=='struct':
        return Struct(ty[1],{f:fresh(t,name+'.'+f) for f,t in struct_fields(ty[1])})
    return unflat(ty,[z3.Const(fresh_name(name),x) for x in sorts(ty)])
def ranges(v,ty):
    """type-range facts of a symbolic value (machine representation)"""
    k=ty[0]; out=[]
    if k=='int':
        _,b,sg=ty; lo,hi=(-2**(b-1),2**(b-1)-1) if sg else (0,2**b-1)
        out+= [v>=lo,v<=hi]
    elif k=='vec': out+=[v.len>=0, v.len<=SIZE_MAX]
    elif k=='dmat': out+=[v.rows>=0,v.cols>=0,v.rows<=SIZE_MAX,v.cols<=SIZE_MAX]
    elif k=='struct':
        for f,t in struct_fields(ty[1]): out+=ranges(v.f[f],t)
        if ty[1]=='$str': out+=[v.lo>=0,v.lo<=v.hi,v.hi<=2**61]
        if ty[1]=='$is': out+=[v.pos>=0,v.pos<=v.end,v.end<=2**61]
        if ty[1]=='$os': out+=[v.n>=0,v.n<=2**61]
    elif k=='tuple':
        for e,t in zip(v.e,ty[1]): out+=ranges(e,t)
    return out
SIZE_MAX=2**26   # stated domain: containers hold at most 2^26 elements
def ite(c,a,b):
    if a is b: return a
    if isinstance(a,LVal) or isinstance(b,LVal): raise Unsupported('merging references')
    if isinstance(a,Iter) and isinstance(b,Iter) and a.lv.loc==b.lv.loc and a.lv.path==b.lv.path and a.rev==b.rev: return Iter(a.lv,mk_ite(c,a.idx,b.idx),a.rev)
    if isinstance(a,(Iter,Lam,RefTup,FnRef,MdView)) or isinstance(b,(Iter,Lam,RefTup,FnRef,MdView)):
        if isinstance(a,Lam) and isinstance(b,Lam) and a.node is b.node: return a
        raise Unsupported('merging non-data values')
    if isinstance(a,Bools): return Bools([z3.If(c,p,q) for p,q in zip(a.e,b.e)])
    ty=tyof(a)
    fa,fb=flat(a),flat(b)
    if len(fa)!=len(fb): raise Unsupported('merge shape')
    return unflat(ty if not isinstance(a,Opq) else ('opaque','?'),[mk_ite(c,x,y) for x,y in zip(fa,fb)])
def mk_ite(c,x,y):
    if x.eq(y): return x
    return z3.If(c,x,y)
def veq(a,b):
    """structural equality (vectors: same length and same elements below the length)"""
    if isinstance(a,Vec):
        k=z3.Int(fresh_name('k'))
        return z3.And(a.len==b.len, z3.ForAll([k],z3.Implies(z3.And(0<=k,k<a.len),veq(a.at(k),b.at(k))),patterns=[a.at_pat(k)] if hasattr(a,'at_pat') else []) if False else
            z3.ForAll([k],z3.Implies(z3.And(0<=k,k<a.len),veq(a.at(k),b.at(k)))))
    if isinstance(a,Struct): return z3.And([veq(a.f[f],b.f[f]) for f,_ in struct_fields(a.name)])
    if isinstance(a,Mat): return z3.And([veq(x,y) for x,y in zip(a.e,b.e)])
    if isinstance(a,Tup): return z3.And([veq(x,y) for x,y in zip(a.e,b.e)])
    if isinstance(a,DMat):
        i,j=z3.Ints(fresh_name('i')+' '+fresh_name('j'))
        return z3.And(a.rows==b.rows,a.cols==b.cols,z3.ForAll([i,j],z3.Implies(z3.And(0<=i,i<a.rows,0<=j,j<a.cols),veq(a.at(i,j),b.at(i,j)))))
    if isinstance(a,Real): return z3.And(a.nan==b.nan, z3.Or(a.nan,a.v==b.v))
    if isinstance(a,Opq): return a.t==b.t
    return a==b
# ---- scalar double operations (both modes)
def rconst(q): 
    v=z3.RealVal(q); return Real(v,z3.BoolVal(False)) if NANMODE[0] else v
def rlit(x):
    """exact value of a double literal"""
    from fractions import Fraction
    f=Fraction(float(x)); return rconst(z3.Q(f.numerator,f.denominator))
def rop(op,a,b):
    if isinstance(a,Real) or isinstance(b,Real):
        a=a if isinstance(a,Real) else Real(a,z3.BoolVal(False)); b=b if isinstance(b,Real) else Real(b,z3.BoolVal(False))
        return Real(_rop(op,a.v,b.v),z3.Or(a.nan,b.nan))
    return _rop(op,a,b)
def _rop(op,a,b):
    if op=='+': return a+b
    if op=='-': return a-b
    if op=='*': return a*b
    if op=='/': return a/b
def rcmp(op,a,b):
    if isinstance(a,Real) or isinstance(b,Real):
        a=a if isinstance(a,Real) else Real(a,z3.BoolVal(False)); b=b if isinstance(b,Real) else Real(b,z3.BoolVal(False))
        r=_cmp(op,a.v,b.v)
        if op=='!=': return z3.Or(a.nan,b.nan,r)
        return z3.And(z3.Not(a.nan),z3.Not(b.nan),r)
    return _cmp(op,a,b)
def _cmp(op,a,b):
    return {'<':lambda:a<b,'<=':lambda:a<=b,'>':lambda:a>b,'>=':lambda:a>=b,'==':lambda:a==b,'!=':lambda:a!=b}[op]()
def rneg(a): return Real(-a.v,a.nan) if isinstance(a,Real) else -a
def rabs(a):
    if isinstance(a,Real): return Real(z3.If(a.v>=0,a.v,-a.v),a.nan)
    return z3.If(a>=0,a,-a)
def rval(a): return a.v if isinstance(a,Real) else a

# ---- hypotheses that need no proof of their own at the place of use: defining equations of ghosts and instances of proved lemmas
TRUST={}
def trust(f): TRUST[f.get_id()]=f; return f
def trusted(f): return f.get_id() in TRUST
# ---- universally quantified specification facts with explicit instantiation
REG={}
class Focus:
    """hint: goal, proved from the listed facts only"""
    def __init__(s,goal,*facts,qf=False,ground=False,gen=()): s.gen=gen; s.goal=goal; s.facts=list(facts); s.qf=qf; s.ground=ground   # qf: also the quantifier-free path conditions; ground: without the registered quantifiers themselves, only their instances; gen: these terms are generalised to constants
def has_quant(t,seen=None):
    seen=set() if seen is None else seen; todo=[t]
    while todo:
        x=todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        todo+=x.children()
    return False
class AllF:
    def __init__(s,n,f,hints,names,sort,also=None): s.n=n; s.f=f; s.hints=hints; s.names=names; s.sort=sort; s.also=also
def ALL(names,f,hints=None,sort=None,also=None):
    """forall names: f(*names).  As a goal it is skolemised and hints(*skolems) (instances of lemmas)
    are added; as a hypothesis it is also instantiated at the skolem constants of such goals
    (and at the tuples also(*skolems) of the goal)."""
    names=names.split(); so=z3.IntSort() if sort is None else sort
    so=tuple(so) if isinstance(so,list) else (so,)*len(names)
    vs=[z3.Const(fresh_name(x),t) for x,t in zip(names,so)]
    q=z3.ForAll(vs,f(*vs))
    REG[q.get_id()]=(q,AllF(len(vs),f,hints,names,so,also))
    return q
def ALLP(vs,f,pats,hints=None):
    """like ALL, with fixed bound variables and patterns (one syntactic form for the same fact)"""
    q=z3.ForAll(vs,f(*vs),patterns=pats)
    if hints is not None or q.get_id() not in REG: REG[q.get_id()]=(q,AllF(len(vs),f,hints,[str(v) for v in vs],tuple(v.sort() for v in vs)))
    return q
def inst(q,*t):
    """the instance of a registered quantifier: forall x. f(x) implies f(t)"""
    return trust(z3.Implies(q,REG[q.get_id()][1].f(*t)))
def skolemise(goal,pc):
    """returns (extra hyps, goal) for a registered quantifier, else None"""
    e=REG.get(goal.get_id())
    if e is None: return None
    a=e[1]
    sk=[z3.Const(fresh_name('sk_'+x),t) for x,t in zip(a.names,a.sort)]
    hs=list(a.hints(*sk)) if a.hints else []
    extra=[]
    for h in pc:
        g,cond=h,[]
        while z3.is_implies(g): cond.append(g.arg(0)); g=g.arg(1)
        r=REG.get(g.get_id())
        if r is not None and r[1].n<=a.n:
            combos=[sk]+(list(a.also(*sk)) if a.also else []) if r[1].n==a.n else itertools.permutations(sk,r[1].n)
            for cb in combos:
                if any(x.sort()!=t for x,t in zip(cb,r[1].sort)): continue
                inst=r[1].f(*cb)
                for c in reversed(cond): inst=z3.Implies(c,inst)
                extra.append(inst)
    return hs,extra,a.f(*sk)
