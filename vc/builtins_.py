"""Assumed contracts of the C++ standard library and of Eigen (the trusted base of the proofs).
Eigen expressions have eager value semantics; std algorithms are specified by their postconditions."""
import z3, re
from sym import *
from exec import PtrV, Thrown, Mismatch, intrange, s_cmp
from astload import params, body_of
NORM={}
def normf(n):
    if n not in NORM: NORM[n]=z3.Function(f'norm{n}',*([z3.RealSort()]*n),z3.RealSort())
    return NORM[n]
ACOS=z3.Function('acos',z3.RealSort(),z3.RealSort())
SQRT=z3.Function('sqrt',z3.RealSort(),z3.RealSort())
IDX=lambda q: z3.Int(fresh_name(q))
class B:
    def __init__(s): s.used=set()
    # ---------------------------------------------------------------- parameters
    def fresh_param(s,ex,ty,nm):
        return fresh(ty,nm)
    def globalvar(s,ex,nm):
        if nm in('max_digits10',): return I(17)
        if nm=='digits10': return I(15)
        if nm=='npos': return I(2**64-1)
        if nm in('binary','in','out'): return I({'in':1,'out':2,'binary':4}[nm])
        return None
    # ---------------------------------------------------------------- constructors of library types
    def construct(s,ex,ty,args,ct,n):
        k=ty[0]
        s.used.add('constructor '+str(ty[0]))
        if k in('real','int','bool'): return ex.rv(args[0]) if args else ex.zero(ty)
        if k=='struct':
            import streams; return streams.construct(ex,ty,args,n)
        if k=='vec':
            if not args:
                return Vec(ty[1],I(0),fresh(ty,'e').arrs)
            vals=[ex.rv(a) for a in args if a.k!='CXXDefaultArgExpr']
            a=vals[0]
            if ty[1]==REAL and re.match(r'(const )?(Eigen::|VecX|libnurbs::VecX)',n.t or ''):   # VecX(n) or VecX(other)
                if isinstance(a,Vec): return a
                if isinstance(a,Mat): return ex.mkvec(REAL,a.e)
                if isinstance(a,z3.ExprRef):
                    ex.ob('bounds','vector size is not negative',a>=0); return Vec(REAL,a,fresh(ty,'e').arrs)
            if isinstance(a,Vec): return a if ('span' not in (n.t or '')) else a
            if isinstance(a,Iter):
                b=vals[1]; return s.slice(ex,ty,a,b)
            if isinstance(a,z3.ExprRef):
                s.alloc_ob(ex,'vector size',a)
                init=vals[1] if len(vals)>1 else None
                return s.filled(ex,ty[1],a,init)
            raise Unsupported('vector constructor')
        if k=='mat':
            N=ty[1]*ty[2]
            if not args: return fresh(ty,'uninit')
            vals=[ex.rv(a) for a in args]
            if len(vals)==1 and isinstance(vals[0],Mat):
                if len(vals[0].e)!=N: raise Unsupported('matrix size')
                return Mat(ty[1],ty[2],vals[0].e)
            if len(vals)==1 and isinstance(vals[0],Vec): return Mat(ty[1],ty[2],[vals[0].at(i) for i in range(N)])
            if len(vals)==N and all(not isinstance(v,(Mat,Vec)) for v in vals): return Mat(ty[1],ty[2],[s.real(ex,v) for v in vals])
            raise Unsupported('matrix constructor')
        if k=='dmat':
            if args:
                v=ex.rv(args[0])
                if isinstance(v,DMat): return v
                if len(args)==2: 
                    r,c=v,ex.rv(args[1]); d=fresh(ty,'m'); d.rows=r; d.cols=c; return d
            else: return DMat(I(0),I(0),fresh(ty,'m').a)
            raise Unsupported('matrix constructor')
        if k=='tuple':
            if len(args)==len(ty[1]): return Tup(ty[1],[s.conv(ex,ex.rv(a),t) for a,t in zip(args,ty[1])])
            if len(args)==1:
                v=ex.rv(args[0])
                if isinstance(v,Tup): return Tup(ty[1],[s.conv(ex,x,t) for x,t in zip(v.e,ty[1])])
            if not args: return ex.zero(ty)
            raise Unsupported('tuple constructor')
        if k=='iter':
            return ex.rv(args[0])
        if k=='mdspan':
            vals=[ex.rv(a) for a in args]
            if len(vals)==1 and isinstance(vals[0],MdView): return vals[0]
            if len(vals)!=3 or not isinstance(vals[0],PtrV) or not vals[0].elems: raise Unsupported('mdspan constructor')
            v=ex.load(vals[0].lv); r,c=vals[1:]
            ex.ob('bounds','view lies inside the container',z3.And(r>=0,c>=0,r*c<=v.len)); return MdView(vals[0].lv,r,c)
        if k=='opaque':
            if not args: return Opq(z3.Const(fresh_name('opq'),OPAQUE),ty[1])
            v=ex.rv(args[0])
            return v
        raise Unsupported(f'constructor {ty}')
    def conv(s,ex,v,t):
        if t[0]=='real' and isinstance(v,z3.ExprRef) and z3.is_int(v): return ex.toreal(v)
        return v
    def real(s,ex,v):
        if isinstance(v,z3.ExprRef) and z3.is_int(v): return ex.toreal(v)
        return v
    def alloc_ob(s,ex,what,n):
        # resource assumption: no container ever holds more than SIZE_MAX elements
        ex.ob('bounds',f'{what} is not negative',z3.And(n>=0,n<2**62)); ex.st.assume(n<=SIZE_MAX)
    def filled(s,ex,ety,n,init):
        v=fresh(('vec',ety),'fill')
        if init is None:
            if ety[0] in('mat','opaque'): return Vec(ety,n,v.arrs)
            init=ex.zero(ety)
        if isinstance(init,z3.ExprRef) and ety[0]=='real' and z3.is_int(init): init=ex.toreal(init)
        fl=flat(init)
        return Vec(ety,n,[z3.K(z3.IntSort(),x) for x in fl])
    def remap(s,ex,v,n,f,name='r'):
        """vector of length n whose element k is f(k) (list of flat terms)"""
        r=fresh(('vec',v.ety),name); q=IDX('q')
        for a,t in zip(r.arrs,f(q)):
            ex.st.assume(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<n),z3.Select(a,q)==t),patterns=[z3.Select(a,q)]))
        return Vec(v.ety,n,r.arrs)
    def slice(s,ex,ty,a,b):
        v=ex.load(a.lv)
        ex.ob('bounds','iterator range is within the container',z3.And(0<=a.idx,a.idx<=b.idx,b.idx<=v.len))
        z=z3.simplify(a.idx)
        if z3.is_int_value(z) and z.as_long()==0 and not a.rev: return Vec(v.ety,b.idx,v.arrs)
        if a.rev: return s.remap(ex,v,b.idx-a.idx,lambda q:[z3.Select(x,v.len-1-a.idx-q) for x in v.arrs])
        return s.remap(ex,v,b.idx-a.idx,lambda q:[z3.Select(x,q+a.idx) for x in v.arrs])
    # ---------------------------------------------------------------- calls
    def call(s,ex,d,nm,this,args,n):
        owner=(d.d.get('qname') or '') if d is not None else ''
        s.used.add(nm)
        if nm=='__vc_assert':
            c=ex.tobool(ex.ev(args[0])); ex.ob('assert','assertion in the code',c); ex.st.assume(c); return None
        if nm in('endl','fixed','scientific'): return None
        if this is not None:
            v=ex.load(this)
            if isinstance(v,Struct) and v.name[0]=='$':
                import streams
                return streams.method(s,ex,nm,this,v,args,n)
            if isinstance(v,Vec): return s.vec_method(ex,nm,this,v,args,n)
            if isinstance(v,(Mat,DMat)): return s.mat_method(ex,nm,this,v,args,n)
            if isinstance(v,Iter): return s.iter_method(ex,nm,this,v,args,n)
            if isinstance(v,MdView):
                if nm=='operator[]' and len(args)==2:
                    i,j=ex.rv(args[0]),ex.rv(args[1]); ex.ob('bounds','element is inside the view',z3.And(i>=0,i<v.rows,j>=0,j<v.cols)); return v.lv.ext(('i',i*v.cols+j))
                if nm=='extent': return z3.If(ex.rv(args[0])==0,v.rows,v.cols)
                raise Unsupported('mdspan::'+nm)
            if isinstance(v,Bools): return z3.And(v.e) if nm=='all' else z3.Or(v.e)
            if isinstance(v,RefTup): return s.tie_assign(ex,v,args)
            if isinstance(v,Tup):
                if nm=='operator=':
                    w=ex.rv(args[0]); ex.store(this,Tup(v.tys,[s.conv(ex,x,t) for x,t in zip(w.e,v.tys)])); return this
            if isinstance(v,Struct) and nm=='operator=':
                ex.store(this,ex.rv(args[0])); return this
            raise Unsupported(f'method {nm} on {type(v).__name__}')
        return s.free(ex,d,nm,args,n)
    def tie_assign(s,ex,v,args):
        w=ex.rv(args[0])
        for lv,x in zip(v.lvs,w.e): ex.store(lv,x)
        return None
    # ---- vectors
    def a(s,ex,args,i): return ex.rv(args[i])
    def vec_method(s,ex,nm,this,v,args,n):
        eig='Eigen' in ((n.kids[0].kids[0].t if n.kids and n.kids[0] is not None and n.kids[0].kids and n.kids[0].kids[0] is not None else '') or '')
        if nm in('size','rows') : return v.len
        if nm=='cols': return I(1)
        if nm=='empty': return v.len==0
        nm={'push':'push_back','pop':'pop_back','top':'back'}.get(nm,nm)      # std::stack
        if nm in('capacity',):
            c=IDX('cap'); ex.st.assume(c>=v.len); return c
        if nm in('reserve','shrink_to_fit'): 
            for x in args: ex.rv(x)
            return None
        if nm in('operator[]','operator()','at','coeff','coeffRef'):
            i=ex.rv(args[0])
            if nm=='at':
                t=ex.st.copy(); t.pc.append(z3.Not(z3.And(i>=0,i<v.len))); ex.throws.append(('out_of_range',t)); ex.st.assume(i>=0,i<v.len)
            return ex.index(this,i)
        if nm=='front': ex.ob('bounds','front() of a non-empty vector',v.len>0); return this.ext(('i',I(0))) if isinstance(this,LVal) else v.at(I(0))
        if nm=='back': ex.ob('bounds','back() of a non-empty vector',v.len>0); return this.ext(('i',v.len-1)) if isinstance(this,LVal) else v.at(v.len-1)
        if nm in('begin','cbegin'): return Iter(this if isinstance(this,LVal) else ex.alloc(v),I(0))
        if nm in('end','cend'): return Iter(this if isinstance(this,LVal) else ex.alloc(v),v.len)
        if nm=='rbegin': return Iter(this,I(0),True)
        if nm=='rend': return Iter(this,v.len,True)
        if nm=='data': return PtrV(this,True)
        if nm=='clear': ex.store(this,Vec(v.ety,I(0),v.arrs)); return None
        if nm=='noalias' or nm=='eval' or nm=='derived': return this
        if nm in('push_back','emplace_back'):
            if nm=='emplace_back' and (len(args)!=1 or v.ety[0]=='struct'):
                if v.ety[0]=='struct':
                    if len(args)==1 and T.parse(args[0].t or '')==v.ety: x=ex.rv(args[0])
                    else: x=s.construct_struct(ex,v.ety[1],args)
                elif v.ety[0]=='tuple': x=Tup(v.ety[1],[s.conv(ex,ex.rv(a),t) for a,t in zip(args,v.ety[1])])
                elif v.ety[0]=='mat' and len(args)==v.ety[1]*v.ety[2]: x=Mat(v.ety[1],v.ety[2],[s.real(ex,ex.rv(a)) for a in args])
                elif not args: x=ex.zero(v.ety)
                else: raise Unsupported('emplace_back')
            else: x=ex.rv(args[0])
            x=s.conv(ex,x,v.ety)
            v=ex.load(this)
            ex.st.assume(v.len+1<=SIZE_MAX)
            ex.store(this,Vec(v.ety,v.len+1,[z3.Store(a,v.len,y) for a,y in zip(v.arrs,flat(x))]))
            return this.ext(('i',v.len)) if nm=='emplace_back' else None
        if nm=='pop_back':
            ex.ob('bounds','pop_back() of a non-empty vector',v.len>0); ex.store(this,Vec(v.ety,v.len-1,v.arrs)); return None
        if nm=='resize':
            m=ex.rv(args[0]); s.alloc_ob(ex,'new size',m)
            if ex.entails(m<=v.len): ex.store(this,Vec(v.ety,m,v.arrs)); return None
            if len(args)>1: fill=flat(ex.rv(args[1]))
            elif v.ety[0] in('mat','opaque'): fill=None
            else: fill=flat(ex.zero(v.ety))
            if fill is None:
                ex.store(this,Vec(v.ety,m,v.arrs)); return None
            ex.store(this,s.remap(ex,v,m,lambda q:[z3.If(q<v.len,z3.Select(a,q),f) for a,f in zip(v.arrs,fill)],'rsz')); return None
        if nm=='assign':
            x=ex.rv(args[0])
            if isinstance(x,Iter): ex.store(this,s.slice(ex,('vec',v.ety),x,ex.rv(args[1]))); return None
            ex.ob('bounds','size is not negative',x>=0); ex.store(this,s.filled(ex,v.ety,x,ex.rv(args[1]))); return None
        if nm=='insert' or nm=='emplace':
            it=ex.rv(args[0])
            if not isinstance(it,Iter): raise Unsupported('insert position')
            rest=[ex.rv(a) for a in args[1:]]
            v=ex.load(this)
            p=it.idx
            ex.ob('bounds','insert position is within the vector',z3.And(p>=0,p<=v.len))
            if len(rest)==2 and isinstance(rest[0],Iter):
                src=ex.load(rest[0].lv); cnt=rest[1].idx-rest[0].idx
                ex.ob('bounds','source range',z3.And(0<=rest[0].idx,rest[0].idx<=rest[1].idx,rest[1].idx<=src.len))
                nv=s.remap(ex,v,v.len+cnt,lambda q:[z3.If(q<p,z3.Select(a,q),z3.If(q<p+cnt,z3.Select(b,q-p+rest[0].idx),z3.Select(a,q-cnt))) for a,b in zip(v.arrs,src.arrs)],'ins')
                ex.store(this,nv); return Iter(this,p)
            if len(rest)==2: cnt,x=rest
            else: cnt,x=I(1),rest[0]
            s.alloc_ob(ex,'insert count',cnt)
            ex.st.assume(v.len+cnt<=SIZE_MAX)
            fl=flat(s.conv(ex,x,v.ety))
            nv=s.remap(ex,v,v.len+cnt,lambda q:[z3.If(q<p,z3.Select(a,q),z3.If(q<p+cnt,f,z3.Select(a,q-cnt))) for a,f in zip(v.arrs,fl)],'ins')
            ex.store(this,nv)
            return Iter(this,p)
        if nm=='erase':
            it=ex.rv(args[0]); jt=ex.rv(args[1]) if len(args)>1 else Iter(it.lv,it.idx+1)
            p,e=it.idx,jt.idx
            ex.ob('bounds','erased range is within the vector',z3.And(p>=0,p<=e,e<=v.len))
            if ex.entails(e==v.len): ex.store(this,Vec(v.ety,p,v.arrs)); return Iter(this,p)
            nv=s.remap(ex,v,v.len-(e-p),lambda q:[z3.If(q<p,z3.Select(a,q),z3.Select(a,q+(e-p))) for a in v.arrs],'ers')
            ex.store(this,nv); return Iter(this,p)
        if nm=='operator=':
            w=ex.rv(args[0])
            if isinstance(w,Mat): w=ex.mkvec(REAL,w.e)
            if isinstance(this,LVal) and this.path and this.path[-1][0] in('row','seg'):
                ex.ob('bounds','assigned sizes agree',w.len==v.len); w=Vec(v.ety,v.len,w.arrs)
            ex.store(this,w); return this
        if nm=='swap':
            o=ex.ev(args[0]); a,b=ex.load(this),ex.load(o); ex.store(this,b); ex.store(o,a); return None
        if nm in('subspan','first'):
            raise Unsupported(nm)
        if nm in('operator*=','operator/='):
            k=s.real(ex,ex.rv(args[0]))
            if nm=='operator/=': ex.ob('divzero','divisor is not zero',rval(k)!=0)
            op=nm[8]
            nv=s.remap(ex,v,v.len,lambda q:[_r(op,z3.Select(v.arrs[0],q),k)],'scl')
            ex.store(this,nv); return this
        if nm in('operator+=','operator-='):
            w=ex.rv(args[0]); ex.ob('bounds','sizes agree',w.len==v.len); op=nm[8]
            ex.store(this,s.remap(ex,v,v.len,lambda q:[_r(op,z3.Select(v.arrs[0],q),z3.Select(w.arrs[0],q))],'add')); return this
        if nm=='transpose': return v
        if nm=='setZero':
            ex.store(this,s.filled(ex,v.ety,v.len,rconst(0))); return this
        if nm in('fill',):
            ex.store(this,s.filled(ex,v.ety,v.len,ex.rv(args[0]))); return None
        if nm in('head','segment'):
            raise Unsupported('dynamic '+nm)
        if nm=='sum':
            raise Unsupported('sum')
        raise Unsupported(f'vector::{nm}')
    def construct_struct(s,ex,cls,args):
        # emplace_back(args...) of a class of the library: pick the constructor by arity
        node=T.structs[cls]['node']
        c=[c for c in node.kids if c is not None and c.k=='CXXConstructorDecl' and len(params(c))==len(args) and ex.prog.definition(c) is not None and not c.get('isImplicit')]
        if len(c)==1 and args:
            this=ex.alloc(None); ex.call_body(ex.prog.definition(c[0]),this,[ex.ev(a) for a in args],ctor=cls); return ex.load(this)
        if not args: return ex.default_struct(cls)
        if len(args)==1:
            v=ex.rv(args[0])
            if isinstance(v,Struct): return v
        raise Unsupported('emplace_back of '+cls)
    def seq(s,v):
        if isinstance(v,Struct) and v.name=='$str':
            return _StrSeq(v)
        return v
    # ---- iterators
    def iter_method(s,ex,nm,this,v,args,n):
        if nm=='operator*' or nm=='operator->':
            vec=s.seq(ex.load(v.lv)); i=vec.len-1-v.idx if v.rev else v.idx
            ex.ob('bounds','dereferenced iterator is inside the container',z3.And(i>=0,i<vec.len))
            lv=v.lv.ext(('i',i)); return lv if nm=='operator*' else PtrV(lv)
        if nm=='operator[]':
            vec=ex.load(v.lv); i=v.idx+ex.rv(args[0]); return ex.index(v.lv,i)
        if nm in('operator+','operator-'):
            o=ex.rv(args[0])
            if isinstance(o,Iter): return v.idx-o.idx
            return Iter(v.lv,v.idx+o if nm[-1]=='+' else v.idx-o,v.rev)
        if nm in('operator++','operator--'):
            d=1 if '+' in nm else -1
            ex.store(this,Iter(v.lv,v.idx+d,v.rev)); return v if args else this
        if nm in('operator+=','operator-='):
            o=ex.rv(args[0]); ex.store(this,Iter(v.lv,v.idx+o if '+' in nm else v.idx-o,v.rev)); return this
        if nm=='operator=': ex.store(this,ex.rv(args[0])); return this
        if nm=='base': 
            vec=s.seq(ex.load(v.lv)); return Iter(v.lv,vec.len-v.idx)
        raise Unsupported('iterator '+nm)
    # ---- Eigen
    def mat_method(s,ex,nm,this,v,args,n):
        if nm=='operator=':
            w=ex.rv(args[0])
            if isinstance(v,Mat) and isinstance(w,Mat):
                if len(w.e)!=len(v.e): raise Unsupported('matrix assignment size')
                w=Mat(v.r,v.c,w.e)
            ex.store(this,w); return this
        if nm in('noalias','derived','eval'): return this
        if isinstance(v,DMat):
            if nm=='rows': return v.rows
            if nm=='cols': return v.cols
            if nm=='size': return v.rows*v.cols
            if nm in('operator()','coeff','coeffRef'):
                i=ex.rv(args[0]); j=ex.rv(args[1])
                ex.ob('bounds','matrix element is inside the matrix',z3.And(i>=0,i<v.rows,j>=0,j<v.cols))
                return this.ext(('ij',i,j)) if isinstance(this,LVal) else v.at(i,j)
            if nm in('row','col'):
                i=ex.rv(args[0]); ex.ob('bounds',f'{nm} index is inside the matrix',z3.And(i>=0,i<(v.rows if nm=='row' else v.cols)))
                if isinstance(this,LVal): return this.ext((nm,i))
                return ex.step(v,(nm,i))
            raise Unsupported('MatX::'+nm)
        N=len(v.e)
        pos={'x':0,'y':1,'z':2,'w':3}
        if nm in pos: return this.ext(('m',pos[nm])) if isinstance(this,LVal) else v.e[pos[nm]]
        if nm in('operator()','operator[]','coeff','coeffRef'):
            if len(args)==1: return ex.index(this,ex.rv(args[0]),'component')
            i,j=[z3.simplify(ex.rv(a)) for a in args]
            if not (z3.is_int_value(i) and z3.is_int_value(j)): raise Unsupported('symbolic matrix index')
            q=i.as_long()*v.c+j.as_long()
            return this.ext(('m',q)) if isinstance(this,LVal) else v.e[q]
        if nm=='size': return I(N)
        if nm=='rows': return I(v.r)
        if nm=='cols': return I(v.c)
        if nm in('head','tail','segment'):
            # size from the result type Block<T,N,1>
            m=re.search(r'Block<[^,]*, *(-?\d+)',n.t or ''); k=int(m.group(1)) if m else -1
            if k<0: raise Unsupported('dynamic head')
            off=0 if nm=='head' else N-k if nm=='tail' else z3.simplify(ex.rv(args[0])).as_long()
            return this.ext(('seg',off,k)) if isinstance(this,LVal) else Mat(k,1,v.e[off:off+k])
        if nm=='data': return PtrV(this,True)
        if nm in('operator+=','operator-='):
            w=ex.rv(args[0]); v=ex.load(this); op=nm[8]
            if len(w.e)!=N: raise Unsupported('size')
            ex.store(this,Mat(v.r,v.c,[rop(op,a,b) for a,b in zip(v.e,w.e)])); return this
        if nm in('operator*=','operator/='):
            k=s.real(ex,ex.rv(args[0])); op=nm[8]; v=ex.load(this)
            if isinstance(k,Mat): raise Unsupported('matrix *=')
            if op=='/': ex.ob('divzero','divisor is not zero',rval(k)!=0)
            ex.store(this,Mat(v.r,v.c,[rop(op,a,k) for a in v.e])); return this
        if nm in('norm',):
            es=[rval(x) for x in v.e]
            r=normf(N)(*es)
            ex.st.assume(r>=0, (r==0)==z3.And([x==0 for x in es]), *[c for x in es for c in(r>=x,r>=-x)]); return r
        if nm=='squaredNorm': 
            t=rconst(0)
            for x in v.e: t=rop('+',t,rop('*',x,x))
            return t
        if nm=='allFinite': return z3.BoolVal(True)     # real numbers
        if nm=='hasNaN': return z3.BoolVal(False)
        if nm in('isZero','isIdentity','isOnes'):
            # Eigen: off values are much smaller than one, unit values are approximately one
            pr=rval(s.real(ex,ex.rv(args[0]))) if args else z3.RealVal('1e-12')
            near0=lambda x: z3.And(x<=pr,-x<=pr)
            near1=lambda x: z3.And(*[c for m in(z3.If(x>=0,x,-x),z3.RealVal(1)) for c in(x-1<=pr*m,1-x<=pr*m)])
            one=lambda q: nm=='isOnes' or nm=='isIdentity' and q//v.c==q%v.c
            return z3.And([near1(rval(x)) if one(q) else near0(rval(x)) for q,x in enumerate(v.e)])
        if nm=='isApprox':
            w=ex.rv(args[0]); pr=rval(s.real(ex,ex.rv(args[1]))) if len(args)>1 else z3.RealVal('1e-12')
            a=[rval(x) for x in v.e]; b=[rval(x) for x in w.e]
            if len(a)!=len(b): raise Unsupported('size')
            sq=lambda q: z3.Sum([x*x for x in q])
            d=sq([x-y for x,y in zip(a,b)])
            return z3.And(d<=pr*pr*sq(a),d<=pr*pr*sq(b))
        if nm=='lpNorm': raise Unsupported(nm)
        if nm=='sum':
            t=v.e[0]
            for x in v.e[1:]: t=rop('+',t,x)
            return t
        if nm=='prod':
            t=v.e[0]
            for x in v.e[1:]: t=rop('*',t,x)
            return t
        if nm in('minCoeff','maxCoeff'):
            t=v.e[0]
            for x in v.e[1:]: t=_mm(nm[:3],t,x)
            return t
        if nm=='cwiseAbs' or nm=='abs': return Mat(v.r,v.c,[rabs(x) for x in v.e])
        if nm in('cwiseMin','cwiseMax','min','max'):
            w=ex.rv(args[0]); m='min' if 'in' in nm.lower() and 'max' not in nm.lower() else 'max'
            return Mat(v.r,v.c,[_mm(m,a,b) for a,b in zip(v.e,w.e)])
        if nm=='cwiseProduct':
            w=ex.rv(args[0]); return Mat(v.r,v.c,[rop('*',a,b) for a,b in zip(v.e,w.e)])
        if nm in('array','matrix'): return v
        if nm=='transpose': return Mat(v.c,v.r,[v.e[i*v.c+j] for j in range(v.c) for i in range(v.r)])
        if nm=='dot':
            w=ex.rv(args[0]); t=rconst(0)
            for a,b in zip(v.e,w.e): t=rop('+',t,rop('*',a,b))
            return t
        if nm=='cross':
            w=ex.rv(args[0]); a,b=v.e,w.e; f=lambda i,j: rop('-',rop('*',a[i],b[j]),rop('*',a[j],b[i]))
            return Mat(3,1,[f(1,2),f(2,0),f(0,1)])
        if nm=='normalized':
            r=s.mat_method(ex,'norm',this,v,[],n)
            return Mat(v.r,v.c,[z3.If(r>0,x/r,x) for x in v.e])
        if nm=='setZero': ex.store(this,Mat(v.r,v.c,[rconst(0)]*N)); return this
        if nm=='setConstant': k=ex.rv(args[0]); ex.store(this,Mat(v.r,v.c,[k]*N)); return this
        if nm=='swap':
            o=ex.ev(args[0]); a,b=ex.load(this),ex.load(o); ex.store(this,b); ex.store(o,a); return None
        raise Unsupported('Eigen '+nm)
    # ---- free functions and operators
    def free(s,ex,d,nm,args,n):
        if nm in('ToHomo',): raise Unsupported(nm)
        # operators on Eigen values / iterators / strings
        if nm.startswith('operator'):
            op=nm[8:]
            vals=[ex.ev(a) for a in args]; lv=[ex.load(v) for v in vals]
            a=lv[0]; b=lv[1] if len(lv)>1 else None
            import streams
            if isinstance(a,Struct) and a.name in('$is','$os'): return streams.op(ex,op,vals[0],a,vals[1],lv[1],args,n)
            if isinstance(a,Iter) and isinstance(b,Iter):
                if op=='-': return (a.idx-b.idx)
                if op in('==','!=','<','<=','>','>='): return s_cmp(op,a.idx,b.idx)
            if isinstance(a,Struct) and a.name=='$str' or isinstance(b,Struct) and b.name=='$str': return streams.strop(ex,op,a,b)
            if op=='-' and b is None: return Mat(a.r,a.c,[rneg(x) for x in a.e])
            if op in('+','-') and isinstance(a,Mat) and isinstance(b,Mat):
                return Mat(a.r,a.c,[rop(op,x,y) for x,y in zip(a.e,b.e)])
            if op=='*':
                if isinstance(a,Mat) and isinstance(b,Mat):
                    if a.c!=b.r: raise Unsupported('matrix product shape')
                    out=[]
                    for i in range(a.r):
                        for j in range(b.c):
                            t=None
                            for k in range(a.c):
                                p=rop('*',a.e[i*a.c+k],b.e[k*b.c+j]); t=p if t is None else rop('+',t,p)
                            out.append(t)
                    return Mat(a.r,b.c,out)
                if isinstance(a,Mat): k=s.real(ex,b); return Mat(a.r,a.c,[rop('*',x,k) for x in a.e])
                if isinstance(b,Mat): k=s.real(ex,a); return Mat(b.r,b.c,[rop('*',k,x) for x in b.e])
            if op=='/' and isinstance(a,Mat):
                k=s.real(ex,b); ex.ob('divzero','divisor is not zero',rval(k)!=0)
                return Mat(a.r,a.c,[rop('/',x,k) for x in a.e])
            if op in('<','<=','>','>=','==','!=') and isinstance(a,Mat):
                if 'ArrB' in (n.t or ''):
                    be=b.e if isinstance(b,Mat) else [b]*len(a.e)
                    return Bools([rcmp(op,x,y) for x,y in zip(a.e,be)])
                eq=z3.And([rcmp('==',x,y) for x,y in zip(a.e,b.e)])
                return eq if op=='==' else z3.Not(eq)
            if op in('==','!=') and isinstance(a,Vec):
                e=veq(a,b); return e if op=='==' else z3.Not(e)
            raise Unsupported('operator'+op)
        R=n.t or ''
        if nm=='move' and len(args)==1:
            lv=ex.ev(args[0]); v=ex.load(lv)
            if isinstance(lv,LVal) and isinstance(v,Vec):     # a moved-from container has an unspecified value
                f=fresh(('vec',v.ety),'moved'); ex.st.assume(f.len>=0,f.len<=SIZE_MAX); ex.store(lv,f); return v
            return lv
        if nm in('forward','as_const') and len(args)==1: return ex.ev(args[0])
        if nm in('abs','fabs'):
            v=ex.rv(args[0])
            if isinstance(v,z3.ExprRef) and z3.is_int(v):
                ex.ob('overflow','abs',v>=-2**31+1); return z3.If(v>=0,v,-v)
            return rabs(v)
        if nm in('min','max','fmin','fmax'):
            vs=[ex.rv(a) for a in args]
            if len(vs)==1 and isinstance(vs[0],Vec):
                m=z3.simplify(vs[0].len).as_long(); vs=[vs[0].at(i) for i in range(m)]
                t=vs[0]
                for x in vs[1:]: t=_mm(nm[-3:],t,x)
                return t
            if len(vs)==2: return _mm(nm[-3:],vs[0],vs[1])
            if len(vs)==0:
                t=T.parse(R)
                if t[0]=='int': return I(intrange(t)[1 if nm=='max' else 0])
                from fractions import Fraction
                import sys
                return rlit(sys.float_info.max if nm=='max' else sys.float_info.min)
            raise Unsupported(nm)
        if nm=='lowest':
            import sys; return rlit(-sys.float_info.max)
        if nm=='epsilon':
            import sys; return rlit(sys.float_info.epsilon)
        if nm=='clamp':
            x,lo,hi=[s.real(ex,ex.rv(a)) for a in args]
            ex.ob('precondition','std::clamp bounds are ordered',rval(lo)<=rval(hi))
            return z3.If(x<lo,lo,z3.If(hi<x,hi,x))
        if nm=='swap':
            a,b=ex.ev(args[0]),ex.ev(args[1]); x,y=ex.load(a),ex.load(b); ex.store(a,y); ex.store(b,x); return None
        if nm=='exchange':
            a=ex.ev(args[0]); o=ex.load(a); ex.store(a,ex.rv(args[1])); return o
        if nm in('make_pair','make_tuple'):
            ty=T.parse(R); vs=[ex.rv(a) for a in args]
            return Tup(ty[1],[s.conv(ex,v,t) for v,t in zip(vs,ty[1])])
        if nm=='tie': return RefTup([ex.ev(a) for a in args])
        if nm=='get':
            raise Unsupported('std::get')
        if nm=='distance':
            a,b=ex.rv(args[0]),ex.rv(args[1]); return b.idx-a.idx
        if nm in('next','prev'):
            a=ex.rv(args[0]); k=ex.rv(args[1]) if len(args)>1 and args[1].k!='CXXDefaultArgExpr' else I(1)
            return Iter(a.lv,a.idx+k if nm=='next' else a.idx-k,a.rev)
        if nm in('begin','end','rbegin','rend','cbegin','cend','size','ssize'):
            lv=ex.ev(args[0]); return s.vec_method(ex,nm if nm!='ssize' else 'size',lv,ex.load(lv),[],n)
        if nm in('upper_bound','lower_bound'):
            vs=[ex.rv(a) for a in args]
            if isinstance(vs[0],Vec): 
                lv=ex.ev(args[0]); lv=lv if isinstance(lv,LVal) else ex.alloc(vs[0]); vs=[Iter(lv,I(0)),Iter(lv,vs[0].len)]+vs[1:]
            return s.bound(ex,nm,vs)
        if nm=='partition_point':
            vs=[ex.rv(a) for a in args]
            return s.find_if(ex,vs[0],vs[1],lambda q: z3.Not(s.pred(ex,vs[2],q)),True)
        if nm in('find_if','find_if_not','find','adjacent_find'):
            vs=[ex.rv(a) for a in args]
            if isinstance(vs[0],Vec): 
                lv=ex.ev(args[0]); vs=[Iter(lv,I(0)),Iter(lv,vs[0].len)]+vs[1:]
            if nm=='find_if': p=lambda x:s.pred(ex,vs[2],x)
            elif nm=='find_if_not': p=lambda x:z3.Not(s.pred(ex,vs[2],x))
            elif nm=='find': p=lambda x:s.eqv(x,vs[2])
            else: raise Unsupported(nm)
            return s.find_if(ex,vs[0],vs[1],p)
        if nm in('all_of','any_of','none_of','count_if','count','is_sorted'):
            vs=[ex.rv(a) for a in args]
            if isinstance(vs[0],Vec):
                lv=ex.ev(args[0]); lv=lv if isinstance(lv,LVal) else ex.alloc(vs[0]); vs=[Iter(lv,I(0)),Iter(lv,vs[0].len)]+vs[1:]
            a,b=vs[0],vs[1]; vec=ex.load(a.lv)
            at=lambda q: vec.at(vec.len-1-q) if a.rev else vec.at(q)
            q=IDX('q')
            if nm=='is_sorted':
                return z3.ForAll([q],z3.Implies(z3.And(a.idx<=q,q+1<b.idx),z3.Not(rcmp('<',at(q+1),at(q)))))
            p=(lambda x:s.pred(ex,vs[2],x)) if nm!='count' else (lambda x:s.eqv(x,vs[2]))
            if nm in('count','count_if'):
                import spec
                return spec.count_range(ex,vec,a.idx,b.idx,lambda k:p(at(k)))
            if nm=='any_of': return z3.Exists([q],z3.And(a.idx<=q,q<b.idx,p(at(q))))
            body=p(at(q)); body=body if nm=='all_of' else z3.Not(body)
            return z3.ForAll([q],z3.Implies(z3.And(a.idx<=q,q<b.idx),body))
        if nm=='sort' or nm=='stable_sort':
            vs=[ex.rv(a) for a in args]
            if isinstance(vs[0],Vec): raise Unsupported('ranges::sort')
            return s.sort(ex,vs)
        if nm=='reverse':
            a=ex.rv(args[0])
            if len(args)==1:
                lv=ex.ev(args[0]); lv=lv if isinstance(lv,LVal) else None
                v=ex.load(lv); lo,hi=I(0),v.len
            else:
                b=ex.rv(args[1]); lv=a.lv; v=ex.load(lv); lo,hi=a.idx,b.idx
            nv=s.remap(ex,v,v.len,lambda q:[z3.If(z3.And(q>=lo,q<hi),z3.Select(x,lo+hi-1-q),z3.Select(x,q)) for x in v.arrs],'rev')
            ex.store(lv,nv); return None
        if nm in('fill','fill_n'):
            vs=[ex.rv(a) for a in args]
            if isinstance(vs[0],Vec):
                lv=ex.ev(args[0]); v=vs[0]; ex.store(lv,s.filled(ex,v.ety,v.len,vs[1])); return None
            a=vs[0]; hi=vs[1].idx if nm=='fill' else a.idx+vs[1]; v=ex.load(a.lv); fl=flat(s.conv(ex,vs[2],v.ety))
            ex.ob('bounds','filled range is within the container',z3.And(a.idx>=0,a.idx<=hi,hi<=v.len))
            nv=s.remap(ex,v,v.len,lambda q:[z3.If(z3.And(q>=a.idx,q<hi),f,z3.Select(x,q)) for x,f in zip(v.arrs,fl)],'fil')
            ex.store(a.lv,nv); return None
        if nm in('copy','move','copy_n','reverse_copy','copy_backward','move_backward'):
            a,b,o=[ex.rv(x) for x in args]
            if not isinstance(o,Iter): raise Unsupported(nm+' to inserter')
            hi=b.idx if nm!='copy_n' else a.idx+b
            src=ex.load(a.lv); dst=ex.load(o.lv); cnt=hi-a.idx
            start=o.idx-cnt if 'backward' in nm else o.idx
            ex.ob('bounds','source range',z3.And(a.idx>=0,a.idx<=hi,hi<=src.len)); ex.ob('bounds','destination range',z3.And(start>=0,start+cnt<=dst.len))
            f=(lambda q,x: z3.Select(x,hi-1-(q-start))) if (nm=='reverse_copy' or a.rev) else (lambda q,x:z3.Select(x,a.idx+(q-start)))
            nv=s.remap(ex,dst,dst.len,lambda q:[z3.If(z3.And(q>=start,q<start+cnt),f(q,x),z3.Select(y,q)) for x,y in zip(src.arrs,dst.arrs)],'cpy')
            ex.store(o.lv,nv); return Iter(o.lv,start+cnt)
        if nm in('Zero','Ones','Identity','Constant','UnitX','UnitY','UnitZ','Unit'):
            ty=T.parse(R); vs=[ex.rv(a) for a in args]
            if ty[0]=='mat':
                r,c=ty[1],ty[2]
                if nm=='Zero': return Mat(r,c,[rconst(0)]*(r*c))
                if nm=='Ones': return Mat(r,c,[rconst(1)]*(r*c))
                if nm=='Constant': return Mat(r,c,[vs[-1]]*(r*c))
                if nm=='Identity': return Mat(r,c,[rconst(1 if i==j else 0) for i in range(r) for j in range(c)])
                if nm.startswith('Unit'):
                    q={'X':0,'Y':1,'Z':2}.get(nm[4:]); q=q if q is not None else z3.simplify(vs[0]).as_long()
                    return Mat(r,c,[rconst(1 if i==q else 0) for i in range(r*c)])
            if ty[0]=='vec' and nm in('Zero','Ones','Constant'):
                x=rconst(0) if nm=='Zero' else rconst(1) if nm=='Ones' else vs[1]
                ex.ob('bounds','vector size is not negative',vs[0]>=0); return s.filled(ex,REAL,vs[0],x)
            if ty[0]=='dmat' and nm=='Zero':
                ex.ob('bounds','matrix size is not negative',z3.And(vs[0]>=0,vs[1]>=0))
                z=z3.K(z3.IntSort(),z3.K(z3.IntSort(),z3.RealVal(0)))
                return DMat(vs[0],vs[1],[z])
            raise Unsupported(nm)
        if nm=='acos':
            v=ex.rv(args[0]); return ACOS(v)
        if nm=='sqrt':
            v=ex.rv(args[0]); ex.ob('precondition','sqrt argument is not negative',v>=0); r=SQRT(v); ex.st.assume(r>=0,r*r==v); return r
        if nm in('isnan',):
            v=ex.rv(args[0]); return v.nan if isinstance(v,Real) else z3.BoolVal(False)
        if nm in('isfinite',):
            v=ex.rv(args[0]); return z3.Not(v.nan) if isinstance(v,Real) else z3.BoolVal(True)
        if nm=='iota' or nm=='accumulate' or nm=='transform' or nm=='for_each': raise Unsupported('std::'+nm)
        import streams
        r=streams.free(s,ex,nm,args,n)
        if r is not NotImplemented: return r
        raise Unsupported('call '+nm)
    def eqv(s,a,b):
        if isinstance(a,Real) or isinstance(b,Real): return rcmp('==',a,b)
        return veq(a,b)
    def pred(s,ex,lam,*xs):
        if isinstance(lam,Lam):
            keep=ex.st
            n0=len(keep.pc)
            q=keep.copy(); ex.st=q
            ex.dry+=1; ex.predmode+=1
            try:
                v=ex.apply_lambda(lam,list(xs))
                if ex.st.pc[n0:]: raise Unsupported('predicate with facts')
            finally: ex.dry-=1; ex.predmode-=1; ex.st=keep
            return ex.tobool(v)
        raise Unsupported('predicate')
    def find_if(s,ex,a,b,p,partition=False):
        vec=s.seq(ex.load(a.lv)); at=lambda q: vec.at(vec.len-1-q) if a.rev else vec.at(q)
        r=IDX('found'); q=IDX('q')
        st=ex.st
        if isinstance(vec,_StrSeq):      # absolute positions in the byte array
            v=vec.v; lo,hi=(v.hi-r,v.hi-a.idx) if a.rev else (v.lo+a.idx,v.lo+r); c=z3.Select(v.B,q)
            import streams
            st.assume(r>=a.idx,r<=b.idx,z3.ForAll([q],z3.Implies(z3.And(lo<=q,q<hi),z3.Not(p(c))),patterns=streams.pat(v.B,q)),z3.Implies(r<b.idx,p(z3.Select(v.B,v.hi-1-r if a.rev else v.lo+r))))
            return Iter(a.lv,r,a.rev)
        st.assume(r>=a.idx,r<=b.idx,z3.ForAll([q],z3.Implies(z3.And(a.idx<=q,q<r),z3.Not(p(at(q))))),z3.Implies(r<b.idx,p(at(r))))
        return Iter(a.lv,r,a.rev)
    def bound(s,ex,nm,vs):
        a,b,x=vs[:3]
        vec=ex.load(a.lv)
        if a.rev: raise Unsupported('reverse bound')
        q,p=IDX('q'),IDX('p')
        if len(vs)>3:      # comparator: the range must be partitioned with respect to it
            before=(lambda e: z3.Not(s.pred(ex,vs[3],x,e))) if nm=='upper_bound' else (lambda e: s.pred(ex,vs[3],e,x))
            ex.ob('bounds',f'{nm}: valid range',z3.And(a.idx>=0,a.idx<=b.idx,b.idx<=vec.len))
            ex.ob('precondition',f'{nm}: the range is partitioned',z3.ForAll([q,p],z3.Implies(z3.And(a.idx<=q,q<=p,p<b.idx,before(vec.at(p))),before(vec.at(q)))))
            r=IDX('bnd')
            ex.st.assume(r>=a.idx,r<=b.idx,z3.ForAll([q],z3.Implies(z3.And(a.idx<=q,q<r),before(vec.at(q))),patterns=[z3.Select(vec.arrs[0],q)]),
                z3.ForAll([q],z3.Implies(z3.And(r<=q,q<b.idx),z3.Not(before(vec.at(q)))),patterns=[z3.Select(vec.arrs[0],q)]),
                z3.Implies(r<b.idx,z3.Not(before(vec.at(r)))),z3.Implies(r>a.idx,before(vec.at(r-1))))
            return Iter(a.lv,r)
        ex.ob('precondition',f'{nm}: the range is sorted',z3.ForAll([q,p],z3.Implies(z3.And(a.idx<=q,q<=p,p<b.idx),rcmp('<=',vec.at(q),vec.at(p)))))
        ex.ob('bounds',f'{nm}: valid range',z3.And(a.idx>=0,a.idx<=b.idx,b.idx<=vec.len))
        r=IDX('bnd'); q=IDX('q')
        lo,hi=('<=','>') if nm=='upper_bound' else ('<','>=')
        ex.st.assume(r>=a.idx,r<=b.idx,
            z3.ForAll([q],z3.Implies(z3.And(a.idx<=q,q<r),rcmp(lo,vec.at(q),x)),patterns=[z3.Select(vec.arrs[0],q)]),
            z3.ForAll([q],z3.Implies(z3.And(r<=q,q<b.idx),rcmp(hi,vec.at(q),x)),patterns=[z3.Select(vec.arrs[0],q)]),
            z3.Implies(r<b.idx,rcmp(hi,vec.at(r),x)),z3.Implies(r>a.idx,rcmp(lo,vec.at(r-1),x)))
        return Iter(a.lv,r)
    def sort(s,ex,vs):
        a,b=vs[0],vs[1]; v=ex.load(a.lv)
        n=z3.simplify(b.idx-a.idx)
        if not z3.is_int_value(n) or n.as_long()>4: raise Unsupported('sort of unknown size')
        n=n.as_long(); els=[v.at(a.idx+i) for i in range(n)]
        # result: some permutation that is ordered by the comparator
        import itertools
        res=[unflat(v.ety,[z3.Const(fresh_name('srt'),t.sort()) for t in flat(els[0])]) for _ in range(n)]
        perms=[z3.And([veq(res[i],els[p[i]]) for i in range(n)]) for p in itertools.permutations(range(n))]
        ex.st.assume(z3.Or(perms))
        for i in range(n-1):
            if len(vs)>2:
                lt=s.pred2(ex,vs[2],res[i+1],res[i])
            else: lt=rcmp('<',res[i+1],res[i])
            ex.st.assume(z3.Not(lt))
        arrs=v.arrs
        for i in range(n): arrs=[z3.Store(x,a.idx+i,y) for x,y in zip(arrs,flat(res[i]))]
        ex.store(a.lv,Vec(v.ety,v.len,arrs)); return None
    def pred2(s,ex,lam,x,y):
        keep=ex.st; q=keep.copy(); ex.st=q; ex.dry+=1
        try: v=ex.apply_lambda(lam,[x,y])
        finally: ex.dry-=1; ex.st=keep
        return ex.tobool(v)
def _r(op,a,b): return a*b if op=='*' else a/b if op=='/' else a+b if op=='+' else a-b
def _mm(m,a,b):
    # std::min(a,b): (b<a)?b:a ; std::max(a,b): (a<b)?b:a
    if isinstance(a,Real) or isinstance(b,Real): return ite(rcmp('<',b,a) if m=='min' else rcmp('<',a,b),b,a)
    if z3.is_int(a)!=z3.is_int(b):
        a=z3.ToReal(a) if z3.is_int(a) else a; b=z3.ToReal(b) if z3.is_int(b) else b
    return z3.If(b<a,b,a) if m=='min' else z3.If(a<b,b,a)
class _StrSeq:
    def __init__(s,v): s.v=v; s.len=v.hi-v.lo
    def at(s,i): return z3.Select(s.v.B,s.v.lo+i)
