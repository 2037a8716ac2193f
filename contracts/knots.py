"""Contracts: KnotVector"""
from spec import *
from program import Contract as C
from exec import Loop, UNROLL
import sym
out=[]
def con(*a,**k): out.append(C(*a,**k))
KV=lambda t: t.m_Values

def _validate_inv(c):
    v=c.old.knots; k=c.k; last=c.v('last_value')
    return [('prefix sorted',sorted_upto(v,k)), ('starts at or above 0',IMP(k>0,le(rconst(0),v.at(I(0))))),
            ('last value',ITE(k>0,v.at(k-1),rconst(0)).v==last.v if isinstance(last,Real) else ITE(k>0,v.at(k-1),rconst(0))==last),
            ('last not NaN',notnan(last))]
con('ValidateKnots(vec<real>)','knots',nan=True,props=['C01'],
    ensures=lambda c:[('true exactly for legal sequences',c.ret==legal(c.knots))],
    loops=[Loop(inv=_validate_inv)])
con('KnotVector::KnotVector(vec<real>)','values',nan=True,props=['C01'],
    throws=lambda c:NOT(legal(c.values)), throw_type='invalid_argument', modifies=['this'],
    ensures=lambda c:[('stores exactly the given sequence',veq(KV(c.this),c.values)),('stored sequence is legal',legal(KV(c.this)))])

# (value, multiplicity) pairs: ghost expansion described by prefix sums
PSUM=Ghost('expand_len',[z3.ArraySort(IS,IS),IS],IS,lambda a,k: z3.If(k<=0,0,PSUM(a,k-1)+z3.If(a[k-1]>0,a[k-1],0)))
def mults(v): # the Multiplicity component array of a vec<KnotPair>
    names=[f for f,_ in struct_fields(v.ety[1])]
    # flattened component order
    off=0
    for f,t in struct_fields(v.ety[1]):
        if f=='Multiplicity': return v.arrs[off]
        off+=len(sorts(t))
def expansion(val,pairs,n):
    """val is the concatenation of the first n pairs"""
    m=mults(pairs)
    i,j=z3.Int(fresh_name('i')),z3.Int(fresh_name('j'))
    return AND(val.len==PSUM(m,n), z3.ForAll([i,j],IMP(AND(0<=i,i<n,PSUM(m,i)<=j,j<PSUM(m,i)+pairs.at(i).Multiplicity),veq(val.at(j),pairs.at(i).Value))))
def _psum_mono(m,n):
    i=z3.Int(fresh_name('i'))
    return z3.ForAll([i],IMP(AND(0<=i,i<n),AND(PSUM(m,i)>=0,PSUM(m,i)+m[i]<=PSUM(m,n),PSUM(m,i)<=PSUM(m,n))))
def legal_pairs(c,pairs,res):
    return legal(res)
con('KnotVector::KnotVector(vec<KnotVector::KnotPair>)','knots',nan=True,props=['C01'],
    throws_at=lambda c:[('the expanded sequence is illegal',AND(expansion(KV(c.this),c.knots,c.knots.len),NOT(legal(KV(c.this)))))], throw_type='invalid_argument', modifies=['this'],
    ensures=lambda c:[('stores exactly the requested multiplicities',expansion(KV(c.this),c.knots,c.knots.len)),('stored sequence is legal',legal(KV(c.this)))],
    loops=[Loop(inv=lambda c:[('expansion so far',expansion(KV(c.this),c.old.knots,c.k)),('prefix sums grow',_psum_mono(mults(c.old.knots),c.k))],
                hints=lambda c:[PSUM.unfold(mults(c.old.knots),0),PSUM.unfold(mults(c.old.knots),c.k),PSUM.unfold(mults(c.old.knots),c.k+1)]),
           Loop(inv=lambda c:[('length',KV(c.this).len==KV(c.prethis).len+c.k),
                              ('copies',FAR(KV(c.prethis).len,KV(c.this).len,lambda j:veq(KV(c.this).at(j),c.v('knot').Value))),
                              ('earlier values kept',FA(KV(c.prethis).len,lambda j:veq(KV(c.this).at(j),KV(c.prethis).at(j))))])])
con('KnotVector::Uniform(int,int)','degree knots_count',props=['C01'],
    requires=lambda c:[('degree',AND(c.degree>=0,c.degree<=2**20)),('count',AND(c.knots_count>=2*(c.degree+1),c.knots_count<=sym.SIZE_MAX))],
    ensures=lambda c:[('requested total count',KV(c.ret).len==c.knots_count),
        ('degree+1 zeros',FA(c.degree+1,lambda k:KV(c.ret).at(k)==0)),
        ('degree+1 ones',FAR(c.knots_count-c.degree-1,c.knots_count,lambda k:KV(c.ret).at(k)==1)),
        ('equally spaced interior knots',FAR(c.degree+1,c.knots_count-c.degree-1,lambda m:KV(c.ret).at(m)*z3.ToReal(c.knots_count-2*c.degree-1)==z3.ToReal(m-c.degree))),
        ('legal',legal(KV(c.ret)))],
    loops=[Loop(inv=lambda c:[('len',c.v('knots').len==c.k),('zeros',FA(c.k,lambda k:c.v('knots').at(k)==0))]),
           Loop(inv=lambda c:[('len',c.v('knots').len==c.old.degree+c.k),('zeros',FA(c.old.degree+1,lambda k:c.v('knots').at(k)==0)),
                              ('interior',FAR(I(1),c.k,lambda k:c.v('knots').at(c.old.degree+k)==z3.ToReal(k)*c.v('t'))),
                              ('spacing',FAR(c.old.degree+1,c.old.degree+c.k,lambda m:c.v('knots').at(m)*z3.ToReal(c.old.knots_count-2*c.old.degree-1)==z3.ToReal(m-c.old.degree))),
                              ('sorted',sorted_(c.v('knots'))),('below one',FA(c.v('knots').len,lambda k:c.v('knots').at(k)<=1)),
                              ('t',AND(c.v('t')>0,c.v('t')*z3.ToReal(c.v('additional_knots_count')+1)==1))]),
           Loop(inv=lambda c:[('len',c.v('knots').len==c.pre('knots').len+c.k),('before',FA(c.pre('knots').len,lambda k:c.v('knots').at(k)==c.pre('knots').at(k))),
                              ('ones',FAR(c.pre('knots').len,c.v('knots').len,lambda k:c.v('knots').at(k)==1))])])
P=lambda v,i: v.at(i)
def rle(ps,v):
    n=v.len
    return [('empty iff empty',(ps.len==0)==(n==0)),
     ('first run starts at 0',IMP(n>0,ps.at(I(0)).Index==0)),
     ('multiplicities are positive',FA(ps.len,lambda i:ps.at(i).Multiplicity>=1)),
     ('runs are adjacent',FA(ps.len-1,lambda i:ps.at(i+1).Index==ps.at(i).Index+ps.at(i).Multiplicity)),
     ('last run ends at the end',IMP(n>0,ps.at(ps.len-1).Index+ps.at(ps.len-1).Multiplicity==n)),
     ('indices in range',FA(ps.len,lambda i:AND(ps.at(i).Index>=0,ps.at(i).Index+ps.at(i).Multiplicity<=n))),
     ('every knot of a run has its value',(lambda i,j:z3.ForAll([i,j],IMP(AND(0<=i,i<ps.len,ps.at(i).Index<=j,j<ps.at(i).Index+ps.at(i).Multiplicity),v.at(j)==ps.at(i).Value)))(z3.Int(fresh_name('i')),z3.Int(fresh_name('j')))),
     ('values increase',FA(ps.len-1,lambda i:ps.at(i).Value<ps.at(i+1).Value))]
def _pairs_inv(c):
    v=c.this.m_Values; ps=c.v('result'); k=c.k; m=c.v('multiplicity'); last=c.v('last_value')
    return [('run length',AND(m>=1,m<=k)),('run value',AND(last==v.at(k-1),FAR(k-m,k,lambda j:v.at(j)==last))),
     ('first',IMP(ps.len>0,ps.at(I(0)).Index==0)),('none yet',IMP(ps.len==0,m==k)),('mult',FA(ps.len,lambda i:ps.at(i).Multiplicity>=1)),
     ('adjacent',FA(ps.len-1,lambda i:ps.at(i+1).Index==ps.at(i).Index+ps.at(i).Multiplicity)),
     ('end',IMP(ps.len>0,ps.at(ps.len-1).Index+ps.at(ps.len-1).Multiplicity==k-m)),
     ('range',FA(ps.len,lambda i:AND(ps.at(i).Index>=0,ps.at(i).Index+ps.at(i).Multiplicity<=k-m))),
     ('values',(lambda i,j:z3.ForAll([i,j],IMP(AND(0<=i,i<ps.len,ps.at(i).Index<=j,j<ps.at(i).Index+ps.at(i).Multiplicity),v.at(j)==ps.at(i).Value)))(z3.Int(fresh_name('i')),z3.Int(fresh_name('j')))),
     ('increase',FA(ps.len-1,lambda i:ps.at(i).Value<ps.at(i+1).Value)),
     ('increase to current',IMP(ps.len>0,ps.at(ps.len-1).Value<last))]
con('KnotVector::GetKnotPairs()','',props=['C03'],requires=lambda c:[('sorted',sorted_(KV(c.this)))],
    ensures=lambda c:rle(c.ret,KV(c.this)),loops=[Loop(inv=_pairs_inv)])
con('KnotVector::IsValid()','',props=['C03'],
    ensures=lambda c:[('true exactly for sorted sequences of at least 4 knots from 0 to 1',c.ret==AND(KV(c.this).len>=4,KV(c.this).at(I(0))==0,KV(c.this).at(KV(c.this).len-1)==1,sorted_(KV(c.this))))],
    loops=[Loop(inv=lambda c:[('prefix',sorted_upto(c.this.m_Values,c.k))])])
LEADZ=lambda v,n:AND(n>=0,n<=v.len,FA(n,lambda k:v.at(k)==0),IMP(n<v.len,v.at(n)!=0))
TAILO=lambda v,n:AND(n>=0,n<=v.len,FAR(v.len-n,v.len,lambda k:v.at(k)==1),IMP(n<v.len,v.at(v.len-1-n)!=1))
def _isclamped(c):
    v=KV(c.this); n,m=z3.Ints(fresh_name('n')+' '+fresh_name('m'))
    return [('true exactly when leading zeros and trailing ones agree',z3.ForAll([n,m],IMP(AND(LEADZ(v,n),TAILO(v,m)),c.ret==AND(n==m,n>0))))]
con('KnotVector::IsClamped()','',props=['C03'],ensures=_isclamped,
    loops=[Loop(inv=lambda c:[('zeros',AND(c.k>=0,c.k<=c.this.m_Values.len)),('all zero',FA(c.k,lambda k:c.this.m_Values.at(k)==0))]),
           Loop(inv=lambda c:[('ones',AND(c.k>=-1,c.k<c.this.m_Values.len)),('all one',FAR(c.k+1,c.this.m_Values.len,lambda k:c.this.m_Values.at(k)==1))])])
def _unif(v,n,f,i):
    d=lambda k:v.at(k)-v.at(k-1)
    return IMP(AND(1<=f,f<=i,i<n,d(f)!=0,FAR(I(1),f,lambda g:d(g)==0),d(i)!=0),AND(d(i)-d(f)<EPS6,d(f)-d(i)<EPS6))
def _isuniform(c):
    v=KV(c.this); f,i=z3.Ints(fresh_name('f')+' '+fresh_name('i'))
    return [('true exactly when all non-zero spacings agree with the first',c.ret==z3.ForAll([f,i],_unif(v,v.len,f,i)))]
def _unif_inv(c):
    v=c.this.m_Values; iv=c.v('interval'); f=z3.Int(fresh_name('f')); d=lambda k:v.at(k)-v.at(k-1)
    return [('no spacing yet',IMP(iv==0,FAR(I(1),c.k,lambda g:d(g)==0))),
            ('first spacing',IMP(iv!=0,z3.Exists([f],AND(1<=f,f<c.k,d(f)==iv,FAR(I(1),f,lambda g:d(g)==0))))),
            ('agree so far',IMP(iv!=0,FAR(I(1),c.k,lambda g:OR(d(g)==0,AND(d(g)-iv<EPS6,iv-d(g)<EPS6)))))]
con('KnotVector::IsUniform()','',props=['C03'],requires=lambda c:[('sorted',sorted_(KV(c.this)))],ensures=_isuniform,loops=[Loop(inv=_unif_inv)])
# span(U,n,p,u): the span of u: the last index <= n-p-2 whose knot is at or below u
SPF=Ghost('lastle',[AR,RS,IS],IS,lambda U,u,m: z3.If(OR(m<=0,U[m]<=u),m,SPF(U,u,m-1)))
def spanp(U,n,p,u,s):
    return AND(p<=s,s<=n-p-2,U[s]<=u,IMP(u<1,u<U[s+1]),U[s]<U[s+1],IMP(u==1,s==n-p-2))
SPAN=Ghost('span',[AR,IS,IS,RS],IS,lambda U,n,p,u: z3.If(u>=1,n-p-2,SPF(U,u,n-p-2)))
def span(U,n,p,u): return SPAN(U,n,p,u)
def clampa(U,n,p):
    """clamped knots, on the array (syntactically unique)"""
    k,j=z3.Ints('cl_k cl_j')
    return AND(p>=0,p<=2**20,n>=2*p+2,n<=sym.SIZE_MAX,srt(U,n),z3.ForAll([k],IMP(AND(0<=k,k<=p),U[k]==0),patterns=[U[k]]),z3.ForAll([j],IMP(AND(n-p-1<=j,j<n),U[j]==1),patterns=[U[j]]),U[p+1]>0,U[n-p-2]<1)
@lemma('last knot at or below')
def last_le(U,u,p,m): return IMP(AND(p>=0,m>=p,U[p]<=u),AND(p<=SPF(U,u,m),SPF(U,u,m)<=m,U[SPF(U,u,m)]<=u,IMP(SPF(U,u,m)<m,U[SPF(U,u,m)+1]>u)))
@lemma('every parameter has a span')
def span_exists(U,n,p,u): return IMP(AND(clampa(U,n,p),u>=0,u<=1),spanp(U,n,p,u,SPAN(U,n,p,u)))
@lemma('the span of a parameter is unique')
def span_unique(U,n,p,u,s,r):
    return IMP(AND(srt(U,n),p>=0,u<=1,spanp(U,n,p,u,s),spanp(U,n,p,u,r)),s==r)
def lemmas():
    U=z3.Const('U',AR); u=z3.Real('u'); n,p,s,r,m=z3.Ints('n p s r m')
    yield ('the span of a parameter is unique: order',['C02'],[],IMP(AND(srt(U,n),p>=0,u<=1,spanp(U,n,p,u,s),spanp(U,n,p,u,r)),AND(IMP(s<r,U[s+1]<=U[r]),IMP(r<s,U[r+1]<=U[s]))))
    yield ('the span of a parameter is unique: conclusion',['C02'],[IMP(AND(srt(U,n),p>=0,u<=1,spanp(U,n,p,u,s),spanp(U,n,p,u,r)),AND(IMP(s<r,U[s+1]<=U[r]),IMP(r<s,U[r+1]<=U[s])))],span_unique(U,n,p,u,s,r))
    yield ('last knot at or below: base',['C02'],[SPF.unfold(U,u,p)],last_le(U,u,p,p))
    yield ('last knot at or below: step',['C02'],[m>=p,SPF.unfold(U,u,m+1),last_le(U,u,p,m)],last_le(U,u,p,m+1))
    yield ('every parameter has a span',['C02'],[SPAN.unfold(U,n,p,u),last_le(U,u,p,n-p-2)],span_exists(U,n,p,u))
con('KnotVector::FindSpanIndex(int,real)','degree u',props=['C02'],
    requires=lambda c:[('clamped',clamped(KV(c.this),c.degree)),('u in the domain',AND(c.u>=0,c.u<=1))],
    ensures=lambda c:[('index addresses existing control points',AND(c.degree<=c.ret,c.ret<=KV(c.this).len-c.degree-2)),
       ('knot[k] <= u',KV(c.this).at(c.ret)<=c.u),
       ('u < knot[k+1] below 1',IMP(c.u<1,c.u<KV(c.this).at(c.ret+1))),
       ('span has positive length',KV(c.this).at(c.ret)<KV(c.this).at(c.ret+1)),
       ('last span for u = 1',IMP(c.u==1,c.ret==KV(c.this).len-c.degree-2)),
       ('sorted',srt(KV(c.this).a,KV(c.this).len)),
       ('it is the span',c.ret==span(KV(c.this).a,KV(c.this).len,c.degree,c.u))],
    hints=lambda c:(lambda U,n:[clampa(U,n,c.degree),span_exists(U,n,c.degree,c.u),span_unique(U,n,c.degree,c.u,c.ret,span(U,n,c.degree,c.u))])(KV(c.this).a,KV(c.this).len))
def _findspan(c):
    v=KV(c.this)
    return [('left knot is in the sequence and at or below u',AND(c.ret.Left.Value<=c.u,v.at(c.ret.Left.Index)==c.ret.Left.Value)),
      ('right knot is above u, or the last for u = 1',OR(c.u<c.ret.Right.Value,AND(c.u==1,c.ret.Right.Value==1))),
      ('distinct',c.ret.Left.Value<c.ret.Right.Value),
      ('adjacent',c.ret.Right.Index==c.ret.Left.Index+c.ret.Left.Multiplicity),
      ('indices',AND(c.ret.Left.Index>=0,c.ret.Left.Multiplicity>=1,c.ret.Right.Multiplicity>=1,c.ret.Right.Index+c.ret.Right.Multiplicity<=v.len)),
      ('left run',FAR(c.ret.Left.Index,c.ret.Right.Index,lambda j:v.at(j)==c.ret.Left.Value)),
      ('right run',FAR(c.ret.Right.Index,c.ret.Right.Index+c.ret.Right.Multiplicity,lambda j:v.at(j)==c.ret.Right.Value))]
con('KnotVector::FindSpan(real)','u',props=['C02'],
    requires=lambda c:[('valid knots',knots_ok(KV(c.this))),('u in the domain',AND(c.u>=0,c.u<=1))],ensures=_findspan,
    loops=[Loop(inv=lambda c:[('right neighbour is above u',IMP(c.k<c.v('pairs').len-2,c.v('pairs').at(c.k+1).Value>c.old.u))])])
con('KnotVector::DetectDegree()','',props=['C03'],
    throws=lambda c:FA(KV(c.this).len,lambda k:KV(c.this).at(k)==0), throw_type='out_of_range',
    ensures=lambda c:[('leading zeros minus one',LEADZ(KV(c.this),c.ret+1))],
    loops=[Loop(inv=lambda c:[('zeros',FA(c.k,lambda k:c.this.m_Values.at(k)==0))])])
con('KnotVector::GetMultiplicity(real)','u',props=['C03'],
    ensures=lambda c:[('counts the knots within 1e-6',c.ret==CNT(KV(c.this).a,c.u,KV(c.this).len)),('bounded by the knot count',AND(c.ret>=0,c.ret<=KV(c.this).len))],
    loops=[Loop(inv=lambda c:[('count so far',c.v('result')==CNT(c.this.m_Values.a,c.old.u,c.k)),('bounds',AND(c.v('result')>=0,c.v('result')<=c.k))],
                hints=lambda c:[CNT.unfold(c.this.m_Values.a,c.old.u,c.k),CNT.unfold(c.this.m_Values.a,c.old.u,c.k+1)])])
def inserted(new,old,pos,times,value):
    return [('count grows by the number of copies',new.len==old.len+times),
      ('knots before are kept',FA(pos,lambda j:new.at(j)==old.at(j))),
      ('copies are in place',FAR(pos,pos+times,lambda j:new.at(j)==value)),
      ('knots after are kept',FAR(pos,old.len,lambda j:new.at(j+times)==old.at(j)))]
con('KnotVector::InsertKnot(real,int)','value times',props=['C04'],modifies=['this'],
    requires=lambda c:[('sorted',sorted_(KV(c.this))),('value inside',AND(c.value>0,c.value<1)),('times',c.times>=0)],
    ensures=lambda c:[('returns the span of the original sequence',AND(c.ret>=-1,c.ret<KV(c.old.this).len)),
       ('existing equal knots come before',FA(c.ret+1,lambda j:KV(c.old.this).at(j)<=c.value)),
       ('larger knots come after',FAR(c.ret+1,KV(c.old.this).len,lambda j:KV(c.old.this).at(j)>c.value)),
       *inserted(KV(c.this),KV(c.old.this),c.ret+1,c.times,c.value),('still sorted',sorted_(KV(c.this)))])
con('KnotVector::Reverse()','',props=['C04'],modifies=['this'],
    ensures=lambda c:[('same count',KV(c.this).len==KV(c.old.this).len),
       ('reversed and mirrored',FA(KV(c.this).len,lambda j:KV(c.this).at(j)==1-KV(c.old.this).at(KV(c.this).len-1-j))),
       ('stays sorted',IMP(sorted_(KV(c.old.this)),sorted_(KV(c.this)))),
       ('stays legal',IMP(AND(legal(KV(c.old.this)),KV(c.old.this).at(I(0))==0),legal(KV(c.this))))],
    loops=[Loop(inv=lambda c:[('done',FA(c.k,lambda j:c.this.m_Values.at(j)==1-c.old.this.m_Values.at(c.this.m_Values.len-1-j))),
                              ('to do',FAR(c.k,c.this.m_Values.len,lambda j:c.this.m_Values.at(j)==c.old.this.m_Values.at(c.this.m_Values.len-1-j))),
                              ('len',c.this.m_Values.len==c.old.this.m_Values.len)])])
