"""Contracts: Curve evaluation (C07), derivatives (C08)"""
from spec import *
from program import Contract as C
from exec import Loop, UNROLL
import sym
from knots import clamped, KV, span
from basis import NB,TB,SB,DN,in_span,spanctx,nonneg,unity,support,around
from grid import BIN, NB as BINMAX
out=[]
def con(*a,**k): out.append(C(*a,**k))
def curve_ok(c):
    """a valid NURBS curve: clamped knots, matching number of control points, positive weights"""
    return AND(clamped(KV(c.Knots),c.Degree),c.ControlPoints.len==KV(c.Knots).len-c.Degree-1,FA(c.ControlPoints.len,lambda k:c.ControlPoints.at(k)[3]>0))
# sums over the basis functions of a span: WS = sum N_i w_i, RS = sum N_i w_i x_i (x one coordinate)
WS=Ghost('wsum',[AR,RS,IS,IS,AR,IS],RS,lambda U,x,s,p,W,m: z3.If(m<=0,R0,WS(U,x,s,p,W,m-1)+NB(U,x,s,s-p+m-1,p)*W[s-p+m-1]))
RSUM=Ghost('rsum',[AR,RS,IS,IS,AR,AR,IS],RS,lambda U,x,s,p,X,W,m: z3.If(m<=0,R0,RSUM(U,x,s,p,X,W,m-1)+NB(U,x,s,s-p+m-1,p)*(X[s-p+m-1]*W[s-p+m-1])))
def wpos(W,n):
    k=z3.Int('wp_k'); return z3.ForAll([k],IMP(AND(0<=k,k<n),W[k]>0),patterns=[W[k]])
@lemma('weight function is positive')
def ws_pos(U,n,x,s,p,W,m): return IMP(AND(spanctx(U,n,p,s,x),wpos(W,n-p-1),0<=m,m<=p+1,s<=n-p-2),AND(WS(U,x,s,p,W,m)>=0,SB(U,x,s,p,m)>=0,IMP(SB(U,x,s,p,m)>0,WS(U,x,s,p,W,m)>0)))
def between(X,lo,hi,a,b):
    k=z3.Int('bt_k'); return z3.ForAll([k],IMP(AND(a<=k,k<=b),AND(lo<=X[k],X[k]<=hi)),patterns=[X[k]])
@lemma('convex hull')
def hull(U,n,x,s,p,X,W,lo,hi,m): return IMP(AND(spanctx(U,n,p,s,x),wpos(W,n-p-1),s<=n-p-2,between(X,lo,hi,s-p,s),0<=m,m<=p+1),AND(lo*WS(U,x,s,p,W,m)<=RSUM(U,x,s,p,X,W,m),RSUM(U,x,s,p,X,W,m)<=hi*WS(U,x,s,p,W,m)))
def all_eq(U,a,b,x):
    k=z3.Int('ae_k'); return z3.ForAll([k],IMP(AND(a<=k,k<=b),U[k]==x),patterns=[U[k]])
@lemma('basis functions at the left end')
def left_end(U,n,x,s,p,i,q): return IMP(AND(spanctx(U,n,p,s,x),all_eq(U,s-p+1,s,x),0<=q,q<=p),AND(NB(U,x,s,s-q,q)==1,IMP(i>s-q,AND(NB(U,x,s,i,q)==0,TB(U,x,s,i,q)==0))))
@lemma('basis functions at the right end')
def right_end(U,n,x,s,p,i,q): return IMP(AND(spanctx(U,n,p,s,x),all_eq(U,s+1,s+p,x),0<=q,q<=p),AND(NB(U,x,s,s,q)==1,IMP(i<s,AND(NB(U,x,s,i,q)==0,TB(U,x,s,i,q)==0))))
@lemma('sums at the left end')
def left_sum(U,n,x,s,p,X,W,m): return IMP(AND(spanctx(U,n,p,s,x),all_eq(U,s-p+1,s,x),1<=m,m<=p+1),AND(WS(U,x,s,p,W,m)==W[s-p],RSUM(U,x,s,p,X,W,m)==X[s-p]*W[s-p]))
@lemma('sums at the right end')
def right_sum(U,n,x,s,p,X,W,m): return IMP(AND(spanctx(U,n,p,s,x),all_eq(U,s+1,s+p,x),0<=m,m<=p+1),z3.If(m<=p,AND(WS(U,x,s,p,W,m)==0,RSUM(U,x,s,p,X,W,m)==0),AND(WS(U,x,s,p,W,m)==W[s],RSUM(U,x,s,p,X,W,m)==X[s]*W[s])))
def lemmas():
    P=['C07']; U,X,W=z3.Consts('U X W',AR); x,lo,hi=z3.Reals('x lo hi'); n,s,p,i,q,m=z3.Ints('n s p i q m')
    ctx=[in_span(U,n,p,s,x),srt(U,n)]
    un=lambda m:[WS.unfold(U,x,s,p,W,m),RSUM.unfold(U,x,s,p,X,W,m)]
    nb=lambda i,q:[NB.unfold(U,x,s,i,q),TB.unfold(U,x,s,i,q)]
    yield ('weight function is positive: base',P,un(I(0))+[SB.unfold(U,x,s,p,I(0))],ws_pos(U,n,x,s,p,W,I(0)))
    yield ('weight function is positive: step',P,un(m+1)+[0<=m,m<=p,SB.unfold(U,x,s,p,m+1),ws_pos(U,n,x,s,p,W,m),nonneg(U,n,x,s,p,s-p+m,p)],ws_pos(U,n,x,s,p,W,m+1))
    yield ('convex hull: base',P,un(I(0)),hull(U,n,x,s,p,X,W,lo,hi,I(0)))
    mul=z3.Reals('a b'); 
    yield ('convex hull: step',P,un(m+1)+[0<=m,m<=p,hull(U,n,x,s,p,X,W,lo,hi,m),nonneg(U,n,x,s,p,s-p+m,p),mulmono(NB(U,x,s,s-p+m,p),W[s-p+m],lo,X[s-p+m]),mulmono(NB(U,x,s,s-p+m,p),W[s-p+m],X[s-p+m],hi)],hull(U,n,x,s,p,X,W,lo,hi,m+1))
    a,b,c,d=z3.Reals('a b c d')
    yield ('weighted comparison',P,[],mulmono(a,b,c,d))
    yield ('basis functions at the left end: base',P,nb(s,I(0))+nb(i,I(0)),left_end(U,n,x,s,p,i,I(0)))
    yield ('basis functions at the left end: step',P,[1<=q]+nb(s-q,q)+nb(s-q+1,q-1)+nb(i,q)+[support(U,x,s,s-q,q-1),support(U,x,s,i+1,q-1),support(U,x,s,i,q),left_end(U,n,x,s,p,i+1,q-1)],left_end(U,n,x,s,p,i,q))
    yield ('basis functions at the right end: base',P,nb(s,I(0))+nb(i,I(0)),right_end(U,n,x,s,p,i,I(0)))
    yield ('basis functions at the right end: step',P,[1<=q]+nb(s,q)+nb(s,q-1)+nb(i,q)+[support(U,x,s,s+1,q-1),support(U,x,s,i,q-1),support(U,x,s,i,q),right_end(U,n,x,s,p,i,q-1)],right_end(U,n,x,s,p,i,q))
    yield ('sums at the left end: base',P,un(I(1))+un(I(0))+[left_end(U,n,x,s,p,s-p,p)],left_sum(U,n,x,s,p,X,W,I(1)))
    yield ('sums at the left end: step',P,un(m+1)+[m>=1,left_end(U,n,x,s,p,s-p+m,p),left_sum(U,n,x,s,p,X,W,m)],left_sum(U,n,x,s,p,X,W,m+1))
    yield ('sums at the right end: base',P,un(I(0)),right_sum(U,n,x,s,p,X,W,I(0)))
    yield ('sums at the right end: step',P,un(m+1)+[m>=0,m<=p,right_end(U,n,x,s,p,s-p+m,p),right_sum(U,n,x,s,p,X,W,m)],right_sum(U,n,x,s,p,X,W,m+1))
@lemma('weighted comparison')
def mulmono(a,b,c,d): return IMP(AND(a>=0,b>0,c<=d),a*(c*b)<=a*(d*b))
def cv(c): K=KV(c.Knots); P=c.ControlPoints; return K.a,K.len,c.Degree,P.arrs
XIN=lambda c:('x in the domain',AND(c.x>=0,c.x<=1))
def _eval_post(c):
    U,n,p,A=cv(c.this); x=c.x; s=span(U,n,p,x); W=A[3]
    w=WS(U,x,s,p,W,p+1)
    return [('weight function is positive',w>0),
        ('rational combination of the control points of the span',AND(*[c.ret[d]*w==RSUM(U,x,s,p,A[d],W,p+1) for d in range(3)])),
        ('starts at the first control point',IMP(x==0,AND(*[c.ret[d]==A[d][0] for d in range(3)]))),
        ('ends at the last control point',IMP(x==1,AND(*[c.ret[d]==A[d][c.this.ControlPoints.len-1] for d in range(3)]))),
        *[(f'inside the hull of the control points, coordinate {d}',ALL('lo hi',(lambda d:lambda lo,hi:IMP(between(A[d],lo,hi,s-p,s),AND(lo<=c.ret[d],c.ret[d]<=hi)))(d),(lambda d:lambda lo,hi:[hull(U,n,x,s,p,A[d],W,lo,hi,p+1)])(d),sort=RS)) for d in range(3)]]
def _eval_hints(c):
    U,n,p,A=cv(c.this); x=c.x; s=span(U,n,p,x); W=A[3]
    return [ws_pos(U,n,x,s,p,W,p+1),unity(U,n,x,s,p,p),*[f(U,n,x,s,p,A[d],W,p+1) for d in range(3) for f in(left_sum,right_sum)],
        IMP(x==0,AND(all_eq(U,s-p+1,s,x),s==p)),IMP(x==1,all_eq(U,s+1,s+p,x)),wpos(W,n-p-1)]
def _eval_inv(c):
    o=c.old; U,n,p,A=cv(o.this); x=o.x; s=span(U,n,p,x); W=A[3]; r=c.v('result')
    return [('sums so far',AND(*[r[d]==RSUM(U,x,s,p,A[d],W,c.k) for d in range(3)],r[3]==WS(U,x,s,p,W,c.k)))]
def _sumh(c):
    o=c.old; U,n,p,A=cv(o.this); x=o.x; s=span(U,n,p,x); W=A[3]
    return [g for m in(0,c.k,c.k+1) for g in [WS.unfold(U,x,s,p,W,m)]+[RSUM.unfold(U,x,s,p,A[d],W,m) for d in range(3)]]
def _exit(c):
    o=c.old; U,n,p,A=cv(o.this); x=o.x; s=span(U,n,p,x); W=A[3]
    return [ws_pos(U,n,x,s,p,W,p+1),unity(U,n,x,s,p,p),wpos(W,n-p-1)]
con('Curve::Evaluate(real)','x',props=['C07'],requires=lambda c:[('valid curve',curve_ok(c.this)),XIN(c)],ensures=_eval_post,hints=_eval_hints,
    loops=[Loop(inv=_eval_inv,hints=_sumh,exit_hints=_exit)])
con('Curve::IsRational()','',props=['C07'],ensures=lambda c:(lambda P:[('true exactly when two weights differ',c.ret==NOT(FA(P.len,lambda k:P.at(k)[3]==P.at(I(0))[3])))])(c.this.ControlPoints),
    loops=[Loop(inv=lambda c:[('equal so far',FA(c.k,lambda k:c.this.ControlPoints.at(k)[3]==c.this.ControlPoints.at(I(0))[3]))])])
con('ToHomo(Vec4)','v',props=['C07'],value=lambda c:Mat(4,1,[c.v[d]*c.v[3] for d in range(3)]+[c.v[3]]))
con('FromHomo(Vec4)','v',props=['C07'],requires=lambda c:[('weight',c.v[3]!=0)],ensures=lambda c:[('coordinates divided by weight',AND(*[c.ret[d]*c.ret[3]==c.v[d] for d in range(3)],c.ret[3]==c.v[3]))])
# ---------------------------------------------------------------- derivatives
WD=Ghost('wdsum',[AR,RS,IS,IS,IS,AR,IS],RS,lambda U,x,s,p,k,W,m: z3.If(m<=0,R0,WD(U,x,s,p,k,W,m-1)+DN(U,x,s,s-p+m-1,p,k)*W[s-p+m-1]))
RDS=Ghost('rdsum',[AR,RS,IS,IS,IS,AR,AR,IS],RS,lambda U,x,s,p,k,X,W,m: z3.If(m<=0,R0,RDS(U,x,s,p,k,X,W,m-1)+DN(U,x,s,s-p+m-1,p,k)*(X[s-p+m-1]*W[s-p+m-1])))
# quotient rule: CK(k) = (A_k - sum_{i=1..k} binom(k,i) w_i CK(k-i)) / w_0 ; QS = partial sums
CK=Ghost('ratder',[AR,RS,IS,IS,AR,AR,IS],RS,lambda U,x,s,p,X,W,k: z3.If(k<0,R0,(RDS(U,x,s,p,k,X,W,p+1)-QS(U,x,s,p,X,W,k,k))/WD(U,x,s,p,0,W,p+1)))
QS=Ghost('quotsum',[AR,RS,IS,IS,AR,AR,IS,IS],RS,lambda U,x,s,p,X,W,k,m: z3.If(m<=0,R0,QS(U,x,s,p,X,W,k,m-1)+z3.ToReal(BIN(k,m))*WD(U,x,s,p,m,W,p+1)*CK(U,x,s,p,X,W,k-m)))
@lemma('order zero of the weight sums')
def wd0(U,x,s,p,W,m): return WD(U,x,s,p,0,W,m)==WS(U,x,s,p,W,m)
@lemma('order zero of the point sums')
def rd0(U,x,s,p,X,W,m): return RDS(U,x,s,p,0,X,W,m)==RSUM(U,x,s,p,X,W,m)
_l1=lemmas
def lemmas():
    yield from _l1()
    P=['C08']; U,X,W=z3.Consts('U X W',AR); x=z3.Real('x'); s,p,m=z3.Ints('s p m')
    yield ('order zero of the weight sums: base',P,[m<=0,WD.unfold(U,x,s,p,0,W,m),WS.unfold(U,x,s,p,W,m)],wd0(U,x,s,p,W,m))
    yield ('order zero of the weight sums: step',P,[m>=1,WD.unfold(U,x,s,p,0,W,m),WS.unfold(U,x,s,p,W,m),DN.unfold(U,x,s,s-p+m-1,p,0),wd0(U,x,s,p,W,m-1)],wd0(U,x,s,p,W,m))
    yield ('order zero of the point sums: base',P,[m<=0,RDS.unfold(U,x,s,p,0,X,W,m),RSUM.unfold(U,x,s,p,X,W,m)],rd0(U,x,s,p,X,W,m))
    yield ('order zero of the point sums: step',P,[m>=1,RDS.unfold(U,x,s,p,0,X,W,m),RSUM.unfold(U,x,s,p,X,W,m),DN.unfold(U,x,s,s-p+m-1,p,0),rd0(U,x,s,p,X,W,m-1)],rd0(U,x,s,p,X,W,m))
def _cs(c): o=c.old; U,n,p,A=cv(o.this); s=span(U,n,p,o.x); return U,n,p,A,o.x,s,A[3]
def hd_is(R,U,x,s,p,A,k,m=None):
    m=p+1 if m is None else m
    return AND(*[R[d]==RDS(U,x,s,p,k,A[d],A[3],m) for d in range(3)],R[3]==WD(U,x,s,p,k,A[3],m))
_vo=lambda c:[('valid curve',curve_ok(c.this)),XIN(c),('order',AND(c.order>=0,c.order<=2**20))]
def _hd_post(c):
    U,n,p,A=cv(c.this); s=span(U,n,p,c.x)
    return [('parameter lies in the span',spanctx(U,n,p,s,c.x)),('one entry per order',c.ret.len==c.order+1),('derivatives of weighted points and weight',FA(c.order+1,lambda k:hd_is(c.ret.at(k),U,c.x,s,p,A,k)))]
def _hd_h(c):
    U,n,p,A,x,s,W=_cs(c); k=c.v('k')
    return [g for m in(0,c.k,c.k+1) for g in [WD.unfold(U,x,s,p,k,W,m)]+[RDS.unfold(U,x,s,p,k,A[d],W,m) for d in range(3)]]
con('Curve::HomogeneousDerivative(real,int)','x order',props=['C08'],requires=_vo,ensures=_hd_post,
    loops=[Loop(inv=lambda c:(lambda U,n,p,A,x,s,W:[('len',c.v('result').len==c.old.order+1),('orders so far',FA(c.k,lambda k:hd_is(c.v('result').at(k),U,x,s,p,A,k)))])(*_cs(c))),
           Loop(inv=lambda c:(lambda U,n,p,A,x,s,W:[('sum so far',hd_is(c.v('tmp'),U,x,s,p,A,c.v('k'),c.k))])(*_cs(c)),hints=_hd_h)])
_vo29=lambda c:[('valid curve',curve_ok(c.this)),XIN(c),('order',AND(c.order>=0,c.order<=BINMAX))]
ck=lambda U,x,s,p,A,d,k:CK(U,x,s,p,A[d],A[3],k)
def _ea_post(c):
    U,n,p,A=cv(c.this); x=c.x; s=span(U,n,p,x)
    return [('one entry per order',c.ret.len==c.order+1),('derivatives by the quotient rule',FA(c.order+1,lambda k:AND(*[c.ret.at(k)[d]==ck(U,x,s,p,A,d,k) for d in range(3)]))),
        ('order 0 equals plain evaluation',AND(*[c.ret.at(I(0))[d]*WS(U,x,s,p,A[3],p+1)==RSUM(U,x,s,p,A[d],A[3],p+1) for d in range(3)]))]
def _w0(c,U,n,p,A,x,s): return [wd0(U,x,s,p,A[3],p+1),ws_pos(U,n,x,s,p,A[3],p+1),unity(U,n,x,s,p,p),wpos(A[3],n-p-1),spanctx(U,n,p,s,x),WD(U,x,s,p,0,A[3],p+1)>0]
def _ea_hints(c):
    U,n,p,A=cv(c.this); x=c.x; s=span(U,n,p,x)
    return _w0(c,U,n,p,A,x,s)+[h for d in range(3) for h in(CK.unfold(U,x,s,p,A[d],A[3],0),QS.unfold(U,x,s,p,A[d],A[3],0,0),rd0(U,x,s,p,A[d],A[3],p+1))]
def _ea_o(c):
    U,n,p,A,x,s,W=_cs(c); r=c.v('result')
    return [('len',AND(r.len==c.old.order+1)),('orders so far',FA(c.k,lambda k:AND(*[r.at(k)[d]==ck(U,x,s,p,A,d,k) for d in range(3)])))]
def _ea_i(c):
    U,n,p,A,x,s,W=_cs(c); k=c.v('k')
    return [('remaining sum',AND(*[c.v('Aders')[d]==RDS(U,x,s,p,k,A[d],W,p+1)-QS(U,x,s,p,A[d],W,k,c.k-1) for d in range(3)]))]
con('Curve::EvaluateAll(real,int)','x order',props=['C08'],requires=_vo29,ensures=_ea_post,hints=_ea_hints,
    loops=[Loop(inv=_ea_o,hints=lambda c:(lambda U,n,p,A,x,s,W:_w0(c,U,n,p,A,x,s)+[CK.unfold(U,x,s,p,A[d],W,c.k) for d in range(3)])(*_cs(c))),
           Loop(inv=_ea_i,hints=lambda c:(lambda U,n,p,A,x,s,W:[QS.unfold(U,x,s,p,A[d],W,c.v('k'),m) for d in range(3) for m in (I(0),c.k,c.k-1)])(*_cs(c)))])
con('Curve::EvaluateDerivative(real,int)','x order',props=['C08'],requires=_vo29,
    ensures=lambda c:(lambda U,n,p,A:(lambda s:[('the entry of that order',AND(*[c.ret[d]==ck(U,c.x,s,p,A,d,c.order) for d in range(3)]))])(span(U,n,p,c.x)))(*cv(c.this)))
