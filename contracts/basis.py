"""Contracts: B-spline basis functions.
NB(U,x,s,i,q) is the Cox-de Boor basis function N_{i,q} at x on span s; T(U,x,s,i,q) = N_{i,q}/(U_{i+q+1}-U_i), 0 for an empty support."""
from spec import *
from program import Contract as C
from exec import Loop, UNROLL
import sym
from knots import clamped, KV, span
out=[]
def con(*a,**k): out.append(C(*a,**k))
SG=[AR,RS,IS,IS,IS]
NB=Ghost('N',SG,RS,lambda U,x,s,i,q: z3.If(q<=0,z3.If(i==s,R1,R0),(x-U[i])*TB(U,x,s,i,q-1)+(U[i+q+1]-x)*TB(U,x,s,i+1,q-1)))
TB=Ghost('T',SG,RS,lambda U,x,s,i,q: z3.If(U[i+q+1]-U[i]==0,R0,NB(U,x,s,i,q)/(U[i+q+1]-U[i])))
# partial sums of the basis functions of the span: SB(q,m) = sum_{r<m} N_{s-q+r,q}
SB=Ghost('Nsum',[AR,RS,IS,IS,IS],RS,lambda U,x,s,q,m: z3.If(m<=0,R0,SB(U,x,s,q,m-1)+NB(U,x,s,s-q+m-1,q)))
VSUM=Ghost('vsum',[AR,IS],RS,lambda a,m: z3.If(m<=0,R0,VSUM(a,m-1)+a[m-1]))
@lemma('local support')
def support(U,x,s,i,q):
    """local support: N_{i,q} and T_{i,q} vanish outside s-q <= i <= s"""
    return IMP(AND(q>=0,OR(i<s-q,i>s)),AND(NB(U,x,s,i,q)==0,TB(U,x,s,i,q)==0))
def in_span(U,n,p,s,x):
    """span preconditions: s-p..s+p+1 are knots, sorted, and x lies in the non-empty span s"""
    return AND(p>=0,p<=2**20,s>=p,s+p+1<n,U[s]<U[s+1],U[s]<=x,x<=U[s+1])
def spanctx(U,n,p,s,x): return AND(in_span(U,n,p,s,x),srt(U,n))
@lemma('non-negativity')
def nonneg(U,n,x,s,p,i,q):
    """N_{i,q} >= 0 (and T_{i,q} >= 0) on the span"""
    return IMP(AND(spanctx(U,n,p,s,x),0<=q,q<=p,s-p<=i,i<=s+p-q),AND(NB(U,x,s,i,q)>=0,TB(U,x,s,i,q)>=0))
@lemma('knots around the span')
def around(U,n,x,s,p,q,m):
    return IMP(AND(spanctx(U,n,p,s,x),1<=m,m<=q,q<=p),U[s-q+m]<U[s+m])
@lemma('telescoping')
def tele(U,n,x,s,p,q,m):
    return IMP(AND(spanctx(U,n,p,s,x),q>=1,q<=p,1<=m,m<=q+1),SB(U,x,s,q,m)==SB(U,x,s,q-1,m-1)+(U[s+m]-x)*TB(U,x,s,s-q+m,q-1))
@lemma('partition of unity')
def unity(U,n,x,s,p,q):
    return IMP(AND(spanctx(U,n,p,s,x),q>=0,q<=p),SB(U,x,s,q,q+1)==1)
@lemma('sum of equal terms')
def sum_eq(a,U,x,s,q,m):
    """pointwise equality up to m gives equal sums"""
    r=z3.Int(fresh_name('r'))
    return IMP(AND(m>=0,z3.ForAll([r],IMP(AND(0<=r,r<m),a[r]==NB(U,x,s,s-q+r,q)))),VSUM(a,m)==SB(U,x,s,q,m))
def lemmas():
    U=z3.Const('U',AR); a=z3.Const('a',AR); x=z3.Real('x'); s,i,q,m,n,p=z3.Ints('s i q m n p')
    PB=['C05','C06','C07','C08','C09','C10']
    un=lambda *w:[NB.unfold(*w),TB.unfold(*w)]
    yield ('local support: base',PB,un(U,x,s,i,I(0)),support(U,x,s,i,I(0)))
    yield ('local support: step',PB,un(U,x,s,i,q)+[q>=1,support(U,x,s,i,q-1),support(U,x,s,i+1,q-1)],support(U,x,s,i,q))
    # the division in T needs the T part of the claim only through NB==0
    ctx=[in_span(U,n,p,s,x),srt(U,n)]
    # T >= 0: the end knots of N_{i,q} are ordered
    yield ('non-negativity: base',PB,ctx+un(U,x,s,i,I(0))+[U[i]<=U[i+1],i>=0,i+1<n],nonneg(U,n,x,s,p,i,I(0)))
    yield ('non-negativity: index of the base',PB,ctx,IMP(AND(s-p<=i,i<=s+p),AND(i>=0,i+1<n,U[i]<=U[i+1])))
    yield ('non-negativity: step',PB,ctx+un(U,x,s,i,q)+[q>=1,nonneg(U,n,x,s,p,i,q-1),nonneg(U,n,x,s,p,i+1,q-1),support(U,x,s,i,q-1),support(U,x,s,i+1,q-1),
            IMP(AND(0<=q,q<=p,s-p<=i,i<=s+p-q),AND(U[i]<=U[i+q+1],IMP(i<=s,U[i]<=U[s]),IMP(i+q+1>=s+1,U[s+1]<=U[i+q+1])))],nonneg(U,n,x,s,p,i,q))
    yield ('non-negativity: knot order used in the step',PB,ctx,IMP(AND(1<=q,q<=p,s-p<=i,i<=s+p-q),AND(U[i]<=U[i+q+1],IMP(i<=s,U[i]<=U[s]),IMP(i+q+1>=s+1,U[s+1]<=U[i+q+1]))))
    yield ('telescoping: base',PB,[SB.unfold(U,x,s,q,I(1)),SB.unfold(U,x,s,q,I(0)),SB.unfold(U,x,s,q-1,I(0)),NB.unfold(U,x,s,s-q,q),support(U,x,s,s-q,q-1)],tele(U,n,x,s,p,q,I(1)))
    yield ('knots around the span are distinct',PB,ctx,around(U,n,x,s,p,q,m))
    yield ('telescoping: step',PB,[m>=1,m<=q,q<=p,tele(U,n,x,s,p,q,m),SB.unfold(U,x,s,q,m+1),SB.unfold(U,x,s,q-1,m),NB.unfold(U,x,s,s-q+m,q),TB.unfold(U,x,s,s-q+m,q-1),around(U,n,x,s,p,q,m)],tele(U,n,x,s,p,q,m+1))
    yield ('partition of unity: base',PB,[SB.unfold(U,x,s,I(0),I(1)),SB.unfold(U,x,s,I(0),I(0)),NB.unfold(U,x,s,s,I(0))],unity(U,n,x,s,p,I(0)))
    yield ('partition of unity: step',PB,[q>=1,unity(U,n,x,s,p,q-1),tele(U,n,x,s,p,q,q+1),support(U,x,s,s+1,q-1)],unity(U,n,x,s,p,q))
    yield ('sum of equal terms: base',PB,[VSUM.unfold(a,I(0)),SB.unfold(U,x,s,q,I(0))],VSUM(a,I(0))==SB(U,x,s,q,I(0)))
    yield ('sum of equal terms: step',PB,[m>=0,VSUM(a,m)==SB(U,x,s,q,m),VSUM.unfold(a,m+1),SB.unfold(U,x,s,q,m+1),a[m]==NB(U,x,s,s-q+m,q)],VSUM(a,m+1)==SB(U,x,s,q,m+1))

# ---------------------------------------------------------------- BSplineBasis::Evaluate on a known span
def _pre(c):
    return [('span',in_span(c.knots.a,c.knots.len,c.degree,c.span,c.x)),('sorted',srt(c.knots.a,c.knots.len)),('size',c.knots.len<=sym.SIZE_MAX)]
def _bargs(c): o=c.old; return o.knots.a,o.x,o.span
def _out(c):
    j=c.k; U,x,s=_bargs(c); r=c.v('result'); l=c.v('left'); rt=c.v('right')
    return [('len',AND(r.len==c.old.degree+1,l.len==c.old.degree+1,rt.len==c.old.degree+1)),
        ('basis functions of degree j-1',FA(j,lambda q:r.at(q)==NB(U,x,s,s-j+1+q,j-1))),
        ('left distances',FAR(I(1),j,lambda m:l.at(m)==x-U[s+1-m])),('right distances',FAR(I(1),j,lambda m:rt.at(m)==U[s+m]-x))]
def _inn(c):
    j=c.v('j'); k=c.k; U,x,s=_bargs(c); r=c.v('result'); l=c.v('left'); rt=c.v('right')
    return [('len',AND(r.len==c.old.degree+1)),
        ('finished functions of degree j',FA(k,lambda q:r.at(q)==NB(U,x,s,s-j+q,j))),
        ('functions of degree j-1 still to use',FAR(k,j,lambda q:r.at(q)==NB(U,x,s,s-j+1+q,j-1))),
        ('saved term',c.v('saved')==(x-U[s-j+k])*TB(U,x,s,s-j+k,j-1))]
con('BSplineBasis::Evaluate(int,vec<real>,int,real)','degree knots span x',props=['C05'],requires=_pre,
    ensures=lambda c:[('degree+1 values',c.ret.len==c.degree+1),
        ('Cox-de Boor basis functions of the span',FA(c.degree+1,lambda r:c.ret.at(r)==NB(c.knots.a,c.x,c.span,c.span-c.degree+r,c.degree))),
        ('non-negative',ALL('r',lambda r:IMP(AND(0<=r,r<=c.degree),NB(c.knots.a,c.x,c.span,c.span-c.degree+r,c.degree)>=0),lambda r:[nonneg(c.knots.a,c.knots.len,c.x,c.span,c.degree,c.span-c.degree+r,c.degree)])),
        ('sum to one',SB(c.knots.a,c.x,c.span,c.degree,c.degree+1)==1)],
    hints=lambda c:[unity(c.knots.a,c.knots.len,c.x,c.span,c.degree,c.degree)],
    loops=[Loop(inv=_out,hints=lambda c:[NB.unfold(*_bargs(c),c.old.span,0)]),
           Loop(inv=_inn,hints=lambda c:(lambda U,x,s,j,k:[NB.unfold(U,x,s,s-j+k,j),TB.unfold(U,x,s,s-j+k+1,j-1),NB.unfold(U,x,s,s-j+k-1,j),TB.unfold(U,x,s,s-j+k,j-1),support(U,x,s,s-j,j-1),support(U,x,s,s+1,j-1),
                around(U,c.old.knots.len,x,s,c.old.degree,j,k+1)])(*_bargs(c),c.v('j'),c.k))])
# ---------------------------------------------------------------- Evaluate on a knot vector
def kn(c): k=KV(c.knot_vec); return k.a,k.len
def dom(c): return [('clamped',clamped(KV(c.knot_vec),c.degree)),('x in the domain',AND(c.x>=0,c.x<=1))]
con('BSplineBasis::Evaluate(int,KnotVector,real)','degree knot_vec x',props=['C05'],requires=dom,
    ensures=lambda c:(lambda U,n:(lambda s:[('degree+1 values',c.ret.len==c.degree+1),('span',in_span(U,n,c.degree,s,c.x)),
        ('Cox-de Boor basis functions of the containing span',FA(c.degree+1,lambda r:c.ret.at(r)==NB(U,c.x,s,s-c.degree+r,c.degree))),
        ('non-negative',FA(c.degree+1,lambda r:c.ret.at(r)>=0)),
        ('sum to one',SB(U,c.x,s,c.degree,c.degree+1)==1)])(span(U,n,c.degree,c.x)))(*kn(c)))
# ---------------------------------------------------------------- derivatives
# RD(U,m,q) = 1/(U[m+q]-U[m]), 0 for coinciding knots
RD=Ghost('rdiff',[AR,IS,IS],RS,lambda U,m,q: z3.If(U[m+q]-U[m]==0,R0,1/(U[m+q]-U[m])))
# k-th derivative of N_{i,q}: the B-spline derivative recursion
DN=Ghost('dN',[AR,RS,IS,IS,IS,IS],RS,lambda U,x,s,i,q,k: z3.If(k<=0,NB(U,x,s,i,q),z3.If(q<=0,R0,z3.ToReal(q)*(RD(U,i,q)*DN(U,x,s,i,q-1,k-1)-RD(U,i+1,q)*DN(U,x,s,i+1,q-1,k-1)))))
# coefficients of the k-th derivative in the basis functions of degree p-k
AC=Ghost('dcoef',[AR,IS,IS,IS,IS],RS,lambda U,i,p,k,j: z3.If(k<=0,z3.If(j==0,R1,R0),(AC(U,i,p,k-1,j)-AC(U,i,p,k-1,j-1))*RD(U,i+j,p-k+1)))
SA=Ghost('dsum',[AR,RS,IS,IS,IS,IS,IS],RS,lambda U,x,s,i,p,k,m: z3.If(m<=0,R0,SA(U,x,s,i,p,k,m-1)+AC(U,i,p,k,m-1)*NB(U,x,s,i+m-1,p-k)))
FALL=Ghost('fall',[IS,IS],RS,lambda p,k: z3.If(k<=0,R1,FALL(p,k-1)*z3.ToReal(p-k+1)))
SD=Ghost('dNsum',[AR,RS,IS,IS,IS,IS],RS,lambda U,x,s,q,k,m: z3.If(m<=0,R0,SD(U,x,s,q,k,m-1)+DN(U,x,s,s-q+m-1,q,k)))
@lemma('coefficients vanish outside')
def ac_zero(U,i,p,k,j): return IMP(AND(k>=0,OR(j<0,j>k)),AC(U,i,p,k,j)==0)
@lemma('coefficient recursion in the degree')
def ac_deg(U,i,p,k,j): return IMP(k>=1,AC(U,i,p,k,j)==RD(U,i,p)*AC(U,i,p-1,k-1,j)-RD(U,i+1,p)*AC(U,i+1,p-1,k-1,j-1))
@lemma('sum recursion in the degree')
def sa_deg(U,x,s,i,p,k,m): return IMP(AND(k>=1,m>=0),SA(U,x,s,i,p,k,m)==RD(U,i,p)*SA(U,x,s,i,p-1,k-1,m)-RD(U,i+1,p)*SA(U,x,s,i+1,p-1,k-1,m-1))
@lemma('falling factorial in the degree')
def fall_deg(p,k): return IMP(k>=1,FALL(p,k)==z3.ToReal(p)*FALL(p-1,k-1))
@lemma('derivatives by coefficients')
def dn_sum(U,x,s,i,p,k): return IMP(AND(k>=0,k<=p),DN(U,x,s,i,p,k)==FALL(p,k)*SA(U,x,s,i,p,k,k+1))
@lemma('derivatives above the degree vanish')
def dn_high(U,x,s,i,p,k): return IMP(AND(p>=0,k>p),DN(U,x,s,i,p,k)==0)
@lemma('derivatives have local support')
def dn_support(U,x,s,i,q,k): return IMP(AND(q>=0,k>=0,OR(i<s-q,i>s)),DN(U,x,s,i,q,k)==0)
@lemma('row sums of derivatives telescope')
def sd_tele(U,x,s,q,k,m): return IMP(AND(q>=1,k>=1,m>=0),SD(U,x,s,q,k,m)==z3.ToReal(q)*(RD(U,s-q,q)*DN(U,x,s,s-q,q-1,k-1)-RD(U,s-q+m,q)*DN(U,x,s,s-q+m,q-1,k-1)))
@lemma('row sums of derivatives are zero')
def sd_zero(U,x,s,q,k): return IMP(AND(q>=0,k>=1),SD(U,x,s,q,k,q+1)==0)
@lemma('terms below the support')
def sa_low(U,x,s,i,p,k,m): return IMP(AND(0<=k,k<=p,i+m<=s-(p-k)),SA(U,x,s,i,p,k,m)==0)
@lemma('terms above the support')
def sa_high(U,x,s,i,p,k,m,e): return IMP(AND(0<=k,k<=p,m>=0,m<=e,i+m>s),SA(U,x,s,i,p,k,e)==SA(U,x,s,i,p,k,m))
def lemmas2():
    PB=['C06']; U=z3.Const('U',AR); x=z3.Real('x'); s,i,q,m,p,k,j,e=z3.Ints('s i q m p k j e')
    yield ('coefficients vanish outside: base',PB,[AC.unfold(U,i,p,I(0),j)],ac_zero(U,i,p,I(0),j))
    yield ('coefficients vanish outside: step',PB,[k>=1,AC.unfold(U,i,p,k,j),ac_zero(U,i,p,k-1,j),ac_zero(U,i,p,k-1,j-1)],ac_zero(U,i,p,k,j))
    yield ('coefficient recursion in the degree: base',PB,[AC.unfold(U,i,p,I(1),j),AC.unfold(U,i,p,I(0),j),AC.unfold(U,i,p,I(0),j-1),AC.unfold(U,i,p-1,I(0),j),AC.unfold(U,i+1,p-1,I(0),j-1)],ac_deg(U,i,p,I(1),j))
    yield ('coefficient recursion in the degree: step',PB,[k>=2,AC.unfold(U,i,p,k,j),ac_deg(U,i,p,k-1,j),ac_deg(U,i,p,k-1,j-1),AC.unfold(U,i,p-1,k-1,j),AC.unfold(U,i+1,p-1,k-1,j-1)],ac_deg(U,i,p,k,j))
    yield ('sum recursion in the degree: base',PB,[SA.unfold(U,x,s,i,p,k,I(0)),SA.unfold(U,x,s,i,p-1,k-1,I(0)),SA.unfold(U,x,s,i+1,p-1,k-1,I(-1))],sa_deg(U,x,s,i,p,k,I(0)))
    yield ('sum recursion in the degree: first',PB,[SA.unfold(U,x,s,i,p,k,I(1)),SA.unfold(U,x,s,i,p,k,I(0)),SA.unfold(U,x,s,i,p-1,k-1,I(1)),SA.unfold(U,x,s,i,p-1,k-1,I(0)),SA.unfold(U,x,s,i+1,p-1,k-1,I(0)),ac_deg(U,i,p,k,I(0)),ac_zero(U,i+1,p-1,k-1,I(-1))],sa_deg(U,x,s,i,p,k,I(1)))
    yield ('sum recursion in the degree: step',PB,[m>=1,sa_deg(U,x,s,i,p,k,m),SA.unfold(U,x,s,i,p,k,m+1),SA.unfold(U,x,s,i,p-1,k-1,m+1),SA.unfold(U,x,s,i+1,p-1,k-1,m),ac_deg(U,i,p,k,m)],sa_deg(U,x,s,i,p,k,m+1))
    yield ('falling factorial in the degree: base',PB,[FALL.unfold(p,I(1)),FALL.unfold(p,I(0)),FALL.unfold(p-1,I(0))],fall_deg(p,I(1)))
    yield ('falling factorial in the degree: step',PB,[k>=2,fall_deg(p,k-1),FALL.unfold(p,k),FALL.unfold(p-1,k-1)],fall_deg(p,k))
    yield ('derivatives by coefficients: base',PB,[DN.unfold(U,x,s,i,p,I(0)),FALL.unfold(p,I(0)),SA.unfold(U,x,s,i,p,I(0),I(1)),SA.unfold(U,x,s,i,p,I(0),I(0)),AC.unfold(U,i,p,I(0),I(0))],dn_sum(U,x,s,i,p,I(0)))
    yield ('derivatives by coefficients: step',PB,[k>=1,DN.unfold(U,x,s,i,p,k),fall_deg(p,k),sa_deg(U,x,s,i,p,k,k+1),dn_sum(U,x,s,i,p-1,k-1),dn_sum(U,x,s,i+1,p-1,k-1),SA.unfold(U,x,s,i,p-1,k-1,k+1),ac_zero(U,i,p-1,k-1,k)],dn_sum(U,x,s,i,p,k))
    yield ('derivatives above the degree vanish: base',PB,[DN.unfold(U,x,s,i,I(0),k)],dn_high(U,x,s,i,I(0),k))
    yield ('derivatives above the degree vanish: step',PB,[p>=1,DN.unfold(U,x,s,i,p,k),dn_high(U,x,s,i,p-1,k-1),dn_high(U,x,s,i+1,p-1,k-1)],dn_high(U,x,s,i,p,k))
    yield ('derivatives have local support: base',PB,[DN.unfold(U,x,s,i,q,I(0)),support(U,x,s,i,q)],dn_support(U,x,s,i,q,I(0)))
    yield ('derivatives have local support: step',PB,[k>=1,DN.unfold(U,x,s,i,q,k),dn_support(U,x,s,i,q-1,k-1),dn_support(U,x,s,i+1,q-1,k-1)],dn_support(U,x,s,i,q,k))
    yield ('row sums of derivatives telescope: base',PB,[SD.unfold(U,x,s,q,k,I(0))],sd_tele(U,x,s,q,k,I(0)))
    yield ('row sums of derivatives telescope: step',PB,[m>=0,sd_tele(U,x,s,q,k,m),SD.unfold(U,x,s,q,k,m+1),DN.unfold(U,x,s,s-q+m,q,k)],sd_tele(U,x,s,q,k,m+1))
    yield ('row sums of derivatives are zero',PB,[sd_tele(U,x,s,q,k,q+1),dn_support(U,x,s,s-q,q-1,k-1),dn_support(U,x,s,s+1,q-1,k-1),SD.unfold(U,x,s,q,k,I(1)),SD.unfold(U,x,s,q,k,I(0)),DN.unfold(U,x,s,s,q,k)],sd_zero(U,x,s,q,k))
    yield ('terms below the support: base',PB,[m<=0,SA.unfold(U,x,s,i,p,k,m)],sa_low(U,x,s,i,p,k,m))
    yield ('terms below the support: step',PB,[m>=1,sa_low(U,x,s,i,p,k,m-1),SA.unfold(U,x,s,i,p,k,m),support(U,x,s,i+m-1,p-k)],sa_low(U,x,s,i,p,k,m))
    yield ('terms above the support: base',PB,[e==m],sa_high(U,x,s,i,p,k,m,e))
    yield ('terms above the support: step',PB,[e>=m+1,sa_high(U,x,s,i,p,k,m,e-1),SA.unfold(U,x,s,i,p,k,e),support(U,x,s,i+e-1,p-k)],sa_high(U,x,s,i,p,k,m,e))
_l1=lemmas
def lemmas():
    yield from _l1()
    yield from lemmas2()
DK=lambda U,x,s,i,p,k: z3.If(k<=p,SA(U,x,s,i,p,k,k+1),R0)
def zmax(a,b): return z3.If(a>=b,a,b)
def zmin(a,b): return z3.If(a<=b,a,b)
def FA2_(cond,f):
    i,j=z3.Int(fresh_name('i')),z3.Int(fresh_name('j'))
    return z3.ForAll([i,j],IMP(cond(i,j),f(i,j)))
def _o(c): o=c.old; return o.knots.a,o.x,o.span,o.degree
def _upper(M,U,x,s,lim): return FA2_(lambda r,q:AND(0<=r,r<=q,q<lim),lambda r,q:M.at(r,q)==NB(U,x,s,s-q+r,q))
def _lower(M,U,x,s,lim): return FA2_(lambda m,r:AND(0<=r,r<m,m<lim),lambda m,r:M.at(m,r)==U[s+r+1]-U[s+1-m+r])
def _dims(M,r,c): return AND(M.rows==r,M.cols==c)
def _ea0(c):
    U,x,s,p=_o(c); j=c.k; M=c.v('ndu'); l=c.v('left'); rt=c.v('right')
    return [('dims',AND(_dims(M,p+1,p+1),l.len==p+1,rt.len==p+1)),('basis functions below degree j',_upper(M,U,x,s,j)),('knot differences',_lower(M,U,x,s,j)),
        ('left distances',FAR(I(1),j,lambda m:l.at(m)==x-U[s+1-m])),('right distances',FAR(I(1),j,lambda m:rt.at(m)==U[s+m]-x))]
def _ea1(c):
    U,x,s,p=_o(c); j=c.v('j'); k=c.k; M=c.v('ndu')
    return [('dims',_dims(M,p+1,p+1)),('basis functions below degree j',_upper(M,U,x,s,j)),('knot differences',_lower(M,U,x,s,j)),
        ('knot differences of row j',FA(k,lambda r:M.at(j,r)==U[s+r+1]-U[s+1-j+r])),('basis functions of degree j',FA(k,lambda r:M.at(r,j)==NB(U,x,s,s-j+r,j))),
        ('saved term',c.v('saved')==(x-U[s-j+k])*TB(U,x,s,s-j+k,j-1))]
def _h1(c):
    U,x,s,p=_o(c); j=c.v('j'); k=c.k
    return [NB.unfold(U,x,s,s-j+k,j),TB.unfold(U,x,s,s-j+k+1,j-1),NB.unfold(U,x,s,s-j+k-1,j),TB.unfold(U,x,s,s-j+k,j-1),support(U,x,s,s-j,j-1),support(U,x,s,s+1,j-1),around(U,c.old.knots.len,x,s,p,j,k+1)]
def _resdone(c,U,x,s,p,R,r):
    """result columns below r are finished (without the factor)"""
    return [('result dims',_dims(R,c.old.order+1,p+1)),('row 0',FA(p+1,lambda q:R.at(I(0),q)==NB(U,x,s,s-p+q,p))),
        ('finished columns',FA2_(lambda k,q:AND(1<=k,k<=c.old.order,0<=q,q<r),lambda k,q:R.at(k,q)==DK(U,x,s,s-p+q,p,k)))]
def _ea2(c):
    U,x,s,p=_o(c); return _resdone(c,U,x,s,p,c.v('result'),c.k)+[('a dims',_dims(c.v('a'),I(2),p+1))]
def _acr(c,row,k,lo,hi):
    U,x,s,p=_o(c); r=c.v('r'); A=c.v('a')
    return FAR(lo,hi,lambda j:A.at(row,j)==AC(U,s-p+r,p,k,j))
def _ea3(c):
    U,x,s,p=_o(c); r=c.v('r'); k=c.k; s1,s2=c.v('s1'),c.v('s2'); R=c.v('result')
    return _resdone(c,U,x,s,p,R,r)+[('a dims',_dims(c.v('a'),I(2),p+1)),('alternating rows',AND(0<=s1,s1<=1,0<=s2,s2<=1,s1+s2==1)),
        ('coefficients of order k-1',_acr(c,s1,k-1,zmax(I(0),k-1-r),zmin(k,p-r+1))),
        ('this column so far',FAR(I(1),k,lambda q:R.at(q,r)==DK(U,x,s,s-p+r,p,q)))]
def _ea4(c):
    U,x,s,p=_o(c); r=c.v('r'); kk=c.v('k'); j=c.k; s1,s2=c.v('s1'),c.v('s2')
    return [('a dims',_dims(c.v('a'),I(2),p+1)),('coefficients of order k-1',_acr(c,s1,kk-1,zmax(I(0),kk-1-r),zmin(kk,p-r+1))),
        ('coefficients of order k',IMP(kk<=p,_acr(c,s2,kk,zmax(I(0),kk-r),j))),('range',AND(IMP(kk<=p,j<=c.v('j2')+1),IMP(kk>p,c.v('j1')>c.v('j2')))),
        ('sum so far',z3.If(kk<=p,c.v('d')==SA(U,x,s,s-p+r,p,kk,j),c.v('d')==0))]
def _h3(c):
    U,x,s,p=_o(c); r=c.v('r'); k=c.k; n=c.old.knots.len; i=s-p+r
    return [AC.unfold(U,i,p,0,0)]
def _b3(c):
    U,x,s,p=_o(c); r=c.v('r'); k=c.k; n=c.old.knots.len; i=s-p+r
    return [AC.unfold(U,i,p,k,0),ac_zero(U,i,p,k-1,I(-1)),AC.unfold(U,i,p,k,k),ac_zero(U,i,p,k-1,k),RD.unfold(U,i,p-k+1),RD.unfold(U,i+k,p-k+1),around(U,n,x,s,p,p-k+1,r-k+1),around(U,n,x,s,p,p-k+1,r+1),
        SA.unfold(U,x,s,i,p,k,0),SA.unfold(U,x,s,i,p,k,1),SA.unfold(U,x,s,i,p,k,k+1),sa_low(U,x,s,i,p,k,k-r),sa_high(U,x,s,i,p,k,p-r+1,k+1)]
def _h4(c):
    U,x,s,p=_o(c); r=c.v('r'); k=c.v('k'); j=c.k; n=c.old.knots.len; i=s-p+r
    return [AC.unfold(U,i,p,k,j),RD.unfold(U,i+j,p-k+1),around(U,n,x,s,p,p-k+1,r-k+j+1),SA.unfold(U,x,s,i,p,k,j+1)]
def _s4(c):
    U,x,s,p=_o(c); r=c.v('r'); k=c.v('k'); j=c.k; i=s-p+r
    return [SA.unfold(U,x,s,i,p,k,j)]
def _ea5(c):
    U,x,s,p=_o(c); k=c.k; R=c.v('result')
    return [('result dims',_dims(R,c.old.order+1,p+1)),('row 0',FA(p+1,lambda q:R.at(I(0),q)==NB(U,x,s,s-p+q,p))),('factor',c.v('fac')==FALL(p,k)),
        ('scaled rows',FA2_(lambda m,q:AND(1<=m,m<k,m<=c.old.order,0<=q,q<=p),lambda m,q:R.at(m,q)==FALL(p,m)*DK(U,x,s,s-p+q,p,m))),
        ('rows still to scale',FA2_(lambda m,q:AND(k<=m,m<=c.old.order,0<=q,q<=p),lambda m,q:R.at(m,q)==DK(U,x,s,s-p+q,p,m)))]
def dtable(c,R,U,x,s,p,order):
    return [('one row per order, one column per basis function',_dims(R,order+1,p+1)),
        ('derivatives of the basis functions of the span',ALL('k q',lambda k,q:IMP(AND(0<=k,k<=order,0<=q,q<=p),R.at(k,q)==DN(U,x,s,s-p+q,p,k)),lambda k,q:[dn_sum(U,x,s,s-p+q,p,k),dn_high(U,x,s,s-p+q,p,k),DN.unfold(U,x,s,s-p+q,p,0)])),
        ('row 0 is plain evaluation',FA(p+1,lambda q:R.at(I(0),q)==NB(U,x,s,s-p+q,p))),
        ('orders above the degree are zero',ALL('k q',lambda k,q:IMP(AND(p<k,k<=order,0<=q,q<=p),R.at(k,q)==0),lambda k,q:[])),
        ('rows of order >= 1 sum to zero',ALL('k',lambda k:IMP(AND(1<=k,k<=order),SD(U,x,s,p,k,p+1)==0),lambda k:[sd_zero(U,x,s,p,k)]))]
_ord=lambda c:[('order',AND(c.order>=0,c.order<=2**20))]
con('BSplineBasis::EvaluateAll(int,vec<real>,int,real,int)','degree knots span x order',props=['C06'],requires=lambda c:_pre(c)+_ord(c),
    ensures=lambda c:dtable(c,c.ret,c.knots.a,c.x,c.span,c.degree,c.order),
    loops=[Loop(inv=_ea0,hints=lambda c:[NB.unfold(*_bargs(c),c.old.span,0)]),Loop(inv=_ea1,hints=_h1),Loop(inv=_ea2),Loop(inv=_ea3,hints=_h3,body_hints=_b3),Loop(inv=_ea4,hints=_h4,step_hints=_s4),
        Loop(inv=_ea5,hints=lambda c:[FALL.unfold(c.old.degree,0),FALL.unfold(c.old.degree,1),FALL.unfold(c.old.degree,c.k+1),FALL.unfold(c.old.degree,c.k)])])
def drow(c,V,U,x,s,p,order): return [('degree+1 values',V.len==p+1),('derivatives of that order',FA(p+1,lambda q:V.at(q)==DN(U,x,s,s-p+q,p,order)))]
con('BSplineBasis::EvaluateDerivative(int,vec<real>,int,real,int)','degree knots span x order',props=['C06'],requires=lambda c:_pre(c)+_ord(c),
    ensures=lambda c:drow(c,c.ret,c.knots.a,c.x,c.span,c.degree,c.order))
con('BSplineBasis::EvaluateAll(int,KnotVector,real,int)','degree knot_vec x order',props=['C06'],requires=lambda c:dom(c)+_ord(c),
    ensures=lambda c:(lambda U,n:dtable(c,c.ret,U,c.x,span(U,n,c.degree,c.x),c.degree,c.order))(*kn(c)))
con('BSplineBasis::EvaluateDerivative(int,KnotVector,real,int)','degree knot_vec x order',props=['C06'],requires=lambda c:dom(c)+_ord(c),
    ensures=lambda c:(lambda U,n:drow(c,c.ret,U,c.x,span(U,n,c.degree,c.x),c.degree,c.order))(*kn(c)))
