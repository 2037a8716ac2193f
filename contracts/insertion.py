"""Contracts: knot insertion (C11 curves, C12 surfaces)"""
from spec import *
from program import Contract as C
from exec import Loop, UNROLL
import sym
from knots import clamped, clampa, KV, span, spanp, span_exists, span_unique
from basis import NB,TB,SB,DN,support
from curve import WS,RSUM,curve_ok,cv,wpos
out=[]
def con(*a,**k): out.append(C(*a,**k))
def q1(name,lo,hi,f,pat):
    k=z3.Int(name); P=pat(k)
    if any(_ite(x) for x in P): P=[]     # not allowed as a trigger
    return z3.ForAll([k],IMP(AND(lo<=k,k<=hi),f(k)),patterns=P)
def _ite(e): return z3.is_app_of(e,z3.Z3_OP_ITE) or any(_ite(x) for x in e.children())
def ins_knots(U,n,p,Ub,k,u):
    """Ub is U with u inserted behind position k, the span of u"""
    return AND(p>=0,p<=k,k<=n-p-2,U[k]<=u,u<U[k+1],Ub[k+1]==u,srt(U,n),
        q1('ik_a',I(0),k,lambda j:Ub[j]==U[j],lambda j:[Ub[j]]),q1('ik_b',k+2,n,lambda j:Ub[j]==U[j-1],lambda j:[Ub[j]]))
# opaque forms of the products and of the convex combination (unfolded where needed), to keep quantified facts linear
MUL=Ghost('times',[RS,RS],RS,lambda a,b:a*b)
CCP=Ghost('combination',[RS]*6,z3.BoolSort(),lambda u,a,b,h1,h0,h: h*(b-a)==(u-a)*h1+(b-u)*h0)
def ins_pts(U,p,H,Hb,k,u,cnt):
    """knot-insertion convex combination of the (homogeneous) values H"""
    return AND(q1('ip_a',I(0),k-p,lambda i:Hb[i]==H[i],lambda i:[Hb[i]]),
        q1('ip_b',k-p+1,k,lambda i:CCP(u,U[i],U[i+p],H[i],H[i-1],Hb[i]),lambda i:[Hb[i]]),
        q1('ip_c',k+1,cnt,lambda i:Hb[i]==H[i-1],lambda i:[Hb[i]]))
def sbrel(U,s,sb,k,u,x): return AND(U[s]<=x,OR(AND(s<k,sb==s),AND(s>k,sb==s+1),AND(s==k,x<u,sb==k),AND(s==k,x>=u,sb==k+1)))
BCTX=lambda U,n,p,Ub,k,u,x,s,sb: AND(ins_knots(U,n,p,Ub,k,u),sbrel(U,s,sb,k,u,x))
# the three algebraic cases: new knot inside both supports, in the first span, in the last span (division-free)
def alg(a,b,c,d,x,u,t0,t1,t2,Ti,Tj,Ni,Nj): return IMP(AND(b!=a,d!=c,Ti*(b-a)==(u-a)*t0+(b-u)*t1,Tj*(d-c)==(u-c)*t1+(d-u)*t2,Ni*(b-a)==(x-a)*t0+(b-x)*t1,Nj*(d-c)==(x-c)*t1+(d-x)*t2),(x-a)*Ti+(d-x)*Tj==(u-a)*Ni+(d-u)*Nj)
def alg_first(a,b,d,x,u,t0,t1,t2,Ti,Ni,Nj): return IMP(AND(b!=a,Ti*(b-a)==(u-a)*t0+(b-u)*t1,Ni*(b-a)==(x-a)*t0+(b-x)*t1,Nj*(d-u)==(x-u)*t1+(d-x)*t2),(x-a)*Ti+(d-x)*t2==(u-a)*Ni+(d-u)*Nj)
def alg_last(a,c,d,x,u,t0,t1,t2,Tj,Ni,Nj): return IMP(AND(d!=c,Tj*(d-c)==(u-c)*t1+(d-u)*t2,Ni*(u-a)==(x-a)*t0+(u-x)*t1,Nj*(d-c)==(x-c)*t1+(d-x)*t2),(x-a)*t0+(d-x)*Tj==(u-a)*Ni+(d-u)*Nj)
def alg_mid(a,c,d,u,h0,h1,hb,t0,t1,N,Nb): return IMP(AND(hb*(d-c)==(u-c)*h1+(d-u)*h0,Nb==(d-c)*t1,N==(u-a)*t0+(d-u)*t1),((u-a)*t0)*h0+Nb*hb==N*h0+((u-c)*t1)*h1)
alg_mid=lemma('algebra of knot insertion: middle')(alg_mid)
alg=lemma('algebra of knot insertion: both')(alg); alg_first=lemma('algebra of knot insertion: first')(alg_first); alg_last=lemma('algebra of knot insertion: last')(alg_last)
@lemma('quotient of a basis function')
def tn(U,x,s,i,q): return IMP(U[i+q+1]-U[i]!=0,TB(U,x,s,i,q)*(U[i+q+1]-U[i])==NB(U,x,s,i,q))
@lemma('basis functions under knot insertion')
def nid(U,n,p,Ub,k,u,x,s,sb,i,q):
    N=NB(U,x,s,i,q); T=TB(U,x,s,i,q); Nb=lambda i:NB(Ub,x,sb,i,q); Tb=lambda i:TB(Ub,x,sb,i,q)
    return IMP(AND(BCTX(U,n,p,Ub,k,u,x,s,sb),0<=i,q>=0,i+q+1<=n-1),AND(IMP(i+q<k,AND(N==Nb(i),T==Tb(i))),IMP(i>k,AND(N==Nb(i+1),T==Tb(i+1))),
        IMP(AND(i<=k,k<=i+q),AND(N==(u-U[i])*Tb(i)+(U[i+q+1]-u)*Tb(i+1),U[i]<U[i+q+1]))))
# global sums: G(m) = sum_{i<m} N_{i,p} H_i
G=Ghost('gsum',[AR,RS,IS,IS,AR,IS],RS,lambda U,x,s,p,H,m: z3.If(m<=0,R0,G(U,x,s,p,H,m-1)+NB(U,x,s,m-1,p)*H[m-1]))
AN=lambda U,p,Ub,k,u,x,sb,i: z3.If(i<=k-p-1,NB(Ub,x,sb,i,p),z3.If(i>k,R0,(u-U[i])*TB(Ub,x,sb,i,p)))
@lemma('sums under knot insertion')
def gid(U,n,p,Ub,k,u,x,s,sb,H,Hb,m):
    return IMP(AND(BCTX(U,n,p,Ub,k,u,x,s,sb),ins_pts(U,p,H,Hb,k,u,n-p-1),0<=m,m<=n-p-1),G(Ub,x,sb,p,Hb,m+1)==G(U,x,s,p,H,m)+AN(U,p,Ub,k,u,x,sb,m)*H[m])
@lemma('global sums: zero before the span')
def g0(U,x,s,p,H,m): return IMP(AND(p>=0,m<=s-p),G(U,x,s,p,H,m)==0)
@lemma('global sums: span part')
def gl(U,x,s,p,H,m): return IMP(AND(p>=0,s>=p,0<=m,m<=p+1),G(U,x,s,p,H,s-p+m)==WS(U,x,s,p,H,m))
@lemma('global sums: constant behind the span')
def gr(U,x,s,p,H,m): return IMP(AND(p>=0,s>=0,m>=s+1),G(U,x,s,p,H,m)==G(U,x,s,p,H,s+1))
@lemma('knot insertion keeps the span')
def sb_span(U,n,p,Ub,k,u,x):
    """the span of x after the insertion"""
    s=span(U,n,p,x); sb=span(Ub,n+1,p,x)
    return IMP(AND(clampa(U,n,p),clampa(Ub,n+1,p),ins_knots(U,n,p,Ub,k,u),u<1,x>=0,x<=1),AND(spanp(U,n,p,x,s),spanp(Ub,n+1,p,x,sb),sbrel(U,s,sb,k,u,x)))
@lemma('knot insertion keeps the sums')
def boehm(U,n,p,Ub,k,u,x,H,Hb):
    s=span(U,n,p,x); sb=span(Ub,n+1,p,x)
    return IMP(AND(clampa(U,n,p),clampa(Ub,n+1,p),ins_knots(U,n,p,Ub,k,u),u<1,x>=0,x<=1,ins_pts(U,p,H,Hb,k,u,n-p-1)),WS(Ub,x,sb,p,Hb,p+1)==WS(U,x,s,p,H,p+1))
def lemmas():
    P=['C11','C12']; U,Ub,H,Hb=z3.Consts('U Ub H Hb',AR); x,u=z3.Reals('x u'); n,s,sb,p,i,q,m,k=z3.Ints('n s sb p i q m k')
    a,b,c,d,t0,t1,t2=z3.Reals('a b c d t0 t1 t2')
    A=(U,n,p,Ub,k,u,x,s,sb)
    Ti,Tj,Ni,Nj=z3.Reals('Ti Tj Ni Nj')
    prod=lambda e,f:z3.simplify(e*f)
    yield ('algebra of knot insertion: both',P,[],alg(a,b,c,d,x,u,t0,t1,t2,Ti,Tj,Ni,Nj))
    yield ('algebra of knot insertion: first',P,[],alg_first(a,b,d,x,u,t0,t1,t2,Ti,Ni,Nj))
    yield ('algebra of knot insertion: last',P,[],alg_last(a,c,d,x,u,t0,t1,t2,Tj,Ni,Nj))
    yield ('quotient of a basis function',P,[TB.unfold(U,x,s,i,q)],tn(U,x,s,i,q))
    nb=lambda i,q:[NB.unfold(U,x,s,i,q),TB.unfold(U,x,s,i,q)]
    nbb=lambda i,q:[NB.unfold(Ub,x,sb,i,q),TB.unfold(Ub,x,sb,i,q)]
    kn=[BCTX(*A),0<=i,q>=0,i+q+1<=n-1]
    fam='basis functions under knot insertion: '
    # base
    for nm,cond in (('left',i<k),('right',i>k),('containing',i==k)):
        yield (fam+'base, '+nm,P,kn[:2]+[i+1<=n-1,cond]+nb(i,I(0))+nbb(i,I(0))+nbb(i+1,I(0)),nid(*A,i,I(0)))
    # knots of the new vector used in the step
    idx=[Ub[i]==z3.If(i<=k,U[i],z3.If(i==k+1,u,U[i-1])) for i in ()]
    loc=lambda e: Ub[e]==z3.If(e<=k,U[e],z3.If(e==k+1,u,U[e-1]))
    kn2=lambda *es:[IMP(AND(0<=e,e<=n),loc(e)) for e in es]
    yield (fam+'knots',P,[BCTX(*A),0<=m,m<=n],loc(m))
    srtf=[IMP(AND(i<=k,k<=i+q),AND(U[i]<=u,u<U[i+q+1]))]
    yield (fam+'order',P,kn,srtf[0])
    q_=q-1
    ih=[nid(*A,i,q_),nid(*A,i+1,q_)]
    step=kn+[q>=1]
    yield (fam+'step, left',P,step+ih+[i+q<k]+nb(i,q)+nbb(i,q)+kn2(i,i+q+1,i+1,i+q),nid(*A,i,q))
    yield (fam+'step, right',P,step+ih+[i>k]+nb(i,q)+nbb(i+1,q)+kn2(i+1,i+q+2),nid(*A,i,q))
    # containing: three subcases
    T=lambda e,r:TB(U,x,s,e,r); Tb=lambda e,r:TB(Ub,x,sb,e,r); N=lambda e,r:NB(U,x,s,e,r); Nb=lambda e,r:NB(Ub,x,sb,e,r)
    un=lambda e,r:[NB.unfold(U,x,s,e,r)]; unb=lambda e,r:[NB.unfold(Ub,x,sb,e,r)]
    ki=[BCTX(*A),0<=i,q>=1,i+q+1<=n-1]
    goal=N(i,q)==(u-U[i])*Tb(i,q)+(U[i+q+1]-u)*Tb(i+1,q)
    # inside both
    cnd=[i<k,k<i+q]
    f=[U[i]<U[i+q],U[i+1]<U[i+q+1],U[i]<U[i+q+1],Ub[i]==U[i],Ub[i+1]==U[i+1],Ub[i+q+1]==U[i+q],Ub[i+q+2]==U[i+q+1]]
    yield (fam+'both, knots',P,ki+cnd,AND(*f))
    e1=T(i,q_)*(U[i+q]-U[i])==(u-U[i])*Tb(i,q_)+(U[i+q]-u)*Tb(i+1,q_)
    e2=T(i+1,q_)*(U[i+q+1]-U[i+1])==(u-U[i+1])*Tb(i+1,q_)+(U[i+q+1]-u)*Tb(i+2,q_)
    e3=Tb(i,q)*(U[i+q]-U[i])==(x-U[i])*Tb(i,q_)+(U[i+q]-x)*Tb(i+1,q_)
    e4=Tb(i+1,q)*(U[i+q+1]-U[i+1])==(x-U[i+1])*Tb(i+1,q_)+(U[i+q+1]-x)*Tb(i+2,q_)
    yield (fam+'both, old left',P,ki+cnd+f+[nid(*A,i,q_),tn(U,x,s,i,q_)],e1)
    yield (fam+'both, old right',P,ki+cnd+f+[nid(*A,i+1,q_),tn(U,x,s,i+1,q_)],e2)
    yield (fam+'both, new left',P,ki+cnd+f+unb(i,q)+[tn(Ub,x,sb,i,q)],e3)
    yield (fam+'both, new right',P,ki+cnd+f+unb(i+1,q)+[tn(Ub,x,sb,i+1,q)],e4)
    yield (fam+'both',P,[i<k,k<i+q,q>=1]+f[:3]+un(i,q)+[e1,e2,e3,e4,alg(U[i],U[i+q],U[i+1],U[i+q+1],x,u,Tb(i,q_),Tb(i+1,q_),Tb(i+2,q_),T(i,q_),T(i+1,q_),Tb(i,q),Tb(i+1,q))],AND(goal,U[i]<U[i+q+1]))
    # first span
    cnd=[i==k]
    f=[U[i]<U[i+q],u<U[i+q+1],U[i]<U[i+q+1],Ub[i]==U[i],Ub[i+1]==u,Ub[i+q+1]==U[i+q],Ub[i+q+2]==U[i+q+1]]
    yield (fam+'first, knots',P,ki+cnd,AND(*f))
    e4=Tb(i+1,q)*(U[i+q+1]-u)==(x-u)*Tb(i+1,q_)+(U[i+q+1]-x)*Tb(i+2,q_)
    e5=T(i+1,q_)==Tb(i+2,q_)
    yield (fam+'first, old left',P,ki+cnd+f+[nid(*A,i,q_),tn(U,x,s,i,q_)],e1)
    yield (fam+'first, old right',P,ki+cnd+[nid(*A,i+1,q_)],e5)
    yield (fam+'first, new left',P,ki+cnd+f+unb(i,q)+[tn(Ub,x,sb,i,q)],e3)
    yield (fam+'first, new right',P,ki+cnd+f+unb(i+1,q)+[tn(Ub,x,sb,i+1,q)],e4)
    yield (fam+'first',P,[q>=1]+f[:3]+un(i,q)+[e1,e3,e4,e5,alg_first(U[i],U[i+q],U[i+q+1],x,u,Tb(i,q_),Tb(i+1,q_),Tb(i+2,q_),T(i,q_),Tb(i,q),Tb(i+1,q))],AND(goal,U[i]<U[i+q+1]))
    # last span
    cnd=[k==i+q]
    f=[U[i]<=u,U[i+1]<U[i+q+1],U[i]<U[i+q+1],Ub[i]==U[i],Ub[i+1]==U[i+1],Ub[i+q+1]==u,Ub[i+q+2]==U[i+q+1],IMP(u==U[i],AND(Ub[i+q]==u,U[i+1]==u))]
    yield (fam+'last, knots',P,ki+cnd,AND(*f))
    e3=Tb(i,q)*(u-U[i])==(x-U[i])*Tb(i,q_)+(u-x)*Tb(i+1,q_)
    e4=Tb(i+1,q)*(U[i+q+1]-U[i+1])==(x-U[i+1])*Tb(i+1,q_)+(U[i+q+1]-x)*Tb(i+2,q_)
    e5=T(i,q_)==Tb(i,q_)
    yield (fam+'last, old left',P,ki+cnd+[nid(*A,i,q_)],e5)
    yield (fam+'last, old right',P,ki+cnd+f+[nid(*A,i+1,q_),tn(U,x,s,i+1,q_)],e2)
    yield (fam+'last, new left',P,ki+cnd+f+unb(i,q)+[tn(Ub,x,sb,i,q),TB.unfold(Ub,x,sb,i,q_),TB.unfold(Ub,x,sb,i+1,q_)],e3)
    yield (fam+'last, new right',P,ki+cnd+f+unb(i+1,q)+[tn(Ub,x,sb,i+1,q)],e4)
    yield (fam+'last',P,[q>=1]+f[:3]+un(i,q)+[e2,e3,e4,e5,alg_last(U[i],U[i+1],U[i+q+1],x,u,Tb(i,q_),Tb(i+1,q_),Tb(i+2,q_),T(i+1,q_),Tb(i,q),Tb(i+1,q))],AND(goal,U[i]<U[i+q+1]))
    # the last and first partially covered new functions
    yield (fam+'step, contained',P,ki+[i<=k,k<=i+q]+[IMP(c_,AND(goal,U[i]<U[i+q+1])) for c_ in (AND(i<k,k<i+q),i==k,k==i+q)],nid(*A,i,q))
    F1=lambda: IMP(AND(BCTX(*A)),NB(Ub,x,sb,k-p,p)==(u-U[k-p])*TB(Ub,x,sb,k-p,p))
    F2=lambda: IMP(AND(BCTX(*A)),NB(Ub,x,sb,k+1,p)==(U[k+p+1]-u)*TB(Ub,x,sb,k+1,p))
    F3=lambda i: IMP(AND(BCTX(*A),k-p+1<=i,i<=k),AND(U[i]<U[i+p],NB(Ub,x,sb,i,p)==(U[i+p]-U[i])*TB(Ub,x,sb,i,p)))
    fam='sums under knot insertion: '
    f1=[Ub[k+1]==u,Ub[k-p]==U[k-p],U[k-p]<=u,IMP(AND(u==U[k-p],p>=1),AND(Ub[k]==u,Ub[k-p+1]==u))]
    yield (fam+'first function, knots',P,[BCTX(*A)],AND(*f1))
    yield (fam+'first function, degree 0',P,[p==0,BCTX(*A),NB.unfold(Ub,x,sb,k,I(0)),TB.unfold(Ub,x,sb,k,I(0))]+f1,F1())
    yield (fam+'first function',P,[p>=1,NB.unfold(Ub,x,sb,k-p,p),tn(Ub,x,sb,k-p,p),TB.unfold(Ub,x,sb,k-p,p-1),TB.unfold(Ub,x,sb,k-p+1,p-1)]+f1,F1())
    f2=[Ub[k+1]==u,Ub[k+p+2]==U[k+p+1],u<U[k+p+1]]
    yield (fam+'last function, knots',P,[BCTX(*A)],AND(*f2))
    yield (fam+'last function',P,[tn(Ub,x,sb,k+1,p)]+f2,F2())
    f3=[Ub[i]==U[i],Ub[i+p+1]==U[i+p],U[i]<U[i+p]]
    yield (fam+'middle functions, knots',P,[BCTX(*A),k-p+1<=i,i<=k],AND(*f3))
    yield (fam+'middle functions',P,[tn(Ub,x,sb,i,p)]+f3,F3(i))
    gc=[BCTX(*A),ins_pts(U,p,H,Hb,k,u,n-p-1)]
    ung=lambda m:[G.unfold(U,x,s,p,H,m),G.unfold(Ub,x,sb,p,Hb,m+1)]
    yield (fam+'base',P,gc+ung(I(0))+[G.unfold(Ub,x,sb,p,Hb,I(0)),F1()],gid(*A,H,Hb,I(0)))
    an=lambda m:AN(U,p,Ub,k,u,x,sb,m)
    stp=an(m)*H[m]+NB(Ub,x,sb,m+1,p)*Hb[m+1]==NB(U,x,s,m,p)*H[m]+an(m+1)*H[m+1]
    mm=gc+[0<=m,m<n-p-1,nid(*A,m,p)]
    cases=[('left',m+1<=k-p-1,[]),('at the first',m==k-p-1,[F1()]),('at the last',m==k,[F2()]),('right',m>k,[])]
    for nm,cd,hh in cases: yield (fam+'step, '+nm,P,mm+[cd]+hh,stp)
    h1=Hb[m+1]*(U[m+1+p]-U[m+1])==(u-U[m+1])*H[m+1]+(U[m+1+p]-u)*H[m]
    n1=NB(Ub,x,sb,m+1,p)==(U[m+1+p]-U[m+1])*TB(Ub,x,sb,m+1,p)
    n2=NB(U,x,s,m,p)==(u-U[m])*TB(Ub,x,sb,m,p)+(U[m+p+1]-u)*TB(Ub,x,sb,m+1,p)
    md=[k-p<=m,m<=k-1]
    yield (fam+'step, middle, facts',P,mm+md+[F3(m+1),CCP.unfold(u,U[m+1],U[m+1+p],H[m+1],H[m],Hb[m+1])],AND(h1,n1,n2))
    yield (fam+'step, middle, algebra',P,[alg_mid(U[m],U[m+1],U[m+p+1],u,H[m],H[m+1],Hb[m+1],TB(Ub,x,sb,m,p),TB(Ub,x,sb,m+1,p),NB(U,x,s,m,p),NB(Ub,x,sb,m+1,p)),h1,n1,n2]+md,stp)
    e=z3.Reals('e0 e1 e2 e3 e4 e5 e6 e7 e8 e9 e10')
    yield ('algebra of knot insertion: middle',P,[],alg_mid(*e))
    yield (fam+'step',P,mm+[IMP(c_,stp) for c_ in (m+1<=k-p-1,m==k-p-1,AND(*md),m==k,m>k)]+ung(m+1)+[gid(*A,H,Hb,m)],gid(*A,H,Hb,m+1))
    yield ('global sums: zero before the span, base',P,[m<=0,G.unfold(U,x,s,p,H,m)],g0(U,x,s,p,H,m))
    yield ('global sums: zero before the span, step',P,[m>=1,G.unfold(U,x,s,p,H,m),g0(U,x,s,p,H,m-1),support(U,x,s,m-1,p)],g0(U,x,s,p,H,m))
    yield ('global sums: span part, base',P,[g0(U,x,s,p,H,s-p),WS.unfold(U,x,s,p,H,I(0))],gl(U,x,s,p,H,I(0)))
    yield ('global sums: span part, step',P,[m>=0,G.unfold(U,x,s,p,H,s-p+m+1),WS.unfold(U,x,s,p,H,m+1),gl(U,x,s,p,H,m)],gl(U,x,s,p,H,m+1))
    yield ('global sums: constant behind the span, base',P,[],gr(U,x,s,p,H,s+1))
    yield ('global sums: constant behind the span, step',P,[m>=s+1,G.unfold(U,x,s,p,H,m+1),support(U,x,s,m,p),gr(U,x,s,p,H,m)],gr(U,x,s,p,H,m+1))
    S=span(U,n,p,x); SBn=span(Ub,n+1,p,x)
    pre=[clampa(U,n,p),clampa(Ub,n+1,p),ins_knots(U,n,p,Ub,k,u),u<1,x>=0,x<=1]
    sbn=z3.If(S<k,S,z3.If(S>k,S+1,z3.If(x<u,k,k+1)))
    yield ('knot insertion keeps the span: spans',P,pre+[span_exists(U,n,p,x),span_exists(Ub,n+1,p,x)],AND(spanp(U,n,p,x,S),spanp(Ub,n+1,p,x,SBn)))
    for nm,cd in (('left',S<k),('right',S>k),('containing, before',AND(S==k,x<u)),('containing, behind',AND(S==k,x>=u))):
        yield ('knot insertion keeps the span: '+nm,P,pre+[spanp(U,n,p,x,S),cd],spanp(Ub,n+1,p,x,sbn))
    yield ('knot insertion keeps the span: conclusion',P,[IMP(AND(*pre),AND(spanp(U,n,p,x,S),spanp(Ub,n+1,p,x,SBn),spanp(Ub,n+1,p,x,sbn))),span_unique(Ub,n+1,p,x,SBn,sbn)],sb_span(U,n,p,Ub,k,u,x))
    B=(U,n,p,Ub,k,u,x,S,SBn)
    yield ('knot insertion keeps the sums',P,[sb_span(U,n,p,Ub,k,u,x),gid(*B,H,Hb,n-p-1),gr(Ub,x,SBn,p,Hb,n-p),gr(U,x,S,p,H,n-p-1),gl(U,x,S,p,H,p+1),gl(Ub,x,SBn,p,Hb,p+1)],boehm(U,n,p,Ub,k,u,x,H,Hb))

# ---------------------------------------------------------------- curves
# products of coordinate and weight, as an array
_HM=z3.Function('homog',AR,AR,AR)
def HM(X,W): return _HM(X,W)
def hm_def(X,W):
    k=z3.Int('hm_k'); return trust(z3.ForAll([k],HM(X,W)[k]==MUL(X[k],W[k]),patterns=[HM(X,W)[k]]))
@lemma('point sums as weighted sums')
def rs_ws(U,x,s,p,X,W,m): return RSUM(U,x,s,p,X,W,m)==WS(U,x,s,p,HM(X,W),m)
# exact number of copies of v among the first m values
CE=Ghost('copies',[AR,RS,IS],IS,lambda a,v,m: z3.If(m<=0,0,CE(a,v,m-1)+z3.If(a[m-1]==v,1,0)))
@lemma('copies under knot insertion')
def ce_ins(U,n,p,Ub,k,u,v,m): return IMP(AND(ins_knots(U,n,p,Ub,k,u),0<=m,m<=n),CE(Ub,v,z3.If(m<=k,m,m+1))==CE(U,v,m)+z3.If(AND(m>k,u==v),1,0))
@lemma('copies in a constant list')
def ce_const(a,n,u,v,m): return IMP(AND(all_eq(a,I(0),n-1,u),0<=m,m<=n),CE(a,v,m)==z3.If(u==v,m,0))
from curve import all_eq
@lemma('convex combination')
def cc(u,a,b,h0,h1): return IMP(AND(a<=u,u<b),AND((((u-a)/(b-a))*h1+(1-(u-a)/(b-a))*h0)*(b-a)==(u-a)*h1+(b-u)*h0,IMP(AND(h0>0,h1>0),((u-a)/(b-a))*h1+(1-(u-a)/(b-a))*h0>0)))
_l0=lemmas
def lemmas():
    yield from _l0()
    a0,b0,h0,h1,al=z3.Reals('a0 b0 h0 h1 al')
    yield ('convex combination: factor',['C11'],[a0<=z3.Real('u'),z3.Real('u')<b0,al==(z3.Real('u')-a0)/(b0-a0)],AND(al*(b0-a0)==z3.Real('u')-a0,0<=al,al<1))
    yield ('convex combination: sum',['C11'],[IMP(AND(a0<=z3.Real('u'),z3.Real('u')<b0),AND(al*(b0-a0)==z3.Real('u')-a0,0<=al,al<1)),al==(z3.Real('u')-a0)/(b0-a0)],cc(z3.Real('u'),a0,b0,h0,h1))
    P=['C11','C12']; U,Ub,X,W,a=z3.Consts('U Ub X W a',AR); x,u,v=z3.Reals('x u v'); n,s,p,m,k=z3.Ints('n s p m k')
    yield ('point sums as weighted sums: base',P,[m<=0,RSUM.unfold(U,x,s,p,X,W,m),WS.unfold(U,x,s,p,HM(X,W),m)],rs_ws(U,x,s,p,X,W,m))
    yield ('point sums as weighted sums: step',P,[m>=1,RSUM.unfold(U,x,s,p,X,W,m),WS.unfold(U,x,s,p,HM(X,W),m),hm_def(X,W),MUL.unfold(X[s-p+m-1],W[s-p+m-1]),rs_ws(U,x,s,p,X,W,m-1)],rs_ws(U,x,s,p,X,W,m))
    c=lambda m:[CE.unfold(U,v,m),CE.unfold(Ub,v,m)]
    yield ('copies under knot insertion: base',P,c(I(0))+c(I(1)),ce_ins(U,n,p,Ub,k,u,v,I(0)))
    yield ('copies under knot insertion: step',P,[m>=0]+c(m+1)+c(m+2)+[ce_ins(U,n,p,Ub,k,u,v,m)],ce_ins(U,n,p,Ub,k,u,v,m+1))
    yield ('copies in a constant list: base',P,[CE.unfold(a,v,0)],ce_const(a,n,u,v,I(0)))
    yield ('copies in a constant list: step',P,[m>=0,CE.unfold(a,v,m+1),ce_const(a,n,u,v,m)],ce_const(a,n,u,v,m+1))
def same_sums(U,n,p,A,Ub,nb,Ab,x):
    s,sb=span(U,n,p,x),span(Ub,nb,p,x)
    return AND(WS(Ub,x,sb,p,Ab[3],p+1)==WS(U,x,s,p,A[3],p+1),*[RSUM(Ub,x,sb,p,Ab[d],Ab[3],p+1)==RSUM(U,x,s,p,A[d],A[3],p+1) for d in range(3)])
def bo(U,n,p,A,Ub,Ab,u,x):
    """instances that carry the sums over one insertion"""
    k=span(U,n,p,u); s,sb=span(U,n,p,x),span(Ub,n+1,p,x)
    return [boehm(U,n,p,Ub,k,u,x,A[3],Ab[3]),*[boehm(U,n,p,Ub,k,u,x,HM(A[d],A[3]),HM(Ab[d],Ab[3])) for d in range(3)],
        *[h for d in range(3) for h in(rs_ws(U,x,s,p,A[d],A[3],p+1),rs_ws(Ub,x,sb,p,Ab[d],Ab[3],p+1))]]
def rel_pts(U,n,p,A,Ab,u):
    """control points by the knot-insertion convex combination"""
    k=span(U,n,p,u)
    return [ins_pts(U,p,A[3],Ab[3],k,u,n-p-1),*[ins_pts(U,p,HM(A[d],A[3]),HM(Ab[d],Ab[3]),k,u,n-p-1) for d in range(3)]]
INS_PRE=lambda c,v:[('valid curve',curve_ok(c.this)),('degree',c.this.Degree>=1),('room',KV(c.this.Knots).len+1<=sym.SIZE_MAX),('inside the domain',AND(v>0,v<1))]
def _cut(c):
    """the facts about the new curve needed for the sums"""
    U,n,p,A=cv(c.this); Ub,nb,pb,Ab=cv(c.ret); u=c.knot_value; k=span(U,n,p,u)
    return [hm_def(A[d],A[3]) for d in range(3)]+[hm_def(Ab[d],Ab[3]) for d in range(3)]+[clampa(U,n,p),spanp(U,n,p,u,k),ins_knots(U,n,p,Ub,k,u),clampa(Ub,n+1,p)]+rel_pts(U,n,p,A,Ab,u)
def _ik_post(c):
    U,n,p,A=cv(c.this); Ub,nb,pb,Ab=cv(c.ret); u=c.knot_value; k=span(U,n,p,u)
    return [('same degree',pb==p),('one more knot',nb==n+1),('the knot is added in its place',ins_knots(U,n,p,Ub,k,u)),('one more control point',c.ret.ControlPoints.len==c.this.ControlPoints.len+1),
        ('weights by convex combination',rel_pts(U,n,p,A,Ab,u)[0]),*[(f'homogeneous coordinate {d} by convex combination',rel_pts(U,n,p,A,Ab,u)[1+d]) for d in range(3)],
        ('valid curve',curve_ok(c.ret)),
        ('same point at every parameter',ALL('x',lambda x:IMP(AND(x>=0,x<=1),same_sums(U,n,p,A,Ub,n+1,Ab,x)),lambda x:bo(U,n,p,A,Ub,Ab,u,x),sort=RS))]
def _ik_inv(c):
    o=c.old; U,n,p,A=cv(o.this); R=c.v('result'); Ab=R.ControlPoints.arrs; k=c.v('k'); u=o.knot_value
    return [('span',AND(p<=k,k<=n-p-2)),('shape',AND(R.Degree==p,R.ControlPoints.len==o.this.ControlPoints.len+1)),
      ('points before',FAR(I(0),k-p+1,lambda i:AND(*[Ab[d][i]==A[d][i] for d in range(4)]))),
      ('points behind',FAR(k+1,n-p,lambda i:AND(*[Ab[d][i]==A[d][i-1] for d in range(4)]))),
      ('new points so far',FAR(k-p+1,c.k,lambda i:AND(Ab[3][i]>0,CCP(u,U[i],U[i+p],A[3][i],A[3][i-1],Ab[3][i]),
            *[CCP(u,U[i],U[i+p],MUL(A[d][i],A[3][i]),MUL(A[d][i-1],A[3][i-1]),MUL(Ab[d][i],Ab[3][i])) for d in range(3)])))]
def _kspan(U,n,p,u,k): return [clampa(U,n,p),span_exists(U,n,p,u),spanp(U,n,p,u,k),span_unique(U,n,p,u,k,span(U,n,p,u)),k==span(U,n,p,u)]
def _ik_b(c):
    o=c.old; U,n,p,A=cv(o.this); u=o.knot_value; i=c.k
    return [AND(U[i]<=u,u<U[i+p]),cc(u,U[i],U[i+p],A[3][i-1],A[3][i]),AND(A[3][i]>0,A[3][i-1]>0)]
def newpt(U,p,u,h,g,A,Ab,i,last=None): return newval(u,U[i],U[i+p],h,g,[Ab[d][i] for d in range(4)],last)
def newval(u,a,b,h,g,e_,last=None):
    """the new point e_ from the old points h (index i) and g (index i-1; last: g as homogeneous coordinates held by the code); a,b: knots i and i+p"""
    al=(u-a)/(b-a); w1,w0,w=h[3],g[3],e_[3]; r=[]
    r.append(Focus(AND(w>0,CCP(u,a,b,w1,w0,w)),CCP.unfold(u,a,b,w1,w0,w),AND(a<=u,u<b),AND(w1>0,w0>0),w==al*w1+(1-al)*w0,cc(u,a,b,w0,w1)))
    for d in range(3):
        e=e_[d]; m1,m0,m=MUL(h[d],w1),MUL(g[d],w0),MUL(e,w)
        if last is None: f=[MUL.unfold(g[d],w0),e*w==al*(h[d]*w1)+(1-al)*(g[d]*w0)]
        else: f=[last[d]==m0,e*w==al*(h[d]*w1)+(1-al)*last[d]]
        r.append(Focus(m==al*m1+(1-al)*m0,MUL.unfold(h[d],w1),MUL.unfold(e,w),*f))
        r.append(Focus(CCP(u,a,b,m1,m0,m),CCP.unfold(u,a,b,m1,m0,m),AND(a<=u,u<b),m==al*m1+(1-al)*m0,cc(u,a,b,m0,m1)))
    return r
def _ik_s(c):
    o=c.old; U,n,p,A=cv(o.this); u=o.knot_value; i=z3.simplify(c.k-1); Ab=c.v('result').ControlPoints.arrs
    return newpt(U,p,u,[A[d][i] for d in range(4)],[A[d][i-1] for d in range(4)],A,Ab,i)
def _ik_x(c): o=c.old; U,n,p,A=cv(o.this); return _kspan(U,n,p,o.knot_value,c.v('k'))
con('Curve::InsertKnot(real)','knot_value',props=['C11'],requires=lambda c:INS_PRE(c,c.knot_value),ensures=_ik_post,hints=_cut,loops=[Loop(inv=_ik_inv,body_hints=_ik_b,step_hints=_ik_s,exit_hints=_ik_x)])

def copies_in(U,n,p,u,Ub,t):
    """Ub is U with t copies of u behind the span of u"""
    s=span(U,n,p,u)
    return AND(q1('ci_a',I(0),s,lambda j:Ub[j]==U[j],lambda j:[Ub[j]]),q1('ci_b',s+1,s+t,lambda j:Ub[j]==u,lambda j:[Ub[j]]),q1('ci_c',s+1+t,n+t-1,lambda j:Ub[j]==U[j-t],lambda j:[Ub[j]]))
def _rep(U,n,p,L,Ub,t): return IMP(all_eq(L.a,I(0),L.len-1,L.a[0]),copies_in(U,n,p,L.a[0],Ub,t))
def _il_inv(c):
    o=c.old; U,n,p,A=cv(o.this); R=c.v('result'); Ub,nb,pb,Ab=cv(R); L=o.knots_to_insert; H=c.head('result')
    hx=lambda x:[]; hv=lambda v:[]
    if H is not None:
        Uh,nh,ph,Ah=cv(H); m=z3.simplify(c.k-1); u=L.a[m]
        hx=lambda x:[IMP(AND(x>=0,x<=1),same_sums(U,n,p,A,Uh,nh,Ah,x))]+bo(Uh,nh,p,Ah,Ub,Ab,u,x)
        hv=lambda v:[CE(Uh,v,nh)==CE(U,v,n)+CE(L.a,v,m),CE.unfold(L.a,v,c.k),ce_ins(Uh,nh,p,Ub,span(Uh,nh,p,u),u,v,nh)]
    else: hv=lambda v:[CE.unfold(L.a,v,0)]
    return [('same degree',pb==p),('knot count',nb==n+c.k),('valid curve',curve_ok(R)),('a repeated knot is inserted in one place',_rep(U,n,p,L,Ub,c.k)),
      ('exactly the listed knots are added',ALL('v',lambda v:CE(Ub,v,nb)==CE(U,v,n)+CE(L.a,v,c.k),hv,sort=RS)),
      ('same point at every parameter',ALL('x',lambda x:IMP(AND(x>=0,x<=1),same_sums(U,n,p,A,Ub,nb,Ab,x)),hx,sort=RS))]
def _il_step(c):
    o=c.old; p=o.this.Degree; L=o.knots_to_insert; m=z3.simplify(c.k-1); u=L.a[m]
    Uh,nh,ph,Ah=cv(c.head('result')); Ub,nb,pb,Ab=cv(c.v('result')); k=span(Uh,nh,p,u)
    return [hm_def(Ah[d],Ah[3]) for d in range(3)]+[hm_def(Ab[d],Ab[3]) for d in range(3)]+[clampa(Uh,nh,p),spanp(Uh,nh,p,u,k),ins_knots(Uh,nh,p,Ub,k,u),clampa(Ub,nh+1,p)]+rel_pts(Uh,nh,p,Ah,Ab,u)[:1]+[mul_pts(Uh,nh,p,Ah,Ab,u,d) for d in range(3)]+_rep_step(c,m,u,Uh,nh,p,Ub)
def _rep_step(c,m,u,Uh,nh,p,Ub):
    U,n,_,_=cv(c.old.this); L=c.old.knots_to_insert; s=span(U,n,p,u); eq=all_eq(L.a,I(0),L.len-1,L.a[0])
    h=spanp(Uh,nh,p,u,s+m)
    return [u==L.a[m],IMP(eq,u==L.a[0]),clampa(U,n,p),span_exists(U,n,p,u),Focus(IMP(eq,h),_rep(U,n,p,L,Uh,m),IMP(eq,u==L.a[0]),clampa(U,n,p),clampa(Uh,nh,p),span_exists(U,n,p,u),nh==n+m,m>=0,AND(u>=0,u<1)),span_unique(Uh,nh,p,u,s+m,span(Uh,nh,p,u)),IMP(eq,span(Uh,nh,p,u)==s+m),
        Focus(_rep(U,n,p,L,Ub,m+1),_rep(U,n,p,L,Uh,m),IMP(eq,u==L.a[0]),IMP(eq,span(Uh,nh,p,u)==s+m),ins_knots(Uh,nh,p,Ub,span(Uh,nh,p,u),u),nh==n+m,m>=0,spanp(U,n,p,u,s))]
def mul_pts(U,n,p,A,Ab,u,d):
    """the combination of coordinate d, stated on the products, and from it the one on the product arrays"""
    k=span(U,n,p,u); X,W,Xb,Wb=A[d],A[3],Ab[d],Ab[3]
    f=[q1('mp_a',I(0),k-p,lambda i:AND(Xb[i]==X[i],Wb[i]==W[i]),lambda i:[Xb[i]]),
       q1('mp_b',k-p+1,k,lambda i:CCP(u,U[i],U[i+p],MUL(X[i],W[i]),MUL(X[i-1],W[i-1]),MUL(Xb[i],Wb[i])),lambda i:[Xb[i]]),
       q1('mp_c',k+1,n-p-1,lambda i:AND(Xb[i]==X[i-1],Wb[i]==W[i-1]),lambda i:[Xb[i]])]
    return Focus(ins_pts(U,p,HM(X,W),HM(Xb,Wb),k,u,n-p-1),hm_def(X,W),hm_def(Xb,Wb),*f)
def _ii_inv(c):
    o=c.old; p=o.this.Degree; k=c.v('k'); u=c.v('knot_value'); R0=c.pre('result'); R=c.v('result')
    U,n,_,A=cv(R0); Ab=R.ControlPoints.arrs; pl=c.v('point_last'); same=lambda i:AND(*[Ab[d][i]==A[d][i] for d in range(4)])
    return [('span',AND(p<=k,k<=n-p-2)),('shape',AND(R.Degree==p,R.ControlPoints.len==R0.ControlPoints.len)),
      ('points before',FAR(I(0),k-p+1,same)),('points to come and behind',FAR(c.k,R0.ControlPoints.len,same)),
      ('last point',AND(*[pl[d]==MUL(A[d][c.k-1],A[3][c.k-1]) for d in range(3)],pl[3]==A[3][c.k-1])),
      ('new points so far',FAR(k-p+1,c.k,lambda i:AND(Ab[3][i]>0,CCP(u,U[i],U[i+p],A[3][i],A[3][i-1],Ab[3][i]),
            *[CCP(u,U[i],U[i+p],MUL(A[d][i],A[3][i]),MUL(A[d][i-1],A[3][i-1]),MUL(Ab[d][i],Ab[3][i])) for d in range(3)])))]
def _ii_args(c):
    o=c.old; p=o.this.Degree; u=c.v('knot_value'); U,n,_,A=cv(c.pre('result')); return U,n,p,A,u
def _ii_b(c):
    U,n,p,A,u=_ii_args(c); i=c.k
    return [AND(U[i]<=u,u<U[i+p]),cc(u,U[i],U[i+p],A[3][i-1],A[3][i]),AND(A[3][i]>0,A[3][i-1]>0),*[MUL.unfold(A[d][e],A[3][e]) for d in range(3) for e in(i,i-1)],
        AND(*[c.v('result').ControlPoints.arrs[d][i]==A[d][i] for d in range(4)])]
def _ii_s(c):
    U,n,p,A,u=_ii_args(c); i=z3.simplify(c.k-1); Ab=c.v('result').ControlPoints.arrs
    return newpt(U,p,u,[A[d][i] for d in range(4)],[A[d][i-1] for d in range(4)],A,Ab,i,c.head('point_last'))
def _il_post(c):
    U,n,p,A=cv(c.this); Ub,nb,pb,Ab=cv(c.ret); L=c.knots_to_insert
    return [('a repeated knot is inserted in one place',_rep(U,n,p,L,Ub,L.len)),('same degree',pb==p),('knot count',nb==n+L.len),('valid curve',curve_ok(c.ret)),('one more control point per knot',c.ret.ControlPoints.len==c.this.ControlPoints.len+L.len),
      ('exactly the listed knots are added',ALL('v',lambda v:CE(Ub,v,nb)==CE(U,v,n)+CE(L.a,v,L.len),lambda v:[],sort=RS)),
      ('same point at every parameter',ALL('x',lambda x:IMP(AND(x>=0,x<=1),same_sums(U,n,p,A,Ub,nb,Ab,x)),lambda x:[],sort=RS))]
def inside(L,n):
    k=z3.Int('ins_k'); return z3.ForAll([k],IMP(AND(0<=k,k<n),AND(L[k]>0,L[k]<1)),patterns=[L[k]])
con('Curve::InsertKnot(vec<real>)','knots_to_insert',props=['C11'],requires=lambda c:[('valid curve',curve_ok(c.this)),('degree',c.this.Degree>=1),('room',KV(c.this.Knots).len+c.knots_to_insert.len<=sym.SIZE_MAX),('inside the domain',inside(c.knots_to_insert.a,c.knots_to_insert.len))],
    ensures=_il_post,loops=[Loop(inv=_il_inv,step_hints=_il_step),Loop(inv=_ii_inv,body_hints=_ii_b,step_hints=_ii_s,hints=lambda c:(lambda U,n,p,A,u:[MUL.unfold(A[d][c.k-1],A[3][c.k-1]) for d in range(3)])(*_ii_args(c)))])
def _it_post(c):
    U,n,p,A=cv(c.this); Ub,nb,pb,Ab=cv(c.ret)
    return [('the copies are added in one place',IMP(c.times>=1,copies_in(U,n,p,c.knot_value,Ub,c.times))),('same degree',pb==p),('knot count',nb==n+c.times),('valid curve',curve_ok(c.ret)),('one more control point per knot',c.ret.ControlPoints.len==c.this.ControlPoints.len+c.times),
      ('exactly that many copies are added',ALL('v',lambda v:CE(Ub,v,nb)==CE(U,v,n)+z3.If(v==c.knot_value,c.times,0),lambda v:[ce_const(z3.K(IS,c.knot_value),c.times,c.knot_value,v,c.times)],sort=RS)),
      ('same point at every parameter',ALL('x',lambda x:IMP(AND(x>=0,x<=1),same_sums(U,n,p,A,Ub,nb,Ab,x)),lambda x:[],sort=RS))]
con('Curve::InsertKnot(real,int)','knot_value times',props=['C11'],requires=lambda c:[('valid curve',curve_ok(c.this)),('degree',c.this.Degree>=1),('times',c.times>=0),('room',KV(c.this.Knots).len+c.times<=sym.SIZE_MAX),('inside the domain',AND(c.knot_value>0,c.knot_value<1))],ensures=_it_post)
