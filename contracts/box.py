"""Contracts: bounding box of a curve by de Casteljau subdivision (C21)"""
from spec import *
from program import Contract as C
from exec import Loop
import sym
from knots import clampa, KV, span, spanp, span_exists, SPAN
from basis import NB,TB,support,spanctx
from curve import WS,RSUM,curve_ok,cv,all_eq,wpos,ws_pos
from basis import unity
from grid import mono,in_range,distinct,noninv
from bezier import EV,RUN,run_ok,piece_shape,piece_span,mult_ok
out=[]
def con(*a,**k): out.append(C(*a,**k))
HF=z3.Q(1,2)
# de Casteljau: CJ(A,s,r,t) is the value at t of the polynomial with the Bezier coefficients A[s..s+r]
CJ=Ghost('casteljau',[AR,IS,IS,RS],RS,lambda A,s,r,t: z3.If(r<=0,A[s],(1-t)*CJ(A,s,r-1,t)+t*CJ(A,s+1,r-1,t)))
# CQ(A,s,i,r,t): r steps at t after i midpoint steps
CQ=Ghost('casteljau_of_midpoints',[AR,IS,IS,IS,RS],RS,lambda A,s,i,r,t: z3.If(r<=0,CJ(A,s,i,HF),(1-t)*CQ(A,s,i,r-1,t)+t*CQ(A,s+1,i,r-1,t)))
@lemma('midpoint steps commute')
def q_mid(A,s,i,r,t): return IMP(AND(r>=0,i>=0),CQ(A,s,i+1,r,t)==HF*CQ(A,s,i,r,t)+HF*CQ(A,s+1,i,r,t))
@lemma('no midpoint steps')
def q_none(A,s,r,t): return IMP(r>=0,CQ(A,s,I(0),r,t)==CJ(A,s,r,t))
def leftof(A,L,p):
    k=z3.Int('lo_k'); return z3.ForAll([k],IMP(AND(0<=k,k<=p),L[k]==CJ(A,0,k,HF)),patterns=[L[k]])
def rightof(A,R,p):
    k=z3.Int('ro_k'); return z3.ForAll([k],IMP(AND(0<=k,k<=p),R[k]==CJ(A,k,p-k,HF)),patterns=[R[k]])
@lemma('first half')
def dl(A,L,p,i,r,t): return IMP(AND(leftof(A,L,p),r>=0,i>=0,i+r<=p),CJ(L,i,r,t)==CQ(A,I(0),i,r,t/2))
@lemma('second half')
def dr(A,R,p,i,r,t): return IMP(AND(rightof(A,R,p),r>=0,i>=0,i+r<=p),CJ(R,i,r,t)==CQ(A,i,p-i-r,r,(1+t)/2))
@lemma('halves of a polynomial')
def halves(A,L,R,p,t): return IMP(AND(p>=0,leftof(A,L,p),rightof(A,R,p)),AND(CJ(L,0,p,t)==CJ(A,0,p,t/2),CJ(R,0,p,t)==CJ(A,0,p,(1+t)/2)))
def poscoef(W,p):
    k=z3.Int('pf_k'); return z3.ForAll([k],IMP(AND(0<=k,k<=p),W[k]>0),patterns=[W[k]])
def between(X,W,lo,hi,p):
    k=z3.Int('bw_k'); return z3.ForAll([k],IMP(AND(0<=k,k<=p),AND(lo*W[k]<=X[k],X[k]<=hi*W[k])),patterns=[X[k]])
@lemma('positive coefficients')
def cj_pos(W,p,s,r,t): return IMP(AND(poscoef(W,p),0<=t,t<=1,r>=0,s>=0,s+r<=p),CJ(W,s,r,t)>0)
@lemma('values between the coefficients')
def cj_hull(X,W,lo,hi,p,s,r,t): return IMP(AND(between(X,W,lo,hi,p),0<=t,t<=1,r>=0,s>=0,s+r<=p),AND(lo*CJ(W,s,r,t)<=CJ(X,s,r,t),CJ(X,s,r,t)<=hi*CJ(W,s,r,t)))
@lemma('end values')
def cj_end(A,s,r): return IMP(r>=0,AND(CJ(A,s,r,R0)==A[s],CJ(A,s,r,R1)==A[s+r]))
@lemma('convex step')
def cvx(t,lo,w0,w1,x0,x1): return IMP(AND(0<=t,t<=1,lo*w0<=x0,lo*w1<=x1),lo*((1-t)*w0+t*w1)<=(1-t)*x0+t*x1)
@lemma('quotient comparison')
def quo(x,w,b): return IMP(w>0,AND((b<=x/w)==(b*w<=x),(x/w<=b)==(x<=b*w)))
# the basis functions of a single span and de Casteljau's algorithm
def single(K,p): return AND(p>=1,all_eq(K,I(0),p,R0),all_eq(K,p+1,2*p+1,R1))
@lemma('recurrence on a single span')
def nbk(K,y,p,i,q): return IMP(AND(single(K,p),1<=q,q<=p,p-q<=i,i<=p),NB(K,y,p,i,q)==y*NB(K,y,p,i,q-1)+(1-y)*NB(K,y,p,i+1,q-1))
CS=Ghost('casteljau_sum',[AR,RS,IS,AR,IS,IS,IS],RS,lambda K,y,p,A,q,r,m: z3.If(m<=0,R0,CS(K,y,p,A,q,r,m-1)+NB(K,y,p,p-q+m-1,q)*CJ(A,m-1,r,y)))
@lemma('one step of the sums')
def cs_step(K,y,p,A,q,m): return IMP(AND(single(K,p),1<=q,q<=p,0<=m,m<=q),CS(K,y,p,A,q,p-q,m+1)==CS(K,y,p,A,q-1,p-q+1,m)+(1-y)*NB(K,y,p,p-q+m+1,q-1)*CJ(A,m,p-q,y))
@lemma('sums of a single span by de Casteljau')
def cs_all(K,y,p,A,q): return IMP(AND(single(K,p),0<=q,q<=p),CS(K,y,p,A,q,p-q,q+1)==CJ(A,0,p,y))
@lemma('weight sum of a single span')
def cs_ws(K,y,p,A,m): return IMP(AND(p>=0,0<=m,m<=p+1),CS(K,y,p,A,p,I(0),m)==WS(K,y,p,p,A,m))
def homo(X,W,H,p):
    k=z3.Int('hm_k'); return z3.ForAll([k],IMP(AND(0<=k,k<=p),H[k]==X[k]*W[k]),patterns=[H[k]])
@lemma('point sum of a single span')
def cs_rs(K,y,p,X,W,H,m): return IMP(AND(homo(X,W,H,p),0<=m,m<=p+1),RSUM(K,y,p,p,X,W,m)==WS(K,y,p,p,H,m))
@lemma('value of a single span')
def single_ws(K,y,p,A): return IMP(single(K,p),WS(K,y,p,p,A,p+1)==CJ(A,0,p,y))
# the piece that holds a parameter
PC=Ghost('piece_of',[AR,IS,RS,IS],IS,lambda U,n,x,i: z3.If(OR(i<=0,EV(U,n,i)<=x),i,PC(U,n,x,i-1)))
@lemma('piece that holds a parameter')
def pc_ok(U,n,x,i): return IMP(AND(i>=0,EV(U,n,I(0))<=x,x<=EV(U,n,i+1)),(lambda k:AND(0<=k,k<=i,EV(U,n,k)<=x,x<=EV(U,n,k+1)))(PC(U,n,x,i)))
# some entry of the stack passes through the target point at some parameter (a choice function names the parameter)
NAR=z3.ArraySort(IS,AR)
TW=z3.Function('parameter_of',AR,AR,AR,AR,IS,RS,RS,RS,RS,RS)
def at(A,p,T,t): return AND(0<=t,t<=1,*[CJ(A[d],0,p,t)==T[d] for d in range(4)])
def hit(A,p,T): return at(A,p,T,TW(*A,p,*T))
def choose(A,p,T,t):
    """definition of the choice function: if some t in [0,1] hits the target, TW is such a t"""
    return trust(IMP(at(A,p,T,t),hit(A,p,T)))
SH=Ghost('stack_hits',[NAR]*4+[IS]+[RS]*4+[IS],z3.BoolSort(),lambda A,B,C_,D,p,t0,t1,t2,t3,n: z3.If(n<=0,z3.BoolVal(False),OR(hit((A[n-1],B[n-1],C_[n-1],D[n-1]),p,(t0,t1,t2,t3)),SH(A,B,C_,D,p,t0,t1,t2,t3,n-1))))
def agree(S,Z,n):
    k=z3.Int('ag_k'); return z3.ForAll([k],IMP(AND(0<=k,k<n),AND(*[a[k]==b[k] for a,b in zip(S,Z)])),patterns=[Z[0][k]])
@lemma('hits of equal stacks')
def sh_eq(A,B,C_,D,E,F,G,H,p,t0,t1,t2,t3,n): return IMP(agree((A,B,C_,D),(E,F,G,H),n),SH(A,B,C_,D,p,t0,t1,t2,t3,n)==SH(E,F,G,H,p,t0,t1,t2,t3,n))
def lemmas():
    P=['C21']; A,L,R_,X,W,K,U,H=z3.Consts('A L R X W K U H',AR); s,i,r,p,q,m,n=z3.Ints('s i r p q m n'); t,lo,hi,y,x=z3.Reals('t lo hi y x')
    cq=lambda s,i,r,t:CQ.unfold(A,s,i,r,t)
    yield ('midpoint steps commute: base',P,[cq(s,i+1,I(0),t),cq(s,i,I(0),t),cq(s+1,i,I(0),t),CJ.unfold(A,s,i+1,HF)],q_mid(A,s,i,I(0),t))
    yield ('midpoint steps commute: step',P,[r>=1,cq(s,i+1,r,t),cq(s,i,r,t),cq(s+1,i,r,t),q_mid(A,s,i,r-1,t),q_mid(A,s+1,i,r-1,t)],q_mid(A,s,i,r,t))
    yield ('no midpoint steps: base',P,[cq(s,I(0),I(0),t),CJ.unfold(A,s,0,HF),CJ.unfold(A,s,0,t)],q_none(A,s,I(0),t))
    yield ('no midpoint steps: step',P,[r>=1,cq(s,I(0),r,t),CJ.unfold(A,s,r,t),q_none(A,s,r-1,t),q_none(A,s+1,r-1,t)],q_none(A,s,r,t))
    yield ('first half: base',P,[CJ.unfold(L,i,0,t),cq(I(0),i,I(0),t/2)],dl(A,L,p,i,I(0),t))
    yield ('first half: step',P,[r>=1,CJ.unfold(L,i,r,t),cq(I(0),i,r,t/2),dl(A,L,p,i,r-1,t),dl(A,L,p,i+1,r-1,t),q_mid(A,I(0),i,r-1,t/2)],dl(A,L,p,i,r,t))
    T=(1+t)/2
    yield ('second half: base',P,[CJ.unfold(R_,i,0,t),cq(i,p-i,I(0),T)],dr(A,R_,p,i,I(0),t))
    yield ('second half: step',P,[r>=1,CJ.unfold(R_,i,r,t),cq(i,p-i-r,r,T),dr(A,R_,p,i,r-1,t),dr(A,R_,p,i+1,r-1,t),q_mid(A,i,p-i-r,r-1,T)],dr(A,R_,p,i,r,t))
    yield ('halves of a polynomial',P,[dl(A,L,p,I(0),p,t),dr(A,R_,p,I(0),p,t),q_none(A,I(0),p,t/2),q_none(A,I(0),p,T)],halves(A,L,R_,p,t))
    cj=lambda A,s,r:CJ.unfold(A,s,r,t)
    yield ('positive coefficients: base',P,[cj(W,s,I(0))],cj_pos(W,p,s,I(0),t))
    a,b=z3.Reals('a b')
    pp=lambda t,a,b:IMP(AND(0<=t,t<=1,a>0,b>0),(1-t)*a+t*b>0)
    yield ('positive coefficients: convex',P,[],pp(t,a,b))
    yield ('positive coefficients: step',P,[r>=1,cj(W,s,r),cj_pos(W,p,s,r-1,t),cj_pos(W,p,s+1,r-1,t),pp(t,CJ(W,s,r-1,t),CJ(W,s+1,r-1,t))],cj_pos(W,p,s,r,t))
    yield ('values between the coefficients: base',P,[cj(W,s,I(0)),cj(X,s,I(0))],cj_hull(X,W,lo,hi,p,s,I(0),t))
    w0,w1,x0,x1=CJ(W,s,r-1,t),CJ(W,s+1,r-1,t),CJ(X,s,r-1,t),CJ(X,s+1,r-1,t)
    yield ('values between the coefficients: step',P,[r>=1,cj(W,s,r),cj(X,s,r),cj_hull(X,W,lo,hi,p,s,r-1,t),cj_hull(X,W,lo,hi,p,s+1,r-1,t),cvx(t,lo,w0,w1,x0,x1),cvx(t,-hi,w0,w1,-x0,-x1)],cj_hull(X,W,lo,hi,p,s,r,t))
    e=z3.Reals('e0 e1 e2 e3 e4 e5'); mm=lambda t,a,b:IMP(AND(t>=0,a<=b),t*a<=t*b)
    yield ('convex step: product',P,[],mm(t,a,b))
    yield ('convex step',P,[mm(e[0],e[1]*e[3],e[5]),mm(1-e[0],e[1]*e[2],e[4])],cvx(*e))
    yield ('end values: base',P,[CJ.unfold(A,s,0,R0),CJ.unfold(A,s,0,R1)],cj_end(A,s,I(0)))
    yield ('end values: step',P,[r>=1,CJ.unfold(A,s,r,R0),CJ.unfold(A,s,r,R1),cj_end(A,s,r-1),cj_end(A,s+1,r-1)],cj_end(A,s,r))
    yield ('quotient comparison: quotient',P,[],IMP(b>0,(a/b)*b==a))
    mi=lambda a,b,w:IMP(w>0,(a<=b)==(a*w<=b*w))
    yield ('quotient comparison: product',P,[],mi(a,b,x))
    yield ('quotient comparison',P,[IMP(x>0,(a/x)*x==a),mi(b,a/x,x),mi(a/x,b,x)],quo(a,x,b))
    # single span
    un=lambda i,q:[NB.unfold(K,y,p,i,q),TB.unfold(K,y,p,i,q)]
    kn=AND(IMP(i>=p-q+1,AND(K[i]==0,K[i+q]==1)),IMP(i<p,AND(K[i+1]==0,K[i+q+1]==1)),K[i]==0,K[i+q+1]==1)
    c1=[single(K,p),1<=q,q<=p,p-q<=i,i<=p]
    yield ('recurrence on a single span: knots',P,c1,kn)
    yield ('recurrence on a single span',P,[kn,1<=q,q<=p,p-q<=i,i<=p,NB.unfold(K,y,p,i,q),TB.unfold(K,y,p,i,q-1),TB.unfold(K,y,p,i+1,q-1),support(K,y,p,i,q-1),support(K,y,p,i+1,q-1)],nbk(K,y,p,i,q))
    cs=lambda q,r,m:CS.unfold(K,y,p,A,q,r,m)
    N=lambda i,q:NB(K,y,p,i,q)
    yield ('one step of the sums: base',P,[cs(q,p-q,I(1)),cs(q,p-q,I(0)),cs(q-1,p-q+1,I(0)),nbk(K,y,p,p-q,q),support(K,y,p,p-q,q-1)],cs_step(K,y,p,A,q,I(0)))
    al=lambda n0,n1,y,d0,d1:n0*((1-y)*d0+y*d1)+(1-y)*n1*d1-(1-y)*n0*d0==(y*n0+(1-y)*n1)*d1
    yield ('one step of the sums: algebra',P,[],al(e[0],e[1],y,e[2],e[3]))
    yield ('one step of the sums: step',P,[m>=0,m+1<=q,cs(q,p-q,m+2),cs(q-1,p-q+1,m+1),cs_step(K,y,p,A,q,m),nbk(K,y,p,p-q+m+1,q),CJ.unfold(A,m,p-q+1,y),al(N(p-q+m+1,q-1),N(p-q+m+2,q-1),y,CJ(A,m,p-q,y),CJ(A,m+1,p-q,y))],cs_step(K,y,p,A,q,m+1))
    yield ('sums of a single span by de Casteljau: base',P,[cs(I(0),p,I(1)),cs(I(0),p,I(0)),NB.unfold(K,y,p,p,0)],cs_all(K,y,p,A,I(0)))
    yield ('sums of a single span by de Casteljau: step',P,[q>=1,cs_all(K,y,p,A,q-1),cs_step(K,y,p,A,q,q),support(K,y,p,p+1,q-1)],cs_all(K,y,p,A,q))
    yield ('weight sum of a single span: base',P,[cs(p,I(0),I(0)),WS.unfold(K,y,p,p,A,0)],cs_ws(K,y,p,A,I(0)))
    yield ('weight sum of a single span: step',P,[m>=0,cs(p,I(0),m+1),WS.unfold(K,y,p,p,A,m+1),CJ.unfold(A,m,0,y),cs_ws(K,y,p,A,m)],cs_ws(K,y,p,A,m+1))
    rs=lambda m:[RSUM.unfold(K,y,p,p,X,W,m),WS.unfold(K,y,p,p,H,m)]
    yield ('point sum of a single span: base',P,rs(I(0)),cs_rs(K,y,p,X,W,H,I(0)))
    yield ('point sum of a single span: step',P,[m>=0]+rs(m+1)+[cs_rs(K,y,p,X,W,H,m)],cs_rs(K,y,p,X,W,H,m+1))
    yield ('value of a single span',P,[cs_all(K,y,p,A,p),cs_ws(K,y,p,A,p+1)],single_ws(K,y,p,A))
    yield ('piece that holds a parameter: base',P,[PC.unfold(U,n,x,0)],pc_ok(U,n,x,I(0)))
    yield ('piece that holds a parameter: step',P,[i>=1,PC.unfold(U,n,x,i),pc_ok(U,n,x,i-1)],pc_ok(U,n,x,i))
    S=[z3.Const(f'S{k}',NAR) for k in range(8)]; tt=z3.Reals('t0 t1 t2 t3')
    sh=lambda n:[SH.unfold(*S[:4],p,*tt,n),SH.unfold(*S[4:],p,*tt,n)]
    yield ('hits of equal stacks: base',P,[n<=0]+sh(n),sh_eq(*S,p,*tt,n))
    yield ('hits of equal stacks: step',P,[n>=1]+sh(n)+[sh_eq(*S,p,*tt,n-1)],sh_eq(*S,p,*tt,n))
# ---------------------------------------------------------------- bounding box of a curve
LB=[z3.Real(f'bb_lb{d}') for d in range(3)]; UB=[z3.Real(f'bb_ub{d}') for d in range(3)]     # an arbitrary box
X0=z3.Real('bb_x')                                                                             # an arbitrary parameter
def inbox(X,w): return AND(*[AND(LB[d]*w<=X[d],X[d]<=UB[d]*w) for d in range(3)])
def sums(U,n,p,A,x): s=span(U,n,p,x); return [RSUM(U,x,s,p,A[d],A[3],p+1) for d in range(3)]+[WS(U,x,s,p,A[3],p+1)]
def bounded(U,n,p,A):
    """the whole curve lies in the box"""
    x=z3.Real('bd_x'); return ALLP([x],lambda x:IMP(AND(x>=0,x<=1),(lambda T:inbox(T,T[3]))(sums(U,n,p,A,x))),[span(U,n,p,x)])
def tol(eps): return z3.If(eps>=EPS6,eps,EPS6)
def near(B,T,eps): return AND(*[AND(B.Min[d]-tol(eps)<=T[d]/T[3],T[d]/T[3]<=B.Max[d]+tol(eps)) for d in range(3)])
def within(B): return AND(*[AND(LB[d]<=B.Min[d],B.Max[d]<=UB[d]) for d in range(3)])
def _bb_post(c):
    U,n,p,A=cv(c.this); T=sums(U,n,p,A,X0)
    return [('every point of the curve lies within the tolerance of the box',IMP(AND(X0>=0,X0<=1),AND(T[3]>0,near(c.ret,T,c.epsilon)))),
      ('the box does not extend beyond any box that holds the curve',IMP(bounded(U,n,p,A),within(c.ret)))]

BD=z3.Bool('bb_bounded')
XIN=AND(X0>=0,X0<=1)
def fn(c):
    U,n,p,A=cv(c.old.this); return U,n,p,A,sums(U,n,p,A,X0)
def seg0(c): return c.ex.bb_seg0
def segi(c): return c._lv('seg').path[-1][1]
def target(c): U,n,p,A,T=fn(c); return PC(U,n,X0,seg0(c).len-1)
def state_inv(c,i,more):
    """what the box is known to cover before piece i (more: the target of piece i may still be on the stack)"""
    U,n,p,A,T=fn(c); B=c.v('globalBox'); on_=c.v('initialized')
    return [('box is not inverted',IMP(on_,AND(*[B.Min[d]<=B.Max[d] for d in range(3)]))),('box within every box of the curve',IMP(AND(on_,BD),within(B))),
      ('covers the target',IMP(AND(XIN,target(c)<i),AND(on_,near(B,T,c.old.epsilon)))),*more]
def rest_eq(S,Z,i):
    """the pieces from i on are as extracted"""
    j=z3.Int('rp_j'); return ALLP([j],lambda j:IMP(AND(i<=j,j<Z.len),AND(*[a[j]==z[j] for a,z in zip(S.arrs,Z.arrs)])),[Z.at(j).ControlPoints.arrs[0]])
def _bb_o(c):
    c.ex.bb_seg0=Z=c.pre('segments'); S=c.v('segments')
    return [('started',IMP(c.k>=1,c.v('initialized'))),('remaining pieces',rest_eq(S,Z,c.k))]+state_inv(c,c.k,[])
def same_q(c,Z):
    U,n,p,A=cv(c.old.this); i,y=z3.Int('sm_i'),z3.Real('sm_y')
    def f(i,y):
        K,nk,_,B=cv(Z.at(i)); x=EV(U,n,i)+y*(EV(U,n,i+1)-EV(U,n,i))
        return IMP(AND(0<=i,i<Z.len,y>=0,y<=1),AND(*[a==b for a,b in zip(sums(K,nk,p,B,y),sums(U,n,p,A,x))]))
    return ALLP([i,y],f,[],lambda i,y:[])
def runs_q(c,Z):
    U,n,p,A=cv(c.old.this); i=z3.Int('rq_i'); return ALLP([i],lambda i:IMP(AND(0<=i,i<Z.len),AND(run_ok(U,n,p,i),EV(U,n,i)>=0,EV(U,n,i+1)<=1)),[EV(U,n,i)],lambda i:[])
def shape_q(c,Z):
    p=c.old.this.Degree; i=z3.Int('sq_i')
    return ALLP([i],lambda i:IMP(AND(0<=i,i<Z.len),AND(piece_shape(Z.at(i),p),poscoef(Z.at(i).ControlPoints.arrs[3],p))),[Z.at(i).ControlPoints.arrs[0]],lambda i:[])
def _bb_oh(c):
    U,n,p,A,T=fn(c); Z=c.pre('segments'); m=Z.len; s=span(U,n,p,X0); i0=PC(U,n,X0,m-1)
    return [trust(BD==bounded(U,n,p,A)),clampa(U,n,p),p>=1,span_exists(U,n,p,X0),wpos(A[3],n-p-1),IMP(XIN,spanctx(U,n,p,s,X0)),ws_pos(U,n,X0,s,p,A[3],p+1),unity(U,n,X0,s,p,p),IMP(XIN,T[3]>0),
       AND(m>=1,EV(U,n,I(0))==0,EV(U,n,m)==1),pc_ok(U,n,X0,m-1),IMP(XIN,AND(0<=i0,i0<m,EV(U,n,i0)<=X0,X0<=EV(U,n,i0+1))),runs_q(c,Z),shape_q(c,Z),same_q(c,Z)]
def Y0(U,n,i): return (X0-EV(U,n,i))/(EV(U,n,i+1)-EV(U,n,i))
@lemma('local parameter')
def locp(x,a,b): return IMP(AND(a<b,a<=x,x<=b),(lambda y:AND(0<=y,y<=1,a+y*(b-a)==x))((x-a)/(b-a)))
@lemma('parameter of a piece')
def glop(y,a,b): return IMP(AND(0<=a,a<b,b<=1,0<=y,y<=1),AND(a+y*(b-a)>=0,a+y*(b-a)<=1))
_l0=lemmas
def lemmas():
    yield from _l0()
    P=['C21']; x,a,b,y,w=z3.Reals('x a b y w')
    yield ('local parameter: quotient',P,[],IMP(w>0,(x/w)*w==x))
    yield ('local parameter: range',P,[],IMP(AND(w>0,0<=x,x<=w),AND(x/w>=0,x/w<=1)))
    yield ('local parameter: conclusion',P,[IMP(b-a>0,((x-a)/(b-a))*(b-a)==x-a),IMP(AND(b-a>0,0<=x-a,x-a<=b-a),AND((x-a)/(b-a)>=0,(x-a)/(b-a)<=1))],locp(x,a,b))
    yield ('parameter of a piece: product',P,[],IMP(AND(0<=y,y<=1,w>0),AND(y*w>=0,y*w<=w)))
    yield ('parameter of a piece: conclusion',P,[IMP(AND(0<=y,y<=1,b-a>0),AND(y*(b-a)>=0,y*(b-a)<=b-a))],glop(y,a,b))
def _bb_ob(c):
    U,n,p,A,T=fn(c); Z=seg0(c); i=c.k; S=c.v('segments'); e=rest_eq(S,Z,i)
    return [inst(e,i),inst(runs_q(c,Z),i),inst(shape_q(c,Z),i),p>=1,piece_shape(Z.at(i),p),poscoef(Z.at(i).ControlPoints.arrs[3],p),S.at(i).ControlPoints.len==p+1,AND(*[S.at(i).ControlPoints.arrs[d]==Z.at(i).ControlPoints.arrs[d] for d in range(4)])]
def _bb_os(c):
    S,Z,H=c.v('segments'),seg0(c),c.head('segments'); return []
# homogeneous coordinates of one piece
def _bb_h1(c):
    S,Q=c.v('segments'),c.pre('segments'); i=segi(c); P,O=S.at(i).ControlPoints,Q.at(i).ControlPoints; j=z3.Int('hp_j'); k=c.k
    q=lambda d:z3.ForAll([j],IMP(AND(0<=j,j<O.len),P.arrs[d][j]==(z3.If(j<k,O.arrs[d][j]*O.arrs[3][j],O.arrs[d][j]) if d<3 else O.arrs[d][j])),patterns=[P.arrs[d][j]])
    oth=ALLP([j],lambda j:IMP(AND(0<=j,j<Q.len,j!=i),AND(*[a[j]==z[j] for a,z in zip(S.arrs,Q.arrs)])),[Q.at(j).ControlPoints.arrs[0]])
    return [('count',P.len==O.len)]+[(f'converted so far, coordinate {d}',q(d)) for d in range(4)]+[('other pieces',oth)]
# ---- the stack of polygons
def SA(c,st=None): V=c.v('stack') if st is None else st; return V.arrs[0],V.arrs[1:],V.len
def lens_q(c,V):
    L,S,n=SA(c,V); p=c.old.this.Degree; k=z3.Int('ln_k'); return ALLP([k],lambda k:IMP(AND(0<=k,k<n),L[k]==p+1),[L[k]])
def pos_q(c,V,hints=None):
    L,S,n=SA(c,V); p=c.old.this.Degree; k,j=z3.Ints('ps_k ps_j'); return ALLP([k,j],lambda k,j:IMP(AND(0<=k,k<n,0<=j,j<=p),S[3][k][j]>0),[S[3][k][j]],hints)
def sub_q(c,V,hints=None):
    L,S,n=SA(c,V); p=c.old.this.Degree; k=z3.Int('sb_k'); t=z3.Real('sb_t')
    return ALLP([k,t],lambda k,t:IMP(AND(BD,0<=k,k<n,0<=t,t<=1),inbox([CJ(S[d][k],0,p,t) for d in range(3)],CJ(S[3][k],0,p,t))),[CJ(S[3][k],0,p,t)],hints)
def _bb_w(c):
    U,n,p,A,T=fn(c); V=c.v('stack'); L,S,N=SA(c,V); i=segi(c); i0=target(c); B=c.v('globalBox'); on_=c.v('initialized'); Z=seg0(c)
    init=c.head('stack') is None
    return [('polygon sizes',lens_q(c,V)),('positive weights',pos_q(c,V,_pos_h(c))),('polygons of the curve',sub_q(c,V,_sub_h(c))),('started or something to do',OR(on_,N>=1))]+state_inv(c,i,[
       ('target covered or still to come',IMP(AND(XIN,i0==i),OR(SH(*S,p,*T,N),AND(on_,near(B,T,c.old.epsilon)))))])
def link(c,i,y,H):
    """the homogeneous polygon H of piece i takes the sums of the curve at the global parameter"""
    U,n,p,A=cv(c.old.this); Z=seg0(c); K,nk,_,B=cv(Z.at(i)); x=EV(U,n,i)+y*(EV(U,n,i+1)-EV(U,n,i)); yr=AND(y>=0,y<=1); hm=[homo(B[d],B[3],H[d],p) for d in range(3)]; w=H[3]
    sp=IMP(yr,span(K,nk,p,y)==p); T=sums(U,n,p,A,x); cj=[CJ(H[d],0,p,y) for d in range(4)]; sk=single(K,p); we=all_w(B[3],H[3],p)
    goal=IMP(yr,AND(*[cj[d]==T[d] for d in range(4)]))
    return goal,[sk,*hm,we,piece_span(K,p,y),Focus(sp,piece_shape(Z.at(i),p),piece_span(K,p,y),p>=1),inst(same_q(c,Z),i,y),AND(0<=i,i<Z.len),
      Focus(goal,IMP(yr,AND(*[a==b for a,b in zip(sums(K,nk,p,B,y),T)])),sp,sk,*hm,we,cs_wq(K,y,p,B[3],H[3],p+1),single_ws(K,y,p,H[3]),*[single_ws(K,y,p,H[d]) for d in range(3)],*[cs_rs(K,y,p,B[d],B[3],H[d],p+1) for d in range(3)],p>=1)]
def all_w(W,V,p):
    k=z3.Int('aw_k'); return z3.ForAll([k],IMP(AND(0<=k,k<=p),V[k]==W[k]),patterns=[V[k]])
@lemma('equal weights, equal weight sums')
def cs_wq(K,y,p,W,V,m): return IMP(AND(all_w(W,V,p),0<=m,m<=p+1),WS(K,y,p,p,W,m)==WS(K,y,p,p,V,m))
_l1=lemmas
def lemmas():
    yield from _l1()
    K,W,V=z3.Consts('K W V',AR); y=z3.Real('y'); p,m=z3.Ints('p m'); un=lambda m:[WS.unfold(K,y,p,p,W,m),WS.unfold(K,y,p,p,V,m)]
    yield ('equal weights, equal weight sums: base',['C21'],un(I(0)),cs_wq(K,y,p,W,V,I(0)))
    yield ('equal weights, equal weight sums: step',['C21'],[m>=0]+un(m+1)+[cs_wq(K,y,p,W,V,m)],cs_wq(K,y,p,W,V,m+1))
def polys(c):
    """(polygon taken from the stack, its index, left half, right half or None) at the end of an iteration"""
    V,O=c.v('stack'),c.head('stack'); L,S,N=SA(c,O); P=[S[d][N-1] for d in range(4)]
    d=z3.simplify(V.len-O.len)
    if z3.is_int_value(d) and d.as_long()==-1: return P,N,None,None
    return (P,N)+c.ex.bb_lr
def _pos_h(c):
    O=c.head('stack')
    if O is None or z3.eq(c.v('stack').arrs[1],O.arrs[1]): return lambda k,j:[]
    P,N,Lh,Rh=polys(c); p=c.old.this.Degree; q=pos_q(c,O)
    if Lh is None: return lambda k,j:[inst(q,k,j)]
    return lambda k,j:[inst(q,k,j),cj_pos(P[3],p,I(0),j,HF),cj_pos(P[3],p,j,p-j,HF),leftof(P[3],Lh[3],p),rightof(P[3],Rh[3],p),poscoef(P[3],p)]
def _sub_h(c):
    U,n,p,A,T=fn(c); O=c.head('stack')
    if O is None:
        i=segi(c); H=[a[0] for a in SA(c,c.v('stack'))[1]]
        def h(k,t):
            g,hs=link(c,i,t,H); x=EV(U,n,i)+t*(EV(U,n,i+1)-EV(U,n,i)); e,e1=EV(U,n,i),EV(U,n,i+1); return [IMP(BD,bounded(U,n,p,A)),inst(bounded(U,n,p,A),x),glop(t,e,e1)]+hs+[Focus(IMP(AND(BD,0<=t,t<=1),inbox([CJ(H[d],0,p,t) for d in range(3)],CJ(H[3],0,p,t))),IMP(BD,bounded(U,n,p,A)),inst(bounded(U,n,p,A),x),glop(t,e,e1),AND(0<=e,e<e1,e1<=1),g)]
        return h
    if z3.eq(c.v('stack').arrs[1],O.arrs[1]): return lambda k,t:[]
    P,N,Lh,Rh=polys(c); q=sub_q(c,O)
    if Lh is None: return lambda k,t:[inst(q,k,t)]
    return lambda k,t:[inst(q,k,t),inst(q,N-1,t/2),inst(q,N-1,(1+t)/2)]+[halves(P[d],Lh[d],Rh[d],p,t) for d in range(4)]
def _bb_wh(c):
    """start: the piece itself"""
    U,n,p,A,T=fn(c)
    if c.head('stack') is not None: return []
    i=segi(c); L,S,N=SA(c,c.v('stack')); H=[a[0] for a in S]; y=Y0(U,n,i); Z=seg0(c); B=Z.at(i).ControlPoints.arrs
    g,hs=link(c,i,y,H)
    return [homo(B[d],B[3],H[d],p) for d in range(3)]+[all_w(B[3],H[3],p),poscoef(H[3],p)]+hs+[locp(X0,EV(U,n,i),EV(U,n,i+1)),IMP(AND(XIN,target(c)==i),AND(y>=0,y<=1,EV(U,n,i)+y*(EV(U,n,i+1)-EV(U,n,i))==X0)),choose(H,p,T,y),SH.unfold(*S,p,*T,N),IMP(AND(XIN,target(c)==i),at(H,p,T,y))]
def _bb_wb(c):
    V=c.v('stack'); L,S,N=SA(c,V); p=c.old.this.Degree; k=N-1
    return [L[k]==p+1,poscoef(S[3][k],p),p>=1]
def cpq(X,W,lo,hi,k):
    j=z3.Int('cp_j'); return z3.ForAll([j],IMP(AND(0<=j,j<k),AND(lo<=X[j]/W[j],X[j]/W[j]<=hi)),patterns=[X[j]])
def _bb_cp(c):
    P=c.v('ctrlPts').arrs; B=c.v('cpBox')
    return [('box is not inverted',AND(*[B.Min[d]<=B.Max[d] for d in range(3)]))]+[(f'holds the control points so far, coordinate {d}',cpq(P[d],P[3],B.Min[d],B.Max[d],c.k)) for d in range(3)]
def _bb_cpx(c):
    """the control points, in homogeneous form"""
    P=c.v('ctrlPts').arrs; B=c.v('cpBox'); p=c.old.this.Degree; r=[]
    for d in range(3):
        k=z3.Int('bw_k'); lo,hi=B.Min[d],B.Max[d]
        q=ALLP([k],(lambda d,lo,hi:lambda k:IMP(AND(0<=k,k<=p),AND(lo*P[3][k]<=P[d][k],P[d][k]<=hi*P[3][k])))(d,lo,hi),[P[d][k]],(lambda d,lo,hi:lambda k:[quo(P[d][k],P[3][k],lo),quo(P[d][k],P[3][k],hi)])(d,lo,hi))
        f=cpq(P[d],P[3],lo,hi,p+1)
        r+=[f,Focus(q,f,poscoef(P[3],p))]
    return r
def _bb_ws(c):
    U,n,p,A,T=fn(c); O,V=c.head('stack'),c.v('stack')
    P,N,Lh,Rh=polys(c); So,Sn=SA(c,O)[1],SA(c,V)[1]; i=segi(c); hp=hit(P,p,T); tw=TW(*P,p,*T); eps=c.old.epsilon; ag=agree(Sn,So,N-1)
    r=[ag,sh_eq(*Sn,*So,p,*T,N-1),SH.unfold(*So,p,*T,N)]
    on_,B,on0,B0=c.v('initialized'),c.v('globalBox'),c.head('initialized'),c.head('globalBox')
    w=AND(XIN,target(c)==i)
    if Lh is not None:
        lf=[leftof(P[d],Lh[d],p) for d in range(4)]; rt=[rightof(P[d],Rh[d],p) for d in range(4)]
        sp=[halves(P[d],Lh[d],Rh[d],p,x) for d in range(4) for x in(2*tw,2*tw-1)]
        g=IMP(hp,OR(at(Lh,p,T,2*tw),at(Rh,p,T,2*tw-1)))
        r+=lf+rt+[Focus(IMP(hp,IMP(tw<=HF,at(Lh,p,T,2*tw))),*lf,*rt,*sp,p>=1),Focus(IMP(hp,IMP(tw>=HF,at(Rh,p,T,2*tw-1))),*lf,*rt,*sp,p>=1),choose(Lh,p,T,2*tw),choose(Rh,p,T,2*tw-1),SH.unfold(*Sn,p,*T,N+1),SH.unfold(*Sn,p,*T,N)]
        return r
    cp,ep=c.v('cpBox'),c.v('epBox'); b=[between(P[d],P[3],cp.Min[d],cp.Max[d],p) for d in range(3)]
    inr=[IMP(AND(XIN,hp),AND(cp.Min[d]<=T[d]/T[3],T[d]/T[3]<=cp.Max[d])) for d in range(3)]
    a0=[P[d][0]/P[3][0] for d in range(3)]; a1=[P[d][p]/P[3][p] for d in range(3)]
    epf=AND(*[AND(ep.Min[d]<=a0[d],a0[d]<=ep.Max[d],OR(ep.Min[d]==a0[d],ep.Min[d]==a1[d]),OR(ep.Max[d]==a0[d],ep.Max[d]==a1[d]),ep.Min[d]<=a1[d],a1[d]<=ep.Max[d]) for d in range(3)])
    epc=AND(*[AND(cp.Min[d]<=a,a<=cp.Max[d]) for d in range(3) for a in(a0[d],a1[d])])
    r+=[p>=1,*[Focus(g,bb,hp_t,cj_hull(P[d],P[3],cp.Min[d],cp.Max[d],p,I(0),p,tw),quo(T[d],T[3],cp.Min[d]),quo(T[d],T[3],cp.Max[d]),p>=1) for d,(g,bb) in enumerate(zip(inr,b)) for hp_t in [IMP(XIN,T[3]>0)]],epf,epc]
    sm=AND(*[cp.Max[d]-cp.Min[d]<=eps for d in range(3)]); fl=AND(*[AND(cp.Min[d]-ep.Min[d]<EPS6,ep.Min[d]-cp.Min[d]<EPS6,cp.Max[d]-ep.Max[d]<EPS6,ep.Max[d]-cp.Max[d]<EPS6) for d in range(3)])
    lf=OR(sm,fl); nx=IMP(AND(XIN,hp),near(ep,T,eps))
    gb=AND(on_,IMP(on0,AND(*[AND(B.Min[d]==z3.If(ep.Min[d]<B0.Min[d],ep.Min[d],B0.Min[d]),B.Max[d]==z3.If(B0.Max[d]<ep.Max[d],ep.Max[d],B0.Max[d])) for d in range(3)])),IMP(NOT(on0),AND(*[AND(B.Min[d]==ep.Min[d],B.Max[d]==ep.Max[d]) for d in range(3)])))
    q=sub_q(c,O); wi=IMP(BD,within(ep))
    ends=[cj_end(P[d],I(0),p) for d in range(4)]
    r+=[lf,Focus(nx,lf,epf,epc,*inr),gb,Focus(IMP(AND(XIN,hp),AND(on_,near(B,T,eps))),nx,gb),Focus(IMP(AND(on0,near(B0,T,eps)),near(B,T,eps)),gb),
       inst(q,N-1,R0),inst(q,N-1,R1),q,Focus(IMP(BD,AND(*[AND(LB[d]<=a,a<=UB[d]) for d in range(3) for a in(a0[d],a1[d])])),inst(q,N-1,R0),inst(q,N-1,R1),q,N>=1,p>=1,P[3][0]>0,P[3][p]>0,*ends,*[quo(P[d][k],P[3][k],x) for d in range(3) for k in(I(0),p) for x in(LB[d],UB[d])]),
       Focus(wi,epf,IMP(BD,AND(*[AND(LB[d]<=a,a<=UB[d]) for d in range(3) for a in(a0[d],a1[d])]))),Focus(IMP(BD,IMP(IMP(on0,within(B0)),within(B))),wi,gb),
       SH.unfold(*Sn,p,*T,N-1)]
    return r
# ---- the table of midpoints
def tbl(c,done,hints=None):
    b=c.v('b').arrs; P=c.v('ctrlPts').arrs; p=c.old.this.Degree; a,e=z3.Ints('tb_a tb_e')
    return ALLP([a,e],lambda a,e:IMP(AND(a>=0,e>=0,a+e<=p,done(a,e)),AND(*[b[d][a*(p+1)+e]==CJ(P[d],e,a,HF) for d in range(4)])),[CJ(P[0],e,a,HF)],hints)
def cju(c,s,r): P=c.v('ctrlPts').arrs; return [CJ.unfold(P[d],s,r,HF) for d in range(4)]
def _lr(c,k):
    P=c.v('ctrlPts').arrs; p=c.old.this.Degree; L,R=c.v('L').arrs,c.v('R').arrs; j=z3.Int('lo_k'); i=z3.Int('ro_k')
    return [(f'left half so far, coordinate {d}',z3.ForAll([j],IMP(AND(0<=j,j<=k-1),L[d][j]==CJ(P[d],0,j,HF)),patterns=[L[d][j]])) for d in range(4)]+[(f'right half so far, coordinate {d}',z3.ForAll([i],IMP(AND(0<=i,i<=k-1),R[d][i]==CJ(P[d],i,p-i,HF)),patterns=[R[d][i]])) for d in range(4)]
def _bb_lrx(c):
    c.ex.bb_lr=(c.v('L').arrs,c.v('R').arrs); return [f for _,f in _lr(c,c.old.this.Degree+1)]
TRUE=lambda a,e:z3.BoolVal(True)
con('Curve::GetBoundingBox(real)','epsilon',props=['C21'],requires=lambda c:[('valid curve',curve_ok(c.this)),('degree',c.this.Degree>=1),('interior multiplicity at most the degree',mult_ok(KV(c.this.Knots).a,KV(c.this.Knots).len,c.this.Degree)),('room',KV(c.this.Knots).len*(c.this.Degree+1)<=sym.SIZE_MAX)],
   ensures=_bb_post,loops=[Loop(inv=_bb_o,hints=_bb_oh,body_hints=_bb_ob),
     Loop(inv=_bb_h1),
     Loop(inv=_bb_w,hints=_bb_wh,body_hints=_bb_wb,step_hints=_bb_ws,exit_hints=lambda c:[SH.unfold(*SA(c)[1],c.old.this.Degree,*fn(c)[4],SA(c)[2])]),
     Loop(inv=_bb_cp,exit_hints=_bb_cpx),
     Loop(inv=lambda c:[('first row so far',tbl(c,lambda a,e:AND(a==0,e<c.k),lambda a,e:[distinct(c.old.this.Degree+1,e,a,c.k-1,I(0))]))],body_hints=lambda c:cju(c,c.k,I(0))),
     Loop(inv=lambda c:[('rows so far',tbl(c,lambda a,e:a<c.k))],exit_hints=lambda c:[tbl(c,TRUE)]),
     Loop(inv=lambda c:(lambda r:[('entries so far',tbl(c,lambda a,e:OR(a<r,AND(a==r,e<c.k)),lambda a,e:[distinct(c.old.this.Degree+1,e,a,c.k-1,r)]))])(c.v('r')),
          body_hints=lambda c:(lambda r,s,q:cju(c,s,r)+[inst(q,r-1,s),inst(q,r-1,s+1),q])(c.v('r'),c.k,tbl(c,lambda a,e:OR(a<c.v('r'),AND(a==c.v('r'),e<c.k))))),
     Loop(inv=lambda c:_lr(c,c.k),exit_hints=_bb_lrx,body_hints=lambda c:(lambda q,p:[q,inst(q,c.k,I(0)),inst(q,p-c.k,c.k)])(tbl(c,TRUE),c.old.this.Degree))])
