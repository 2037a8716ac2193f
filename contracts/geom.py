"""Contracts: segment and rectangle builders (C23), linear transforms (C24)"""
import itertools
from spec import *
from program import Contract as C
from exec import Loop, UNROLL
import sym
from knots import clamped, clampa, KV, span, spanp, span_exists
from basis import NB,DN
from curve import WS,RSUM,curve_ok,cv
from grid import cells,cell,in_range,distinct,mono,grid_ok
from surface import SWI,SRI,SWO,SRO,surface_ok,sv
from surfins import COL,ROW,posin,DOMXY
out=[]
def con(*a,**k): out.append(C(*a,**k))
TR=z3.ToReal
# ---------------------------------------------------------------- builders
@lemma('even spacing ends')
def ends(n,a,b): return IMP(n>=1,AND(a+TR(n)*((b-a)/TR(n))==b))
def on_line(L,R,n,i,d): return L[d]+TR(i)*((R[d]-L[d])/TR(n-1))
con('GeomSegment::Make(Vec3,Vec3)','left right',props=['C23'],ensures=lambda c:[('end points',AND(*[c.ret.LeftPoint[d]==c.left[d] for d in range(3)],*[c.ret.RightPoint[d]==c.right[d] for d in range(3)])),('straight line of degree 1',AND(c.ret.Degree==1,c.ret.ControlPointCount==2))])
con('GeomRect::Make(Vec3,Vec3,Vec3,Vec3)','lb rb lt rt',props=['C23'],ensures=lambda c:[('corners',AND(*[e for d in range(3) for e in(c.ret.LeftBottomPoint[d]==c.lb[d],c.ret.RightBottomPoint[d]==c.rb[d],c.ret.LeftTopPoint[d]==c.lt[d],c.ret.RightTopPoint[d]==c.rt[d])])),
    ('degree 1',AND(c.ret.DegreeU==1,c.ret.DegreeV==1,c.ret.ControlPointCountU==2,c.ret.ControlPointCountV==2))])
def seg_pt(o,p,i): return AND(p[3]==1,*[p[d]==on_line(o.LeftPoint,o.RightPoint,o.ControlPointCount,i,d) for d in range(3)])
def _seg_post(c):
    t=c.this; P=c.ret.ControlPoints
    return [('requested degree and count',AND(c.ret.Degree==t.Degree,P.len==t.ControlPointCount)),('evenly spaced unit-weight control points',FA(t.ControlPointCount,lambda i:seg_pt(t,P.at(i),i))),
        ('valid curve',curve_ok(c.ret)),('starts at the left point',AND(*[P.at(I(0))[d]==t.LeftPoint[d] for d in range(3)])),('ends at the right point',AND(*[P.at(t.ControlPointCount-1)[d]==t.RightPoint[d] for d in range(3)]))]
def uni_ok(K,n,p):
    """the end spacing of a uniform knot vector, from which it is clamped"""
    i=TR(n-2*p-1)
    return [IMP(n>2*p+2,AND(K.at(p+1)*i==1,K.at(n-p-2)*i==i-1)),K.at(p+1)>0,K.at(n-p-2)<1]
def _seg_h(c):
    t=c.this; K=KV(c.ret.Knots); return uni_ok(K,t.ControlPointCount+t.Degree+1,t.Degree)+[ends(t.ControlPointCount-1,t.LeftPoint[d],t.RightPoint[d]) for d in range(3)]
con('GeomSegment::GetCurve()','',props=['C23'],requires=lambda c:[('degree',AND(c.this.Degree>=1,c.this.Degree<=2**20)),('count',AND(c.this.ControlPointCount>=c.this.Degree+1,c.this.ControlPointCount+c.this.Degree+1<=sym.SIZE_MAX))],
    ensures=_seg_post,hints=_seg_h,loops=[Loop(inv=lambda c:[('len',c.v('curve').ControlPoints.len==c.this.ControlPointCount),('points so far',FA(c.k,lambda i:seg_pt(c.this,c.v('curve').ControlPoints.at(i),i)))])])
def rect_pt(t,p,i,j):
    n,m=t.ControlPointCountU,t.ControlPointCountV; a,b,e,f=t.LeftBottomPoint,t.RightBottomPoint,t.LeftTopPoint,t.RightTopPoint
    return AND(p[3]==1,*[p[d]==a[d]+TR(i)*((b[d]-a[d])/TR(n-1))+TR(j)*((e[d]-a[d])/TR(m-1))+TR(i)*TR(j)*((f[d]-b[d]-e[d]+a[d])/(TR(n-1)*TR(m-1))) for d in range(3)])
@lemma('bilinear corners')
def bil(n,m,a,b,e,f): return IMP(AND(n>=1,m>=1),AND(a+TR(n)*((b-a)/TR(n))==b,a+TR(m)*((e-a)/TR(m))==e,a+TR(n)*((b-a)/TR(n))+TR(m)*((e-a)/TR(m))+TR(n)*TR(m)*((f-b-e+a)/(TR(n)*TR(m)))==f))
def lemmas():
    n,m=z3.Ints('n m'); a,b,e,f,x,y=z3.Reals('a b e f x y')
    yield ('even spacing ends',['C23'],[],ends(n,a,b))
    q=[IMP(n>=1,TR(n)*((b-a)/TR(n))==b-a),IMP(m>=1,TR(m)*((e-a)/TR(m))==e-a),IMP(AND(n>=1,m>=1),TR(n)*TR(m)*((f-b-e+a)/(TR(n)*TR(m)))==f-b-e+a)]
    yield ('bilinear corners: first',['C23'],[],q[0])
    yield ('bilinear corners: second',['C23'],[],q[1])
    yield ('bilinear corners: product',['C23'],[],IMP(AND(x>=1,y>=1),x*y*(a/(x*y))==a))
    yield ('bilinear corners: third',['C23'],[IMP(AND(TR(n)>=1,TR(m)>=1),TR(n)*TR(m)*((f-b-e+a)/(TR(n)*TR(m)))==f-b-e+a)],q[2])
    yield ('bilinear corners: conclusion',['C23'],q,bil(n,m,a,b,e,f))
def _rect_post(c):
    t=c.this; g=c.ret.ControlPoints; n,m=t.ControlPointCountU,t.ControlPointCountV
    cor=lambda i,j,p: AND(*[cell(g,i,j)[d]==p[d] for d in range(3)])
    return [('requested degrees and counts',AND(c.ret.DegreeU==t.DegreeU,c.ret.DegreeV==t.DegreeV,g.UCount==n,g.VCount==m)),
      ('unit-weight control points evenly spaced between the corners',cells(g,lambda u,v:rect_pt(t,cell(g,u,v),u,v))),('valid surface',surface_ok(c.ret)),
      ('corner left bottom',cor(I(0),I(0),t.LeftBottomPoint)),('corner right bottom',cor(n-1,I(0),t.RightBottomPoint)),('corner left top',cor(I(0),m-1,t.LeftTopPoint)),('corner right top',cor(n-1,m-1,t.RightTopPoint))]
def _rect_h(c):
    t=c.this; g=c.ret.ControlPoints; n,m=t.ControlPointCountU,t.ControlPointCountV; a,b,e,f=t.LeftBottomPoint,t.RightBottomPoint,t.LeftTopPoint,t.RightTopPoint
    q=cells(g,lambda u,v:rect_pt(t,cell(g,u,v),u,v))
    pos=ALL('k',lambda k:IMP(AND(0<=k,k<n*m),g.Values.arrs[3][k]>0),lambda k:[posin(k,n,m),inst(q,COL(k,n),ROW(k,n))])
    return uni_ok(KV(c.ret.KnotsU),n+t.DegreeU+1,t.DegreeU)+uni_ok(KV(c.ret.KnotsV),m+t.DegreeV+1,t.DegreeV)+[bil(n-1,m-1,a[d],b[d],e[d],f[d]) for d in range(3)]+[q,pos]+[inst(q,i,j) for i in(I(0),n-1) for j in(I(0),m-1)]
def _rect_o(c):
    t=c.this; g=c.v('surface').ControlPoints
    return [('dims',AND(g.UCount==t.ControlPointCountU,g.VCount==t.ControlPointCountV,g.Values.len==g.UCount*g.VCount)),('lines so far',cells(g,lambda u,v:IMP(v<c.k,rect_pt(t,cell(g,u,v),u,v))))]
def _rect_i(c):
    t=c.this; g=c.v('surface').ControlPoints; j=c.v('j')
    return [('dims',AND(g.UCount==t.ControlPointCountU,g.VCount==t.ControlPointCountV,g.Values.len==g.UCount*g.VCount)),('points so far',cells(g,lambda u,v:IMP(OR(v<j,AND(v==j,u<c.k)),rect_pt(t,cell(g,u,v),u,v)),lambda u,v:[distinct(g.UCount,u,v,c.k-1,j)]))]
con('GeomRect::GetSurface()','',props=['C23'],requires=lambda c:[('degrees',AND(*[AND(x>=1,x<=2**20) for x in(c.this.DegreeU,c.this.DegreeV)])),
      ('counts',AND(*[AND(n>=d+1,n+d+1<=sym.SIZE_MAX) for n,d in((c.this.ControlPointCountU,c.this.DegreeU),(c.this.ControlPointCountV,c.this.DegreeV))],c.this.ControlPointCountU*c.this.ControlPointCountV<=sym.SIZE_MAX))],
    ensures=_rect_post,hints=_rect_h,loops=[Loop(inv=_rect_o),Loop(inv=_rect_i,hints=lambda c:[in_range(c.this.ControlPointCountU,c.this.ControlPointCountV,c.k,c.v('j')),mono(c.this.ControlPointCountU,c.v('j')+1,c.this.ControlPointCountV)],
       body_hints=lambda c:[mono(c.v('j'),I(0),c.k),mono(c.v('j'),c.k,c.this.ControlPointCountU),mono(c.this.ControlPointCountU,c.v('j'),c.this.ControlPointCountV)])])
# ---------------------------------------------------------------- linear transforms
def lin(r,A,i): return r[0]*A[0][i]+r[1]*A[1][i]+r[2]*A[2][i]
def linq(r,A,B,lo,hi):
    k=z3.Int('tq_k'); return z3.ForAll([k],IMP(AND(lo<=k,k<=hi),B[k]==lin(r,A,k)),patterns=[B[k]])
@lemma('transform of one term')
def t_alg(N,w,a,b,c,x,y,z): return N*((a*x+b*y+c*z)*w)==a*(N*(x*w))+b*(N*(y*w))+c*(N*(z*w))
@lemma('transform of one sum')
def t_sum(N,a,b,c,x,y,z): return N*(a*x+b*y+c*z)==a*(N*x)+b*(N*y)+c*(N*z)
@lemma('point sums are linear')
def rs_lin(U,x,s,p,a,b,c,X,Y,Z,B,W,m): return IMP(AND(linq((a,b,c),(X,Y,Z),B,s-p,s),0<=m,m<=p+1),RSUM(U,x,s,p,B,W,m)==a*RSUM(U,x,s,p,X,W,m)+b*RSUM(U,x,s,p,Y,W,m)+c*RSUM(U,x,s,p,Z,W,m))
@lemma('inner point sums are linear')
def sri_lin(U,x,s,p,a,b,c,X,Y,Z,B,W,UC,T,off,m): return IMP(AND(linq((a,b,c),(X,Y,Z),B,I(0),T-1),off>=0,off+UC<=T,0<=m,m<=p+1,p<=s,s<UC),SRI(U,x,s,p,0,B,W,off,m)==a*SRI(U,x,s,p,0,X,W,off,m)+b*SRI(U,x,s,p,0,Y,W,off,m)+c*SRI(U,x,s,p,0,Z,W,off,m))
@lemma('outer point sums are linear')
def sro_lin(U,x,s,p,V,y,t,q,a,b,c,X,Y,Z,B,W,UC,VC,m): return IMP(AND(linq((a,b,c),(X,Y,Z),B,I(0),UC*VC-1),0<=m,m<=q+1,q<=t,t<VC,p>=0,p<=s,s<UC),
    (lambda S:S(B)==a*S(X)+b*S(Y)+c*S(Z))(lambda E:SRO(U,x,s,p,V,y,t,q,0,0,E,W,UC,m)))
_l0=lemmas
def lemmas():
    yield from _l0()
    P=['C24']; U,V,X,Y,Z,B,W=z3.Consts('U V X Y Z B W',AR); x,y,a,b,c=z3.Reals('x y a b c'); s,p,t,q,m,UC,VC,off,T=z3.Ints('s p t q m UC VC off T')
    f=z3.Reals('f0 f1 f2 f3 f4 f5 f6 f7')
    yield ('transform of one term',P,[],t_alg(*f)); yield ('transform of one sum',P,[],t_sum(*f[:7]))
    E=(X,Y,Z,B); rs=lambda m:[RSUM.unfold(U,x,s,p,e,W,m) for e in E]
    yield ('point sums are linear: base',P,rs(I(0)),rs_lin(U,x,s,p,a,b,c,*E,W,I(0)))
    i=s-p+m
    yield ('point sums are linear: step',P,[m>=0]+rs(m+1)+[rs_lin(U,x,s,p,a,b,c,*E,W,m),t_alg(NB(U,x,s,i,p),W[i],a,b,c,X[i],Y[i],Z[i])],rs_lin(U,x,s,p,a,b,c,*E,W,m+1))
    si=lambda m:[SRI.unfold(U,x,s,p,0,e,W,off,m) for e in E]; i=off+(s-p+m)
    yield ('inner point sums are linear: base',P,si(I(0)),sri_lin(U,x,s,p,a,b,c,*E,W,UC,T,off,I(0)))
    yield ('inner point sums are linear: step',P,[m>=0]+si(m+1)+[sri_lin(U,x,s,p,a,b,c,*E,W,UC,T,off,m),t_alg(DN(U,x,s,s-p+m,p,0),W[i],a,b,c,X[i],Y[i],Z[i])],sri_lin(U,x,s,p,a,b,c,*E,W,UC,T,off,m+1))
    so=lambda m:[SRO.unfold(U,x,s,p,V,y,t,q,0,0,e,W,UC,m) for e in E]; g=t-q+m
    A=(U,x,s,p,V,y,t,q,a,b,c,*E,W,UC,VC)
    yield ('outer point sums are linear: base',P,so(I(0)),sro_lin(*A,I(0)))
    S=lambda e:SRI(U,x,s,p,0,e,W,g*UC,p+1)
    yield ('outer point sums are linear: step',P,[m>=0]+so(m+1)+[sro_lin(*A,m),sri_lin(U,x,s,p,a,b,c,*E,W,UC,UC*VC,g*UC,p+1),in_range(UC,VC,I(0),g),t_sum(DN(V,y,t,g,q,0),a,b,c,S(X),S(Y),S(Z))],sro_lin(*A,m+1))
def row(R,d): return [R[3*d+e] if not hasattr(R,'c') else R.e[d*R.c+e] for e in range(3)]
def moved(R,old,new): return AND(new[3]==old[3],*[new[d]==sum((row(R,d)[e]*old[e] for e in range(1,3)),row(R,d)[0]*old[0]) for d in range(3)])
def _tc_post(c):
    S,N=c.this,c.ret; U,n,p,A=cv(S); Ub,nb,pb,B=cv(N); P=S.ControlPoints
    return [('degree, knots and count kept',AND(pb==p,nb==n,Ub==U,N.ControlPoints.len==P.len)),('every control point is moved by the matrix and keeps its weight',FA(P.len,lambda i:moved(c.R,P.at(i),N.ControlPoints.at(i)))),
      ('same weight function',ALL('x',lambda x:IMP(AND(curve_ok(S),x>=0,x<=1),WS(U,x,span(U,n,p,x),p,B[3],p+1)==WS(U,x,span(U,n,p,x),p,A[3],p+1)),lambda x:[span_exists(U,n,p,x),IMP(curve_ok(S),clampa(U,n,p)),ws_eq(U,x,span(U,n,p,x),p,B[3],A[3],p+1)],sort=RS)),
      *[(f'every point is moved by the matrix, coordinate {d}',ALL('x',(lambda d:lambda x:(lambda s:IMP(AND(curve_ok(S),x>=0,x<=1),RSUM(U,x,s,p,B[d],B[3],p+1)==sum((row(c.R,d)[e]*RSUM(U,x,s,p,A[e],B[3],p+1) for e in range(1,3)),row(c.R,d)[0]*RSUM(U,x,s,p,A[0],B[3],p+1))))(span(U,n,p,x)))(d),
         (lambda d:lambda x:[span_exists(U,n,p,x),IMP(curve_ok(S),clampa(U,n,p)),rs_lin(U,x,span(U,n,p,x),p,*row(c.R,d),A[0],A[1],A[2],B[d],B[3],p+1)])(d),sort=RS)) for d in range(3)]]
from surfins import ws_eq
con('Curve::Transform(Mat3x3)','R',props=['C24'],ensures=_tc_post,
    loops=[Loop(inv=lambda c:(lambda S,N:[('shape kept',AND(N.Degree==S.Degree,N.ControlPoints.len==S.ControlPoints.len)),('moved so far',FA(c.k,lambda i:moved(c.old.R,S.ControlPoints.at(i),N.ControlPoints.at(i)))),('not yet',FAR(c.k,S.ControlPoints.len,lambda i:veq(N.ControlPoints.at(i),S.ControlPoints.at(i))))])(c.old.this,c.v('transformed_curve')))])
def _ts_post(c):
    S,N=c.this,c.ret; U,n,p,V,n2,q,A,UC,VC=sv(S); Ub,nb,pb,Vb,n2b,qb,B,UCb,VCb=sv(N); P,Q=S.ControlPoints.Values,N.ControlPoints.Values
    ok=surface_ok(S); f=lambda E,x,y:SRO(U,x,span(U,n,p,x),p,V,y,span(V,n2,q,y),q,0,0,E,B[3],UC,q+1)
    hs=lambda x,y:[span_exists(U,n,p,x),span_exists(V,n2,q,y),IMP(ok,AND(clampa(U,n,p),clampa(V,n2,q)))]
    return [('degrees, knots and dimensions kept',AND(pb==p,qb==q,nb==n,n2b==n2,Ub==U,Vb==V,UCb==UC,VCb==VC,Q.len==P.len)),('every control point is moved by the matrix and keeps its weight',FA(P.len,lambda i:moved(c.R,P.at(i),Q.at(i)))),
      *[(f'every point is moved by the matrix, coordinate {d}',ALL('x y',(lambda d:lambda x,y:IMP(AND(ok,DOMXY(x,y)),f(B[d],x,y)==sum((row(c.R,d)[e]*f(A[e],x,y) for e in range(1,3)),row(c.R,d)[0]*f(A[0],x,y))))(d),
         (lambda d:lambda x,y:hs(x,y)+[sro_lin(U,x,span(U,n,p,x),p,V,y,span(V,n2,q,y),q,*row(c.R,d),A[0],A[1],A[2],B[d],B[3],UC,VC,q+1)])(d),sort=RS)) for d in range(3)]]
con('Surface::Transform(Mat3x3)','R',props=['C24'],ensures=_ts_post,
    loops=[Loop(inv=lambda c:(lambda S,N:(lambda P,Q:[('shape kept',Q.len==P.len),('moved so far',FA(c.k,lambda i:moved(c.old.R,P.at(i),Q.at(i)))),('not yet',FAR(c.k,P.len,lambda i:veq(Q.at(i),P.at(i))))])(S.ControlPoints.Values,N.ControlPoints.Values))(c.old.this,c.v('transformed_surface')))])
# ---------------------------------------------------------------- alignment of the parameter domain (C25)
def wit(c,name):
    """witness: the value of a local flag of the code at the return (False when it was not reached yet)"""
    if c.ex is None: return z3.Bool(fresh_name(name))
    from exec import Mismatch
    lv=c.frame.names.get(name)
    if lv is None: raise Mismatch(f'local {name} not found')
    v=c.state.store.get(lv.loc)
    if v is None or not z3.is_bool(v): return z3.BoolVal(False)
    v=z3.simplify(v)
    if z3.is_true(v) or z3.is_false(v): return v
    return WIT.setdefault((name,v.get_id()),(v,z3.Bool(fresh_name('w_'+name))))[1]
WIT={}    # names of the values of the flags
def wdefs(ws): return [trust(b==v) for v,b in WIT.values() if any(w.get_id()==b.get_id() for w in ws)]
def flags(c):
    w=c.__dict__.get('wits')
    if w is None: w=c.__dict__['wits']=[wit(c,n) for n in('need_swap','reverse_u','reverse_v')]
    return w
def mir(r,n,i): return z3.If(r,n-1-i,i)
def src(S,R,sw,ru,rv,a,b):
    """the control point of S that becomes point (a,b) of R"""
    g=R.ControlPoints; i,j=mir(ru,g.UCount,a),mir(rv,g.VCount,b)
    return ITE(sw,cell(S.ControlPoints,j,i),cell(S.ControlPoints,i,j))
def knrel(K,Ka,Kb,sw,r):
    """K is Kb (exchanged) or Ka, mirrored when r"""
    n=z3.If(sw,Kb.len,Ka.len); at=lambda k:z3.If(sw,Kb.at(k),Ka.at(k))
    return AND(K.len==n,FA(n,lambda k:K.at(k)==z3.If(r,1-at(n-1-k),at(k))))
ONCE={}
def once(key,f):
    k=tuple(x.get_id() for x in key)
    if k not in ONCE: ONCE[k]=(key,f())
    return ONCE[k][1]
def alg_rel(S,R,sw,ru,rv):
    g,o=R.ControlPoints,S.ControlPoints
    al=lambda a,b:[(g.UCount-1-a,b),(a,g.VCount-1-b),(g.UCount-1-a,g.VCount-1-b)]
    return [('degrees go with their direction',AND(R.DegreeU==z3.If(sw,S.DegreeV,S.DegreeU),R.DegreeV==z3.If(sw,S.DegreeU,S.DegreeV))),
      ('u knots exchanged or mirrored with their direction',knrel(KV(R.KnotsU),KV(S.KnotsU),KV(S.KnotsV),sw,ru)),('v knots exchanged or mirrored with their direction',knrel(KV(R.KnotsV),KV(S.KnotsV),KV(S.KnotsU),sw,rv)),
      ('dimensions go with their direction',AND(g.UCount==z3.If(sw,o.VCount,o.UCount),g.VCount==z3.If(sw,o.UCount,o.VCount),g.Values.len==o.Values.len)),
      ('control points exchanged or mirrored with their direction',once((g.Values.arrs[0],g.UCount,g.VCount,sw,ru,rv),lambda:cells(g,lambda a,b:veq(cell(g,a,b),src(S,R,sw,ru,rv,a,b)),lambda a,b:[in_range(o.UCount,o.VCount,x,y) for x,y in((a,b),(b,a))],al)))]
def comp(v,ax): return z3.If(ax==0,v[0],z3.If(ax==1,v[1],v[2]))
rabs_=lambda x:z3.If(x>=0,x,-x)
def dom(v,ax):
    """v follows axis ax: that component is the largest, and longer than 1e-6"""
    return AND(*[IMP(ax==k,AND(*[rabs_(v[k])>rabs_(v[l]) for l in range(3) if l!=k],rabs_(v[k])>EPS6)) for k in range(3)])
def edges(S):
    g=S.ControlPoints; n,m=g.UCount-1,g.VCount-1; P=lambda i,j:[cell(g,i,j)[d] for d in range(3)]; sub=lambda a,b:[a[d]-b[d] for d in range(3)]
    a,b,c,d=P(I(0),I(0)),P(n,I(0)),P(I(0),m),P(n,m); return sub(b,a),sub(c,a),sub(d,b),sub(d,c)     # u edge below, v edge left, v edge right, u edge above
def same_sign(x,y): return OR(AND(x>0,y>0),AND(x<0,y<0))
def follows(S,a,b):
    e=edges(S); return AND(a!=b,dom(e[0],a),dom(e[3],a),dom(e[1],b),dom(e[2],b),same_sign(comp(e[0],a),comp(e[3],a)),same_sign(comp(e[1],b),comp(e[2],b)))
def gterms(g): return [g.UCount,g.VCount,*g.Values.arrs]
def _al_post(c):
    S,R=c.this,c.ret; sw,ru,rv=flags(c); e,f=edges(R),edges(S); g=R.ControlPoints; UN,VN=g.UCount,g.VCount; r=alg_rel(S,R,sw,ru,rv); rel=[x for _,x in r]; q=rel[-1]
    so=[clamped(KV(S.KnotsU),S.DegreeU),clamped(KV(S.KnotsV),S.DegreeV)]
    valid=Focus(surface_ok(R),Focus(clamped(KV(R.KnotsU),R.DegreeU),rel[0],rel[1],*so),Focus(clamped(KV(R.KnotsV),R.DegreeV),rel[0],rel[2],*so),
        grid_ok(g),UN==KV(R.KnotsU).len-R.DegreeU-1,VN==KV(R.KnotsV).len-R.DegreeV-1,FA(g.Values.len,lambda k:g.Values.at(k)[3]>0))
    a,b=c.u_axis,c.v_axis
    dec=lambda h,*cs:Focus(IMP(h,AND(*cs)),*wdefs((sw,ru,rv)),qf=True)
    d1=dec(follows(S,a,b),NOT(sw),ru==(comp(f[0],a)<0),rv==(comp(f[1],b)<0)); d2=dec(follows(S,b,a),sw,ru==(comp(f[1],a)<0),rv==(comp(f[0],b)<0))
    con_=AND(comp(e[0],a)>0,comp(e[3],a)>0,comp(e[1],b)>0,comp(e[2],b)>0); goal=IMP(OR(follows(S,a,b),follows(S,b,a)),con_)
    corners=[Focus(IMP(AND(0<=i,i<UN,0<=j,j<VN),veq(cell(g,i,j),src(S,R,sw,ru,rv,i,j))),q,inst(q,i,j)) for i in(I(0),UN-1) for j in(I(0),VN-1)]
    return r+[('valid surface',valid),('the edges that follow the requested axes run along them',Focus(goal,*[Focus(IMP(follows(S,x,y),con_),d,rel[3],UN>=1,VN>=1,*corners,gen=gterms(g)) for x,y,d in((a,b,d1),(b,a,d2))]))]
def _al_h(c):
    S,R=c.this,c.ret; sw,ru,rv=flags(c); g=R.ControlPoints; q=alg_rel(S,R,sw,ru,rv)[-1][1]; UN,VN=g.UCount,g.VCount; o=S.ControlPoints
    x,y=lambda k:COL(k,UN),lambda k:ROW(k,UN)
    wps=[]; qs=[]; conds=[]
    al=lambda a,b:[(UN-1-a,b),(a,VN-1-b),(UN-1-a,VN-1-b)]
    for fs,fu,fv in itertools.product((False,True),repeat=3):
        is_=lambda f,v:f if v else z3.Not(f)
        cond=z3.simplify(AND(is_(sw,fs),is_(ru,fu),is_(rv,fv)))
        if z3.is_false(cond): continue
        ij=(lambda fu,fv:lambda a,b:(UN-1-a if fu else a,VN-1-b if fv else b))(fu,fv)
        oij=(lambda ij,fs:lambda a,b:ij(a,b)[::-1] if fs else ij(a,b))(ij,fs)
        conds.append(cond)
        qs.append(cells(g,(lambda cond,oij:lambda a,b:IMP(cond,veq(cell(g,a,b),cell(o,*oij(a,b)))))(cond,oij),(lambda oij:lambda a,b:[in_range(o.UCount,o.VCount,*oij(a,b))])(oij),al))
        wps.append(cells(g,(lambda cond:lambda a,b:IMP(cond,cell(g,a,b)[3]>0))(cond),(lambda qq,oij:lambda a,b:[inst(qq,a,b),in_range(o.UCount,o.VCount,*oij(a,b))])(qs[-1],oij)))
    pos=ALL('k',lambda k:IMP(AND(0<=k,k<UN*VN),g.Values.arrs[3][k]>0),lambda k:[posin(k,UN,VN)]+[inst(w,x(k),y(k)) for w in wps])
    rel=[f for _,f in alg_rel(S,R,sw,ru,rv)]
    return wdefs((sw,ru,rv))+rel[:-1]+[Focus(q,*qs,z3.Or(*conds),ground=True,gen=gterms(g)),*wps,Focus(pos,UN>=1,*wps,z3.Or(*conds))]
def gsame(a,b): return AND(a.UCount==b.UCount,a.VCount==b.VCount,a.Values.len==b.Values.len)
def tr(c,done):
    G,T=c.v('grid'),c.v('transposed_grid')
    return [('dims',AND(T.UCount==G.VCount,T.VCount==G.UCount,T.Values.len==T.UCount*T.VCount)),('transposed so far',cells(T,lambda a,b:IMP(done(a,b),veq(cell(T,a,b),cell(G,b,a))),lambda a,b:[in_range(G.UCount,G.VCount,b,a)]+([distinct(T.UCount,a,b,c.k-1,c.v('u'))] if 'u' in c.frame.names else [])))]
def rev(c,isu,done):
    g,P=c.v('grid'),c.pre('grid'); n,m=P.UCount,P.VCount
    mr=(lambda a,b:(n-1-a,b)) if isu else (lambda a,b:(a,m-1-b))
    ds=lambda a,b:[]
    return [('dims',gsame(g,P)),('mirrored so far',cells(g,lambda a,b:veq(cell(g,a,b),ITE(done(a,b),cell(P,*mr(a,b)),cell(P,a,b))),lambda a,b:[in_range(n,m,*mr(a,b))]+rev_d(c,isu,a,b,n,m),lambda a,b:[mr(a,b)]))]
def rev_d(c,isu,a,b,n,m):
    if not inner(c,isu): return []
    o=c.v('v' if isu else 'u'); k=c.k-1
    if isu: return [distinct(n,a,b,k,o),distinct(n,a,b,n-1-k,o),distinct(n,k,o,n-1-k,o)]
    return [distinct(n,a,b,o,k),distinct(n,a,b,o,m-1-k),distinct(n,o,k,o,m-1-k)]
def inner(c,isu): return ('v' if isu else 'u') in c.frame.names and c.ctr!=c.frame.names['v' if isu else 'u'].loc
con('Surface::AlignParameterDomain(int,int)','u_axis v_axis',props=['C25'],requires=lambda c:[('valid surface',surface_ok(c.this)),('axes',AND(0<=c.u_axis,c.u_axis<=2,0<=c.v_axis,c.v_axis<=2))],ensures=_al_post,hints=_al_h,
  loops=[Loop(inv=lambda c:[('counts',AND(c.v('count_axis1')>=0,c.v('count_axis2')>=0,c.v('count_axis1')+c.v('count_axis2')<=c.k))]),
    Loop(inv=lambda c:tr(c,lambda a,b:b<c.k)),
    Loop(inv=lambda c:tr(c,lambda a,b:OR(b<c.v('u'),AND(b==c.v('u'),a<c.k))),hints=lambda c:(lambda G:[in_range(G.UCount,G.VCount,c.v('u'),c.k),in_range(G.VCount,G.UCount,c.k,c.v('u'))])(c.v('grid'))),
    Loop(inv=lambda c:rev(c,True,lambda a,b:b<c.k)),
    Loop(inv=lambda c:rev(c,True,lambda a,b:AND(b==c.v('v'),OR(a<c.k,a>c.v('grid').UCount-1-c.k))),hints=lambda c:(lambda G:[in_range(G.UCount,G.VCount,c.k,c.v('v')),in_range(G.UCount,G.VCount,G.UCount-1-c.k,c.v('v'))])(c.v('grid'))),
    Loop(inv=lambda c:rev(c,False,lambda a,b:a<c.k)),
    Loop(inv=lambda c:rev(c,False,lambda a,b:AND(a==c.v('u'),OR(b<c.k,b>c.v('grid').VCount-1-c.k))),hints=lambda c:(lambda G:[in_range(G.UCount,G.VCount,c.v('u'),c.k),in_range(G.UCount,G.VCount,c.v('u'),G.VCount-1-c.k)])(c.v('grid')))])
