"""Contracts: parameter searches (C22)"""
from spec import *
from program import Contract as C
from exec import Loop
import sym
from knots import KV, span
from curve import WS,RSUM,curve_ok,cv
from surface import SWO,SRO,surface_ok,sv
out=[]
def con(*a,**k): out.append(C(*a,**k))
TR=z3.ToReal
IN=lambda x:AND(x>=0,x<=1)
LIM=2**30
# ---------------------------------------------------------------- on a curve
def hit(o,x):
    """the curve runs through the target at parameter x"""
    U,n,p,A=cv(o.this); s=span(U,n,p,x); W=A[3]
    return AND(*[o.point[d]*WS(U,x,s,p,W,p+1)==RSUM(U,x,s,p,A[d],W,p+1) for d in range(3)])
def zero(v): return AND(*[v[d]==0 for d in range(3)])
def ls(c): return [('step counter',AND(c.v('ls_count')>=0,c.v('ls_count')<=c.v('max_line_search_iterations')))]
lsd=lambda c:c.v('max_line_search_iterations')-c.v('ls_count')
con('Curve::SearchParameter(Vec3,real,real,real)','point init epsilon max_iteration_count',props=['C22'],
  requires=lambda c:[('valid curve',curve_ok(c.this)),('start in the domain',IN(c.init)),('precision',c.epsilon>=0),('iteration limit',AND(c.max_iteration_count>=0,c.max_iteration_count<=LIM))],
  ensures=lambda c:[('result in the domain',IN(c.ret)),('a start that hits the target is returned',IMP(hit(c,c.init),c.ret==c.init))],
  loops=[Loop(inv=lambda c:[('in the domain',IN(c.v('u_last'))),('a start that hits the target is kept',IMP(hit(c.old,c.old.init),c.v('u_last')==c.old.init)),('iterations',AND(c.v('count')>=0,TR(c.v('count'))<=c.old.max_iteration_count+1))],
              dec=lambda c:c.old.max_iteration_count+1-TR(c.v('count'))),
         Loop(inv=ls,dec=lsd)])
con('Curve::BinarySearchParameter(Vec3,real,int)','point epsilon max_iteration_count',props=['C22'],
  requires=lambda c:[('valid curve',curve_ok(c.this)),('precision',c.epsilon>=0),('iteration limit',AND(c.max_iteration_count>=0,c.max_iteration_count<=LIM))],
  ensures=lambda c:[('result in the domain',IN(c.ret))],
  loops=[Loop(inv=lambda c:[('bracket in the domain',AND(0<=c.v('low'),c.v('low')<=c.v('high'),c.v('high')<=1)),('iterations',AND(c.v('count')>=0,c.v('count')<=c.old.max_iteration_count))],dec=lambda c:c.old.max_iteration_count-c.v('count'))])
# ---------------------------------------------------------------- on a surface
def shit(o,x,y):
    U,n,p,V,n2,q,A,UC,VC=sv(o.this); s,t=span(U,n,p,x),span(V,n2,q,y); a=(U,x,s,p,V,y,t,q,0,0)
    return AND(*[o.point[d]*SWO(*a,A[3],UC,q+1)==SRO(*a,A[d],A[3],UC,q+1) for d in range(3)])
_lim=lambda c:[('precision',c.epsilon>=0),('iteration limit',AND(c.max_iteration_count>=0,c.max_iteration_count<=LIM))]
_cnt=lambda c:('iterations',AND(c.v('count')>=0,TR(c.v('count'))<=c.old.max_iteration_count+1))
_dec=lambda c:c.old.max_iteration_count+1-TR(c.v('count'))
con('Surface::SearchParameter(Vec3,real,real,real,real)','point init_u init_v epsilon max_iteration_count',props=['C22'],
  requires=lambda c:[('valid surface',surface_ok(c.this)),('start in the domain',AND(IN(c.init_u),IN(c.init_v)))]+_lim(c),
  ensures=lambda c:[('result in the domain',AND(IN(c.ret[0]),IN(c.ret[1]))),('a start that hits the target is returned',IMP(shit(c,c.init_u,c.init_v),AND(c.ret[0]==c.init_u,c.ret[1]==c.init_v)))],
  loops=[Loop(inv=lambda c:[('in the domain',AND(IN(c.v('u_last')),IN(c.v('v_last')))),('a start that hits the target is kept',IMP(shit(c.old,c.old.init_u,c.old.init_v),AND(c.v('u_last')==c.old.init_u,c.v('v_last')==c.old.init_v))),_cnt(c)],dec=_dec),
         Loop(inv=ls,dec=lsd)])
_on=lambda c:[('valid surface',surface_ok(c.this)),('direction',OR(c.direction==0,c.direction==1)),('fixed coordinate in the domain',IN(c.constant))]
def fixed(c): return [('the fixed coordinate is returned unchanged, in its place',AND(IMP(c.direction==0,c.ret[0]==c.constant),IMP(c.direction==1,c.ret[1]==c.constant)))]
var=lambda c:z3.If(c.direction==0,c.ret[1],c.ret[0])
def opt(c,name,f):
    """f of a local variable, where there is one of that name"""
    from exec import Mismatch
    try: return [f(c.v(name))]
    except Mismatch: return []
def ohit(o,x): return shit(o,z3.If(o.direction==0,o.constant,x),z3.If(o.direction==0,x,o.constant))
con('Surface::SearchParameterOn(Vec3,int,real,real,real,real)','point direction constant init_value epsilon max_iteration_count',props=['C22'],
  requires=lambda c:_on(c)+[('start in the domain',IN(c.init_value))]+_lim(c),
  ensures=lambda c:fixed(c)+[('result in the domain',IN(var(c))),('a start that hits the target is returned',IMP(ohit(c,c.init_value),var(c)==c.init_value))],
  loops=[Loop(inv=lambda c:[('in the domain',IN(c.v('val_last'))),('a start that hits the target is kept',IMP(ohit(c.old,c.old.init_value),c.v('val_last')==c.old.init_value)),_cnt(c)],dec=_dec,
              step_hints=lambda c:opt(c,'gk',lambda g:IMP(ohit(c.old,c.old.init_value),g==0))+opt(c,'u_new',lambda u:IMP(ohit(c.old,c.old.init_value),u==c.head('val_last')))),
         Loop(inv=ls,dec=lsd)])
con('Surface::BinarySearchParameterOn(Vec3,int,real,real,real)','point direction constant epsilon max_iteration_count',props=['C22'],
  requires=lambda c:_on(c)+_lim(c),ensures=lambda c:fixed(c)+[('result in the domain',IN(var(c)))],
  loops=[Loop(inv=lambda c:[('bracket in the domain',AND(0<=c.v('low'),c.v('low')<=c.v('high'),c.v('high')<=1)),('iterations',AND(c.v('count')>=0,TR(c.v('count'))<=c.old.max_iteration_count+1))],dec=_dec)])
