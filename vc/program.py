"""Loads all translation units of /repo and resolves declarations, definitions and contracts."""
import os, glob, sys, z3
from concurrent.futures import ThreadPoolExecutor
import astload
from astload import *
from sym import *
import sym
from exec import Exec, Mismatch, Unsupported
import builtins_ as _b
class Program:
    def __init__(s,contracts):
        s.byid={}; s.defs={}; s.enumconst={}; s.globals={}; s.errs=[]; s.contracts=contracts; s.alldecls={}; s.statics=set()
        files=sorted(glob.glob(astload.REPO+'/src/**/*.cpp',recursive=True))+[astload.VERIF+'/vc/inst.cpp']
        with ThreadPoolExecutor(8) as ex: tus=list(ex.map(astload.load,files))
        T.structs.clear(); T.alias.clear(); T.enums.clear()
        s.tus=tus; sym.add_models()
        for tu in tus:
            s.errs+=tu.errs
            s.byid.update(tu.byid); s.enumconst.update(tu.enumconst)
            for k,v in tu.alias.items(): T.alias.setdefault(k,v)
            T.enums|=tu.enums
            for k,v in tu.classes.items():
                if k.startswith('std::') or k.startswith('Eigen::'): continue
                T.structs.setdefault(k,v)
            for m,f in tu.funcs.items():
                if m is None or 'Derived' in (f.t or ''): continue
                if m not in s.defs: s.defs[m]=f
        for tu in tus:
            for n in walk(tu.root):
                if n.k in('VarDecl',) and n.id: s.globals[n.id]=n
                if n.k in FUNCS and n.get('mangledName'):
                    s.alldecls.setdefault(n.get('mangledName'),[]).append(n)
                    if n.get('storageClass')=='static': s.statics.add(n.get('mangledName'))
        s.builtins=_b.B()
        s.bysig={}
        for m,f in s.defs.items():
            if s.is_repo(f):
                g=sigof(f)
                if g in s.bysig:   # const / non-const overloads
                    o=s.bysig[g]
                    if (f.t or '').rstrip().endswith('const'): s.bysig[g+' const']=f; continue
                    s.bysig[g+' const']=o
                s.bysig[g]=f
        s.cbymangled={}
        for c in contracts.values():
            f=s.bysig.get(c.name)
            if f is not None: s.cbymangled[f.get('mangledName')]=c
    def is_repo(s,f): return bool(f.file) and not f.file.startswith(astload.VERIF+'/stubs')
    def is_stub(s,f): return not s.is_repo(f)
    def is_static(s,f): return f.get('mangledName') in s.statics and f.d.get('owner')
    def definition(s,d):
        if d is None: return None
        m=d.get('mangledName')
        if m in s.defs: return s.defs[m]
        if body_of(d) is not None: return d
        return None
    def decls(s,f): return s.alldecls.get(f.get('mangledName'),[])
    def contract_for(s,f):
        if f is None: return None
        c=s.cbymangled.get(f.get('mangledName'))
        if c is None or c.inline: return None
        return c
    def rename(s,ctx,name): return None
def tyname(ty):
    k=ty[0]
    if k=='int': return {(32,True):'int',(64,False):'size',(64,True):'long'}.get((ty[1],ty[2]),'int')
    if k=='vec': return f'vec<{tyname(ty[1])}>'
    if k=='mat': return f'Vec{ty[1]}' if ty[2]==1 else f'Mat{ty[1]}x{ty[2]}'
    if k=='dmat': return 'MatX'
    if k=='struct' and ty[1][0]=='$': return {'$str':'string','$is':'istream','$os':'ostream'}[ty[1]]
    if k=='struct': return ty[1].split('libnurbs::')[-1].replace('Eigen::Matrix<double, ','Vec').replace(', 1>','') if '<' not in ty[1] else 'Grid'
    if k=='opaque': return ty[1]
    if k=='tuple': return '('+','.join(tyname(t) for t in ty[1])+')'
    return k
def sigof(f):
    q=(f.d.get('qname') or f.name).replace('libnurbs::','').replace('Eigen::Matrix<double, 4, 1>','Vec4').replace('Eigen::Matrix<double, 3, 1>','Vec3')
    ps=[]
    for p in params(f):
        try: ps.append(tyname(T.parse(p.t)))
        except Unsupported: ps.append('?')
    return f"{q}({','.join(ps)})"
class Contract:
    """name: signature as printed by sigof; params: own names by position"""
    def __init__(s,name,params='',requires=None,ensures=None,throws=None,throw_type=None,modifies=(),loops=(),hints=None,inline=False,nan=False,ret_ty=None,ret_lv=None,assumed=None,props=(),throws_at=None,value=None):
        s.value=value
        s.throws_at=throws_at
        s.name=name; s.pnames=params.split() if isinstance(params,str) else list(params); s.short=name.split('(')[0]
        s._r=requires; s._e=ensures; s._t=throws; s.throw_type=throw_type; s.modifies=set(modifies); s.loops=list(loops); s._h=hints; s.inline=inline; s.nan=nan; s.ret_ty=ret_ty; s.ret_lv=ret_lv; s.assumed=assumed; s.props=props
    def requires(s,c): return list(s._r(c)) if s._r else []
    def ensures(s,c): return list(s._e(c)) if s._e else []
    def throws(s,c): return s._t(c) if s._t else None
    def hints(s,c): return list(s._h(c)) if s._h else []
