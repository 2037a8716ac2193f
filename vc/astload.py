"""Front end: clang parses the REAL sources of /repo (against /verif/stubs for std and Eigen) and
dumps its AST as JSON; this module turns the dump into a small tree and indexes functions/classes."""
import json, subprocess, os, hashlib, re
REPO = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18'

class ParseError(Exception): pass

class Node:
    __slots__ = ('k','id','name','t','kids','line','file','d')
    def __init__(s, k, id, name, t, kids, line, file, d):
        s.k=k; s.id=id; s.name=name; s.t=t; s.kids=kids; s.line=line; s.file=file; s.d=d
    def get(s, key, default=None): return s.d.get(key, default)
    def __repr__(s): return f'<{s.k} {s.name or ""} {s.t or ""} @{s.line}>'

KEEP = {'opcode','value','isArrow','castKind','mangledName','referencedDecl','referencedMemberDecl','isPostfix','hasElse','hasInit','hasVar',
        'init','parentDeclContextId','previousDecl','tagUsed','storageClass','list','elidable','computeLHSType','conversionFunc',
        'explicitlyDefaulted','isImplicit','inline','anyInit','ctorType','constructionKind','definitionData','bases','initializer',
        'hasExplicitTemplateArgs','completeDefinition','nrvo','argType','targetLabelDeclId','labels','capture','virtual','constexpr','field','isUsed'}

class TU:
    def __init__(s, path, root, errs):
        s.path=path; s.root=root; s.byid={}; s.funcs={}; s.classes={}; s.errs=errs; s.enumconst={}; s.qual={}; s.alias={}; s.enums=set()

def desugar(ty):
    if not ty: return None
    return ty.get('desugaredQualType') or ty.get('qualType')

_tuno=[0]
def build(j):
    st={'file':None,'line':None}
    _tuno[0]+=1; pre=f'{_tuno[0]}:'
    def fixid(v):
        if isinstance(v,str): return pre+v
        if isinstance(v,dict):
            v=dict(v)
            if 'id' in v: v['id']=pre+v['id']
            return v
        return v
    IDK={'referencedDecl','referencedMemberDecl','parentDeclContextId','previousDecl','anyInit','field','foundReferencedDecl','targetLabelDeclId'}
    def loc(o):
        # bare location; updates running file/line
        if not o: return (None,None)
        if 'spellingLoc' in o or 'expansionLoc' in o:
            a=loc(o.get('spellingLoc')); b=loc(o.get('expansionLoc'))
            return b if b[1] else a
        if 'file' in o: st['file']=o['file']
        if 'line' in o: st['line']=o['line']
        if 'offset' not in o and 'col' not in o and 'line' not in o: return (None,None)
        return (st['file'],st['line'])
    def rec(o):
        f,l = loc(o.get('loc')) if 'loc' in o else (None,None)
        r=o.get('range')
        if r:
            bf,bl=loc(r.get('begin')); loc(r.get('end'))
            if l is None: f,l=bf,bl
        d={}
        for kk,vv in o.items():
            if kk in KEEP: d[kk]=fixid(vv) if kk in IDK else vv
        kids=[]
        for c in o.get('inner',()):
            kids.append(rec(c) if c else None)
        if 'array_filler' in o: d['array_filler']=[rec(c) for c in o['array_filler'] if c]
        return Node(o.get('kind'), (pre+o['id']) if 'id' in o else None, o.get('name'), desugar(o.get('type')), kids, l, f, d)
    import sys
    sys.setrecursionlimit(20000)
    return rec(j)

def load(path, extra=()):
    cmd=[CLANG,'-std=c++23','-nostdinc','-nostdinc++','-isystem',VERIF+'/stubs','-I',REPO+'/include','-fsyntax-only','-w','-Wno-invalid-constexpr',
         '-ferror-limit=0','-Xclang','-ast-dump=json',*extra,path]
    p=subprocess.run(cmd,capture_output=True)
    errs=[l for l in p.stderr.decode(errors='replace').splitlines() if ' error: ' in l and 'does not have linkage' not in l and 'internal linkage but is not defined' not in l]
    if not p.stdout: raise ParseError(f'{path}: clang produced no AST: '+'; '.join(errs[:3]))
    try: j=json.loads(p.stdout)
    except Exception as e: raise ParseError(f'{path}: {e}')
    root=build(j)
    tu=TU(path,root,errs)
    index(tu,root,'',None)
    return tu

FUNCS={'FunctionDecl','CXXMethodDecl','CXXConstructorDecl','CXXDestructorDecl','CXXConversionDecl'}
def index(tu,n,prefix,owner):
    for c in n.kids:
        if c is None: continue
        if c.id: tu.byid[c.id]=c
        if c.k=='NamespaceDecl':
            q=prefix+(c.name+'::' if c.name else '')
            index(tu,c,q,None)
        elif c.k in ('CXXRecordDecl','ClassTemplateSpecializationDecl'):
            if c.name:
                nm=prefix+c.name
                if c.get('parentDeclContextId') in tu.qual: nm=tu.qual[c.get('parentDeclContextId')]+'::'+c.name
                if c.k=='ClassTemplateSpecializationDecl':
                    args=[a.t or a.get('value') for a in c.kids if a and a.k=='TemplateArgument']
                    nm=prefix+c.name+'<'+', '.join(str(a) for a in args)+'>'
                fields=[(f.name,f.t,f) for f in c.kids if f and f.k=='FieldDecl']
                if c.get('completeDefinition') or fields:
                    tu.classes[nm]=dict(node=c,fields=fields)
                tu.qual[c.id]=nm
                index(tu,c,nm+'::',nm)
            else:
                index(tu,c,prefix,owner)
        elif c.k=='ClassTemplateDecl':
            for g in c.kids:
                if g is not None and g.id: tu.byid[g.id]=g
                if g is not None and g.k=='ClassTemplateSpecializationDecl':
                    fake=Node('X',None,None,None,[g],None,None,{})
                    index(tu,fake,prefix,owner)
        elif c.k=='FunctionTemplateDecl':
            for g in c.kids:
                if g is not None and g.id: tu.byid[g.id]=g
                if g is not None and g.k in FUNCS: addfunc(tu,g,prefix,owner)
        elif c.k in FUNCS:
            addfunc(tu,c,prefix,owner)
        elif c.k=='EnumDecl':
            q=prefix+(c.name or '')
            tu.enums.add(q)
            val=-1
            for e in c.kids:
                if e is not None and e.k=='EnumConstantDecl':
                    v=None
                    for x in walk(e):
                        if x.k=='ConstantExpr' and x.get('value') is not None: v=int(x.get('value'))
                    val = v if v is not None else val+1
                    tu.enumconst[e.id]=val; tu.byid[e.id]=e
        elif c.k in('TypeAliasDecl','TypedefDecl'):
            if c.name and c.t and not (c.file or '').startswith(VERIF) and c.file: tu.alias[c.name]=c.t
        elif c.k=='LinkageSpecDecl':
            index(tu,c,prefix,owner)

def walk(n):
    yield n
    for c in n.kids:
        if c is not None: yield from walk(c)

def body_of(f):
    for c in f.kids:
        if c is not None and c.k in ('CompoundStmt','CXXTryStmt'): return c
    return None

def addfunc(tu,f,prefix,owner):
    # out-of-line definitions: find the class through parentDeclContextId
    if f.get('parentDeclContextId') and f.get('parentDeclContextId') in tu.qual:
        owner=tu.qual[f.get('parentDeclContextId')]; prefix=owner+'::'
    f.d['qname']=prefix+(f.name or ''); f.d['owner']=owner
    m=f.get('mangledName')
    tu.byid[f.id]=f
    # local classes / lambdas inside
    if body_of(f) is not None:
        tu.funcs[m]=f
        for x in walk(f):
            if x.id: tu.byid.setdefault(x.id,x)
            if x.k=='CXXRecordDecl' and x.name and x is not f:
                fields=[(g.name,g.t,g) for g in x.kids if g and g.k=='FieldDecl']
                tu.classes.setdefault(x.name,dict(node=x,fields=fields))
                # methods/constructors of local class
                for g in x.kids:
                    if g is not None and g.k in FUNCS: g.d.setdefault('qname',x.name+'::'+(g.name or '')); g.d.setdefault('owner',x.name); tu.byid[g.id]=g
    else:
        for x in walk(f):
            if x.id: tu.byid.setdefault(x.id,x)

def params(f): return [c for c in f.kids if c is not None and c.k=='ParmVarDecl']

def show(n,ind=0,maxd=99):
    if n is None: print(' '*ind+'null'); return
    extra={k:v for k,v in n.d.items() if k in('opcode','value','castKind','isArrow','isPostfix')}
    rd=n.get('referencedDecl')
    if rd: extra['ref']=(rd.get('kind'),rd.get('name'),rd.get('id'))
    print(' '*ind+f'{n.k} {n.name or ""} [{n.t}] {extra} @{n.line}')
    if maxd: 
        for c in n.kids: show(c,ind+1,maxd-1)
if __name__=='__main__':
    import sys
    tu=load(sys.argv[1])
    print(tu.errs)
    for m,f in tu.funcs.items():
        if len(sys.argv)>2:
            if sys.argv[2] in f.d['qname']: print('=====',f.d['qname'],m); show(f)
        else: print(f.d['qname'],m,f.line)
