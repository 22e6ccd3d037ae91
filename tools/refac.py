"""Behaviour-preserving rewriting of every source file."""
import ast, sys, os, copy, builtins
class Locals(ast.NodeVisitor):
    def __init__(s): s.st=set(); s.bad=set()
    def visit_Name(s,n):
        if isinstance(n.ctx,(ast.Store,ast.Del)): s.st.add(n.id)
    def visit_Global(s,n): s.bad|=set(n.names)
    visit_Nonlocal=visit_Global
    def visit_FunctionDef(s,n): s.bad.add(n.name); s.generic_visit(n)
    def visit_ExceptHandler(s,n):
        if n.name: s.bad.add(n.name)
        s.generic_visit(n)
    def visit_Import(s,n):
        for a in n.names: s.bad.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom=visit_Import
    def visit_arg(s,n): s.bad.add(n.arg)
class Ren(ast.NodeTransformer):
    def __init__(s,m): s.m=m
    def visit_Name(s,n):
        n.id=s.m.get(n.id,n.id); return n
class T(ast.NodeTransformer):
    def __init__(s,cls=False): s.k=0
    def visit_If(s,n):
        s.generic_visit(n)
        if n.orelse and not (len(n.orelse)==1 and isinstance(n.orelse[0],ast.If)):
            n.test=ast.UnaryOp(ast.Not(),n.test); n.body,n.orelse=n.orelse,n.body
        return n
    def visit_ListComp(s,n):
        s.generic_visit(n)
        return ast.Call(ast.Name('list',ast.Load()),[ast.GeneratorExp(n.elt,n.generators)],[])
    def visit_Return(s,n):
        s.generic_visit(n)
        if n.value is None or isinstance(n.value,(ast.Name,ast.Constant)): return n
        s.k+=1; v='ret_%d'%s.k
        return [ast.Assign([ast.Name(v,ast.Store())],n.value),ast.Return(ast.Name(v,ast.Load()))]
    def visit_Compare(s,n):
        s.generic_visit(n)
        sw={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE}
        if len(n.ops)==1 and type(n.ops[0]) in sw:
            return ast.Compare(n.comparators[0],[sw[type(n.ops[0])]()],[n.left])
        return n
def func(n,cls,out):
    L=Locals()
    for b in n.body: L.visit(b)
    for a in ast.walk(n.args):
        if isinstance(a,ast.arg): L.bad.add(a.arg)
    m={x:x+'_v' for x in L.st-L.bad}
    n.body=[Ren(m).visit(b) for b in n.body]
    T().visit(n)
    # helper extracted
    if n.decorator_list or n.name.startswith('__') or any(isinstance(x,(ast.Yield,ast.YieldFrom)) for x in ast.walk(n)): return [n]
    if any(isinstance(x,ast.Name) and x.id=='super' for x in ast.walk(n)): return [n]
    a=n.args
    if a.vararg or a.kwarg or a.kwonlyargs: return [n]
    h=ast.FunctionDef('_'+n.name+'_body',copy.deepcopy(a),n.body,[],None); h.args.defaults=[]
    names=[x.arg for x in a.args]
    if cls:
        fn=ast.Attribute(ast.Name(names[0],ast.Load()),h.name,ast.Load()); names=names[1:]
    else: fn=ast.Name(h.name,ast.Load())
    call=ast.Call(fn,[ast.Name(x,ast.Load()) for x in names],[])
    doc=[n.body[0]] if isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) else []
    w=ast.FunctionDef(n.name,a,doc+[ast.Return(call)],[],None)
    return [h,w]
def mod(t):
    body=[]
    for n in t.body:
        if isinstance(n,ast.FunctionDef): body+=func(n,False,None)
        elif isinstance(n,ast.ClassDef):
            nb=[]
            for x in n.body:
                nb+=func(x,True,None) if isinstance(x,ast.FunctionDef) else [x]
            n.body=nb; body.append(n)
        else: body.append(n)
    t.body=body
    return ast.fix_missing_locations(t)
for r,d,fs in os.walk(sys.argv[1]):
    for f in fs:
        if f.endswith('.py') and f not in('refine.py','test.py'):
            p=os.path.join(r,f); s=open(p,encoding='utf-8').read()
            try:
                o=ast.unparse(mod(ast.parse(s)))
                compile(o,p,'exec')
            except SyntaxError as e: print(p,e); continue
            open(p,'w',encoding='utf-8').write('# -*- coding: utf-8 -*-\n'+o+'\n')
