import ast,sys
for f in sys.argv[1:]:
    t=ast.parse(open(f).read())
    for n in ast.walk(t):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)):
            n.body=[b for b in n.body if not(isinstance(b,ast.Expr) and isinstance(b.value,ast.Constant) and isinstance(b.value.value,str))] or [ast.Pass()]
    print('=====',f); print(ast.unparse(t))
