"""Print a module without docstrings (reading aid)."""
import ast, sys
for p in sys.argv[1:]:
    t = ast.parse(open(p).read())
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and ast.get_docstring(n) is not None:
            n.body = n.body[1:] or [ast.Pass()]
    print("#", p); print(ast.unparse(t))
