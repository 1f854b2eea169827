#!/usr/bin/env python3
"""mut.py FILE FUNC[,FUNC..] CHECK [max]: mutates the functions in a scratch copy, runs the check, lists the mutants it misses."""
import ast, copy, os, random, re, shutil, subprocess, sys
F, FUNCS, CHECK = sys.argv[1], sys.argv[2].split(","), sys.argv[3]
MAX = int(sys.argv[4]) if len(sys.argv) > 4 else 60
WT = f"/tmp/mut_{CHECK}"
if not os.path.exists(WT):
    subprocess.check_call(["cp", "-a", "/repo", WT])
subprocess.check_call(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(["git", "-C", WT, "checkout", "-q", "-f", "FETCH_HEAD"])
src = open(f"{WT}/{F}").read()
tree = ast.parse(src)
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def muts(fn):
    """yields (description, apply(node) in place) as index paths"""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                if type(op) in CMP:
                    yield i, ("cmp", k)
        if isinstance(n, ast.BoolOp):
            yield i, ("bool",)
            for k in range(len(n.values)):
                yield i, ("drop", k)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield i, ("not",)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield i, ("neg",)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield i, ("const",)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield i, ("bin",)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, b in ((r"_e$", ""), (r"_0$", ""), (r"^l", "u"), (r"^u([bhg])", r"l\1"), (r"^nx$", "nu"), (r"^nbx", "nbu"), (r"^nsh", "nsg")):
                if re.search(a, n.attr):
                    yield i, ("attr", a, b)
        if isinstance(n, (ast.Raise, ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            yield i, ("del",)


def apply(fn, i, m):
    n = list(ast.walk(fn))[i]
    before = ast.unparse(n)
    if m[0] == "cmp":
        n.ops[m[1]] = CMP[type(n.ops[m[1]])]()
    elif m[0] == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif m[0] == "drop":
        del n.values[m[1]]
        if len(n.values) == 1:
            n.values = [n.values[0], ast.Constant(isinstance(n.op, ast.And))]
    elif m[0] == "not":
        n.op = ast.UAdd(); n.operand = ast.Call(ast.Name("bool", ast.Load()), [n.operand], [])
    elif m[0] == "neg":
        n.op = ast.UAdd()
    elif m[0] == "const":
        n.value = n.value + 1
    elif m[0] == "bin":
        n.op = BIN[type(n.op)]()
    elif m[0] == "attr":
        n.attr = re.sub(m[1], m[2], n.attr)
    elif m[0] == "del":
        for p in ast.walk(fn):
            for f in ("body", "orelse", "finalbody"):
                l = getattr(p, f, None)
                if isinstance(l, list) and n in l:
                    l[l.index(n)] = ast.copy_location(ast.Pass(), n)
        return getattr(n, "lineno", 0), f"deleted: {before[:110]}"
    return getattr(n, "lineno", 0), f"{before[:100]}  ->  {ast.unparse(n)[:100]}"


def in_raise(fn, i):
    n = list(ast.walk(fn))[i]
    for p in ast.walk(fn):
        if isinstance(p, ast.Raise) and n is not p and n in ast.walk(p):
            return True
        if isinstance(p, ast.Call) and ast.unparse(p.func) in ("print", "warnings.warn") and n in ast.walk(p):
            return True
        if isinstance(p, ast.Expr) and isinstance(p.value, ast.Constant) and n in ast.walk(p):
            return True
    return False


todo = []
for node in ast.walk(tree):
    if isinstance(node, ast.FunctionDef) and (node.name in FUNCS):
        for i, m in muts(node):
            if not in_raise(node, i):
                todo.append((node.name, node.lineno, i, m))
random.Random(int(os.environ.get("MSEED", "7"))).shuffle(todo)
print(len(todo), "mutants; running", min(MAX, len(todo)))
caught = 0
for name, line, i, m in todo[:MAX]:
    t = copy.deepcopy(tree)
    fn = next(n for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and n.name == name and n.lineno == line)
    ln, desc = apply(fn, i, m)
    try:
        out = ast.unparse(ast.fix_missing_locations(t))
        compile(out, F, "exec")
    except Exception as e:
        continue
    open(f"{WT}/{F}", "w").write(out)
    r = subprocess.run(["/verif/run.sh", CHECK], env=dict(os.environ, VF_REPO=WT), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 1 and "VIOLATION" in r.stdout:
        caught += 1
        if "no-failing" in r.stdout:
            print(f"NOINPUT {name}:{ln} {desc}", flush=True)
    else:
        print(f"MISSED rc={r.returncode} {name}:{ln} {desc} | {r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else ''}", flush=True)
open(f"{WT}/{F}", "w").write(src)
print("caught", caught)
