"""
Test of the verifier: mutate a function of /repo in a scratch copy and see which
mutants the deductive part refutes.   python tools/mutate.py C02 constraints.py define_ramp [max] [seed]
"""
import ast, copy, os, random, shutil, subprocess, sys, tempfile, pathlib
prop, fname, func = sys.argv[1:4]
mx = int(sys.argv[4]) if len(sys.argv) > 4 else 40
seed = int(sys.argv[5]) if len(sys.argv) > 5 else 0
sel = sys.argv[6] if len(sys.argv) > 6 else func
src = next(p for p in pathlib.Path("/repo/pypsa").rglob("*.py") if str(p).endswith(fname))
rel = src.relative_to("/repo")
tree = ast.parse(src.read_text())
SW = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
      ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.And: ast.Or, ast.Or: ast.And, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.In: ast.NotIn, ast.NotIn: ast.In}
STR = {"p_min_pu": "p_max_pu", "lower": "upper", "<=": ">=", "=": "<=", ">=": "<=", "up_time_before": "down_time_before", "efficiency_store": "efficiency_dispatch",
       "objective": "generators", "stores": "objective", "bus": "bus1", "min_units": "max_units", "e_initial": "e_sum_min", "first": "last", "ramp_limit_up": "ramp_limit_down"}
def funcs(t):
    return [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and func in n.name]
def sites(t):
    out = []
    for fi, f in enumerate(funcs(t)):
        for i, n in enumerate(ast.walk(f)):
            i = (fi, i)
            if isinstance(n, ast.BinOp) and type(n.op) in SW: out.append((i, "op", 0))
            elif isinstance(n, ast.BoolOp): out.append((i, "op", 0))
            elif isinstance(n, ast.Compare) and type(n.ops[0]) in SW: out.append((i, "cmp", 0))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool): out.append((i, "const", not n.value))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)): out.append((i, "const", n.value + 1)); 
            elif isinstance(n, ast.Constant) and n.value in STR: out.append((i, "const", STR[n.value]))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)): out.append((i, "unary", 0))
            elif isinstance(n, ast.If): out.append((i, "if", True)); out.append((i, "if", False))
            for fld in ("body", "orelse"):
                b = getattr(n, fld, None)
                if isinstance(b, list):
                    for k, s in enumerate(b):
                        if isinstance(s, (ast.AugAssign,)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or \
                           isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and any(isinstance(z, ast.Name) and z.id == s.targets[0].id for z in ast.walk(s.value)):
                            out.append((i, "drop:" + fld, k))
    return out
def apply(site):
    t = copy.deepcopy(tree)
    i, k, v = site
    if True:
        f = funcs(t)[i[0]]
        n = list(ast.walk(f))[i[1]]
        d = f"{f.name[-30:]}:{getattr(n,'lineno','?')}: "
        old = ast.unparse(n)[:90] if not k.startswith("drop") else ast.unparse(getattr(n, k[5:])[v])[:90]
        if k == "op": n.op = SW[type(n.op)]()
        elif k == "cmp": n.ops[0] = SW[type(n.ops[0])]()
        elif k == "const": n.value = v
        elif k == "unary":
            n.op = {ast.Not: ast.UAdd, ast.Invert: ast.UAdd, ast.USub: ast.UAdd}[type(n.op)]()
            if old.startswith("~"): n.__class__ = ast.BoolOp; n.op = ast.And(); n.values = [n.operand, n.operand]
            elif old.startswith("not"): n.__class__ = ast.BoolOp; n.op = ast.And(); n.values = [n.operand, n.operand]
        elif k == "if": n.test = ast.Constant(v)
        else:
            getattr(n, k[5:])[v] = ast.Pass()
            return t, d + "DROP " + old
        return t, d + old + "  ->  " + ast.unparse(n)[:90]
ss = sites(tree)
random.Random(seed).shuffle(ss)
base = pathlib.Path(tempfile.mkdtemp(prefix="dvmut"))
shutil.copytree("/repo/pypsa", base / "pypsa", ignore=shutil.ignore_patterns("__pycache__"))
tally = {}
try:
    for s in ss[:mx]:
        t, desc = apply(s)
        try:
            txt = ast.unparse(ast.fix_missing_locations(t))
            compile(txt, "x", "exec")
        except Exception as e:
            continue
        (base / rel).write_text(txt)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "dv.verify", prop, sel], cwd="/verif", env={**os.environ, "DV_REPO": str(base), "MAXT": "3", "MAXO": "1", "W": "60"},
                           capture_output=True, text=True, timeout=1500)
        lines = r.stdout.strip().splitlines()
        tot = eval(lines[-1]) if lines and lines[-1].startswith("{") else {}
        v = "killed" if tot.get("refuted") else "undecided" if tot.get("unclean") or not tot else "SURVIVED"
        tally[v] = tally.get(v, 0) + 1
        print(v, "|", desc.replace("\n", " "), "|", "" if v == "killed" else (lines[0][-160:] if lines else r.stderr[-300:]), flush=True)
finally:
    shutil.rmtree(base)
print(tally)
