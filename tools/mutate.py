"""tools/mutate.py FILE CHECKS N SEED [OUT]: N random syntactic mutants of one module in a scratch copy; which survive CHECKS.
A way to look for blind spots; it decides nothing."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rel, checks, n, seed = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4])
out = open(sys.argv[5], "a") if len(sys.argv) > 5 else sys.stdout
src = open("/repo/" + rel).read()
tree = ast.parse(src)
lines = src.splitlines(keepends=True)
off = [0]
for l in lines: off.append(off[-1] + len(l.encode()))
B = src.encode()
seg = lambda a: B[off[a.lineno - 1] + a.col_offset: off[a.end_lineno - 1] + a.end_col_offset].decode()
span = lambda a: (off[a.lineno - 1] + a.col_offset, off[a.end_lineno - 1] + a.end_col_offset)
muts = []
skipfn = set(os.environ.get("MUT_SKIP", "print_BC_info,printInfo,make_video,make_scatter,dynamic_relax_solve,test_jacobi_precond,assembleCSR,calC,assembleVec").split(","))


def visit(node, skip):
    for c in ast.iter_child_nodes(node):
        s = skip or (isinstance(c, ast.FunctionDef) and c.name in skipfn)
        if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and isinstance(c.value.func, ast.Name) and c.value.func.id == "print": continue
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "logger": continue
        if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant): continue
        if isinstance(c, (ast.Assert, ast.JoinedStr, ast.Raise)): continue
        if not s: cand(c)
        visit(c, s)


def cand(c):
    if isinstance(c, ast.BinOp):
        a, b = span(c.left)[1], span(c.right)[0]
        op = B[a:b].decode()
        for x, y in (("+", "-"), ("-", "+"), ("**", "*"), ("*", "/"), ("/", "*"), ("@", None), ("//", None), ("%", None)):
            if x in op and y and not (x == "*" and "**" in op) and not (x == "/" and "//" in op):
                muts.append((a, b, op.replace(x, y), c.lineno)); break
    elif isinstance(c, ast.Compare) and len(c.ops) == 1:
        a, b = span(c.left)[1], span(c.comparators[0])[0]
        op = B[a:b].decode()
        for x, y in (("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("<", ">="), (">", "<=")):
            if x in op:
                muts.append((a, b, op.replace(x, y), c.lineno)); break
    elif isinstance(c, ast.Constant) and not isinstance(c.value, (str, bytes, type(None), type(Ellipsis))):
        a, b = span(c)
        v = c.value
        if isinstance(v, bool): muts.append((a, b, str(not v), c.lineno))
        elif isinstance(v, int):
            muts.append((a, b, str(v + 1), c.lineno))
            if v > 0: muts.append((a, b, str(v - 1), c.lineno))
        elif isinstance(v, float): muts.append((a, b, repr(v * 1.25 if v else 0.1), c.lineno))
    elif isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.USub, ast.Not)):
        a, b = span(c); muts.append((a, b, "(" + seg(c.operand) + ")", c.lineno))
    elif isinstance(c, ast.Call) and len(c.args) == 3 and isinstance(c.func, ast.Attribute) and c.func.attr in ("where", "cond"):
        muts.append((span(c.args[1])[0], span(c.args[2])[1], seg(c.args[2]) + ", " + seg(c.args[1]), c.lineno))
    elif isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("maximum", "minimum", "max", "min", "logical_or", "logical_and", "any", "all", "argmax", "argmin"):
        sw = dict(maximum="minimum", minimum="maximum", max="min", min="max", logical_or="logical_and", logical_and="logical_or", any="all", all="any", argmax="argmin", argmin="argmax")
        e = span(c.func)[1]; muts.append((e - len(c.func.attr), e, sw[c.func.attr], c.lineno))
    elif isinstance(c, ast.Subscript) and isinstance(c.slice, ast.Tuple) and len(c.slice.elts) >= 2:
        pass
    elif isinstance(c, (ast.Assign, ast.AugAssign)) and isinstance(c, ast.AugAssign):
        pass


visit(tree, False)
random.Random(seed).shuffle(muts)
work = tempfile.mkdtemp(prefix="mut_")
try:
    subprocess.run(["cp", "-a", "/repo/.", work + "/repo"], check=True)
    done = 0
    for a, b, new, ln in muts:
        if done >= n: break
        m = (B[:a] + new.encode() + B[b:]).decode()
        try: compile(m, rel, "exec")
        except SyntaxError: continue
        open(f"{work}/repo/{rel}", "w").write(m)
        done += 1
        t = time.time(); res = "SURVIVED"
        for c in checks:
            r = subprocess.run([f"{HERE}/run", c], env=dict(os.environ, VP_REPO=work + "/repo", VP_NOEVIDENCE="1", VP_SHRINK="0"), capture_output=True, text=True)
            if r.returncode == 1:
                msg = [l for l in r.stdout.splitlines() if "facet" in l]
                res = f"killed {c} {msg[0].strip()[:110] if msg else ''}"; break
            if r.returncode not in (0, 1):
                res = f"error {c} rc={r.returncode} {(r.stdout + r.stderr)[-200:]!r}"; break
        new_line = m.splitlines()[ln - 1].strip()
        print(f"{rel}:{ln} [{B[a:b].decode().strip()!r}->{new.strip()!r}] {time.time() - t:.0f}s {res}\n     {new_line[:150]}", file=out, flush=True)
finally:
    shutil.rmtree(work, ignore_errors=True)
