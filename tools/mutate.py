#!/opt/veriftools/pyvenv/bin/python
"""Mutation search for gaps in the checks: tools/mutate.py OUT N [file substring...]
Random small changes to the sources in scratch copies under /tmp/mut, judged by the quick checks of the properties anchored
in the changed file (one shard, no shrinking). Survivors are printed to OUT with their diff; nothing in /repo is touched."""
import ast, json, os, random, shutil, subprocess, sys, threading, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/tmp/wr")
W = int(os.environ.get("MUT_W", "6"))
EXTRA = {"pytracer/shape/__init__.py": ["P05", "P06", "P07", "P08"], "pytracer/shape/sphere.py": ["P05", "P06", "P07", "P08"], "pytracer/shape/cylinder.py": ["P05", "P06", "P07", "P08"],
         "pytracer/shape/disk.py": ["P05", "P06", "P07", "P08"], "pytracer/shape/triangle.py": ["P05", "P06", "P07", "P08", "P11"], "pytracer/shape/loopsubdiv.py": ["P09"],
         "pytracer/aggregate/primitive.py": ["P11"], "pytracer/camera/camera.py": ["P12", "P30"], "pytracer/geometry/diffgeom.py": ["P06", "P11"],
         "pytracer/integrator/integrator.py": ["P29", "P30"], "pytracer/integrator/surface/surface.py": ["P29", "P30"], "pytracer/light/utility.py": ["P27"],
         "pytracer/material/material.py": ["P26", "P22"], "pytracer/utility/utility.py": ["P33"], "pytracer/data/volume.py": ["P28"]}
FILES = collections.defaultdict(list)
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    for f in p["anchors"]["files"]:
        if f.endswith(".py"):
            FILES[f].append(p["id"])
for f in EXTRA:
    FILES[f] = EXTRA[f]
for f in ("pytracer/data/noise.py", "pytracer/data/spectral.py", "pytracer/interface/__init__.py"):
    FILES.pop(f, None)
SWAP = {"minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "sin": "cos", "cos": "sin", "ceil": "floor", "floor": "ceil", "ctoi": "ftoi", "ftoi": "ctoi"}
ATTR = {"x": "y", "y": "z", "z": "x", "dpdu": "dpdv", "dpdv": "dpdu", "dndu": "dndv", "dndv": "dndu", "pMin": "pMax", "pMax": "pMin", "u": "v", "v": "u", "m": "m_inv", "m_inv": "m",
        "mint": "maxt", "maxt": "mint", "dudx": "dudy", "dvdx": "dvdy", "dudy": "dudx", "dvdy": "dvdx", "o2w": "w2o", "w2o": "o2w", "cos": "sin", "w2l": "l2w", "l2w": "w2l", "nn": "nn * -1.", "tangent": "nn"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    bl = [l.encode() for l in lines]
    for l in bl:
        offs.append(offs[-1] + len(l) + 1)
    data = src.encode()
    out = []

    def rng(n): return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def add(n, text, what):
        a, b = rng(n)
        if data[a:b].decode() != text:
            out.append((a, b, text, n.lineno, what))

    def seg(n):
        a, b = rng(n)
        return data[a:b].decode()

    def P(n): return "(" + seg(n) + ")"

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            if n.name in ("__repr__", "__str__"):
                skip.update(id(x) for x in ast.walk(n))
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip.update(id(x) for x in ast.walk(a.annotation))
            if n.returns:
                skip.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and (getattr(n.func, "attr", "") in ("logging", "format") or getattr(n.func, "id", "") in ("print", "super", "TypeError", "ValueError")):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assign) and any(getattr(t, "id", "") == "__all__" for t in n.targets):
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            L, R = P(n.left), P(n.comparators[0])
            for t in {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}.get(o, []):
                add(n, "(%s %s %s)" % (L, t, R), "compare " + t)
        elif isinstance(n, ast.BinOp):
            L, R = P(n.left), P(n.right)
            for t in {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.Pow: ["*"]}.get(type(n.op), []):
                add(n, "(%s %s %s)" % (L, t, R), "binop " + t)
            add(n, L, "drop right")
            if not isinstance(n.op, (ast.Sub, ast.Div)):
                add(n, R, "drop left")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            add(n, repr(n.value + 1), "const +1")
            if n.value:
                add(n, "(" + repr(-n.value) + ")", "const neg")
                add(n, repr(n.value * .9) if isinstance(n.value, float) else repr(n.value - 1), "const less")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, repr(not n.value), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, P(n.operand), "drop unary")
        elif isinstance(n, ast.BoolOp):
            vs = [P(v) for v in n.values]
            add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(vs) + ")", "and/or")
            for i in range(len(vs)):
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(vs[:i] + vs[i + 1:]) + ")", "drop cond")
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "if True")
            add(n.test, "False", "if False")
        elif isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
            if nm in SWAP:
                f = seg(n.func)
                add(n.func, f[:len(f) - len(nm)] + SWAP[nm], "swap " + nm)
            if nm in ("abs", "fabs", "sqrt", "normalize", "inverse", "copy", "clip") and len(n.args) >= 1:
                add(n, P(n.args[0]), "drop " + nm)
            if nm in ("inverse", "copy") and not n.args and isinstance(n.func, ast.Attribute):
                add(n, P(n.func.value), "drop " + nm)
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                k = min(len(n.args) - 1, 2)
                for i in range(k):
                    a = [seg(x) for x in n.args]
                    a[i], a[i + 1] = a[i + 1], a[i]
                    x0, x1 = rng(n.args[0])[0], rng(n.args[-1])[1]
                    t = ", ".join(a)
                    if t != ", ".join(seg(x) for x in n.args):
                        out.append((x0, x1, t, n.lineno, "swap args"))
        elif isinstance(n, ast.Attribute) and n.attr in ATTR and isinstance(n.ctx, ast.Load):
            s = seg(n)
            add(n, s[:len(s) - len(n.attr)] + ATTR[n.attr], "attr")
        elif isinstance(n, ast.AugAssign):
            s = seg(n)
            for o, t in (("+=", "-="), ("*=", "/="), ("-=", "+="), ("/=", "*=")):
                if o in s:
                    add(n, s.replace(o, t, 1), "aug")
            add(n, "pass", "drop stmt")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "drop stmt")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "drop call")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "drop jump")
    return data, out


def main():
    outp, N, subs = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    R = random.Random(int(os.environ.get("MUT_SEED", "1")))
    files = [f for f in sorted(FILES) if not subs or any(s in f for s in subs)]
    todo = []
    for f in files:
        data, ms = mutants(open(os.path.join(SRC, f)).read())
        for m in ms:
            todo.append((f, data, m))
    print(len(todo), "mutants possible")
    R.shuffle(todo)
    todo = todo[:N]
    lock = threading.Lock()
    cnt = collections.Counter()
    only = os.environ.get("MUT_PROPS", "").split()

    def work(k):
        d = "/tmp/mut/w%d" % k
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", SRC + "/pytracer", d], check=True)
        env = dict(os.environ, PBT_REPO=d, PBT_NO_EVIDENCE="1", PBT_NOSHRINK="1", PBT_SHARDS="1", PYTHONDONTWRITEBYTECODE="1", PBT_BUDGET="800")
        while True:
            with lock:
                if not todo:
                    return
                f, data, (a, b, text, line, what) = todo.pop()
            new = data[:a] + text.encode() + data[b:]
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            p = os.path.join(d, f)
            open(p, "wb").write(new)
            verdict, by = "SURVIVED", ""
            for pid in (only or FILES[f]):
                r = subprocess.run("ulimit -v 8000000; nice -n 15 ./check " + pid, shell=True, cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    verdict, by = "caught", pid
                    break
                if r.returncode != 0:
                    verdict, by = "harness", pid
                    break
            open(p, "wb").write(data)
            with lock:
                cnt[verdict] += 1
                if verdict != "caught":
                    old = data.decode().split("\n")[line - 1]
                    with open(outp, "a") as o:
                        o.write("%s %s:%d [%s] %s\n   - %s\n   + %s\n" % (verdict, f, line, what, by, old.strip(), new.decode().split("\n")[line - 1].strip()))
                        if verdict == "harness":
                            o.write("   ! %s\n" % r.stdout.strip().split("\n")[-1][:200])
                if sum(cnt.values()) % 50 == 0:
                    with open(outp, "a") as o:
                        o.write("# %s left %d\n" % (dict(cnt), len(todo)))

    ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    with open(outp, "a") as o:
        o.write("# done %s\n" % dict(cnt))
    shutil.rmtree("/tmp/mut", ignore_errors=True)


main()
