#!/opt/veriftools/pyvenv/bin/python
"""Which lines of the package do the checks execute?  tools/cov.py [scale]  -> lists unexecuted lines per file.
Runs every check with few cases and line tracing in the workers (slow); evidence is not written."""
import ast, glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("PBT_REPO", "/repo")
scale = sys.argv[1] if len(sys.argv) > 1 else ".05"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
out = tempfile.mkdtemp(prefix="cov")
for p in ids:
    r = subprocess.run(["./check", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, PBT_COV=out, PBT_SCALE=scale, PBT_NO_EVIDENCE="1", PBT_REPO=R))
    print(p, r.stdout.strip().splitlines()[-1][:120], flush=True)
seen = set()
for f in glob.glob(out + "/*.json"):
    seen |= {(os.path.realpath(a), b) for a, b in json.load(open(f))}
shutil.rmtree(out)
tot = miss = 0
for root, _, fs in os.walk(os.path.join(R, "pytracer")):
    for fn in sorted(fs):
        if not fn.endswith(".py"):
            continue
        p = os.path.realpath(os.path.join(root, fn))
        src = open(p).read()
        lines = src.splitlines()
        todo = set()
        for fd in ast.walk(ast.parse(src)):
            if isinstance(fd, (ast.FunctionDef,)):
                for n in ast.walk(fd):
                    if isinstance(n, ast.stmt) and n is not fd and not isinstance(n, ast.FunctionDef) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                        todo.add(n.lineno)
        bad = sorted(l for l in todo if (p, l) not in seen)
        tot += len(todo)
        miss += len(bad)
        bad = [l for l in bad if "raise NotImplementedError" not in lines[l - 1]]
        if bad:
            print("==", os.path.relpath(p, R))
            for l in bad:
                print("  %d %s" % (l, lines[l - 1].strip()[:110]))
print("executed %d of %d statements" % (tot - miss, tot))
