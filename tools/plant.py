#!/opt/veriftools/pyvenv/bin/python
"""Confirm planted bugs: tools/plant.py FILE...  (python files defining BUGS, a list of dicts)
   id, property, edits [(file, old, new)], demo (python source, run with cwd /repo), needs, what
Writes seeded/<id>/ and reports: demo clean/patched, stable tests, whether the property's quick check catches it."""
import json, os, re, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("PLANT_REPO", "/tmp/wp")   # a scratch copy of /repo
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


only = [a for a in sys.argv[1:] if not a.endswith(".py")]
for fn in [a for a in sys.argv[1:] if a.endswith(".py")]:
    for b in runpy.run_path(fn)["BUGS"]:
        if only and b["id"] not in only:
            continue
        assert sh("git -C " + R + " status --porcelain").stdout.strip() == "", "dirty /repo"
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(R, f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old))
                ln = s[:s.index(old)].count("\n") + 1
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C " + R + " diff").stdout
            blame = ""
            open(os.path.join(d, "patch.diff"), "w").write(diff)
        finally:
            sh("git -C " + R + " checkout -- .")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # lines removed by the patch must be original
        for f, old, new in b["edits"]:
            bl = sh("git -C " + R + " blame -s 1399dee..HEAD -- %s" % f).stdout.splitlines()
            src = open(os.path.join(R, f)).read()
            i0 = src[:src.index(old)].count("\n")
            n = old.count("\n") + 1
            mine = [l for l in bl[i0:i0 + n] if not l.startswith("^")]
            if mine:
                print("  note: context/changed lines touched by my commits:", [l[:90] for l in mine][:3])
        c = sh("bash %s/demo.sh" % d, cwd=R)
        try:
            a = sh("git -C " + R + " apply %s/patch.diff" % d)
            assert a.returncode == 0, a.stdout
            p = sh("bash %s/demo.sh" % d, cwd=R)
            t = sh("RT_REPO=%s %s/rt.sh" % (R, V))
            k = sh("PBT_REPO=%s PBT_NO_EVIDENCE=1 ./check %s" % (R, b["property"]), cwd=V)
        finally:
            sh("git -C " + R + " checkout -- .")
            sh("git -C " + R + " clean -fdq pytracer")
        cj = os.path.join(V, "tools", "caught.json")
        cd = json.load(open(cj)) if os.path.exists(cj) else {}
        hit = re.findall(r"^  (\w+) \[", k.stdout, re.M)
        cd[b["id"]] = "%s: %s" % (b["property"], ", ".join(hit)) if k.returncode == 1 else "missed"
        json.dump(cd, open(cj, "w"), indent=1, sort_keys=True)
        tests = t.stdout.strip().splitlines()[-1:]
        print("%-28s demo clean=%d patched=%d  tests=%s  check=%d %s" % (b["id"], c.returncode, p.returncode, tests, k.returncode,
              [l for l in k.stdout.splitlines() if l.startswith("  ")][:1] if k.returncode else k.stdout[-200:]))
        if c.returncode or not p.returncode:
            print(c.stdout[-600:], p.stdout[-600:])
