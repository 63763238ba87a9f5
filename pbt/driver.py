#!/opt/veriftools/pyvenv/bin/python
"""Property driver (Hypothesis side).

    driver.py P03                      run the checks of one property (VERIF_SEED, VERIF_TIER)
    driver.py P03 --replay FILE        re-run one saved case, without Hypothesis
Exit 0: held.  Exit 1: VIOLATION line printed.  Exit 2: the harness itself failed.
"""
import argparse
import hashlib
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PBT_REPO", "/repo")
PYPY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)

CASE_TIMEOUT = 90.0          # a case normally takes milliseconds
KNOWN = os.path.join(VERIF, "known_findings.txt")


class HarnessError(Exception):
    pass


class Worker(object):
    """A PyPy process executing cases against /repo's working tree."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        env.update(LC_ALL="C.UTF-8", PYTHONHASHSEED="0", PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1",
                   OPENBLAS_NUM_THREADS="1", PYTHONUNBUFFERED="1")
        env["PYTHONWARNINGS"] = "ignore"
        self.err = tempfile.TemporaryFile()
        self.cwd = tempfile.mkdtemp(prefix="pbtw.")
        env["TMPDIR"] = self.cwd
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.cwd)
        self.buf = b""
        self.n = 0

    def stop(self):
        if self.p is not None:
            if os.environ.get("PBT_COV"):    # let the worker write what it has covered
                self.p.stdin.close()
                try:
                    self.p.wait(60)
                except subprocess.TimeoutExpired:
                    pass
            self.p.kill()
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None
            import shutil
            shutil.rmtree(self.cwd, ignore_errors=True)

    def _once(self, req, timeout):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(req)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self._died()
            return None, "died"
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                return None, "timeout"
            r, _, _ = select.select([fd], [], [], left)
            if r:
                c = os.read(fd, 1 << 16)
                if not c:
                    self._died()
                    return None, "died"
                self.buf += c
        line, self.buf = self.buf.split(b"\n", 1)
        self.n += 1
        return json.loads(line.decode()), None

    def _died(self):
        try:
            self.err.seek(0)
            self.last_err = self.err.read()[-2000:].decode("utf-8", "replace")
        except Exception:
            self.last_err = ""
        self.stop()

    def run(self, module, func, args, timeout=CASE_TIMEOUT):
        req = (json.dumps({"m": module, "f": func, "a": args}) + "\n").encode()
        res, err = self._once(req, timeout)
        if err is None and self.n >= 20000:      # bound cpyext growth
            self.stop()
        if err is not None:
            # once more in a fresh process: a machine hiccup is not a violation
            res, err2 = self._once(req, timeout)
            if err2 is not None:
                if err2 == "died" and err == "died":
                    return {"k": "fail", "msg": "the interpreter died on this case: %s" % self.last_err[-300:]}
                return {"k": "fail", "msg": "no answer within %d s, twice, where cases take milliseconds" % timeout}
        if res["k"] == "harness":
            raise HarnessError(res["msg"])
        return res


class CaseFailure(AssertionError):
    pass


def load(pid):
    mod = importlib.import_module("props." + pid.lower())
    return mod


def corpus(pid):
    path = os.path.join(VERIF, "corpus", pid + ".jsonl")
    if os.path.exists(path):
        with open(path) as f:
            return [json.loads(l) for l in f if l.strip()]
    return []


def known(pid):
    """Entries of known_findings.txt: known: property=P.. check=.. args={..} :: text"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known: property=%s " % pid):
                head, text = l[len("known: "):].rstrip("\n").split(" :: ", 1)
                check = head.split("check=", 1)[1].split(" ", 1)[0]
                args = json.loads(head.split("args=", 1)[1])
                out.append((check, args, text))
    return out


def shard_main(pid, tier, seed, shard, nshards, outpath, only):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 60
    mod = load(pid)
    w = Worker()
    deadline = time.time() + (float(os.environ.get("PBT_BUDGET", 0)) or (420 if tier == "quick" else 720))
    res = {"checks": {}, "violations": [], "known": [], "harness": None, "truncated": False}
    hashes = set()

    def once(check, args, stats, remember=True):
        r = w.run(mod.MODULE, check, args)
        if remember:
            stats["evaluations"] += 1
            if r["k"] == "rej":
                stats["rejected"] += 1
            if r["k"] == "ok":
                for l in r["l"]:
                    stats["labels"][l] = stats["labels"].get(l, 0) + 1
                if r["nt"]:
                    h = hashlib.sha1((check + json.dumps(args, sort_keys=True)).encode()).hexdigest()[:16]
                    if h not in hashes:
                        hashes.add(h)
                        stats["nontrivial"] += 1
                        if len(stats["samples"]) < 2 and len(json.dumps(args)) < 1500:
                            stats["samples"].append({"check": check, "case": args, "labels": r["l"]})
        return r

    def new_stats():
        return {"evaluations": 0, "rejected": 0, "nontrivial": 0, "labels": {}, "samples": [], "wall": 0}

    try:
        if shard == 0:
            stats = res["checks"]["saved-corpus"] = new_stats()
            for c in corpus(pid):
                if only and c["check"] not in only:
                    continue
                r = once(c["check"], c["args"], stats)
                if r["k"] == "fail":
                    res["violations"].append({"check": c["check"], "args": c["args"], "msg": r["msg"], "from": "corpus"})
            for check, args, text in known(pid):
                r = w.run(mod.MODULE, check, args)
                if r["k"] == "fail":
                    res["known"].append(text)
                else:
                    res["known"].append(None)
        kn = {(c, json.dumps(a, sort_keys=True)) for c, a, _ in known(pid)}
        for ci, chk in enumerate(mod.CHECKS):
            if only and chk.name not in only:
                continue
            total = chk.quick if tier == "quick" else chk.thorough
            total = int(total * float(os.environ.get("PBT_SCALE", "1")))
            n = max(1, (total + nshards - 1) // nshards)
            if total < nshards and shard >= total:
                continue
            stats = res["checks"][chk.name] = new_stats()
            t0 = time.time()
            sd = int(hashlib.sha1(("%d/%d/%s" % (seed, shard, chk.name)).encode()).hexdigest()[:8], 16)
            last = {}

            def make_body(chk, stats, last):
                def body(args):
                    if time.time() > deadline and not last:
                        res["truncated"] = True
                        return
                    if (chk.name, json.dumps(args, sort_keys=True)) in kn:
                        return
                    r = once(chk.name, args, stats, remember=not last)
                    if r["k"] == "fail":
                        last["args"], last["msg"] = args, r["msg"]
                        raise CaseFailure("case failed")
                return body

            test = given(chk.strategy)(make_body(chk, stats, last))
            test = hypothesis.seed(sd)(test)
            test = settings(database=None, deadline=None, max_examples=n, print_blob=False,
                            phases=[Phase.generate] if os.environ.get("PBT_NOSHRINK") else [Phase.generate, Phase.shrink], report_multiple_bugs=False,
                            suppress_health_check=list(HealthCheck))(test)
            try:
                test()
            except CaseFailure:
                res["violations"].append({"check": chk.name, "args": last["args"], "msg": last["msg"], "from": "generated"})
            except hypothesis.errors.HypothesisException as e:
                if last:
                    res["violations"].append({"check": chk.name, "args": last["args"], "msg": last["msg"], "from": "generated (unshrunk: %s)" % type(e).__name__})
                else:
                    raise
            stats["wall"] = round(time.time() - t0, 2)
            if res["violations"] and not os.environ.get("PBT_KEEP_GOING"):
                break
    except HarnessError as e:
        res["harness"] = str(e)
    except BaseException:
        import traceback
        res["harness"] = traceback.format_exc()
    finally:
        w.stop()
    res["hashes"] = sorted(hashes)
    with open(outpath + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(outpath + ".tmp", outpath)


def save_replay(pid, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps([v["check"], v["args"]], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (pid, v["check"], h))
    with open(path, "w") as f:
        json.dump({"property": pid, "check": v["check"], "args": v["args"], "msg": v["msg"], "found": v.get("from")}, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--shards", type=int, default=int(os.environ.get("PBT_SHARDS") or 8))
    ap.add_argument("--only", action="append")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.shard is not None:
        shard_main(a.pid, a.tier, a.seed, a.shard, a.shards, a.out, a.only)
        return 0
    mod = load(a.pid)
    if a.replay:
        r = json.load(open(a.replay))
        w = Worker()
        try:
            out = w.run(mod.MODULE, r["check"], r["args"])
        finally:
            w.stop()
        print(json.dumps(out))
        if out["k"] == "fail":
            print("VIOLATION property=%s replay=%s" % (a.pid, a.replay))
            return 1
        return 0

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pbt.")
    procs = []
    env = dict(os.environ, TMPDIR=tmp, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    for i in range(a.shards):
        out = os.path.join(tmp, "s%d.json" % i)
        cmd = [sys.executable, os.path.abspath(__file__), a.pid, "--tier", a.tier, "--seed", str(a.seed),
               "--shards", str(a.shards), "--shard", str(i), "--out", out]
        for o in a.only or []:
            cmd += ["--only", o]
        procs.append((subprocess.Popen(cmd, env=env, cwd=VERIF, start_new_session=True), out))
    hard = t0 + 860
    grace = None
    try:
        while True:
            alive = [p for p, _ in procs if p.poll() is None]
            if not alive:
                break
            if grace is None:
                for p, o in procs:
                    if p.poll() is not None and os.path.exists(o):
                        try:
                            if json.load(open(o))["violations"]:
                                grace = time.time() + 20
                        except ValueError:
                            pass
            if time.time() > hard or (grace is not None and time.time() > grace):
                break
            time.sleep(.1)
    finally:
        for p, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGTERM)
                except OSError:
                    pass
        time.sleep(.05)
        for p, _ in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    results = []
    for p, o in procs:
        if os.path.exists(o):
            results.append(json.load(open(o)))
    import shutil
    missing = a.shards - len(results)

    viol, harness, checks, hashes, truncated = [], [], {}, set(), False
    knownlines = []
    for r in results:
        viol += r["violations"]
        knownlines += r["known"]
        truncated |= r["truncated"]
        if r["harness"]:
            harness.append(r["harness"])
        hashes.update(r["hashes"])
        for n, s in r["checks"].items():
            c = checks.setdefault(n, {"evaluations": 0, "rejected": 0, "nontrivial": 0, "labels": {}, "samples": [], "wall": 0})
            for k in ("evaluations", "rejected", "nontrivial"):
                c[k] += s[k]
            c["wall"] = max(c["wall"], s["wall"])
            for l, k in s["labels"].items():
                c["labels"][l] = c["labels"].get(l, 0) + k
            c["samples"] += s["samples"]
    samples = []
    for n, c in checks.items():
        samples += c.pop("samples")[:1]
    ev = {
        "property": a.pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(c["evaluations"] for c in checks.values()),
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples,
            "per_check": checks,
            "truncated_by_time_budget": truncated,
            "generator": "hypothesis (seeded, %d shards), cases executed by the repository's interpreter" % a.shards,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not os.environ.get("PBT_NO_EVIDENCE"):
        with open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)

    for n, c in checks.items():
        print("%-34s cases=%-6d nontrivial=%-6d rejected=%-4d %5.1fs %s" % (
            n, c["evaluations"], c["nontrivial"], c["rejected"], c["wall"], json.dumps(c["labels"], sort_keys=True)))
    for k in knownlines:
        if k is not None:
            print("KNOWN-FINDING: property=%s %s" % (a.pid, k))
    if viol:
        seen = set()
        for v in sorted(viol, key=lambda v: (v["check"], len(json.dumps(v["args"])))):
            if v["check"] in seen:
                continue
            seen.add(v["check"])
            path = save_replay(a.pid, v)
            print("  %s [%s]: %s" % (v["check"], v["from"], v["msg"]))
            print("  case: %s" % json.dumps(v["args"])[:1200])
            print("VIOLATION property=%s replay=%s" % (a.pid, path))
        print("total %.1fs" % (time.time() - t0))
        return 1
    if harness or missing:
        for h in harness[:1]:
            print("HARNESS ERROR: %s" % h, file=sys.stderr)
        print("HARNESS ERROR: %d shard(s) gave no result" % missing, file=sys.stderr)
        return 2
    print("%s held on %d generated cases (%d distinct non-trivial), seed %d, %.1fs" % (
        a.pid, ev["coverage"]["evaluations"], len(hashes), a.seed, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
