"""P33 the numeric helpers agree with their definitions."""
import contextlib
import io
import sys
from cases.base import *
import numpy as np
import pytracer.utility.utility as util
import pytracer.geometry as geo
from pytracer import FLOAT, INT, UINT, EPS, Spectrum


@contextlib.contextmanager
def captured():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


NUM = {"float": float, "np": FLOAT, "int": int, "uint": UINT}


def is_int(x): return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def rounding(a):
    x = a["x"]
    v = NUM[a["type"]](x)
    for name, f in (("ftoi", util.ftoi), ("ctoi", util.ctoi), ("rtoi", util.rtoi)):
        n = f(v)
        require(is_int(n), "%s(%r) is a %s", name, v, type(n).__name__)
        n = int(n)
        ok = {"ftoi": n <= x < n + 1, "ctoi": n - 1 < x <= n, "rtoi": abs(n - x) <= .5}[name]
        require(ok, "%s(%r) is %d", name, x, n)
        require(x != int(x) or n == x, "%s(%r) is %d", name, x, n)
    require(float(v) == float(NUM[a["type"]](x)), "changed")
    nontriv(x != int(x) or x < 0)


def powers(a):
    n = max(1, a["n"])
    for t in (int, np.int64):
        v = t(n)
        k = 1
        while k < n:
            k *= 2
        require(int(util.next_pow_2(v)) == k, "next_pow_2(%d) is %r", n, util.next_pow_2(v))
        require(is_int(util.next_pow_2(v)) and is_int(util.round_pow_2(v)), "types")
        require(bool(util.is_pow_2(v)) == (k == n), "is_pow_2(%d) is %r", n, util.is_pow_2(v))
        r = int(util.round_pow_2(v))
        require(r > 0 and r & (r - 1) == 0, "round_pow_2(%d) is %d", n, r)
        require(abs(math.log(float(r) / n, 2)) <= .5 + 1e-9, "round_pow_2(%d) is %d", n, r)
        require(k != n or r == n, "round_pow_2(%d) is %d", n, r)
    require(util.is_pow_2(1 << (n % 40)), "is_pow_2(2**%d)", n % 40)
    nontriv(n & (n - 1) != 0)


def comparisons(a):
    x, k = a["x"], a["k"]
    if abs(abs(k) - 1.) < .05:
        raise Reject()
    near = abs(k) < 1
    for base, eq, ne in ((1., util.eq_unity, util.ne_unity), (0., util.is_zero, util.not_zero)):
        v = base + k * EPS
        for t in (float, FLOAT):
            require(bool(eq(t(v))) == near, "%s(%r) is %r", eq.__name__, v, eq(t(v)))
            require(bool(ne(t(v))) != near, "%s(%r) is %r", ne.__name__, v, ne(t(v)))
    far = [base for base in (0., 1.) if abs(x - base) > 2 * EPS]
    if 1. in far:
        require(util.ne_unity(x) and not util.eq_unity(x), "%r is unity", x)
    if 0. in far:
        require(util.not_zero(x) and not util.is_zero(x), "%r is zero", x)
    # equality of floats: an absolute tolerance of EPS and a relative one no greater
    d = k * EPS
    if near:
        require(util.feq(x, x + d) and util.feq(x + d, x), "feq(%r, %r)", x, x + d)
        require(util.feq(x, x), "feq(%r, %r)", x, x)
    elif abs(k) > 2.5 * (1. + abs(x)):
        require(not util.feq(x, x + d) and not util.feq(x + d, x), "feq(%r, %r)", x, x + d)
        label("different")
    require(bool(util.is_black(v)) == (abs(v) < EPS), "is_black(%r)", v)
    nontriv(not near)


def lerp(a):
    t, u, v = a["t"], a["u"] * 10. ** a["e"][0] / 3., a["v"] * 10. ** a["e"][1] / 7.
    S = max(1., abs(u), abs(v))
    req_close(util.lerp(t, u, v), u + t * (v - u), "lerp", 1e-12, 1e-12 * S * (1. + abs(t)))
    req_close(util.lerp(0., u, v), u, "lerp at 0", 0, 0)
    req_close(util.lerp(1., u, v), v, "lerp at 1", 0, 0)
    A, B = a["p"], a["q"]
    for mk in (lambda w: np.array(w), lambda w: geo.Vector(*w), lambda w: Spectrum.create_from_list(list(w))):
        p, q = mk(A), mk(B)
        r = util.lerp(t, p, q)
        req_vclose(r, [x + t * (y - x) for x, y in zip(A, B)], "lerp of %s" % type(p).__name__, 1e-12, 1e-11 * (1. + abs(t)))
        req_vclose(p, A, "lerp changed its argument", 0, 0)
        req_vclose(q, B, "lerp changed its argument", 0, 0)
    require(isinstance(util.lerp(t, geo.Vector(*A), geo.Vector(*B)), geo.Vector), "lerp of vectors is no vector")
    r = util.ufunc_lerp(t, np.array([A, B]), np.array([B, A]))
    require(r.shape == (2, 3) and r.dtype == FLOAT, "ufunc_lerp: %r of %r", r.shape, r.dtype)
    for i in range(3):
        req_close(r[0, i], A[i] + t * (B[i] - A[i]), "ufunc_lerp", 1e-12, 1e-11 * (1. + abs(t)))
        req_close(r[1, i], B[i] + t * (A[i] - B[i]), "ufunc_lerp", 1e-12, 1e-11 * (1. + abs(t)))
    nontriv(u != v and 0 < t < 1)


def clip(a):
    x, lo, hi = a["x"], min(a["lo"], a["hi"]), max(a["lo"], a["hi"])
    tp = NUM[a["type"]]
    if tp in (int, UINT):
        x, lo, hi = float(int(x)), float(int(lo)), float(int(hi))
    if tp is UINT:
        x, lo, hi = abs(x), abs(lo), abs(hi)
        lo, hi = min(lo, hi), max(lo, hi)
    v = tp(x)
    r = util.clip(v, lo, hi)
    require(r is not None and float(r) == min(hi, max(lo, x)), "clip(%r, %r, %r) is %r", v, lo, hi, r)
    if tp in (int, UINT):
        require(is_int(r), "clip of an integer is a %s", type(r).__name__)
    r = util.clip(v)
    require(float(r) == max(0., x), "clip(%r) is %r", v, r)
    A = a["p"]
    s = Spectrum.create_from_list(list(A))
    r = util.clip(s, lo, hi)
    require(isinstance(r, Spectrum), "clip of a spectrum is a %s", type(r).__name__)
    req_vclose(r, [min(hi, max(lo, y)) for y in A], "clip of a spectrum", 0, 0)
    req_vclose(util.clip(s), [max(0., y) for y in A], "clip of a spectrum to what is not negative", 0, 0)
    req_vclose(s, A, "clip changed its argument", 0, 0)
    big = max(abs(y) for y in A)
    if big < .9 * EPS or big > 1.1 * EPS:
        require(bool(util.is_black(s)) == (big < EPS), "is_black(%r) is %r", A, util.is_black(s))
        require(bool(util.is_black(np.array(A))) == (big < EPS), "is_black(%r)", A)
    nontriv(any(y < lo or y > hi for y in A))


def reports(a):
    total, length, dec = a["total"], a["length"], a["decimals"]
    it = a["it"] % (total + 1)
    with captured() as out:
        util.progress_reporter(it, total, prefix=a["pre"], suffix=a["suf"], decimals=dec, length=length, fill="#")
    s = out.getvalue()
    require(s.endswith("\n") == (it == total), "a line end after %d of %d: %r", it, total, s)
    last = s.replace("\n", "").replace("\r", "\n").strip("\n").split("\n")[-1]
    head, bar, tail = last.split("|")
    require(head.strip() == a["pre"].strip(), "prefix %r", head)
    require(bar == "#" * (length * it // total) + "-" * (length - length * it // total), "%d of %d: bar %r", it, total, bar)
    pct, suf = tail.split("%")
    require(suf.strip() == a["suf"].strip(), "suffix %r", suf)
    require(abs(float(pct) - 100. * it / total) <= .5 * 10. ** -dec + 1e-9, "%d of %d: %r percent", it, total, pct)
    require(len(pct.strip().split(".")[-1]) == dec, "%r with %d decimals", pct, dec)
    with captured() as out:
        util.logging(a["pre"] + "x", a["suf"])
    s = out.getvalue()
    require((a["pre"] + "x").upper() in s and a["suf"] in s and s.endswith("\n"), "the log says %r", s)
    nontriv(0 < it < total)
