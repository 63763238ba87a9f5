"""P16 tabulated distributions: exact inversion of the piecewise constant density."""
import math
from cases.base import *
import numpy as np
from pytracer.montecarlo import Distribution1D, Distribution2D


def table(a, key="f"):
    f = list(a[key])
    if a["zero"]:
        f = [0.] * len(f)
    return np.array(f) if a["arr"] else list(f)


def cdf(f):
    c, s = [0.], 0.
    for x in f:
        s += x
        c.append(s)
    if s == 0:
        return [i / float(len(f)) for i in range(len(f) + 1)]
    return [x / s for x in c]


def density(f):
    s = sum(f)
    if s == 0:
        return None
    return [x * len(f) / s for x in f]


def F(c, x):
    n = len(c) - 1
    i = max(0, min(n - 1, int(math.floor(x * n))))
    return c[i] + (c[i + 1] - c[i]) * (x * n - i)


def check_sample(f, u, x, pdf, what):
    c, dens = cdf(f), density(f)
    n = len(f)
    require(-1e-12 <= x <= 1 + 1e-9, "%s: value %r outside [0, 1]", what, x)
    req_close(F(c, min(1., max(0., x))), u, what + ": cumulative probability of the sample", 1e-9, 1e-9)
    # density on the bin the sample lies in (either side of a border)
    cells = set(max(0, min(n - 1, int(math.floor(x * n + d)))) for d in (-1e-7, 0, 1e-7))
    if dens is None:
        require(isfinite(pdf), "%s: density %r", what, pdf)
        return
    require(any(close(pdf, dens[k], 1e-9, 1e-9) for k in cells), "%s: density %r at %r, expected one of %r", what, pdf, x, [dens[k] for k in cells])
    require(pdf > 0, "%s: sample of density %r", what, pdf)


def one(a):
    """sampling inverts the cumulative distribution and reports the normalised density"""
    t = table(a)
    before = fl(t)
    dst = Distribution1D(t)
    f = fl(t)
    require(f == before, "table altered")
    if a["own"]:
        for i in range(len(t)):     # the distribution keeps the table it was built from
            t[i] = t[i] * 3. + i + 1.
    s = sum(f)
    n = len(f)
    last = -1.
    for u in sorted(a["us"]):
        x, pdf = dst.sample_cont(u)
        check_sample(f, u, float(x), float(pdf), "sample_cont(%r)" % u)
        require(float(x) >= last - 1e-12, "samples are not monotone")
        last = float(x)
        k, p = dst.sample_dis(u)
        require(int(k) == k and 0 <= int(k) < n, "discrete sample %r", k)
        c = cdf(f)
        require(c[int(k)] - 1e-9 <= u <= c[int(k) + 1] + 1e-9, "sample_dis(%r) = %r, cdf %r", u, k, c)
        if s > 0:
            req_close(p, f[int(k)] / s, "probability of the discrete sample", 1e-9, 1e-12)
            require(float(p) > 0, "discrete sample of probability 0")
    require(dst.cnt == n, "cnt")
    req_close(dst.cdf_raw, s / n, "integral", 1e-9, 1e-12)
    label("zero" if s == 0 else "zeros" if 0. in f else "positive")
    nontriv(n > 1 and s > 0)


def two(a):
    nv, nu = a["nv"], a["nu"]
    rows = [[a["g"][(i * nu + j) % len(a["g"])] if not a["zero"] else 0. for j in range(nu)] for i in range(nv)]
    if a["zrow"] is not None:
        rows[a["zrow"] % nv] = [0.] * nu
    tot = sum(map(sum, rows))
    if tot == 0:
        raise Reject()
    t = np.array(rows)
    dst = Distribution2D(t)
    require([fl(r) for r in t] == [fl(r) for r in rows], "table altered")
    if a["own"]:
        t *= 3.
        t += np.arange(nv * nu).reshape(nv, nu) + 1.
    marg = [sum(r) for r in rows]
    for u0, u1 in a["uv"]:
        p, pdf = dst.sample_cont(u0, u1)
        u, v = float(p[0]), float(p[1])
        require(0. <= u <= 1. + 1e-9 and 0. <= v <= 1. + 1e-9, "sample (%r, %r) outside the unit square", u, v)
        req_close(F(cdf(marg), min(v, 1.)), u1, "marginal cumulative probability", 1e-8, 1e-8)
        ok = False
        for e in (-1e-7, 0., 1e-7):
            k = max(0, min(nv - 1, int(math.floor(v * nv + e))))
            if sum(rows[k]) == 0:
                continue
            if close(F(cdf(rows[k]), min(u, 1.)), u0, 1e-8, 1e-8):
                for e2 in (-1e-7, 0., 1e-7):
                    j = max(0, min(nu - 1, int(math.floor(u * nu + e2))))
                    ok = ok or close(pdf, rows[k][j] * nu * nv / tot, 1e-8, 1e-9)
        require(ok, "sample %r of (%r, %r) with density %r does not invert the table %r", p, u0, u1, pdf, rows)
        require(float(pdf) > 0., "sample of density 0")
        x, y = u0, u1
        j, k = min(nu - 1, int(x * nu)), min(nv - 1, int(y * nv))
        req_close(dst.pdf(x, y), rows[k][j] * nu * nv / tot, "pdf(%r, %r)" % (x, y), 1e-9, 1e-12)
    req_close(sum(float(dst.pdf((j + .5) / nu, (k + .5) / nv)) for j in range(nu) for k in range(nv)) / (nu * nv), 1., "integral of the density", 1e-9, 1e-9)
    label("zero row" if 0. in marg else "full")
    nontriv(nv > 1 and nu > 1)
