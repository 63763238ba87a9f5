"""P25 procedural noise."""
import math
from cases.base import *
from cases import noise as m
import numpy as np
import pytracer.geometry as geo
from pytracer.texture.utility import noise, FBm, turbulence, smooth_step, Lanczos


def point(a, key="p"):
    p = list(a[key])
    return p


def as_type(p, kind):
    return {"list": lambda: list(p), "array": lambda: np.array(p), "point": lambda: geo.Point(*p), "vector": lambda: geo.Vector(*p)}[kind]()


def value(a):
    """noise is gradient noise over the permutation table: value, bounds, lattice zeros and period"""
    p = point(a)
    q = as_type(p, a["kind"])
    r = float(noise(q))
    require(fl(q) == p, "argument altered")
    req_close(r, m.noise(p), "noise at %r" % (p,), 1e-9, 1e-9)
    require(abs(r) <= 1.5, "noise %r outside its bounds at %r", r, p)
    # lattice
    c = [math.floor(x) for x in p]
    require(abs(float(noise(as_type(c, a["kind"])))) < 1e-12, "noise not zero at the lattice point %r", c)
    # gradient at a lattice point is one of the cube's edge directions
    h = 1e-4
    g = []
    for i in range(3):
        x, y = list(c), list(c)
        x[i] += h
        y[i] -= h
        g.append((float(noise(x)) - float(noise(y))) / (2 * h))
    require(sorted(abs(round(v)) for v in g) == [0, 1, 1] and all(abs(v - round(v)) < 1e-3 for v in g), "gradient %r at the lattice point %r is no edge direction", g, c)
    # period
    t = [x + 256 * k for x, k in zip(p, a["wrap"])]
    req_close(float(noise(t)), r, "noise %r periods away from %r" % (a["wrap"], p), 1e-6, 1e-7)
    nontriv(p != c)
    label("negative" if min(p) < 0 else "positive")


def smooth(a):
    """noise is smooth across the faces, edges and corners of its cells"""
    p = point(a)
    on = a["on"]
    q = [math.floor(x) if o else x for x, o in zip(p, on)]
    dirn = vnorm(a["dir"])
    h = 1e-4
    f = lambda t: float(noise([x + t * y for x, y in zip(q, dirn)]))
    f0, f1, b1 = f(0.), f(h), f(-h)
    require(abs(f1 - f0) < 5 * h and abs(b1 - f0) < 5 * h, "noise jumps at %r along %r: %r %r %r", q, dirn, b1, f0, f1)
    # one-sided slopes agree to first order (the second derivative is bounded by about 60)
    fw = (f(2 * h) * -1 + 4 * f1 - 3 * f0) / (2 * h)
    bw = (3 * f0 - 4 * b1 + f(-2 * h)) / (2 * h)
    require(abs(fw - bw) < 2e-4, "noise has a kink at %r along %r: slopes %r and %r", q, dirn, bw, fw)
    nontriv(any(on))


def octave(a):
    """fractal sums: octaves up to the footprint's limit, weights omega^i, last one faded in"""
    p = point(a)
    scale = a["scale"]
    dx, dy = [scale * x for x in a["dx"]], [scale * x for x in a["dy"]]
    s2 = max(vdot(dx, dx), vdot(dy, dy))
    n = m.octaves(s2, a["n"])
    if abs(n - round(n)) < 1e-9 and 0 < n < a["n"]:
        raise Reject("octave border")
    P, X, Y = geo.Point(*p), geo.Vector(*dx), geo.Vector(*dy)
    r = float(FBm(P, X, Y, a["omega"], a["n"]))
    t = float(turbulence(P, X, Y, a["omega"], a["n"]))
    require(fl(P) == p and fl(X) == dx and fl(Y) == dy, "arguments altered")
    req_close(r, m.fbm(p, s2, a["omega"], a["n"]), "FBm with %r octaves" % n, 1e-7, 1e-7)
    req_close(t, m.fbm(p, s2, a["omega"], a["n"], abs), "turbulence with %r octaves" % n, 1e-7, 1e-7)
    require(t >= abs(r) - 1e-9, "turbulence %r below |FBm| %r", t, r)
    req_close(float(FBm(P, Y, X, a["omega"], a["n"])), r, "FBm with the two footprint vectors exchanged", 1e-12, 1e-12)
    if s2 >= 4.:
        require(r == 0 and t == 0, "footprint %r covers a cell of every octave, yet FBm %r turbulence %r", s2, r, t)
    nontriv(n > 0)
    label("octaves %d" % int(n))


def footprint(a):
    """growing the footprint fades octaves out without a jump"""
    p = point(a)
    P = geo.Point(*p)
    # footprint right at a border between whole octaves
    k = a["k"]
    ln = 2. ** (1 - k)
    lo, hi = ln * (1 - 1e-7), ln * (1 + 1e-7)
    for fn in (FBm, turbulence):
        x = float(fn(P, geo.Vector(lo, 0., 0.), geo.Vector(0., 0., 0.), a["omega"], a["n"]))
        y = float(fn(P, geo.Vector(0., hi, 0.), geo.Vector(0., 0., 0.), a["omega"], a["n"]))
        require(abs(x - y) < 1e-4, "%s jumps from %r to %r where the footprint passes %r", fn.__name__, x, y, ln)
    nontriv(0 < k < a["n"])


def step(a):
    """smooth_step rises from 0 at lo to 1 at hi; Lanczos is the windowed sinc"""
    lo, hi = a["lo"], a["lo"] + a["w"]
    x = lo + a["t"] * a["w"]
    if a["at"] != "":
        x = {"lo": lo, "hi": hi, "below": lo - 3 * a["w"], "above": hi + a["w"]}[a["at"]]
    r = float(smooth_step(lo, hi, x))
    req_close(r, m.step(lo, hi, x), "smooth_step(%r, %r, %r)" % (lo, hi, x), 1e-9, 1e-9)
    require(-1e-12 <= r <= 1 + 1e-12, "smooth_step %r", r)
    y = float(smooth_step(lo, hi, x + a["w"] * .01))
    require(y >= r - 1e-12, "smooth_step decreases")
    req_close(float(smooth_step(lo, hi, lo + hi - x)), 1 - r, "smooth_step symmetry", 1e-9, 1e-9)
    z, tau = a["z"], a["tau"]

    def ref(z):
        z = abs(z)
        if z < 1e-5:
            return 1.
        if z > 1:
            return 0.
        s = lambda q: math.sin(math.pi * q) / (math.pi * q)
        return s(z * tau) * s(z)
    req_close(float(Lanczos(z, tau)), ref(z), "Lanczos(%r, %r)" % (z, tau), 1e-9, 1e-9)
    req_close(float(Lanczos(-z, tau)), ref(z), "Lanczos(%r, %r)" % (-z, tau), 1e-9, 1e-9)
    arr = np.array([z, -z, z * .5, 0., 1.5])
    keep = fl(arr)
    req_vclose(Lanczos(arr, tau), [ref(v) for v in keep], "Lanczos of an array", 1e-9, 1e-9)
    require(fl(arr) == keep, "Lanczos altered its argument")
    nontriv(0 < a["t"] < 1 or 0 < z < 1)
