"""P13 reconstruction filters against their formulas."""
import math
from cases.base import *
import numpy as np
from pytracer.filter import *


def make(a):
    k, xw, yw = a["kind"], a["xw"], a["yw"]
    if k == "box":
        return BoxFilter(xw, yw)
    if k == "triangle":
        return TriangleFilter(xw, yw)
    if k == "gaussian":
        return GaussianFilter(xw, yw, a["alpha"])
    if k == "mitchell":
        return MitchellFilter(a["B"], a["C"], xw, yw)
    return LanczosSincFilter(xw, yw, a["tau"])


def sinc(x):
    x *= math.pi
    return 1. if abs(x) < 1e-12 else math.sin(x) / x


def one(a, x, w):
    k, x = a["kind"], abs(x)
    if k == "box":
        return 1.
    if k == "triangle":
        return max(0., w - x)
    if k == "gaussian":
        return max(0., math.exp(-a["alpha"] * x * x) - math.exp(-a["alpha"] * w * w))
    t = x / w
    if k == "lanczos":
        return 0. if t > 1 else sinc(t) * sinc(t * a["tau"])
    B, C = a["B"], a["C"]
    t *= 2
    if t > 1:
        return (-B * (t - 2) ** 3 - 6 * C * (t - 1) * (t - 2) ** 2) / 6.      # vanishes with slope 0 at t = 2
    return ((12 - 9 * B - 6 * C) * t ** 3 + (-18 + 12 * B + 6 * C) * t ** 2 + (6 - 2 * B)) / 6.


def dom(a, x, w):
    """box and Mitchell are only defined inside their extent"""
    if a["kind"] in ("box", "mitchell"):
        return max(-w, min(w, x))
    return x


def value(a):
    f = make(a)
    x, y = dom(a, a["x"] * a["xw"], a["xw"]), dom(a, a["y"] * a["yw"], a["yw"])
    if a["kind"] == "lanczos" and min(abs(abs(x) - a["xw"]), abs(abs(y) - a["yw"])) < 1e-9:
        raise Reject()
    e = one(a, x, a["xw"]) * one(a, y, a["yw"])
    v = f(x, y)
    require(np.ndim(v) == 0, "value of shape %r", np.shape(v))
    req_close(v, e, a["kind"], 1e-7, 1e-9)
    for sx, sy in ((-x, y), (x, -y), (-x, -y)):
        req_close(f(sx, sy), v, "mirrored " + a["kind"], 1e-12, 1e-12)
    if a["kind"] in ("triangle", "gaussian", "lanczos") and (abs(x) > a["xw"] * (1 + 1e-9) or abs(y) > a["yw"] * (1 + 1e-9)):
        require(float(v) == 0., "%s is %r outside its extent", a["kind"], v)
        label("outside")
    require(close(f.xwInv * a["xw"], 1) and close(f.ywInv * a["yw"], 1) and float(f.xw) == a["xw"] and float(f.yw) == a["yw"], "widths")
    label(a["kind"])
    nontriv(abs(x) < a["xw"] and abs(y) < a["yw"] and a["kind"] != "box")


def arrays(a):
    """evaluating lists and arrays equals evaluating their elements"""
    f = make(a)
    xs = [dom(a, u[0] * a["xw"], a["xw"]) for u in a["us"]]
    ys = [dom(a, u[1] * a["yw"], a["yw"]) for u in a["us"]]
    e = [float(f(x, y)) for x, y in zip(xs, ys)]
    X, Y = np.array(xs), np.array(ys)
    got = f(X, Y)
    if a["kind"] == "box":       # a constant, broadcast by the caller
        got = np.zeros(len(xs)) + got
    require(np.shape(got) == (len(xs),), "shape %r", np.shape(got))
    req_vclose(got, e, a["kind"] + " on arrays", 1e-12, 1e-14)
    require(fl(X) == xs and fl(Y) == ys, "arguments altered")
    if a["kind"] in ("mitchell", "lanczos"):
        lx, ly = list(xs), list(ys)
        req_vclose(f(lx, ly), e, a["kind"] + " on lists", 1e-12, 1e-14)
        require(lx == xs and ly == ys, "arguments altered")
    label(a["kind"])
    nontriv(len(xs) > 1)


def partition(a):
    """Mitchell filters of half width 2 and triangles of half width 1 sum to one over the pixel grid"""
    B, C = a["B"], a["C"]
    m = MitchellFilter(B, C, 2., 2.)
    t = TriangleFilter(1., 1.)
    x, y = a["f"]
    s = sum(float(m(x + i, y + j)) for i in range(-2, 2) for j in range(-2, 2))
    req_close(s, 1., "Mitchell sum", 1e-9, 1e-9)
    s = sum(float(t(x + i, y + j)) for i in range(-1, 1) for j in range(-1, 1))
    req_close(s, 1., "triangle sum", 1e-9, 1e-9)
    nontriv()
