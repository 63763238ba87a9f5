"""P04 quaternions and key-framed transforms."""
import math
from cases.base import *
from cases.p03 import mat, mclose, build
import numpy as np
import pytracer.geometry as geo
from pytracer.transform import Transform, AnimatedTransform
import pytracer.transform.quat as quat


def rot(r):
    return Transform.rotate(r[0], geo.Vector(*r[1]))


def m3(x):
    return [r[:3] for r in mat(x)[:3]]


def rel_angle(A, B):
    """rotation angle (degrees) between two rotation matrices"""
    R = mmul(m3(A), mT(m3(B)))
    c = (R[0][0] + R[1][1] + R[2][2] - 1) / 2
    s = vlen([R[2][1] - R[1][2], R[0][2] - R[2][0], R[1][0] - R[0][1]]) / 2
    return math.degrees(math.atan2(s, c))


def matrix_quaternion(a):
    R = rot(a["r"])
    R2 = rot(a["r2"])
    for name, q in (("from_transform", quat.from_transform(R)), ("from_arr", quat.from_arr(np.array(R.m)))):
        req_close(quat.dot(q, q), 1., "%s: |q|^2" % name, 1e-9, 1e-9)
        B = quat.to_transform(q)
        mclose(B.m, R.m, "to_transform(%s(R))" % name, 1e-8)
        mclose(B.m_inv, R.m_inv, "inverse of to_transform(%s(R))" % name, 1e-8)
        mclose(quat.to_transform(-q).m, B.m, "q and -q", 1e-12)
        req_vclose(B(geo.Vector(*a["v"])), mapply_vec(mrotate(*a["r"]), a["v"]), "rotated vector", 1e-7, 1e-7)
    q, p = quat.from_transform(R), quat.from_transform(R2)
    # |<q,p>| is the cosine of half the relative angle
    req_close(abs(quat.dot(q, p)), abs(math.cos(math.radians(rel_angle(R.m, R2.m)) / 2)), "|<q,p>|", 1e-6, 1e-6)
    req_close(quat.dot(q, p), quat.dot(p, q), "dot symmetry", 1e-12, 1e-12)
    nontriv(a["r"][0] % 360. != 0.)
    if m3(R.m)[0][0] + m3(R.m)[1][1] + m3(R.m)[2][2] <= 0:
        label("trace<=0")


def slerp(a):
    R1 = rot(a["r"])
    R2 = rot(a["rel"]) * R1
    q1, q2 = quat.from_transform(R1), quat.from_transform(R2)
    if quat.dot(q1, q2) < 0:
        q2 = -q2
    t = a["t"]
    q = quat.slerp(t, q1, q2)
    req_close(quat.dot(q, q), 1., "|slerp|^2", 1e-7, 1e-7)
    exp = mmul(mrotate(a["rel"][0] * t, a["rel"][1]), mat(R1.m))
    mclose(quat.to_transform(q).m, exp, "slerp(%r)" % t, 2e-6)
    mclose(quat.to_transform(quat.slerp(0., q1, q2)).m, R1.m, "slerp(0)", 1e-7)
    mclose(quat.to_transform(quat.slerp(1., q1, q2)).m, R2.m, "slerp(1)", 1e-7)
    mclose(quat.to_transform(quat.slerp(1. - t, q2, q1)).m, exp, "slerp is symmetric", 2e-6)
    nontriv(a["rel"][0] > 1. and 0 < t < 1)


def keyT(k):
    return Transform.translate(geo.Vector(*k["t"])) * rot(k["r"]) * Transform.scale(*k["s"])


def keym(k):
    return mmul(mmul(mtranslate(k["t"]), mrotate(*k["r"])), mscale(k["s"]))


def decompose(a):
    k = a["k"]
    M = np.array(keym(k))
    T, R, S = AnimatedTransform.decompose(M)
    req_vclose(T, k["t"], "translation part", 1e-12, 1e-12)
    Rm = mat(quat.to_transform(R).m)
    mclose(mmul(mmul(mtranslate(fl(T)), Rm), mat(S)), keym(k), "T R S", 1e-6)
    mclose(Rm, mrotate(*k["r"]), "rotation part", 1e-6)
    mclose(S, mscale(k["s"]), "stretch part", 1e-6)
    mclose(M, keym(k), "decompose changed its argument", 0)
    nontriv(k["r"][0] % 360. != 0. and k["s"] != [1., 1., 1.])


def keyframes_scaled(a):
    """same rotation and (strong) scale in both frames: only the translation moves in between"""
    k = a["k"]
    k2 = dict(k, t=[x + y for x, y in zip(k["t"], a["dt"])])
    A, B = keyT(k), keyT(k2)
    t0, t1 = times(a)
    at = AnimatedTransform(A, t0, B, t1)
    f = a["t"]
    tm = t0 + f * (t1 - t0)
    f = (tm - t0) / (t1 - t0)
    km = keym(dict(k, t=[x + f * y for x, y in zip(k["t"], a["dt"])]))
    mclose(at.interpolate(float(tm)).m, km, "interpolated between frames that differ by a translation", 1e-6)
    p, v = a["p"], a["v"]
    big = max(1., max(abs(x) for r in km for x in r)) * 30.
    req_vclose(at(float(tm), geo.Point(*p)), [sum(km[i][j] * p[j] for j in range(3)) + km[i][3] for i in range(3)], "point in between", 1e-6, 1e-7 * big)
    req_vclose(at(float(tm), geo.Vector(*v)), [sum(km[i][j] * v[j] for j in range(3)) for i in range(3)], "vector in between", 1e-6, 1e-7 * big)
    nontriv(0. < f < 1. and k["s"] != [1., 1., 1.])


def times(a):
    t0 = a["t0"]
    return t0, t0 + a["span"]


def rel_ok(a):
    return rel_angle(mrotate(*a["a"]["r"]), mrotate(*a["b"]["r"])) < 179.


def keyframes(a):
    if not rel_ok(a):
        raise Reject()
    A, B = keyT(a["a"]), keyT(a["b"])
    t0, t1 = times(a)
    at = AnimatedTransform(A, t0, B, t1)
    p, v = geo.Point(*a["p"]), geo.Vector(*a["v"])
    f = a["t"]
    tm = t0 + f * (t1 - t0)
    for tt, X in ((t0, A), (t1, B), (t0 - 1., A), (t1 + 1., B), (t0 - 1e-6, A), (t1 + 1e-6, B)):
        req_vclose(at(float(tt), p), fl(X(p)), "point at time %r of [%r,%r]" % (tt, t0, t1), 1e-9, 1e-9)
        req_vclose(at(float(tt), v), fl(X(v)), "vector at time %r" % tt, 1e-9, 1e-9)
        r = at(geo.Ray(p, v, .5, 7., 2, float(tt)))
        req_vclose(r.o, fl(X(p)), "ray origin at time %r" % tt, 1e-9, 1e-9)
        req_vclose(r.d, fl(X(v)), "ray direction at time %r" % tt, 1e-9, 1e-9)
        mclose(at.interpolate(float(tt)).m, X.m, "interpolate at %r" % tt, 1e-12)
    # continuity: just inside the key times
    for tt, X in ((t0 + 1e-7 * (t1 - t0), A), (t1 - 1e-7 * (t1 - t0), B)):
        req_vclose(at(float(tt), p), fl(X(p)), "point just inside the key time", 1e-4, 1e-4)
    X = at.interpolate(float(tm))
    mclose(mmul(mat(X.m), mat(X.m_inv)), mident(), "interpolated transform's inverse", 1e-6)
    req_vclose(at(float(tm), p), fl(X(p)), "point vs interpolate", 1e-9, 1e-9)
    req_vclose(at(float(tm), v), fl(X(v)), "vector vs interpolate", 1e-9, 1e-9)
    for cls in (geo.Ray, geo.RayDifferential):
        q = cls(p, v, .5, 7., 2, float(tm))
        r = at(q)
        require(type(r) is cls, "image of a %s is %s", cls, type(r))
        req_vclose(r.o, fl(X(p)), "ray origin vs interpolate", 1e-9, 1e-9)
        req_vclose(r.d, fl(X(v)), "ray direction vs interpolate", 1e-9, 1e-9)
        require((r.mint, r.maxt, r.depth, r.time) == (.5, 7., 2, float(tm)), "ray fields changed: %r", (r.mint, r.maxt, r.depth, r.time))
        req_vclose(q.o, a["p"], "argument ray changed", 0, 0)
    for bad in ((1., 2.), (p, 1.), ("x", p)):
        must_raise(TypeError, lambda: at(*bad), "call with %r" % (bad,))
    nontriv(0 < f < 1 and rel_angle(A.m, B.m) > 1)
    label("inside" if 0 < f < 1 else "outside")


def rigid_motion(a):
    """translation and stretch interpolate linearly, rotation at constant speed along the shorter arc"""
    R1 = rot(a["r"])
    rel = a["rel"]
    R2 = rot(rel) * R1
    s1, s2 = a["s"] if a["s"] is not None else ([1., 1., 1.], [1., 1., 1.])
    A = Transform.translate(geo.Vector(*a["a"])) * R1 * Transform.scale(*s1)
    B = Transform.translate(geo.Vector(*a["b"])) * R2 * Transform.scale(*s2)
    t0, t1 = times(a)
    at = AnimatedTransform(A, t0, B, t1)
    f = a["t"]
    tm = t0 + f * (t1 - t0)
    f = (tm - t0) / (t1 - t0)
    e = mmul(mrotate(rel[0] * f, rel[1]), mat(R1.m))
    e = mmul(mtranslate([x + (y - x) * f for x, y in zip(a["a"], a["b"])]), e)
    e = mmul(e, mscale([x + (y - x) * f for x, y in zip(s1, s2)]))
    mclose(at.interpolate(float(tm)).m, e, "interpolated at fraction %r" % f, 2e-5)
    req_vclose(at(float(tm), geo.Point(*a["p"])), mapply_point(e, a["p"]), "moving point", 1e-4, 1e-4)
    nontriv(rel[0] > 1. and 0 < f < 1)


def static(a):
    A = keyT(a["a"])
    t0 = a["t0"]
    at = AnimatedTransform(A, t0, keyT(a["a"]), t0 + a["span"])
    require(not at.animated, "equal key frames are animated")
    p, v = geo.Point(*a["p"]), geo.Vector(*a["v"])
    t = a["t"]
    req_vclose(at(float(t), p), fl(A(p)), "static point", 0, 0)
    req_vclose(at(float(t), v), fl(A(v)), "static vector", 0, 0)
    r = at(geo.Ray(p, v, 0., 9., 1, t))
    req_vclose(r.o, fl(A(p)), "static ray origin", 0, 0)
    req_vclose(r.d, fl(A(v)), "static ray direction", 0, 0)
    require((r.mint, r.maxt, r.depth, r.time) == (0., 9., 1, t), "static ray fields")
    mclose(at.interpolate(t).m, A.m, "static interpolate", 0)
    contained(at, a["p"], a["q"], t, [.3, .6, .9], False, 1e-6)
    contained(at, a["p"], a["q"], t, [.3, .6, .9], True, 1e-6)
    nontriv(a["a"]["r"][0] % 360. != 0)


def contained(at, p, q, tm, u, inv, rel):
    b = geo.BBox(geo.Point(*p), geo.Point(*q))
    bb = at.motion_bounds(b, inv)
    X = at.interpolate(float(tm))
    if inv:
        X = X.inverse()
    lo, hi = fl(b.pMin), fl(b.pMax)
    pts = [[(lo, hi)[k >> i & 1][i] for i in range(3)] for k in range(8)] + [[l + (h - l) * x for l, h, x in zip(lo, hi, u)]]
    reach = max(vlen(fl(X(geo.Point(*x)))) for x in pts) + vlen(fl(at.interpolate(at.startTime).inverse()(geo.Point(0., 0., 0.)) if inv else X(geo.Point(0., 0., 0.))))
    tol = rel * (1. + reach)
    for x in pts:
        y = X(geo.Point(*x))
        for i in range(3):
            require(bb.pMin[i] - tol <= y[i] <= bb.pMax[i] + tol,
                    "motion bounds %r..%r miss %r at time %r (image of %r, inverse=%r)", fl(bb.pMin), fl(bb.pMax), fl(y), tm, x, inv)
    return bb


def motion_bounds(a):
    if not rel_ok(a):
        raise Reject()
    A, B = keyT(a["a"]), keyT(a["b"])
    t0, t1 = times(a)
    at = AnimatedTransform(A, t0, B, t1)
    tm = t0 + a["t"] * (t1 - t0)
    for t in (t0, t1, tm):
        bb = contained(at, a["p"], a["q"], t, a["u"], a["inv"], 1e-3)
    nontriv(rel_angle(A.m, B.m) > 1)
    label("inverse" if a["inv"] else "forward")
