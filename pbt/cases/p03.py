"""P03 transforms: group structure, action on every geometric type, named constructors, predicates."""
import math
from cases.base import *
import numpy as np
import pytracer.geometry as geo
from pytracer.transform import Transform

INF = float("inf")


def build(ops):
    t = Transform()
    for op in ops:
        t = t * elem(op)
    return t


def elem(op):
    if op[0] == "T":
        return Transform.translate(geo.Vector(*op[1]))
    if op[0] == "S":
        return Transform.scale(*op[1])
    return Transform.rotate(op[1], geo.Vector(*op[2]))


def mat(x):
    return [[float(c) for c in r] for r in np.asarray(x)]


def mclose(a, b, what, tol=1e-9):
    a, b = mat(a), mat(b)
    s = max([1.] + [abs(x) for r in b for x in r])
    for i in range(4):
        for j in range(4):
            if not abs(a[i][j] - b[i][j]) <= tol * s:
                raise Violation("%s: entry (%d,%d) is %r, expected %r" % (what, i, j, a[i][j], b[i][j]))


def product_inverse(a):
    A, B, C = build(a["a"]), build(a["b"]), build(a["c"])
    ma, mb = mchain(a["a"]), mchain(a["b"])
    mclose(A.m, ma, "product matrix")
    mclose((A * B).m, mmul(ma, mb), "A*B")
    mclose(mmul(mat(A.m), mat(A.m_inv)), mident(), "m * m_inv", 1e-8)
    mclose(A.m_inv, minv(ma), "m_inv", 1e-8)
    mclose((A * B).m_inv, minv(mmul(ma, mb)), "(A*B) inverse", 1e-7)
    mclose(((A * B) * C).m, (A * (B * C)).m, "associativity")
    I = A.inverse()
    mclose(I.m, A.m_inv, "inverse matrix", 0)
    mclose(I.m_inv, A.m, "inverse of inverse", 0)
    mclose((A * I).m, mident(), "A * A^-1", 1e-8)
    mclose((Transform() * A).m, A.m, "I * A")
    mclose((A * Transform()).m, A.m, "A * I")
    mclose(Transform(np.array(ma)).m_inv, minv(ma), "inverse from the matrix", 1e-8)
    nontriv(len(a["a"]) > 0 and len(a["b"]) > 0)


def apply(a):
    T, m = build(a["t"]), mchain(a["t"])
    inv = minv(m)
    p, v, n = a["p"], a["v"], a["n"]
    P, V, N = geo.Point(*p), geo.Vector(*v), geo.Normal(*n)
    for x, y in ((T(P), T(np.array(p), dtype=geo.Point)),):
        require(type(x) is geo.Point and type(y) is geo.Point, "image of a point: %s %s", type(x), type(y))
        req_vclose(x, mapply_point(m, p), "image of a point", 1e-10, 1e-10)
        req_vclose(y, x, "image of an array as a point", 0, 0)
    for x, y in ((T(V), T(np.array(v), dtype=geo.Vector)),):
        require(type(x) is geo.Vector and type(y) is geo.Vector, "image of a vector: %s %s", type(x), type(y))
        req_vclose(x, mapply_vec(m, v), "image of a vector", 1e-10, 1e-10)
        req_vclose(y, x, "image of an array as a vector", 0, 0)
    tn = T(N)
    require(type(tn) is geo.Normal, "image of a normal: %s", type(tn))
    req_vclose(tn, mapply_vec(mT([r[:3] for r in inv[:3]]), n), "image of a normal", 1e-9, 1e-10)
    req_vclose(T(np.array(n), dtype=geo.Normal), tn, "image of an array as a normal", 0, 0)
    # metamorphic: tangency is preserved, and the inverse undoes the map
    sc = vlen(n) * vlen(v) * max(1., max(abs(x) for r in m for x in r) * max(abs(x) for r in inv for x in r))
    req_close(vdot(fl(tn), fl(T(V))), vdot(n, v), "<T(n),T(v)>", 1e-9, 1e-9 * sc + 1e-12)
    J = T.inverse()
    req_vclose(J(T(P)), p, "inverse image of a point", 1e-7, 1e-7)
    req_vclose(J(T(V)), v, "inverse image of a vector", 1e-7, 1e-7)
    req_vclose(J(T(N)), n, "inverse image of a normal", 1e-7, 1e-7)
    req_vclose(T(P + V), vadd(fl(T(P)), fl(T(V))), "T(p+v) = T(p)+T(v)", 1e-9, 1e-9)
    for x, y in ((P, p), (V, v), (N, n)):
        req_vclose(x, y, "argument modified", 0, 0)
    for bad in (1., None, "x", [1., 2., 3.]):
        must_raise(TypeError, lambda: T(bad), "T(%r)" % (bad,))
    nontriv(len(a["t"]) > 0 and any(p) and any(v) and any(n))


def matrix(a):
    """transforms given by their matrix alone, shears included"""
    k = a["kind"]
    m = [list(r) for r in (a["any"] if k == "any" else a["rows"])]
    if k == "unit columns":
        m = [[m[j][i] for j in range(3)] for i in range(3)]
    elif k == "shear":
        m = [[float(i == j) for j in range(3)] for i in range(3)]
        i = a["ij"] // 2
        m[i][(i + 1 + a["ij"] % 2) % 3] = a["k"]
    det = m3det(m)
    if abs(det) < .05:
        raise Reject("nearly singular")
    m = [m[i] + [a["off"][i]] for i in range(3)] + [[0., 0., 0., 1.]]
    T, U, u = Transform(np.array(m)), build(a["c"]), mchain(a["c"])
    for X, x, what in ((T, m, "matrix"), (T * U, mmul(m, u), "product"), (U * T, mmul(u, m), "product"), (T.inverse(), minv(m), "inverse")):
        inv = minv(x)
        big = max(abs(c) for r in x + inv for c in r)
        mclose(X.m, x, what, 1e-9 * big * big)
        mclose(X.m_inv, inv, what + ", inverse", 1e-9 * big * big)
        p, v, n = a["p"], a["v"], a["n"]
        req_vclose(X(geo.Point(*p)), mapply_point(x, p), "image of a point by a " + what, 1e-9, 1e-9 * big * big)
        req_vclose(X(geo.Vector(*v)), mapply_vec(x, v), "image of a vector by a " + what, 1e-9, 1e-9 * big * big)
        req_vclose(X(geo.Normal(*n)), mapply_vec(mT([r[:3] for r in inv[:3]]), n), "image of a normal by a " + what, 1e-9, 1e-8 * big * big)
        d3 = m3det([r[:3] for r in x[:3]])
        require(bool(X.swaps_handedness()) == (d3 < 0), "swaps_handedness of a %s of determinant %r", what, d3)
    nontriv(any(a["v"]) and any(a["n"]))
    label(k)


def apply_ray(a):
    T, m = build(a["t"]), mchain(a["t"])
    o, dr = a["o"], a["dr"]
    maxt = INF if a["maxt"] is None else a["maxt"]
    r = geo.Ray(geo.Point(*o), geo.Vector(*dr), a["mint"], maxt, a["depth"], a["time"])
    x = T(r)
    require(type(x) is geo.Ray, "image of a ray: %s", type(x))
    req_vclose(x.o, mapply_point(m, o), "origin", 1e-10, 1e-10)
    req_vclose(x.d, mapply_vec(m, dr), "direction", 1e-10, 1e-10)
    require((x.mint, x.maxt, x.depth, x.time) == (a["mint"], maxt, a["depth"], a["time"]), "ray fields changed")
    req_vclose(x(a["s"]), mapply_point(m, fl(r(a["s"]))), "T(r)(t) = T(r(t))", 1e-9, 1e-8)
    req_vclose(r.o, o, "argument ray changed", 0, 0)
    req_vclose(r.d, dr, "argument ray changed", 0, 0)
    q = geo.RayDifferential(geo.Point(*o), geo.Vector(*dr), a["mint"], maxt, a["depth"], a["time"])
    q.has_differentials = a["has"]
    f = a["offs"]
    q.rxOrigin, q.ryOrigin = geo.Point(*f[0]), geo.Point(*f[1])
    q.rxDirection, q.ryDirection = geo.Vector(*f[2]), geo.Vector(*f[3])
    y = T(q)
    require(type(y) is geo.RayDifferential, "image of a differential ray: %s", type(y))
    require(y.has_differentials == a["has"], "has_differentials changed")
    req_vclose(y.o, x.o, "origin", 0, 0)
    req_vclose(y.d, x.d, "direction", 0, 0)
    require((y.mint, y.maxt, y.depth, y.time) == (a["mint"], maxt, a["depth"], a["time"]), "ray fields changed")
    if a["has"]:
        req_vclose(y.rxOrigin, mapply_point(m, f[0]), "x-offset origin", 1e-10, 1e-10)
        req_vclose(y.ryOrigin, mapply_point(m, f[1]), "y-offset origin", 1e-10, 1e-10)
        req_vclose(y.rxDirection, mapply_vec(m, f[2]), "x-offset direction", 1e-10, 1e-10)
        req_vclose(y.ryDirection, mapply_vec(m, f[3]), "y-offset direction", 1e-10, 1e-10)
        req_vclose(q.rxOrigin, f[0], "argument differential changed", 0, 0)
        label("differentials")
    nontriv(len(a["t"]) > 0 and any(dr))


def bbox_axis(a):
    T, m = build(a["t"]), mchain(a["t"])
    p, q = a["p"], a["q"]
    b = geo.BBox(geo.Point(*p), geo.Point(*q))
    r = T(b)
    lo, hi = fl(b.pMin), fl(b.pMax)
    cs = [mapply_point(m, [(lo, hi)[i & 1][0], (lo, hi)[i >> 1 & 1][1], (lo, hi)[i >> 2][2]]) for i in range(8)]
    elo = [min(c[i] for c in cs) for i in range(3)]
    ehi = [max(c[i] for c in cs) for i in range(3)]
    req_vclose(r.pMin, elo, "lower corner of the image", 1e-9, 1e-9)
    req_vclose(r.pMax, ehi, "upper corner of the image", 1e-9, 1e-9)
    req_vclose(b.pMin, [min(x, y) for x, y in zip(p, q)], "argument box changed", 0, 0)
    x = [l + (h - l) * u for l, h, u in zip(lo, hi, a["u"])]
    y = T(geo.Point(*x))
    for i in range(3):
        require(r.pMin[i] - 1e-8 <= y[i] <= r.pMax[i] + 1e-8, "the image box misses the image of %r", x)
    nontriv(len(a["t"]) > 0 and p != q)


def bbox_diagonal(a):
    """For any affine map the image box spans the images of the two extreme corners."""
    T, m = build(a["t"]), mchain(a["t"])
    b = geo.BBox(geo.Point(*a["p"]), geo.Point(*a["q"]))
    c, e = mapply_point(m, fl(b.pMin)), mapply_point(m, fl(b.pMax))
    r = T(b)
    for i in range(3):
        require(float(r.pMin[i]) <= min(c[i], e[i]) + 1e-8 and float(r.pMax[i]) >= max(c[i], e[i]) - 1e-8,
                "image box %r..%r misses the image of a corner (%r, %r)", fl(r.pMin), fl(r.pMax), c, e)
    nontriv(len(a["t"]) > 0 and a["p"] != a["q"])


def bbox_rotated(a):
    """The image box contains the image of every corner."""
    T, m = build(a["t"]), mchain(a["t"])
    b = geo.BBox(geo.Point(*a["p"]), geo.Point(*a["q"]))
    r = T(b)
    lo, hi = fl(b.pMin), fl(b.pMax)
    for k in range(8):
        c = mapply_point(m, [(lo, hi)[k & 1][0], (lo, hi)[k >> 1 & 1][1], (lo, hi)[k >> 2][2]])
        for i in range(3):
            require(r.pMin[i] - 1e-9 <= c[i] <= r.pMax[i] + 1e-9, "image of a corner %r outside the image box %r..%r", c, fl(r.pMin), fl(r.pMax))


def elementary(a):
    v, deg, s = a["v"], a["deg"], a["s"]
    t = Transform.translate(geo.Vector(*v))
    mclose(t.m, mtranslate(v), "translate", 0)
    mclose(t.m_inv, mtranslate(vmul(v, -1.)), "translate inverse", 0)
    t = Transform.scale(*s)
    mclose(t.m, mscale(s), "scale", 0)
    mclose(t.m_inv, mscale([1. / x for x in s]), "scale inverse", 1e-15)
    for f, ax in ((Transform.rotate_x, [1., 0., 0.]), (Transform.rotate_y, [0., 1., 0.]), (Transform.rotate_z, [0., 0., 1.])):
        t = f(deg)
        mclose(t.m, mrotate(deg, ax), "%s(%r)" % (f.__name__, deg), 1e-12)
        mclose(t.m_inv, mrotate(-deg, ax), "%s inverse" % f.__name__, 1e-12)
        mclose(Transform.rotate(deg, geo.Vector(*ax)).m, t.m, "rotate vs %s" % f.__name__, 1e-12)
    axis = vmul(a["axis"], a["k"])            # not normalised: the axis is a direction
    A = geo.Vector(*axis)
    t = Transform.rotate(deg, A)
    mclose(t.m, mrotate(deg, axis), "rotate", 1e-12)
    mclose(t.m_inv, mrotate(-deg, axis), "rotate inverse", 1e-12)
    req_vclose(t(A), axis, "the axis is not fixed", 1e-12, 1e-12)
    req_vclose(A, axis, "rotate changed its axis argument", 0, 0)
    req_close(t(geo.Vector(*v)).length(), vlen(v), "rotation changes lengths", 1e-12, 1e-12)
    mclose((Transform.rotate(deg, A) * Transform.rotate(33., A)).m, mrotate(deg + 33., axis), "angles add", 1e-11)
    nontriv(deg % 360. != 0. and any(v))


def look_at(a):
    eye, w, up = a["eye"], a["w"], a["up"]
    up = vnorm(up) if vlen(up) == 0 else up
    cr = vcross(vnorm(up), w)
    if vlen(cr) < .02:
        up = [w[1], w[2], w[0]]
        if vlen(vcross(vnorm(up), w)) < .02:
            up = [-w[1], w[0] + .3, w[2]]
    if vlen(vcross(vnorm(up), w)) < .02:
        raise Reject()
    at = vadd(eye, vmul(w, a["dist"]))
    E, A, U = geo.Point(*eye), geo.Point(*at), geo.Vector(*up)
    t = Transform.look_at(E, A, U)
    z = vnorm(vsub(at, eye))
    x = vnorm(vcross(up, z))
    y = vcross(z, x)
    O = geo.Point(0., 0., 0.)
    req_vclose(t(O), eye, "camera origin -> eye", 1e-9, 1e-9)
    req_vclose(t(geo.Vector(0., 0., 1.)), z, "camera +z -> viewing direction", 1e-9, 1e-9)
    req_vclose(t(geo.Vector(0., 1., 0.)), y, "camera +y -> up component", 1e-9, 1e-9)
    req_vclose(t(geo.Vector(1., 0., 0.)), x, "camera +x -> right", 1e-9, 1e-9)
    req_vclose(t(geo.Point(0., 0., a["dist"])), at, "camera axis -> target", 1e-9, 1e-8)
    mclose(mmul(mat(t.m), mat(t.m_inv)), mident(), "look-at inverse", 1e-9)
    u = t.inverse()(U)
    require(abs(u.x) < 1e-9 * vlen(up) + 1e-9 and u.y > 0, "up is not in the upper yz half plane: %r", fl(u))
    req_vclose(E, eye, "eye changed", 0, 0)
    req_vclose(U, up, "up changed", 0, 0)
    req_vclose(t.inverse()(t(geo.Point(*a["p"]))), a["p"], "round trip", 1e-8, 1e-8)
    require(not t.has_scale(), "a look-at transform reports a scale")
    require(not t.swaps_handedness(), "a look-at transform mirrors")
    nontriv()


def projections(a):
    n, f, fov = a["n"], a["n"] + a["span"], a["fov"]
    u = a["p"]
    z = n + u[2] * a["span"]
    k = math.tan(math.radians(fov) / 2)
    x, y = (2 * u[0] - 1) * z * k, (2 * u[1] - 1) * z * k
    t = Transform.perspective(fov, n, f)
    p = t(geo.Point(x, y, z))
    tol = 3e-5 if abs(z - 1.) < 1.1e-5 else 1e-9       # homogeneous weights within 1e-5 of 1 count as 1
    req_vclose(p[:2], [2 * u[0] - 1, 2 * u[1] - 1], "perspective xy", tol, tol)
    req_close(p[2], f * (z - n) / (z * (f - n)), "perspective z", 1e-8, max(1e-8, tol * (1 + f / (f - n))))
    for zz, e in ((n, 0.), (f, 1.)):
        req_close(t(geo.Point(0., 0., zz)).z, e, "perspective depth at z=%r" % zz, 1e-7, 1e-7 + 3e-5 * (abs(zz - 1) < 1.1e-5) * f / (f - n))
    mclose(mmul(mat(t.m), mat(t.m_inv)), mident(), "perspective inverse", 1e-7)
    # anywhere, beside and behind the eye too: the homogeneous action, undone by the inverse
    T, m = build(a["c"]), mchain(a["c"])
    k1 = 1. / k
    pm = [[k1, 0., 0., 0.], [0., k1, 0., 0.], [0., 0., f / (f - n), -f * n / (f - n)], [0., 0., 1., 0.]]
    any_, w = a["any"], mapply_vec(m, a["any"])[2] + m[2][3]
    if abs(w) > .05 and abs(w - 1.) > 2e-5:
        X, xm = t * T, mmul(pm, m)
        big = max(abs(c) for r in xm + minv(m) for c in r)
        q = [sum(xm[i][j] * any_[j] for j in range(3)) + xm[i][3] for i in range(4)]
        got = X(geo.Point(*any_))
        req_vclose(got, [c / q[3] for c in q[:3]], "image of %r under a projective map (weight %r)" % (any_, q[3]), 1e-8, 1e-9 * big * big)
        # the inverse weighs by 1/w: within 1e-5 of 1 it counts as 1
        if abs(1. / w - 1.) > 2e-5 and abs(w) < 60.:
            req_vclose(X.inverse()(got), any_, "inverse image under a projective map (weight %r)" % q[3], 1e-5, 1e-7 * big * big * (1. + f / (f - n)) * (1. + f / n))
        label("ahead" if w > 0 else "behind the eye")
    o = Transform.orthographic(n, f)
    q = o(geo.Point(x, y, z))
    req_vclose(q, [x, y, (z - n) / (f - n)], "orthographic", 1e-9, 1e-9)
    mclose(mmul(mat(o.m), mat(o.m_inv)), mident(), "orthographic inverse", 1e-9)
    nontriv(u[0] != .5 and u[1] != .5)


def predicates(a):
    T, m = build(a["t"]), mchain(a["t"])
    det = m3det([r[:3] for r in m[:3]])
    require(bool(T.swaps_handedness()) == (det < 0), "swaps_handedness for determinant %r", det)
    eye = mat(T.m) == mident()
    require(bool(T.is_identity()) == eye, "is_identity")
    require(Transform().is_identity() and (Transform() == Transform()), "identity")
    R = build(a["r"])
    require(not R.has_scale(), "a rigid motion reports a scale")
    require(not R.swaps_handedness(), "a rigid motion reports a handedness swap")
    s = [1., 1., 1.]
    s[a["ax"]] = a["s"]
    S = Transform.scale(*s)
    require(S.has_scale() and (R * S).has_scale(), "a scale of %r is not reported", s)
    M = Transform.scale(-1., 1., 1.)
    require((R * M).swaps_handedness() and (M * R).swaps_handedness(), "a mirror is not reported")
    require(not (M * R * M).swaps_handedness(), "two mirrors reported as a swap")
    require(not (R * M).has_scale(), "a mirror reports a scale")
    nontriv(len(a["r"]) > 0)
    label("mirror" if det < 0 else "proper")


def copy_independence(a):
    T, U = build(a["t"]), build(a["u"])
    eq = mat(T.m) == mat(U.m)
    require(bool(T == U) == eq and bool(T != U) == (not eq), "== / != of transforms")
    c = T.copy()
    require(c is not T and bool(c == T) and not bool(c != T), "copy")
    mclose(c.m_inv, T.m_inv, "copy inverse", 0)
    src = np.array(mat(T.m))
    X = Transform(src)
    Y = Transform(src, np.array(mat(T.m_inv)))
    src[0, 0] += 5.
    mclose(X.m, T.m, "the transform aliases its matrix argument", 0)
    mclose(Y.m, T.m, "the transform aliases its matrix argument", 0)

    def poke():
        T.m[0, 0] = 3.
    must_raise((ValueError, TypeError), poke, "writing the matrix")
    must_raise(TypeError, lambda: Transform(np.eye(3)), "3x3 matrix")
    nontriv(len(a["t"]) > 0)
