"""P01 affine algebra of vectors, points, normals, frames and rays."""
import math
from cases.base import *
import pytracer.geometry as geo

K = {"V": geo.Vector, "N": geo.Normal, "P": geo.Point}


def affine_types(a):
    x, y, z, s = a["a"], a["b"], a["c"], a["s"]
    p, q = geo.Point(*x), geo.Point(*y)
    v, w = geo.Vector(*y), geo.Vector(*z)
    r = p - q
    require(type(r) is geo.Vector, "point - point is %s", type(r))
    req_vclose(r, vsub(x, y), "p-q")
    r = p + v
    require(type(r) is geo.Point, "point + vector is %s", type(r))
    req_vclose(r, vadd(x, y), "p+v")
    r = p - w
    require(type(r) is geo.Point, "point - vector is %s", type(r))
    req_vclose(r, vsub(x, z), "p-v")
    r = v + w
    require(type(r) is geo.Vector, "vector + vector is %s", type(r))
    req_vclose(r, vadd(y, z), "v+w")
    r = v - w
    require(type(r) is geo.Vector, "vector - vector is %s", type(r))
    req_vclose(r, vsub(y, z), "v-w")
    r = v * s
    require(type(r) is geo.Vector, "vector * s is %s", type(r))
    req_vclose(r, vmul(y, s), "v*s")
    r = -v
    require(type(r) is geo.Vector, "-v is %s", type(r))
    req_vclose(r, vmul(y, -1.), "-v")
    req_vclose(q + (p - q), x, "q+(p-q)", 1e-12, 1e-12)
    req_vclose((p + v) - p, y, "(p+v)-p", 1e-12, 1e-11)
    must_raise(TypeError, lambda: p - 3., "point - scalar")

    def inplace():
        t = geo.Point(*x)
        t -= q
        return t
    must_raise(TypeError, inplace, "point -= point")
    # the operands are values, not modified by arithmetic
    req_vclose(p, x, "p after arithmetic", 0, 0)
    req_vclose(v, y, "v after arithmetic", 0, 0)
    nontriv(x != y and any(y) and any(z))


def dot_cross_length(a):
    x, y = a["a"], a["b"]
    u, v = K[a["ka"]](*x), K[a["kb"]](*y)
    m = vlen(x) * vlen(y)
    req_close(u.dot(v), vdot(x, y), "dot", 1e-12, 1e-12 * m)
    req_close(u.abs_dot(v), abs(vdot(x, y)), "abs_dot", 1e-12, 1e-12 * m)
    c = u.cross(v)
    require(type(c) is geo.Vector, "cross product is %s", type(c))
    req_vclose(c, vcross(x, y), "cross", 1e-12, 1e-12 * m + 1e-300)
    req_close(u.sq_length(), vdot(x, x), "sq_length", 1e-12, 0)
    req_close(u.length(), vlen(x), "length", 1e-12, 0)
    p, q = geo.Point(*x), geo.Point(*y)
    dd = vsub(x, y)
    req_close(p.sq_length(), vdot(x, x), "point sq_length", 1e-12, 0)
    req_close(p.length(), vlen(x), "point length", 1e-12, 0)
    req_close(p.sq_dist(q), vdot(dd, dd), "sq_dist", 1e-12, 0)
    req_close(p.dist(q), vlen(dd), "dist", 1e-12, 0)
    require(p.dist(q) == q.dist(p), "dist asymmetric")
    req_vclose([u.x, u.y, u.z], x, "components", 0, 0)
    nontriv(vlen(vcross(x, y)) > 1e-9 * m and m > 0)


def equality_copy(a):
    x = a["a"]
    y = list(x) if a["same"] else a["b"]
    for k in "VPN":
        u, v = K[k](*x), K[k](*y)
        require(bool(u == v) == (x == y), "%s == : %r %r", k, x, y)
        require(bool(u != v) == (x != y), "%s != : %r %r", k, x, y)
        w = K[k].from_arr(v)
        require(type(w) is K[k] and w is not v, "from_arr type/identity")
        req_vclose(w, y, "from_arr", 0, 0)
        w.x, w.y, w.z = 7., 8., 9.
        req_vclose(w, [7., 8., 9.], "component setters", 0, 0)
        req_vclose(v, y, "from_arr aliases its source", 0, 0)
        for k2 in "VPN":
            c = K[k2].from_arr(u)
            require(type(c) is K[k2], "conversion type")
            req_vclose(c, x, "conversion", 0, 0)
        must_raise(ValueError, lambda: K[k](float("nan"), x[1], x[2]), "NaN component")
        must_raise(ValueError, lambda: K[k](x[0], float("nan"), x[2]), "NaN component")
        must_raise(ValueError, lambda: K[k](x[0], x[1], float("nan")), "NaN component")
    nontriv(a["same"] or x != y)


def normalise(a):
    x = vmul(a["a"], a["s"])
    for k in "VN":
        u = K[k](*x)
        n = geo.normalize(u)
        req_vclose(u, x, "normalize(v) changed its argument", 0, 0)
        require(type(n) is K[k], "normalize type %s", type(n))
        L = vlen(x)
        if L == 0.:
            req_vclose(n, [0, 0, 0], "normalize(0)", 0, 0)
        else:
            req_vclose(n, vmul(x, 1. / L), "normalize", 1e-12, 0)
            req_close(n.length(), 1., "unit length", 1e-12)
        r = u.normalize()
        require(r is u, "in-place normalisation returns another object")
        req_vclose(u, n, "in-place normalisation", 1e-14, 0)
        nontriv(L > 0)


def frame(a):
    w = a["w"]
    v = geo.Vector(*w)
    f = geo.coordinate_system(v)
    require(len(f) == 3, "frame size")
    req_vclose(f[0], w, "first axis", 1e-12)
    req_vclose(v, w, "coordinate_system changed its argument", 0, 0)
    B = [list(fl(x)) for x in f]
    for i in range(3):
        for j in range(3):
            req_close(vdot(B[i], B[j]), 1. if i == j else 0., "frame gram[%d,%d]" % (i, j), 1e-9, 1e-9)
    req_close(m3det(B), 1., "frame handedness", 1e-9, 1e-9)
    nontriv()


def face_forward(a):
    n, v = a["n"], a["v"]
    N, W = geo.Normal(*n), geo.Vector(*v)
    r = geo.face_forward(N, W)
    require(type(r) is geo.Normal, "face_forward type %s", type(r))
    dt = vdot(n, v)
    if abs(dt) <= 1e-12 * vlen(n) * vlen(v):      # perpendicular up to rounding: either sign
        require(vclose(r, n, 0, 0) or vclose(r, vmul(n, -1.), 0, 0), "face_forward: neither n nor -n")
    else:
        req_vclose(r, n if dt >= 0 else vmul(n, -1.), "face_forward", 0, 0)
    req_vclose(N, n, "face_forward changed its argument", 0, 0)
    r.x = 12345.
    req_vclose(N, n, "face_forward aliases its argument", 0, 0)
    must_raise(TypeError, lambda: geo.face_forward(geo.Point(*n), W), "face_forward(point)")
    must_raise(TypeError, lambda: geo.face_forward(N, geo.Point(*v)), "face_forward(, point)")
    nontriv(dt != 0.)
    label("flip" if dt < 0 else "keep")


def spherical(a):
    th, ph = a["th"], a["ph"]
    st, ct = math.sin(th), math.cos(th)
    v = geo.spherical_direction(st, ct, ph)
    req_vclose(v, [st * math.cos(ph), st * math.sin(ph), ct], "spherical_direction", 1e-12, 1e-12)
    req_close(math.cos(geo.spherical_theta(v)), ct, "theta", 1e-9, 1e-9)
    t = float(geo.spherical_theta(v))
    require(0. <= t <= math.pi + 1e-12, "theta range %r", t)
    req_close(t, th, "theta round trip", 1e-6, 1e-6)
    p = float(geo.spherical_phi(v))
    require(0. <= p <= 2 * math.pi + 1e-12, "phi range %r", p)
    if st > 1e-6:
        dlt = abs(p - ph)
        require(min(dlt, abs(dlt - 2 * math.pi)) < 1e-8, "phi round trip: %r -> %r", ph, p)
    # arbitrary basis
    b = geo.coordinate_system(geo.Vector(*a["w"]))
    r = geo.spherical_direction(st, ct, ph, b[1], b[2], b[0])
    exp = vadd(vadd(vmul(fl(b[1]), st * math.cos(ph)), vmul(fl(b[2]), st * math.sin(ph))), vmul(fl(b[0]), ct))
    req_vclose(r, exp, "spherical_direction in a basis", 1e-12, 1e-12)
    nontriv(st > 1e-6)


def ray(a):
    o, dr, t = a["o"], a["dr"], a["t"]
    cls = geo.RayDifferential if a["diff"] else geo.Ray
    O, D = geo.Point(*o), geo.Vector(*dr)
    r = cls(O, D, a["mint"], a["mint"] + a["span"], a["depth"], a["time"])
    p = r(t)
    require(type(p) is geo.Point, "ray(t) is %s", type(p))
    req_vclose(p, vadd(o, vmul(dr, t)), "ray(t)", 1e-12, 1e-12)
    fields = lambda q: (float(q.mint), float(q.maxt), int(q.depth), float(q.time))
    require(fields(r) == (a["mint"], a["mint"] + a["span"], a["depth"], a["time"]), "ray fields %r", fields(r))
    c = cls.from_ray(r)
    require(fields(c) == fields(r), "copy fields %r != %r", fields(c), fields(r))
    req_vclose(c.o, o, "copy origin", 0, 0)
    req_vclose(c.d, dr, "copy direction", 0, 0)
    c.o.x += 1.
    c.d.y += 1.
    c.maxt = 0.
    req_vclose(r.o, o, "copy aliases origin", 0, 0)
    req_vclose(r.d, dr, "copy aliases direction", 0, 0)
    require(r.maxt == a["mint"] + a["span"], "copy aliases range")
    ch = cls.from_parent(geo.Point(*dr), geo.Vector(*o), r)
    require(ch.depth == a["depth"] + 1 and ch.time == a["time"], "child ray depth/time: %r %r", ch.depth, ch.time)
    require(ch.mint == 0. and math.isinf(ch.maxt), "child ray default range")
    req_vclose(ch.o, dr, "child origin", 0, 0)
    ch = cls.from_parent(geo.Point(*dr), geo.Vector(*o), r, .5, 7.)
    require(ch.mint == .5 and ch.maxt == 7., "child ray range")
    # the ray owns its data
    O.x += 3.
    D.z += 3.
    req_vclose(r.o, o, "ray aliases its origin argument", 0, 0)
    req_vclose(r.d, dr, "ray aliases its direction argument", 0, 0)
    e = cls()
    require(e.mint == 0. and math.isinf(e.maxt) and e.depth == 0 and e.time == 0., "default ray")
    nontriv(any(dr) and t != 0.)


def ray_differential(a):
    o, dr, s = a["o"], a["dr"], a["s"]
    r = geo.RayDifferential(geo.Point(*o), geo.Vector(*dr), .25, 9., 3, .75)
    require(not r.has_differentials, "differentials by default")
    f = a["offs"]
    r.rxOrigin = geo.Point(*vadd(o, f[0]))
    r.ryOrigin = geo.Point(*vadd(o, f[1]))
    r.rxDirection = geo.Vector(*vadd(dr, f[2]))
    r.ryDirection = geo.Vector(*vadd(dr, f[3]))
    r.has_differentials = True
    c = geo.RayDifferential.from_rd(r)
    require(c.has_differentials and (c.mint, c.maxt, c.depth, c.time) == (.25, 9., 3, .75), "from_rd fields")
    c.scale_differential(s)
    req_vclose(c.o, o, "scale_differential moved the origin", 0, 0)
    req_vclose(c.d, dr, "scale_differential turned the ray", 0, 0)
    req_vclose(c.rxOrigin, vadd(o, vmul(f[0], s)), "rxOrigin", 1e-12, 1e-10)
    req_vclose(c.ryOrigin, vadd(o, vmul(f[1], s)), "ryOrigin", 1e-12, 1e-10)
    req_vclose(c.rxDirection, vadd(dr, vmul(f[2], s)), "rxDirection", 1e-12, 1e-10)
    req_vclose(c.ryDirection, vadd(dr, vmul(f[3], s)), "ryDirection", 1e-12, 1e-10)
    c = geo.RayDifferential.from_rd(r)
    for x in (c.o, c.d, c.rxOrigin, c.ryOrigin, c.rxDirection, c.ryDirection):
        x += geo.Vector(1., 2., 3.)
    req_vclose(r.o, o, "from_rd aliases", 0, 0)
    req_vclose(r.d, dr, "from_rd aliases", 0, 0)
    req_vclose(r.rxOrigin, vadd(o, f[0]), "from_rd aliases", 1e-12, 1e-10)
    req_vclose(r.ryOrigin, vadd(o, f[1]), "from_rd aliases", 1e-12, 1e-10)
    req_vclose(r.rxDirection, vadd(dr, f[2]), "from_rd aliases", 1e-12, 1e-10)
    req_vclose(r.ryDirection, vadd(dr, f[3]), "from_rd aliases", 1e-12, 1e-10)
    nontriv(s != 1. and any(any(x) for x in f))
