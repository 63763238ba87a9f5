"""P08 sampling points on shapes: support, normals, uniform density, solid-angle density."""
from cases.shapes import *
import pytracer.geometry as geo


def on_surface(m, p, what, tol=1e-6):
    """object-space membership of world point p"""
    q = mapply_point(m.Mi, p)
    R = m.s.get("r", 1.)
    sz = (1 + max(abs(c) for r in m.Mi for c in r)) * (1 + vlen(p)) * 1e-9
    e = tol * R + sz
    if m.k == "sphere":
        require(abs(vlen(q) - R) <= e and m.zmin - e <= q[2] <= m.zmax + e, "%s %r (object %r) is off the sphere", what, p, q)
    elif m.k == "cyl":
        require(abs(math.hypot(q[0], q[1]) - R) <= e and m.zmin - e <= q[2] <= m.zmax + e, "%s %r (object %r) is off the cylinder", what, p, q)
    elif m.k == "disk":
        rho = math.hypot(q[0], q[1])
        require(abs(q[2] - m.s["h"]) <= e and m.s["ri"] - e <= rho <= R + e, "%s %r (object %r) is off the disk", what, p, q)
    else:
        b = m.bary(q)
        sz = max(vlen(x) for x in m.v) + 1
        n = m.normal(q)
        require(abs(vdot(n, vsub(q, m.v[0]))) <= 1e-6 * sz and min(b) > -1e-6, "%s %r is off the triangle (barycentrics %r)", what, p, b)
        return q
    if m.phimax < TWO_PI - 1e-12:
        rho = math.hypot(q[0], q[1])
        phi = math.atan2(q[1], q[0]) % TWO_PI
        d_ = min(max(0., phi - m.phimax), TWO_PI - phi) if phi > m.phimax else 0.
        require(d_ * rho <= max(e, 1e-6 * R), "%s %r at angle %r beyond the clip angle %r", what, p, phi, m.phimax)
    return q


def tri_ok(m):
    if m.k == "tri":
        a, b = vsub(m.v[1], m.v[0]), vsub(m.v[2], m.v[0])
        if vlen(vcross(a, b)) < 1e-2 * vlen(a) * vlen(b) or vlen(a) * vlen(b) < 1e-4:
            raise Reject()


def support(a):
    s = a["s"]
    m = Obj(s)
    tri_ok(m)
    shp = build_shape(s)
    for u in a["us"]:
        p, n = shp.sample(u[0], u[1])
        require(isinstance(p, geo.Point) and not isinstance(p, geo.Vector), "sampled position is a %s", type(p))
        q = on_surface(m, fl(p), "sampled point")
        e = m.wnormal(m.normal(q))
        if s["ro"]:
            e = vmul(e, -1.)
        require(vlen(vsub(fl(n), e)) < 1e-5, "sampled normal %r, surface normal %r", fl(n), e)
        p2, n2 = shp.sample(u[0], u[1])
        require(fl(p2) == fl(p) and fl(n2) == fl(n), "sampling is not a function of (u1,u2)")
    require(close(shp.pdf(geo.Point(*fl(p))), 1. / shp.area(), 1e-9, 0), "pdf %r, 1/area %r", shp.pdf(p), 1. / shp.area())
    nontriv()
    label(m.k)


def agrees_with_hit(a):
    """the sampled point is what a ray through it hits, with the same normal"""
    s = a["s"]
    m = Obj(s)
    tri_ok(m)
    shp = build_shape(s)
    p, n = shp.sample(*a["u"])
    p = fl(p)
    d_ = a["dir"]
    if abs(vdot(d_, fl(n))) < .05:
        raise Reject()
    wo = vsub(p, vmul(d_, a["back"]))
    try:
        m.first_hit(wo, d_, 0.5 * a["back"], 1.5 * a["back"])
    except Reject:
        raise
    # only the neighbourhood of p is searched
    w = .001 * min(s.get("r", 1.), 1.)
    res = shp.intersect(geo.Ray(geo.Point(*wo), geo.Vector(*d_), a["back"] - w, a["back"] + w))
    require(res[0], "ray through the sampled point %r misses", p)
    if m.k == "tri":
        uv = m.uv
        det = (uv[0][0] - uv[2][0]) * (uv[1][1] - uv[2][1]) - (uv[1][0] - uv[2][0]) * (uv[0][1] - uv[2][1])
        if det <= 0:
            raise Reject()
    if vlen(vsub(fl(res[3].p), p)) > 1e-4 * w:
        raise Reject()        # another sheet of the surface within the window
    require(vdot(fl(res[3].nn), fl(n)) > 1 - 1e-4, "sampled normal %r, hit normal %r", fl(n), fl(res[3].nn))
    nontriv()


def jac(f, u, h):
    x0, x1 = fl(f(u[0] - h, u[1])), fl(f(u[0] + h, u[1]))
    y0, y1 = fl(f(u[0], u[1] - h)), fl(f(u[0], u[1] + h))
    du = vmul(vsub(x1, x0), .5 / h)
    dv = vmul(vsub(y1, y0), .5 / h)
    return vlen(vcross(du, dv))


def density(a):
    """locally, the (u1,u2) -> surface map stretches area by exactly 1/pdf (rigid placement)"""
    s = a["s"]
    m = Obj(s)
    tri_ok(m)
    shp = build_shape(s)
    u = a["u"]
    h = 1e-5
    if abs(u[0] - u[1]) < 1e-4 or abs(u[0] + u[1] - 1) < 1e-4:
        raise Reject()        # seams of the concentric map
    f = lambda x, y: shp.sample(x, y)[0]
    J = jac(f, u, h)
    pdf = shp.pdf(shp.sample(*u)[0])
    # warp seams (concentric map diagonals, pole) break the difference quotient: require two step sizes to agree
    J2 = jac(f, u, 3 * h)
    if not close(J, J2, 1e-4, 0):
        raise Reject()
    req_close(J * pdf, 1., "area stretch * pdf at u=%r" % (u,), 2e-3, 0)
    nontriv()
    label(m.k)


def coverage(a):
    """equal cells of the unit square carry equal area: the mean and the sector/ring frequencies of a fine lattice match"""
    s = a["s"]
    m = Obj(s)
    tri_ok(m)
    shp = build_shape(s)
    N = 24
    pts = []
    for i in range(N):
        for j in range(N):
            p, _ = shp.sample((i + .5) / N, (j + .5) / N)
            pts.append(mapply_point(m.Mi, fl(p)))
    n = float(len(pts))
    tol = 4. / N
    if m.k == "tri":
        for k in range(3):
            req_close(sum(m.bary(p)[k] for p in pts) / n, 1. / 3, "mean barycentric", 0, .02)
    else:
        f = a["f"]
        cut = f * m.phimax
        frac = sum(1 for p in pts if math.atan2(p[1], p[0]) % TWO_PI <= cut) / n
        req_close(frac, f, "fraction of samples in the first %r of the sweep" % f, 0, tol)
        if m.k == "disk":
            r2 = s["ri"] ** 2 + f * (s["r"] ** 2 - s["ri"] ** 2)
            frac = sum(1 for p in pts if p[0] ** 2 + p[1] ** 2 <= r2) / n
        else:
            z = m.zmin + f * (m.zmax - m.zmin)
            frac = sum(1 for p in pts if p[2] <= z) / n
        req_close(frac, f, "fraction of samples in the first %r of the area" % f, 0, tol)
    nontriv()
    label(m.k)


def solid_angle(a):
    """generic shapes: pdf_p = dist^2 / (cos * area) towards a point seen, 0 when the direction misses"""
    s = a["s"]
    m = Obj(s)
    if s["k"] == "sphere" and m.zmin <= -s["r"] and m.zmax >= s["r"] and s["phi"] >= 360:
        raise Reject()      # sampled by its visible cone
    tri_ok(m)
    shp = build_shape(s)
    wo, wd = aim(m, a["aim"])
    wd = vnorm(wd)
    exp = m.first_hit(wo, wd, 1e-5, INF)
    got = shp.pdf_p(geo.Point(*wo), geo.Vector(*wd))
    if exp is None:
        require(got == 0., "density %r in a direction that misses", got)
        label("miss")
        return
    w = m.toworld(exp[1])
    n = m.wnormal(m.normal(exp[1]))
    c = abs(vdot(n, wd))
    if c < 1e-3:
        raise Reject()
    dd = vsub(w, wo)
    req_close(got, vdot(dd, dd) / c / shp.area(), "solid angle density", 1e-4, 1e-7)
    p, _ = shp.sample_p(geo.Point(*wo), *a["u"])
    req_vclose(p, fl(shp.sample(*a["u"])[0]), "sample_p", 0, 0)
    nontriv()


def sphere_cone(a):
    """whole rigid spheres: sample_p lies in the visible cone, on the near side, with the density pdf_p reports"""
    s = a["s"]
    m = Obj(s)
    shp = build_shape(s)
    R = s["r"]
    ctr = m.toworld([0., 0., 0.])
    dist = R * a["dist"]
    x = vadd(ctr, vmul(a["dir"], dist))
    P = geo.Point(*x)
    u = a["u"]
    ct = math.sqrt(max(0., 1 - (R / dist) ** 2))
    if dist * dist - R * R < 1e-4:
        raise Reject()
    axis = vnorm(vsub(ctr, x))
    p, n = shp.sample_p(P, *u)
    p = fl(p)
    require(abs(vlen(vsub(p, ctr)) - R) <= 1e-3 * R + 1e-7 * (1 + vlen(x)), "sampled point %r is off the sphere", p)
    w = vnorm(vsub(p, x))
    require(vdot(w, axis) >= ct - 1e-6, "sampled direction leaves the visible cone: cos %r < %r", vdot(w, axis), ct)
    sg = -1. if s["ro"] else 1.
    req_vclose(n, vmul(vnorm(vsub(p, ctr)), sg), "sampled normal", 1e-5, 1e-5)
    if vdot(w, axis) > ct + 1e-4 * (1 - ct):
        require(vdot(vsub(p, ctr), w) <= 1e-3 * R, "sampled point is on the far side")
    pdf = shp.pdf_p(P, geo.Vector(*w))
    req_close(pdf, 1. / (TWO_PI * (1 - ct)), "pdf_p", 1e-5, 0)
    f = lambda y, z: vnorm(vsub(fl(shp.sample_p(P, y, z)[0]), x))
    if .02 < u[0] < .98:
        h = 1e-4 * min(u[0], 1 - u[0], .1)
        J, J2 = jac(f, u, h), jac(f, u, 2 * h)
        if close(J, J2, 1e-3, 0):
            req_close(J * pdf, 1., "solid-angle stretch * pdf_p", 1e-2, 0)
            nontriv()


def sphere_inside(a):
    """inside, the sphere is sampled by area: density and support of the generic rule"""
    s = a["s"]
    m = Obj(s)
    shp = build_shape(s)
    R = s["r"]
    ctr = m.toworld([0., 0., 0.])
    x = vadd(ctr, vmul(a["dir"], R * a["f"]))
    P = geo.Point(*x)
    p, n = shp.sample_p(P, *a["u"])
    on_surface(m, fl(p), "sampled point")
    w = a["w"]
    b = vdot(vsub(x, ctr), w)
    t = -b + math.sqrt(b * b - (vdot(vsub(x, ctr), vsub(x, ctr)) - R * R))
    hitp = vadd(x, vmul(w, t))
    c = abs(vdot(vnorm(vsub(hitp, ctr)), w))
    req_close(shp.pdf_p(P, geo.Vector(*w)), t * t / c / shp.area(), "pdf_p inside", 1e-4, 1e-7)
    nontriv()


def cone_coverage(a):
    """the whole visible cone of a sphere is sampled"""
    s = a["s"]
    m = Obj(s)
    shp = build_shape(s)
    R = s["r"]
    ctr = m.toworld([0., 0., 0.])
    dist = R * a["dist"]
    x = vadd(ctr, vmul(a["dir"], dist))
    if dist * dist - R * R < 1e-4:
        raise Reject()
    ct = math.sqrt(max(0., 1 - (R / dist) ** 2))
    axis = vmul(a["dir"], -1)
    P = geo.Point(*x)
    # offsets from the axis, in units of the rim of the cone
    pts = []
    for u, v in lattice(14):
        w = vnorm(vsub(fl(shp.sample_p(P, u, v)[0]), x))
        pts.append(vmul(vsub(w, vmul(axis, vdot(w, axis))), dist / R))
    e2 = (1 - (1 + ct + ct * ct) / 3) / 2 * (dist / R) ** 2
    req_moments(pts, [0.] * 3, [[(e2 if i == j else 0.) - e2 * axis[i] * axis[j] for j in range(3)] for i in range(3)], "offsets of sampled directions", .02)
    nontriv()
