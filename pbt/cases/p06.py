"""P06 local surface geometry at a hit: parameterisation, derivatives, normals, footprints, shading frames."""
from cases.shapes import *
import pytracer.geometry as geo


def hit(s, aimspec):
    m = Obj(s)
    shp = build_shape(s)
    wo, wd = aim(m, aimspec)
    exp = m.first_hit(wo, wd, 0., INF)
    if exp is None:
        raise Reject()
    res = shp.intersect(geo.Ray(geo.Point(*wo), geo.Vector(*wd)))
    require(res[0], "missed")
    dg_finite(res[3])
    return m, shp, wo, wd, exp[1], res[3]


def numd(f, u, v, h=1e-5):
    du = vmul(vsub(f(u + h, v), f(u - h, v)), .5 / h)
    dv = vmul(vsub(f(u, v + h), f(u, v - h)), .5 / h)
    return du, dv


def req_vec(got, exp, what, rel=1e-4, absl=1e-7):
    g = fl(got)
    require(vlen(vsub(g, exp)) <= absl + rel * vlen(exp), "%s: got %r, expected %r", what, g, exp)


def quadric(a):
    s = a["s"]
    m, shp, wo, wd, q, dg = hit(s, a["aim"])
    require(-1e-6 <= dg.u <= 1 + 1e-6 and -1e-6 <= dg.v <= 1 + 1e-6, "(u,v)=(%r,%r) outside the unit square", dg.u, dg.v)
    R = s["r"]
    rho = math.hypot(q[0], q[1])
    if rho < 1e-3 * R:
        raise Reject()          # the pole / centre is nudged
    require(vlen(vsub(m.at(dg.u, dg.v), q)) <= 1e-5 * R + 1e-7, "point of (u,v)=(%r,%r) is %r, hit is %r", dg.u, dg.v, m.at(dg.u, dg.v), q)
    w = lambda u, v: m.toworld(m.at(u, v))
    du, dv = numd(w, dg.u, dg.v)
    size = 1 + max(abs(c) for c in m.toworld(q))
    req_vec(dg.dpdu, du, "dp/du", 1e-4, 1e-8 * size)
    req_vec(dg.dpdv, dv, "dp/dv", 1e-4, 1e-8 * size)
    n = m.wnormal(m.normal(q))
    if s["ro"]:
        n = vmul(n, -1.)
    req_vec(dg.nn, n, "surface normal", 0, 1e-5)
    nontriv()
    label("clipped" if m.phimax < TWO_PI - 1e-9 or (m.k == "sphere" and m.zmax < R) else "full")
    if s["ro"]:
        label("reversed")
    if m.mirror:
        label("mirrored")


def weingarten(a):
    """dn/du, dn/dv for rigidly placed quadrics"""
    s = a["s"]
    m, shp, wo, wd, q, dg = hit(s, a["aim"])
    if math.hypot(q[0], q[1]) < 1e-2 * s["r"]:
        raise Reject()
    f = lambda u, v: m.wnormal(m.normal(m.at(u, v)))
    du, dv = numd(f, dg.u, dg.v)
    req_vec(dg.dndu, du, "dn/du", 1e-4, 1e-6)
    req_vec(dg.dndv, dv, "dn/dv", 1e-4, 1e-6)
    nontriv(m.k != "disk")


def triangle(a):
    s = a["s"]
    m, shp, wo, wd, q, dg = hit(s, a["aim"])
    b = m.bary(q)
    uv = [sum(b[i] * m.uv[i][j] for i in range(3)) for j in range(2)]
    w = [m.toworld(p) for p in m.v]
    du1, dv1 = m.uv[0][0] - m.uv[2][0], m.uv[0][1] - m.uv[2][1]
    du2, dv2 = m.uv[1][0] - m.uv[2][0], m.uv[1][1] - m.uv[2][1]
    det = du1 * dv2 - du2 * dv1
    n = vnorm(vcross(vsub(w[1], w[0]), vsub(w[2], w[0])))
    req_close(dg.u, uv[0], "u", 1e-5, 1e-5)
    req_close(dg.v, uv[1], "v", 1e-5, 1e-5)
    if abs(det) > 1e-4:
        for (a_, b_), i in (((du1, dv1), 0), ((du2, dv2), 1)):
            got = vadd(vmul(fl(dg.dpdu), a_), vmul(fl(dg.dpdv), b_))
            exp = vsub(w[i], w[2])
            require(vlen(vsub(got, exp)) <= 1e-6 * (1 + vlen(exp)) / min(1., abs(det)), "du*dpdu+dv*dpdv = %r, edge is %r", got, exp)
        sgn = 1. if det > 0 else -1.
        nontriv()
        label("uv given" if s.get("uv") else "default uv")
    elif det == 0:
        sgn = 0.
        label("degenerate uv")
    else:
        raise Reject()
    for x in (dg.dpdu, dg.dpdv):
        require(vlen(fl(x)) > 0 and abs(vdot(vnorm(fl(x)), n)) < 1e-5, "tangent %r leaves the plane with normal %r", fl(x), n)
    if sgn:
        if s["ro"] != m.mirror:
            sgn = -sgn
        req_vec(dg.nn, vmul(n, sgn), "normal", 0, 1e-5)
    else:
        require(abs(vdot(fl(dg.nn), n)) > 1 - 1e-6, "normal %r, plane normal %r", fl(dg.nn), n)
    for x in (dg.dndu, dg.dndv):
        require(vlen(fl(x)) == 0., "flat triangle with varying normal %r", fl(x))


def snapdg(g):
    return [fl(g.p), fl(g.dpdu), fl(g.dpdv), fl(g.dndu), fl(g.dndv), fl(g.nn), float(g.u), float(g.v), float(g.dudx), float(g.dudy),
            float(g.dvdx), float(g.dvdy), fl(g.dpdx), fl(g.dpdy)]


def footprint(a):
    """screen-space derivatives: offset rays meet the tangent plane"""
    s = a["s"]
    m, shp, wo, wd, q, dg = hit(s, a["aim"])
    if m.k == "tri":
        n = vnorm(vcross(fl(dg.dpdu), fl(dg.dpdv)))
    else:
        n = m.wnormal(m.normal(q))
    r = geo.RayDifferential(geo.Point(*wo), geo.Vector(*wd))
    dg.compute_differential(r)
    require([dg.dudx, dg.dvdx, dg.dudy, dg.dvdy] == [0.] * 4 and fl(dg.dpdx) == [0.] * 3 and fl(dg.dpdy) == [0.] * 3, "derivatives without differentials")
    L = vlen(wd)
    off = {}
    for ax in "xy":
        oo = vadd(wo, a["o" + ax])
        od = vadd(wd, vmul(a["d" + ax], L))
        if abs(vdot(od, n)) < .05 * vlen(od):
            raise Reject()
        off[ax] = (oo, od)
        setattr(r, "r%sOrigin" % ax, geo.Point(*oo))
        setattr(r, "r%sDirection" % ax, geo.Vector(*od))
    r.has_differentials = True
    dg.compute_differential(r)
    p = fl(dg.p)
    A = vlen(fl(dg.dpdu)) * vlen(fl(dg.dpdv))
    cr = vlen(vcross(fl(dg.dpdu), fl(dg.dpdv)))
    if cr < 1e-3 * A:
        raise Reject()
    for ax in "xy":
        oo, od = off[ax]
        t = vdot(vsub(p, oo), n) / vdot(od, n)
        e = vsub(vadd(oo, vmul(od, t)), p)
        got = fl(getattr(dg, "dpd" + ax))
        reach = 1e-6 * (1 + vlen(e) + vlen(oo) + vlen(p)) / .05
        require(vlen(vsub(got, e)) <= reach, "dp/d%s is %r, expected %r", ax, got, e)
        du, dv = float(getattr(dg, "dud" + ax)), float(getattr(dg, "dvd" + ax))
        back = vadd(vmul(fl(dg.dpdu), du), vmul(fl(dg.dpdv), dv))
        require(vlen(vsub(back, e)) <= reach * 50, "dpdu*du/d%s + dpdv*dv/d%s = %r, dp/d%s is %r", ax, ax, back, ax, e)
        if vlen(e) > 1e-6:
            nontriv()
    # copies carry everything and are independent
    c = dg.copy()
    before = snapdg(dg)
    require(snapdg(c) == before and c.shape is dg.shape, "copy differs: %r, original %r", snapdg(c), before)
    c.p.x += 1.
    c.nn.x += 1.
    c.dpdx.x += 1.
    c.dpdu.y += 1.
    c.u += 1.
    require(snapdg(dg) == before, "changing the copy changed the original")
    if m.k != "tri":
        g = shp.get_shading_geometry(shp.o2w, dg)
        require(snapdg(g) == before, "shading geometry of a quadric differs: %r, geometry %r", snapdg(g), before)


def tri_shading(a):
    """per-vertex normals and tangents are interpolated with the hit's barycentric coordinates"""
    s = dict(a["s"])
    m0 = Obj(s)
    fn = vcross(vsub(m0.v[1], m0.v[0]), vsub(m0.v[2], m0.v[0]))
    if vlen(fn) < 1e-3:
        raise Reject()
    fn = vnorm(fn)
    N = S = None
    if a["useN"]:
        N = []
        for i in range(3):
            v = vadd(fn, vmul(a["n"][i], .5))
            N.append(vnorm(v))
        s["N"] = N
    if a["useS"]:
        S = [vnorm(x) for x in a["s3"]]
        s["S"] = S
    m, shp, wo, wd, q, dg = hit(s, a["aim"])
    ud = vsub([m.uv[1][0], m.uv[1][1]], m.uv[0])
    vd = vsub([m.uv[2][0], m.uv[2][1]], m.uv[0])
    det = ud[0] * vd[1] - ud[1] * vd[0]
    if abs(det) < 1e-2:
        raise Reject()
    dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = .1, .2, .3, .4
    dg.dpdx, dg.dpdy = geo.Vector(1., 2., 3.), geo.Vector(4., 5., 6.)
    before = snapdg(dg)
    g = shp.get_shading_geometry(shp.o2w, dg)
    require(snapdg(dg) == before, "get_shading_geometry changed its argument")
    if N is None and S is None:
        require(snapdg(g) == before, "shading geometry without vertex data: %r, geometry %r", snapdg(g), before)
        return
    require([g.dudx, g.dvdx, g.dudy, g.dvdy] == [.1, .2, .3, .4] and fl(g.dpdx) == [1., 2., 3.] and fl(g.dpdy) == [4., 5., 6.],
            "screen-space derivatives changed")
    req_vec(g.p, fl(dg.p), "shading position", 0, 0)
    require((g.u, g.v) == (dg.u, dg.v) and g.shape is dg.shape, "shading u, v or shape changed")
    b = m.bary(q)
    vi = s.get("vi", [0, 1, 2])[:3]
    ns = fl(dg.nn)
    if N is not None:
        ns = m.wnormal([sum(b[i] * N[vi[i]][c] for i in range(3)) for c in range(3)])
    flip = -1. if s["ro"] != m.mirror else 1.
    got = fl(g.nn)
    req_close(vlen(got), 1., "|shading normal|", 1e-6)
    if N is not None:
        req_vec(got, vmul(ns, flip), "shading normal", 0, 1e-4)
    else:
        require(abs(vdot(got, ns)) > 1 - 1e-6, "shading normal %r, geometric %r", got, ns)
    du, dv = fl(g.dpdu), fl(g.dpdv)
    require(abs(vdot(du, ns)) < 1e-5 and abs(vdot(dv, ns)) < 1e-5 and abs(vdot(du, dv)) < 1e-5, "shading frame is not orthogonal")
    req_close(vlen(du), 1., "|shading dp/du|", 1e-5)
    req_close(vlen(dv), 1., "|shading dp/dv|", 1e-5)
    t = None
    if S is not None:
        t = mapply_vec(m.M, [sum(b[i] * S[vi[i]][c] for i in range(3)) for c in range(3)])
    else:
        t = before[1]
    if vlen(t) > 1e-3:
        tt = vnorm(t)
        c = vcross(tt, ns)
        if vlen(c) > 1e-2:
            require(abs(abs(vdot(dv, vnorm(c))) - 1) < 1e-4, "shading dp/dv %r is not perpendicular to the tangent %r and normal %r", dv, tt, ns)
            nontriv()
    if N is not None:
        # derivative of the interpolated (unnormalised) object normal, moved to world space
        e1, e2 = vsub(N[vi[0]], N[vi[2]]), vsub(N[vi[1]], N[vi[2]])
        du1, dv1 = m.uv[0][0] - m.uv[2][0], m.uv[0][1] - m.uv[2][1]
        du2, dv2 = m.uv[1][0] - m.uv[2][0], m.uv[1][1] - m.uv[2][1]
        dd = du1 * dv2 - du2 * dv1
        A = mT([r[:3] for r in m.Mi[:3]])
        req_vec(g.dndu, mapply_vec(A, vmul(vsub(vmul(e1, dv2), vmul(e2, dv1)), 1. / dd)), "shading dn/du", 1e-5, 1e-5)
        req_vec(g.dndv, mapply_vec(A, vmul(vsub(vmul(e2, du1), vmul(e1, du2)), 1. / dd)), "shading dn/dv", 1e-5, 1e-5)
    label("N" if N else "", )
    label("S" if S else "")
