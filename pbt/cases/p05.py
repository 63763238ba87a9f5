"""P05 ray-shape intersection against closed-form models."""
from cases.shapes import *
import numpy as np
import pytracer.geometry as geo


def snap(r):
    return fl(r.o) + fl(r.d) + [r.mint, r.maxt, r.depth, r.time]


def judge(s, a, exact=True):
    m = Obj(s)
    shp = build_shape(s)
    wo, wd = aim(m, a["aim"])
    mint = a["win"][0]
    maxt = INF if a["win"][1] is None else mint + a["win"][1]
    exp = m.first_hit(wo, wd, mint, maxt)
    r = geo.Ray(geo.Point(*wo), geo.Vector(*wd), mint, maxt, 1, .25)
    before = snap(r)
    res = shp.intersect(r)
    require(len(res) == 4, "intersect returned %r", res)
    hit, t, eps, dg = res
    hp = shp.intersect_p(r)
    require(snap(r) == before, "the query changed the ray: %r -> %r", before, snap(r))
    require(bool(hit) == bool(hp), "intersect says %r, intersect_p says %r", hit, hp)
    require(bool(hit) == (exp is not None), "hit=%r, expected %r", hit, exp)
    if exp is None:
        require(not hit and dg is None, "miss with a geometry")
        label("miss")
        return
    label("hit")
    scale = 1 + abs(exp[0])
    req_close(t, exp[0], "hit parameter", 1e-6, 1e-7 * scale)
    require(mint <= t <= maxt, "hit parameter %r outside [%r,%r]", t, mint, maxt)
    w = m.toworld(exp[1])
    tol = 1e-5 * (m.s.get("r", 1.)) * 2 + 1e-6 * (1 + vlen(wo) + vlen(w))   # poles are nudged by EPS*radius
    require(vlen(vsub(fl(dg.p), w)) <= tol * (1 + max(abs(c) for r_ in m.M for c in r_[:3])), "hit point %r, expected %r", fl(dg.p), w)
    require(dg.shape is shp, "geometry refers to another shape")
    require(0 <= eps <= 1e-2 * max(abs(t), 1e-3), "error tolerance %r at t=%r", eps, t)
    # cutting the interval just before / after the hit
    e = 1e-5 * (1 + abs(exp[0]))
    for lo, hi in ((mint, exp[0] - e), (exp[0] + e, maxt)):
        if lo >= hi:
            continue
        try:
            x = m.first_hit(wo, wd, lo, hi)
        except Reject:
            continue
        q = geo.Ray(geo.Point(*wo), geo.Vector(*wd), lo, hi, 1, .25)
        h2 = shp.intersect(q)
        require(bool(h2[0]) == (x is not None), "in [%r,%r]: hit=%r, expected %r", lo, hi, h2[0], x)
        require(bool(shp.intersect_p(q)) == (x is not None), "in [%r,%r]: intersect_p, expected %r", lo, hi, x)
        if x is not None:
            label("second hit")
            req_close(h2[1], x[0], "second hit parameter", 1e-6, 1e-7 * (1 + abs(x[0])))
    if m.k == "tri":
        nontriv()
    else:
        nontriv(m.phimax < TWO_PI - 1e-9 or m.k == "disk" or m.zmax < m.R or len(s["t"]) > 1)


def sphere(a):
    judge(a["s"], a)


cylinder = disk = triangle = sphere


def axis_rays(a):
    """rays through special points: poles, axes, centres, edges at exact lattice positions, axis-parallel directions"""
    s = a["s"]
    m = Obj(s)
    shp = build_shape(s)
    wo, wd = m.toworld(a["o"]), mapply_vec(m.M, a["d"])
    if vlen(wd) == 0:
        raise Reject()
    r = geo.Ray(geo.Point(*wo), geo.Vector(*wd))
    res = shp.intersect(r)
    require(bool(res[0]) == bool(shp.intersect_p(r)), "intersect says %r, intersect_p says otherwise", res[0])
    exp = m.first_hit(wo, wd, 0., INF)
    require(bool(res[0]) == (exp is not None), "hit=%r, expected %r", res[0], exp)
    if exp is not None:
        req_close(res[1], exp[0], "hit parameter", 1e-6, 1e-7)
        dg_finite(res[3])
        req_close(vlen(fl(res[3].nn)), 1., "|normal|", 1e-6)
        nontriv()


def scaled_ray(a):
    """metamorphic: scaling the direction divides the parameter; moving the origin along the ray shifts it"""
    s = a["s"]
    m = Obj(s)
    shp = build_shape(s)
    wo, wd = aim(m, a["aim"])
    exp = m.first_hit(wo, wd, 0., INF)
    if exp is None:
        raise Reject()
    k = a["k"]
    r1 = shp.intersect(geo.Ray(geo.Point(*wo), geo.Vector(*wd)))
    r2 = shp.intersect(geo.Ray(geo.Point(*wo), geo.Vector(*vmul(wd, k))))
    require(r1[0] and r2[0], "hit lost when the direction is scaled by %r", k)
    req_close(r2[1] * k, r1[1], "parameter times direction scale", 1e-6, 1e-7 * (1 + abs(exp[0])))
    f = a["f"] * exp[0]
    o3 = vadd(wo, vmul(wd, f))
    try:
        m.first_hit(o3, wd, 0., INF)
    except Reject:
        return
    r3 = shp.intersect(geo.Ray(geo.Point(*o3), geo.Vector(*wd)))
    require(r3[0], "hit lost when the origin moves towards it")
    req_close(r3[1] + f, r1[1], "parameter after moving the origin", 1e-6, 1e-6 * (1 + abs(exp[0])))
    nontriv()


def grazing(a):
    """(nearly) tangent rays are answered cleanly, either way, and consistently"""
    s = a["s"]
    m = Obj(s)
    shp = build_shape(s)
    phi = TWO_PI * a["u"]
    if m.k == "sphere":
        n = vnorm(a["dir"])
        h = [1., 0., 0.] if abs(n[0]) < .7 else [0., 1., 0.]
        x = vnorm(vcross(n, h))
        y = vcross(n, x)
        dv = vadd(vmul(x, math.cos(phi)), vmul(y, math.sin(phi)))
        p = vmul(n, m.R * (1 + a["e"]))
    else:
        p = [m.R * (1 + a["e"]) * math.cos(phi), m.R * (1 + a["e"]) * math.sin(phi), (m.zmin + m.zmax) / 2]
        dv = vnorm([-math.sin(phi), math.cos(phi), a["dir"][2]])
    wo = m.toworld(vsub(p, vmul(dv, a["back"])))
    wd = vmul(mapply_vec(m.M, dv), a["len"])
    r = geo.Ray(geo.Point(*wo), geo.Vector(*wd))
    hit, t, eps, dg = shp.intersect(r)
    require(bool(hit) == bool(shp.intersect_p(r)), "intersect says %r, intersect_p disagrees", hit)
    if hit:
        require(np.isreal(t), "complex hit parameter %r", t)
        o = mapply_point(m.Mi, fl(dg.p))
        rr = vlen(o) if m.k == "sphere" else math.hypot(o[0], o[1])
        req_close(rr, m.R, "distance of the hit point from the centre", 1e-4, 1e-4)
        label("hit")
    nontriv(abs(a["e"]) < 1e-8)


def alpha(a):
    """an alpha mask removes the parts of a mesh where the texture is zero, and nothing else"""
    from pytracer.texture import Chekcerboard2DTexture, ConstantTexture, UVMapping2D
    s = a["s"]
    m = Obj(s)
    c0, c1 = a["vals"]
    k = a["map"]
    if a["const"]:
        mask = ConstantTexture(c0)
    else:
        mask = Chekcerboard2DTexture(UVMapping2D(*k), ConstantTexture(c0), ConstantTexture(c1), "none")
    plain = build_mesh(s)
    par = {"indices": list(s["vi"]), "P": [c for p in s["P"] for c in p], "alphatex": "mask"}
    if s["uv"] is not None:
        par["uv"] = list(s["uv"])
    tex = {"mask": mask, "other": ConstantTexture(0.)}
    T = build_t(s["t"])
    shp = create_triangle_mesh(T, T.inverse(), bool(s["ro"]), par, tex).refine()[0]
    wo, wd = aim(m, a["aim"])
    r = lambda: geo.Ray(geo.Point(*wo), geo.Vector(*wd))
    h = m.first_hit(wo, wd, 0., INF)
    keep = h is not None
    if keep:
        b = m.bary(h[1])
        u, v = [sum(b[i] * m.uv[i][j] for i in range(3)) for j in (0, 1)]
        x, y = u * k[0] + k[2], v * k[1] + k[3]
        if a["const"]:
            keep = c0 != 0
        else:
            if min(abs(x - round(x)), abs(y - round(y))) < 1e-5 * (1 + abs(x) + abs(y)):
                raise Reject("border of a check")
            keep = (c0, c1)[(math.floor(x) + math.floor(y)) % 2] != 0
        nontriv()
        label("kept" if keep else "masked")
    got, t, eps, dg = shp.intersect(r())
    require(bool(got) == keep, "masked triangle: hit=%r, expected %r", bool(got), keep)
    require(bool(shp.intersect_p(r())) == keep, "masked triangle: intersect_p, expected %r", keep)
    g2 = plain.refine()[0].intersect(r())
    if h is not None and g2[0]:
        # the mask is shown the hit, by both queries
        seen = []

        class Look(ConstantTexture):
            def __call__(self, q):
                seen.append(q)
                return 1.
        one = create_triangle_mesh(T, T.inverse(), bool(s["ro"]), par, dict(tex, mask=Look(1.))).refine()[0]
        one.intersect(r())
        one.intersect_p(r())
        require(len(seen) >= 2, "the mask was asked %r times in two queries", len(seen))
        for q in seen:
            for n in ("p", "nn", "dpdu", "dpdv", "dndu", "dndv"):
                req_vclose(getattr(q, n), getattr(g2[3], n), "the mask was shown " + n, 1e-9, 1e-9)
            req_close(q.u, g2[3].u, "the mask was shown u", 1e-9, 1e-9)
            req_close(q.v, g2[3].v, "the mask was shown v", 1e-9, 1e-9)
    if keep:
        require(t == g2[1] and eps == g2[2], "the mask moved the hit from %r to %r", g2[1], t)
        for n in ("p", "nn", "dpdu", "dpdv", "dndu", "dndv"):
            req_vclose(getattr(dg, n), getattr(g2[3], n), "the mask changed " + n, 1e-12, 1e-12)
        require((dg.u, dg.v) == (g2[3].u, g2[3].v) and dg.shape is shp, "the mask changed (u, v) or the shape")
