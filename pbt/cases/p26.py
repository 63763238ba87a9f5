"""P26 materials: the reflection models a material declares, in the (possibly bumped) shading frame of the hit."""
from cases.bdf import *
from cases.p21 import loc, wld, match, off
from cases.p19 import inside
from cases import texture as tex
from cases.texture import m_tex, b_tex
import pytracer.material as mat
from pytracer.volume import BSSRDF


class Shape(object):
    """what a hit knows of its shape"""

    def __init__(self, ro, swap):
        self.ro, self.transform_swaps_handedness = ro, swap


def hits(a):
    h = a["hit"]
    n = vnorm(h["n"])
    s = vsub(h["h"], vmul(n, vdot(h["h"], n)))
    if vlen(s) < .1:
        raise Reject()
    s = vnorm(s)
    t = vcross(n, s)
    dpdu, dpdv = vmul(s, h["lu"]), vadd(vmul(t, h["lv"]), vmul(s, h["sk"]))
    sh = Shape(h["ro"], h["swap"])
    out = []
    for k in (0, 1):
        if k == 0:
            # geometric: the same up to a tilt
            du, dv = vadd(dpdu, vmul(n, h["tilt"][0])), vadd(dpdv, vmul(n, h["tilt"][1]))
        else:
            du, dv = dpdu, dpdv
        g = geo.DifferentialGeometry(geo.Point(*h["p"]), V(du), V(dv), geo.Normal(*h["dndu"]), geo.Normal(*h["dndv"]), h["u"], h["v"], sh)
        g.dudx, g.dvdx, g.dudy, g.dvdy = h["duv"]
        g.dpdx, g.dpdy = geo.Vector(*h["dx"]), geo.Vector(*h["dy"])
        out.append(g)
    return out


def state(g):
    return [fl(g.p), g.u, g.v, fl(g.dpdu), fl(g.dpdv), fl(g.dndu), fl(g.dndv), fl(g.nn), g.dudx, g.dvdx, g.dudy, g.dvdy]


def flat(b):
    """displacement c0 + c1 s + c2 t"""
    if b is None:
        return None
    c0, c1, c2 = b["c"]
    return ["bilerp", b["map"], [c0, c0 + c2, c0 + c1, c0 + c1 + c2]]


def frame(m, a, gg, gs):
    """(s, t, n) of the shading frame, bumped or not"""
    b = m.get("bump")
    du, dv, n = fl(gs.dpdu), fl(gs.dpdv), fl(gs.nn)
    if b is not None:
        h = a["hit"]
        d = m_tex(flat(b), h)
        k = b["map"]
        if k[0] == "uv":
            su, sv = b["c"][1] * k[1][0], b["c"][2] * k[1][1]
        else:
            su = b["c"][1] * vdot(du, k[1]) + b["c"][2] * vdot(du, k[2])
            sv = b["c"][1] * vdot(dv, k[1]) + b["c"][2] * vdot(dv, k[2])
        du = vadd(du, vadd(vmul(n, su), vmul(h["dndu"], d)))
        dv = vadd(dv, vadd(vmul(n, sv), vmul(h["dndv"], d)))
        c = vcross(du, dv)
        if vlen(c) < .05 * vlen(du) * vlen(dv) or vlen(du) < .01:
            raise Reject("degenerate bump")
        n = vnorm(c)
        g = fl(gg.nn)
        if abs(vdot(n, g)) < .01:
            raise Reject("bumped edge on")
        if vdot(n, g) < 0:
            n = vmul(n, -1)
    s = vnorm(du)
    return s, vcross(n, s), n


def clip(v): return [max(0., x) for x in v]


def black(v):
    if 0 < max(abs(x) for x in v) < 1e-3:
        raise Reject("nearly black")
    return max(abs(x) for x in v) == 0


def diel(e): return {"k": "diel", "ei": 1., "et": e}


def blinn(r): return {"k": "blinn", "ex": 1. / r}


def parts(m, a):
    """the reflection models of a material; light comes from an outside of index one"""
    h = a["hit"]
    k = m["k"]
    T = lambda n: m_tex(m[n], h)
    if k == "matte":
        s = min(90., max(0., T("sigma")))
        return [{"k": "lambert", "R": clip(T("Kd"))}] if s == 0 else [{"k": "oren", "R": clip(T("Kd")), "sig": s}]
    if k == "plastic":
        return [{"k": "lambert", "R": clip(T("Kd"))}, {"k": "micro", "R": clip(T("Ks")), "f": diel(1.5), "d": blinn(T("rough"))}]
    if k == "mirror":
        r = clip(T("Kr"))
        return [] if black(r) else [{"k": "srefl", "R": r, "f": {"k": "full"}}]
    if k == "metal":
        return [{"k": "micro", "R": [1.] * 3, "f": {"k": "cond", "eta": T("eta"), "kk": T("kk")}, "d": blinn(T("rough"))}]
    if k == "glass":
        r, t = clip(T("Kr")), clip(T("Kt"))
        e = T("ior")
        return ([] if black(r) else [{"k": "srefl", "R": r, "f": diel(e)}]) + ([] if black(t) else [{"k": "strans", "R": t, "ei": 1., "et": e}])
    if k == "uber":
        op = clip(T("op"))
        e = T("ior")
        out = []
        if op != [1.] * 3:
            if max(abs(1 - x) for x in op) < 1e-6:
                raise Reject("nearly opaque")
            out.append({"k": "strans", "R": [1 - x for x in op], "ei": 1., "et": 1.})
        for n, b in (("Kd", {"k": "lambert"}), ("Ks", {"k": "micro", "f": diel(e), "d": blinn(T("rough"))}), ("Kr", {"k": "srefl", "f": diel(e)}), ("Kt", {"k": "strans", "ei": 1., "et": e})):
            c = had(op, clip(T(n)))
            if not black(c):
                out.append(dict(b, R=c))
        return out
    if k in ("subsurface", "kdsubsurface"):
        r = clip(T("Kr"))
        return [] if black(r) else [{"k": "srefl", "R": r, "f": diel(T("ior"))}]
    if k == "mix":
        s = clip(T("scale"))
        return [{"k": "scaled", "b": b, "s": s} for b in parts(m["m1"], a)] + [{"k": "scaled", "b": b, "s": clip([1 - x for x in s])} for b in parts(m["m2"], a)]
    raise ValueError(k)


def outer(m):
    while m["k"] == "mix":
        m = m["m1"]
    return m


def b_mat(m):
    k = m["k"]
    T = lambda n: b_tex(m[n])
    b = None if m.get("bump") is None else b_tex(flat(m["bump"]))
    if k == "matte":
        return mat.MatteMaterial(T("Kd"), T("sigma"), b)
    if k == "plastic":
        return mat.PlasticMaterial(T("Kd"), T("Ks"), T("rough"), b)
    if k == "mirror":
        return mat.MirrorMaterial(T("Kr"), b)
    if k == "metal":
        return mat.MetalMaterial(T("eta"), T("kk"), T("rough"), b)
    if k == "glass":
        return mat.GlassMaterial(T("Kr"), T("Kt"), T("ior"), b)
    if k == "uber":
        return mat.UberMaterial(T("Kd"), T("Ks"), T("Kr"), T("Kt"), T("rough"), T("op"), T("ior"), b)
    if k == "subsurface":
        return mat.SubsurfaceMaterial(m["scale"], T("Kr"), T("sa"), T("ss"), T("ior"), b)
    if k == "kdsubsurface":
        return mat.KdSubsurfaceMaterial(T("Kd"), T("Kr"), T("mfp"), T("ior"), b)
    if k == "mix":
        return mat.MixMaterial(b_mat(m["m1"]), b_mat(m["m2"]), T("scale"))
    raise ValueError(k)


def bsdf(a):
    """a material's BSDF: frame, components, value, density, samples"""
    m = a["mat"]
    gg, gs = hits(a)
    F = frame(outer(m), a, gg, gs)
    ng = fl(gg.nn)
    bs = parts(m, a)
    M = b_mat(m)
    before = state(gg), state(gs)
    B = M.get_bsdf(gg, gs)
    require((state(gg), state(gs)) == before, "the hit was altered")
    name = m["k"]
    req_vclose(B.nn, F[2], name + ": shading normal", 1e-7, 1e-7)
    req_vclose(B.sn, F[0], name + ": shading tangent", 1e-7, 1e-7)
    require(B.n_BDF == len(bs), "%s: %r components, expected %r", name, B.n_BDF, [b["k"] for b in bs])
    for n, ty in enumerate(sorted(set(m_type(b) for b in bs))):
        require(B.n_components(ty) == len([b for b in bs if m_type(b) & ty == m_type(b)]), "%s: components of type %r", name, ty)
    wo, wi = a["wo"], a["wi"]
    off(vdot(wo, F[2]), vdot(wi, F[2]), vdot(wo, ng), vdot(wi, ng))
    flags = ~TRANS if vdot(wi, ng) * vdot(wo, ng) > 0 else ~REFL
    e = [0.] * 3
    lo, li = loc(F, wo), loc(F, wi)
    for b in bs:
        if match(b, 31 & flags):
            e = vadd(e, m_f(b, lo, li))
    got = B.f(V(wo), V(wi))
    require(isinstance(got, Spectrum), "%s: f is a %s", name, type(got))
    req_vclose(got, e, name + ": value", 1e-6, 1e-7)
    req_close(B.pdf(V(wo), V(wi)), sum(m_pdf(b, lo, li) for b in bs) / len(bs) if bs else 0., name + ": density", 1e-6, 1e-7)
    u = inside(a["u"])
    for k, b in enumerate(bs):
        pdf, w, t, f = B.sample_f(V(wo), BSDFSample(u[0], u[1], (k + .5) / len(bs)), BDFType.ALL)
        require(int(BDFType(t).v) == m_type(b), "%s: component %d is of type %r, expected %r", name, k, int(BDFType(t).v), m_type(b))
        p0, w0, f0 = b_bdf(b).sample_f(V(lo), u[0], u[1])
        if float(p0) == 0:
            require(float(pdf) == 0, "%s: density of a dead sample", name)
            continue
        req_vclose(w, wld(F, fl(w0)), "%s: direction sampled by component %d" % (name, k), 1e-6, 1e-6)
        if m_type(b) & SPEC:
            req_close(pdf, 1. / len(bs), "%s: density of delta component %d" % (name, k), 1e-9, 0)
            req_vclose(f, fl(f0), "%s: value of delta component %d" % (name, k), 1e-6, 1e-7)
    require((state(gg), state(gs)) == before, "the hit was altered")
    # evaluated at another time the material answers the same
    req_vclose(M.get_bsdf(gg, gs).f(V(wo), V(wi)), e, name + ": value of a second BSDF", 1e-6, 1e-7)
    str(M), str(B)
    nontriv(len(bs) > 0)
    label(name)
    if outer(m).get("bump"):
        label("bumped")


def subsurface(a):
    """volumetric part of a translucent material; none for the others"""
    m = a["mat"]
    gg, gs = hits(a)
    M = b_mat(m)
    r = M.get_bssrdf(gg, gs)
    if m["k"] != "subsurface":
        require(r is None, "%s has a BSSRDF", m["k"])
        return
    h = a["hit"]
    require(isinstance(r, BSSRDF), "BSSRDF is a %s", type(r))
    req_vclose(r.sigma_a, vmul(m_tex(m["sa"], h), m["scale"]), "absorption", 1e-9, 1e-9)
    req_vclose(r.sigma_prime_s, vmul(m_tex(m["ss"], h), m["scale"]), "reduced scattering", 1e-9, 1e-9)
    req_close(r.eta, m_tex(m["ior"], h), "index", 1e-9, 1e-9)
    str(r)
    nontriv()


def bump(a):
    """bumping displaces the surface: tangents, normal orientation, everything else kept"""
    m = {"bump": a["bump"]}
    gg, gs = hits(a)
    F = frame(m, a, gg, gs)
    before = state(gg), state(gs)
    d = mat.Material.bump(b_tex(flat(a["bump"])), gg, gs)
    require((state(gg), state(gs)) == before, "the hit was altered")
    req_vclose(d.nn, F[2], "bumped normal", 1e-7, 1e-7)
    req_vclose(vnorm(fl(d.dpdu)), F[0], "bumped tangent", 1e-7, 1e-7)
    require(isinstance(d.dpdu, geo.Vector) and isinstance(d.dpdv, geo.Vector) and isinstance(d.nn, geo.Normal), "types %s %s %s", type(d.dpdu), type(d.dpdv), type(d.nn))
    req_close(vdot(fl(d.nn), fl(d.dpdv)), 0, "bumped normal against dp/dv", 0, 1e-6 * max(1., vlen(fl(d.dpdv))))
    require([fl(d.p), d.u, d.v] == [fl(gs.p), gs.u, gs.v], "bumping moved the hit")
    require([d.dudx, d.dvdx, d.dudy, d.dvdy] == [gs.dudx, gs.dvdx, gs.dudy, gs.dvdy] and d.shape is gs.shape, "bumping altered the footprint or shape")
    nontriv(any(a["bump"]["c"]))
    label("inside out" if a["hit"]["ro"] ^ a["hit"]["swap"] else "plain")
