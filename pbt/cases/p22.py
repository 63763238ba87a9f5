"""P22 measured reflectance: scattered isotropic samples and regular half-angle tables."""
import os
import shutil
import tempfile
from cases.bdf import *
from pytracer import KdTree
from pytracer.material import MeasuredMaterial
from pytracer.reflection.bdf.measured import IrIsotropicBRDFSample, IrIsotropicBRDF, ReHalfangleBRDF
from pytracer.reflection.utility import brdf_remap


def remap(wo, wi):
    so, si = math.hypot(wo[0], wo[1]), math.hypot(wi[0], wi[1])
    if so < 1e-4 or si < 1e-4:
        raise Reject()
    c = max(-1., min(1., (wo[0] * wi[0] + wo[1] * wi[1]) / so / si))
    return [so * si, math.acos(c) / PI, wo[2] * wi[2]]


def lookup(pts, vals, m):
    """Gaussian weighted mean of the samples in the first ball, growing by 1.414 from 0.01, that holds three of them"""
    r = .01
    ds = [math.sqrt(sum((x - y) ** 2 for x, y in zip(p, m))) for p in pts]
    while True:
        if any(abs(x - r) < 1e-6 for x in ds):
            raise Reject()
        near = [k for k, x in enumerate(ds) if x <= r]
        if len(near) > 2 or r > 1.5:
            break
        r *= 1.414
    if not near:
        raise Reject()
    w = [math.exp(-100 * ds[k] ** 2) for k in near]
    n = len(vals[0])
    tot = [sum(wk * vals[k][c] for wk, k in zip(w, near)) for c in range(n)]
    return [max(0., x) / sum(w) for x in tot], len(near)


def rot(w, p): return [w[0] * math.cos(p) - w[1] * math.sin(p), w[0] * math.sin(p) + w[1] * math.cos(p), w[2]]


def scattered(a):
    """a lookup is the weighted mean of the measurements around the remapped pair; it is reciprocal and rotation invariant"""
    pts = [remap(*p) for p in a["dirs"]]
    vals = [a["v"][k % len(a["v"])] for k in range(len(pts))]
    smp = [IrIsotropicBRDFSample(geo.Point(*p), spec(v)) for p, v in zip(pts, vals)]
    data = np.empty(len(smp), dtype=object)
    for k, s in enumerate(smp):
        data[k] = s
    B = IrIsotropicBRDF(KdTree(np.array(pts)), list(smp) if a["lst"] else data)
    wo, wi = a["wo"], a["wi"]
    if a["at"] is not None:
        wo, wi = a["dirs"][a["at"] % len(a["dirs"])]
    m = remap(wo, wi)
    e, n = lookup(pts, vals, m)
    got = B.f(V(wo), V(wi))
    require(isinstance(got, Spectrum), "f returned %s", type(got))
    req_vclose(got, e, "lookup", 1e-5, 1e-7)
    req_vclose(B.f(V(wi), V(wo)), fl(got), "lookup with directions exchanged", 1e-4, 1e-6) if all(abs(x) > 1e-3 for x in wo[:2] + wi[:2]) else None
    ph = a["phi"]
    req_vclose(B.f(V(rot(wo, ph)), V(rot(wi, ph))), fl(got), "lookup in the rotated frame", 1e-4, 1e-6)
    lo, hi = [min(v[c] for v in vals) for c in range(3)], [max(v[c] for v in vals) for c in range(3)]
    require(all(l - 1e-9 <= x <= h + 1e-9 for l, x, h in zip(lo, fl(got), hi)), "lookup %r outside the measurements", fl(got))
    require(int(B.type.v) == REFL | GLOSS, "type")
    pdf, w, f = B.sample_f(V(wo), .3, .6)
    req_vclose(f, fl(B.f(V(wo), w)), "value of a sample", 1e-9, 1e-12)
    require(fl(smp[0].v) == list(map(float, vals[0])), "measurements altered")
    str(B), str(smp[0])
    label("%d near" % min(n, 6))
    nontriv(n >= 3 and len(pts) > 3)


def table(a):
    """half-angle tables are indexed by the half and difference angles of the documented format"""
    nh, nd, np_ = a["n"]
    g = a["g"]
    T = np.array([[[[g[(7 * i + 3 * j + k + c) % len(g)] + i + .1 * j + .01 * k for c in range(3)] for k in range(np_)] for j in range(nd)] for i in range(nh)])
    B = ReHalfangleBRDF(T, nh, nd, np_)
    wo, wi = a["wo"], a["wi"]
    if wo[2] * wi[2] <= 0:
        wi = flip(wi)
    if wo[2] < 0:
        wo, wi = flip(wo), flip(wi)
    h = vadd(wo, wi)
    if vlen(h) < 1e-2:
        raise Reject()
    h = vnorm(h)
    th = math.acos(max(-1., min(1., h[2])))
    sp = math.hypot(h[0], h[1])
    if sp < 1e-4:
        raise Reject()
    ph = math.atan2(h[1], h[0])
    w = rot(wi, -ph)
    w = [w[0] * math.cos(th) - w[2] * math.sin(th), w[1], w[0] * math.sin(th) + w[2] * math.cos(th)]
    td = math.acos(max(-1., min(1., w[2])))
    if td < 1e-4:
        raise Reject()
    pd = math.atan2(w[1], w[0]) % PI
    idx = []
    for x, n in ((math.sqrt(th / (PI / 2)), nh), (td / (PI / 2), nd), (pd / PI, np_)):
        if abs(x * n - round(x * n)) < 1e-6:
            raise Reject()
        idx.append(max(0, min(n - 1, int(x * n))))
    e = fl(T[idx[0]][idx[1]][idx[2]])
    got = B.f(V(wo), V(wi))
    require(isinstance(got, Spectrum), "f returned %s", type(got))
    req_vclose(got, e, "cell %r" % idx, 1e-6, 1e-9)
    req_vclose(B.f(V(wi), V(wo)), e, "exchanged directions", 1e-6, 1e-9)
    label("%d%d%d" % tuple(min(i, 1) for i in idx))
    nontriv(any(idx))


def brdf_file(path, wls, rows, style):
    with open(path, "w") as f:
        if style % 2:
            f.write("# measured data\n\n")
        f.write("%d\n" % len(wls))
        f.write(" ".join("%r" % x for x in wls) + "\n")
        for k, (ti, pi, to, po, v) in enumerate(rows):
            vals = [ti, pi, to, po] + list(v)
            if style >= 2:
                f.write("\n".join("%r" % x for x in vals) + "\n")
            else:
                f.write(" ".join("%r" % x for x in vals) + "\n")
            if style % 2 and k == 0:
                f.write("# next\n")


def sph(t, p): return [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]


def material(a):
    """a measured material reads its file: every BSDF it makes answers with the measurements, first and later loads alike"""
    from cases.p18 import init
    init()
    tmp = tempfile.mkdtemp(prefix="p22")
    try:
        mats, want = [], []
        wls = a["wls"]
        for k, rows in enumerate(a["files"]):
            dr = os.path.join(tmp, "d%d" % (k if a["dirs"] else 0))
            if not os.path.isdir(dr):
                os.mkdir(dr)
            nm = os.path.join(dr, a["name"] if a["dirs"] else "%d%s" % (k, a["name"]))
            rs = [(r[0], r[1], r[2], r[3], [r[4][i % len(r[4])] for i in range(len(wls))]) for r in rows]
            brdf_file(nm, wls, rs, a["style"])
            pts = [remap(sph(r[2], r[3]), sph(r[0], r[1])) for r in rs]
            vals = [fl(Spectrum.from_sampled(np.array(wls), np.array(r[4]))) for r in rs]
            mats.append(MeasuredMaterial(nm))
            mats.append(MeasuredMaterial(nm))
            want += [(pts, vals)] * 2
        z = geo.Normal(0., 0., 0.)
        dg = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), z, z, .3, .4, None)
        wo, wi = a["wo"], a["wi"]
        for s in (0, 1):
            if wo[2] * wi[2] < 0:
                wi = flip(wi)
        for mt, (pts, vals) in zip(mats, want):
            e, n = lookup(pts, vals, remap(wo, wi))
            bs = mt.get_bsdf(dg, dg)
            require(bs.n_BDF == 1, "%d components", bs.n_BDF)
            req_vclose(bs.f(V(wo), V(wi)), e, "measured value", 1e-5, 1e-6)
        for bad, ext in (("nofile.brdf", RuntimeError), ("x.foo", IOError)):
            must_raise(ext, lambda: MeasuredMaterial(os.path.join(tmp, bad)), bad)
        p = os.path.join(tmp, "trunc%s" % a["name"])
        with open(p, "w") as f:
            f.write("2\n400 700\n0.1 0.2 0.3 0.4 0.5\n")
        must_raise(RuntimeError, lambda: MeasuredMaterial(p), "truncated file")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    label("same name" if a["dirs"] and len(a["files"]) > 1 else "distinct")
    nontriv()
