"""P21 the BSDF of a hit: shading frame, sums and mixtures of its components."""
from cases.bdf import *
from cases.p19 import inside
from pytracer.sampler import Sample


def frame(a):
    """shading frame: s along dp/du, n the shading normal, t = n x s"""
    n = vnorm(a["n"])
    h = a["h"]
    s = vsub(h, vmul(n, vdot(h, n)))
    if vlen(s) < .1:
        raise Reject()
    s = vnorm(s)
    return s, vcross(n, s), n


def make(a):
    s, t, n = frame(a)
    dpdu = vmul(s, a["lu"])
    # dp/dv oblique, so that the frame cannot be read off it
    dpdv = vadd(vmul(t, a["lv"]), vmul(s, a["sk"]))
    z = geo.Normal(0., 0., 0.)
    dg = geo.DifferentialGeometry(geo.Point(*a["p"]), V(dpdu), V(dpdv), z, z, .3, .4, None)
    ng = vnorm(vadd(n, vmul(s, a["tilt"][0]), ) if True else n)
    ng = vnorm(vadd(ng, vmul(t, a["tilt"][1])))
    B = BSDF(dg, geo.Normal(*ng), a["eta"])
    for b in a["bs"]:
        B.push_back(b_bdf(b))
    return B, (s, t, n), ng


def loc(F, w): return [vdot(w, c) for c in F]


def wld(F, l): return [sum(l[k] * F[k][c] for k in range(3)) for c in range(3)]


def match(b, fl_): return m_type(b) & fl_ == m_type(b)


def off(*vals):
    for v in vals:
        if abs(v) < 5e-3:
            raise Reject()


def flagged(a):
    return BDFType(a["flags"]) if a["wrap"] else a["flags"]


def total(a, F, ng, wo, wi, flags):
    """sum over matching components, on the side the geometric normal decides"""
    flags &= ~TRANS if vdot(wi, ng) * vdot(wo, ng) > 0 else ~REFL
    tot = [0.] * 3
    for b in a["bs"]:
        if match(b, flags):
            tot = vadd(tot, m_f(b, loc(F, wo), loc(F, wi)))
    return tot


def evaluate(a):
    """value: sum of the matching components on the geometric side; density: mean over matching components; frame conversions invert each other"""
    B, F, ng = make(a)
    wo, wi = a["wo"], a["wi"]
    off(vdot(wo, F[2]), vdot(wi, F[2]), vdot(wo, ng), vdot(wi, ng))
    vo, vi = V(wo), V(wi)
    req_vclose(B.w2l(vo), loc(F, wo), "world to local", 1e-9, 1e-9)
    req_vclose(B.l2w(vo), wld(F, wo), "local to world", 1e-9, 1e-9)
    req_vclose(B.l2w(B.w2l(vo)), wo, "there and back", 1e-9, 1e-9)
    require(isinstance(B.w2l(vo), geo.Vector) and isinstance(B.l2w(vo), geo.Vector), "frame conversion returns %s", type(B.l2w(vo)))
    fg = flagged(a)
    m = [b for b in a["bs"] if match(b, a["flags"])]
    require(B.n_components(fg) == len(m), "n_components %r, expected %r", B.n_components(fg), len(m))
    require(B.n_BDF == len(a["bs"]), "n_BDF")
    got = B.f(vo, vi, fg)
    require(isinstance(got, Spectrum), "f returned %s", type(got))
    req_vclose(got, total(a, F, ng, wo, wi, a["flags"]), "f", 1e-6, 1e-7)
    req_vclose(B.f(vo, vi), total(a, F, ng, wo, wi, 31), "f of all", 1e-6, 1e-7)
    lo, li = loc(F, wo), loc(F, wi)
    for fl_, g in ((a["flags"], B.pdf(vo, vi, fg)), (31, B.pdf(vo, vi))):
        m = [b for b in a["bs"] if match(b, fl_)]
        req_close(g, sum(m_pdf(b, lo, li) for b in m) / len(m) if m else 0., "pdf", 1e-6, 1e-7)
    require(fl(vo) == wo and fl(vi) == wi, "arguments altered")
    if a["wrap"]:
        require(int(fg.v) == a["flags"], "flags altered")
    str(B)
    label("%d" % len(m))
    nontriv(len(a["bs"]) > 1 and bool(m))


def sample(a):
    """sampling: each matching component gets an equal share; value and density are those of the whole, a delta component stands alone"""
    B, F, ng = make(a)
    wo = a["wo"]
    off(vdot(wo, F[2]), vdot(wo, ng))
    u = inside(a["u"])
    fg = flagged(a)
    m = [b for b in a["bs"] if match(b, a["flags"])]
    vo = V(wo)
    uc = a["uc"]
    pdf, wi, t, f = B.sample_f(vo, BSDFSample(u[0], u[1], uc), fg)
    require(fl(vo) == wo, "argument altered")
    if not m:
        require(float(pdf) == 0 and max(map(abs, fl(f))) == 0, "sample without components: %r", pdf)
        label("none")
        return
    x = uc * len(m)
    if abs(x - round(x)) < 1e-9 and x > .5:
        raise Reject()
    b = m[min(len(m) - 1, int(x))]
    lo = loc(F, wo)
    p0, w0, f0 = b_bdf(b).sample_f(V(lo), u[0], u[1])
    require(int(BDFType(t).v) == m_type(b), "sampled type %r, expected %r", t, m_type(b))
    require(isinstance(f, Spectrum), "value is a %s", type(f))
    if float(p0) == 0:
        require(float(pdf) == 0 and max(map(abs, fl(f))) == 0, "sample of density 0: %r, %r", pdf, fl(f))
        label("dead")
        return
    require(isinstance(wi, geo.Vector), "direction is a %s", type(wi))
    w = fl(wi)
    req_vclose(w, wld(F, fl(w0)), "direction", 1e-7, 1e-7)
    n = len(m)
    if m_type(b) & SPEC:
        req_close(pdf, 1. / n, "density of a delta sample", 1e-9, 0)
        req_vclose(f, fl(f0), "value of a delta sample", 1e-7, 1e-9)
    else:
        li = loc(F, w)
        off(li[2], vdot(w, ng))
        # the component reports its own density even where it carries nothing
        own = float(p0) + sum(m_pdf(c, lo, li) for c in m if c is not b)
        req_close(pdf, own / n, "density", 1e-6, 1e-7)
        req_vclose(f, total(a, F, ng, wo, w, a["flags"]), "value", 1e-6, 1e-7)
        if m_pdf(b, lo, li) > 0:
            req_close(pdf, B.pdf(vo, wi, fg), "density query", 1e-6, 1e-9)
            req_vclose(f, fl(B.f(vo, wi, fg)), "value query", 1e-6, 1e-9)
    label("delta" if m_type(b) & SPEC else "smooth")
    nontriv(n > 1)


def shares(a):
    """u of the component picks every matching component equally often"""
    B, F, ng = make(a)
    wo = a["wo"]
    off(vdot(wo, F[2]), vdot(wo, ng))
    m = [b for b in a["bs"] if match(b, a["flags"])]
    u = inside(a["u"])
    seen = []
    for k in range(len(m)):
        t = B.sample_f(V(wo), BSDFSample(u[0], u[1], (k + .5) / len(m)), flagged(a))[2]
        seen.append(int(BDFType(t).v))
    require(sorted(seen) == sorted(m_type(b) for b in m), "types %r, components %r", seen, [m_type(b) for b in m])
    nontriv(len(set(seen)) > 1)


def albedo(a):
    """albedos sum over the matching components; directions are given in world space"""
    B, F, ng = make(a)
    wo = a["wo"]
    off(vdot(wo, F[2]))
    k = a["k"]
    st = [a["s"]]

    def rng(*shape):
        n = int(np.prod(shape)) if shape else 1
        out = []
        for _ in range(n):
            st[0] = (st[0] * 1103515245 + 12345) % (1 << 31)
            out.append(.02 + .96 * st[0] / float(1 << 31))
        return np.array(out).reshape(shape) if shape else out[0]
    fg = flagged(a)
    got = B.rho_hd(V(wo), fg, k, rng)
    st[0] = a["s"]
    from pytracer.sampler import stratified_sample_2d
    smp = stratified_sample_2d(k, k, rng=rng)
    e = [0.] * 3
    for b in a["bs"]:
        if match(b, a["flags"]):
            e = vadd(e, fl(b_bdf(b).rho_hd(V(loc(F, wo)), smp)))
    req_vclose(got, e, "directional albedo", 1e-6, 1e-9)
    st[0] = a["s"]
    got = B.rho_hh(fg, k, rng)
    st[0] = a["s"]
    s1, s2 = stratified_sample_2d(k, k, rng=rng), stratified_sample_2d(k, k, rng=rng)
    e = [0.] * 3
    for b in a["bs"]:
        if match(b, a["flags"]):
            e = vadd(e, fl(b_bdf(b).rho_hh(k * k, s1, s2)))
    req_vclose(got, e, "albedo", 1e-6, 1e-9)
    nontriv(any(b["k"] not in ("lambert",) for b in a["bs"]))


def samples(a):
    """integrator samples become BSDF samples at the requested place"""
    smp = Sample()
    for n in a["before"]:
        smp.add_1d(n)
        smp.add_2d(n)
    off_ = BSDFSampleOffset(a["n"], smp)
    require(off_.nSamples == a["n"], "sample count")
    require(smp.n1D[off_.offset_com] == a["n"] and smp.n2D[off_.offset_dir] == a["n"], "requests %r %r", smp.n1D, smp.n2D)
    require(len(smp.n1D) == len(a["before"]) + 1 and len(smp.n2D) == len(a["before"]) + 1, "requests %r %r", smp.n1D, smp.n2D)
    x = [0.]

    def nxt():
        x[0] += .001
        return x[0]
    smp.oneD = [np.array([nxt() for _ in range(n)]) for n in smp.n1D]
    smp.twoD = [np.array([[nxt(), nxt()] for _ in range(n)]) for n in smp.n2D]
    k = a["k"] % a["n"]
    s = BSDFSample.from_sample(smp, off_, k)
    req_vclose(s.u_dir, fl(smp.twoD[off_.offset_dir][k]), "direction sample", 0, 0)
    req_close(s.u_com, smp.oneD[off_.offset_com][k], "component sample", 0, 0)
    r = BSDFSample.from_rand(nxt)
    require(len(set([float(r.u_dir[0]), float(r.u_dir[1]), float(r.u_com)])) == 3, "random sample repeats a number")
    r = BSDFSample.from_rand()
    require(all(0 <= float(q) < 1 for q in list(r.u_dir) + [r.u_com]), "random sample outside [0, 1)")
    d0 = BSDFSample()
    d0.u_dir[0] = .7
    require(float(BSDFSample().u_dir[0]) == 0., "default samples share storage")
    str(s), str(off_)
    nontriv(a["n"] > 1 or bool(a["before"]))
