"""P19 reflection models: formulas, reciprocity, densities of their sampling."""
from cases.bdf import *

H = 1e-5


def tame(*ws):
    for w in ws:
        if abs(w[2]) < 5e-3:
            raise Reject()


def value(a):
    """f equals the model's formula, is non-negative and reciprocal; pdf equals the stated density; arguments stay as they were"""
    b, wo, wi = a["b"], a["wo"], a["wi"]
    tame(wo, wi)
    B = b_bdf(b)
    vo, vi = V(wo), V(wi)
    e = m_f(b, wo, wi)
    got = B.f(vo, vi)
    require(isinstance(got, Spectrum), "f returned %s", type(got))
    req_vclose(got, e, "f", 1e-6, 1e-7)
    require(min(fl(got)) >= -1e-12, "negative value %r", fl(got))
    req_vclose(B.f(vi, vo), fl(got), "f with directions exchanged", 1e-6, 1e-7)
    req_close(B.pdf(vo, vi), m_pdf(b, wo, wi), "pdf", 1e-6, 1e-7)
    require(fl(vo) == wo and fl(vi) == wi, "arguments altered")
    require(int(B.type.v) == m_type(b), "type %r", B.type)
    str(B)
    label(b["k"])
    nontriv(wo[2] * wi[2] * side(b) > 0 and b["k"] != "lambert")


def inside(u): return [.04 + .92 * x for x in u]


def element(f, u, v):
    p, q = fl(f(u + H, v)), fl(f(u - H, v))
    r, s = fl(f(u, v + H)), fl(f(u, v - H))
    return vlen(vcross(vmul(vsub(p, q), .5 / H), vmul(vsub(r, s), .5 / H)))


def sample(a):
    """sampled directions are unit, lie on the side the model scatters to or carry nothing; value and density are those of the queries"""
    b, wo = a["b"], a["wo"]
    tame(wo)
    B = b_bdf(b)
    u, v = a["u"]
    vo = V(wo)
    pdf, wi, f = B.sample_f(vo, u, v)
    require(isinstance(wi, geo.Vector), "direction is a %s", type(wi))
    require(isinstance(f, Spectrum), "value is a %s", type(f))
    req_close(vlen(fl(wi)), 1., "length of the direction", 1e-9, 1e-7)
    require(fl(vo) == wo, "argument altered")
    w = fl(wi)
    require(float(pdf) >= 0, "pdf %r", pdf)
    tame(w)
    if w[2] * wo[2] * side(b) > 0:
        tame(w)
        req_vclose(f, m_f(b, wo, w), "value of the sample", 1e-6, 1e-7)
        req_close(pdf, m_pdf(b, wo, w), "density of the sample", 1e-6, 1e-7)
        req_close(pdf, B.pdf(V(wo), wi), "density query", 1e-6, 1e-9)
    else:
        require(max(map(abs, fl(f))) == 0, "sample on the wrong side has value %r", fl(f))
        req_close(B.pdf(V(wo), wi), 0., "density on the wrong side", 0, 0)
    label(b["k"])
    nontriv(max(fl(f)) > 0)


def leaf(b):
    while b["k"] in ("scaled", "b2t"):
        b = b["b"]
    return b


def density(a):
    """equal areas of the unit square carry equal probability under the reported density"""
    b, wo = a["b"], a["wo"]
    tame(wo)
    l = leaf(b)
    B = b_bdf(b)
    u, v = inside(a["u"])
    pdf, wi, f = B.sample_f(V(wo), u, v)
    w = fl(wi)
    if w[2] * wo[2] * side(b) <= 0:
        raise Reject()
    tame(w)
    el = element(lambda p, q: B.sample_f(V(wo), p, q)[1], u, v)
    for x in (u, v):
        for k in range(9):
            if abs(x - k / 8.) < 2e-3:
                raise Reject()
    wl = flip(w) if side(b) < 0 else w
    if l["k"] == "blend":
        # a mixture of two strategies in equal parts; each alone must have its own density
        el /= 2
        opts = [abs(w[2]) / PI, m_dpdf(l["d"], wo, wl)]
    else:
        opts = [float(pdf)]
    x, y = 2 * u - 1, 2 * v - 1
    if l["k"] in ("lambert", "oren", "blend"):
        for p in ([u] if l["k"] != "blend" else [2 * u, 2 * u - 1]):
            x = 2 * p - 1
            if not 0 < p < 1:
                continue
            if min(abs(abs(x) - abs(y)), abs(x), abs(y)) < 5e-3 or max(abs(x), abs(y)) > .99:
                raise Reject()
    wh = vnorm(vadd(wo, wl))
    if abs(vdot(wo, wh)) < 2e-2 or 1 - wh[2] ** 2 < 1e-4:
        raise Reject()
    require(any(close(p * el, 1., 2e-3, 0) for p in opts), "area element %r times density %r is not one", el, opts)
    label(l["k"] + ("/" + l["d"]["k"] if "d" in l else ""))
    nontriv(l["k"] not in ("lambert", "oren"))


_x, _w = np.polynomial.legendre.leggauss(40)
GL = [(float(p) * .5 + .5, float(q) * .5) for p, q in zip(_x, _w)]


def highlight(a):
    """next to the middle of the highlight, however sharp"""
    d = a["d"]
    th, ph = 10. ** a["lt"], 2 * PI * a["az"]
    s = math.sin(th)
    wh = [s * math.cos(ph), s * math.sin(ph), math.cos(th)]
    want = m_D(d, wh)
    req_close(b_dist(d).D(V(wh)), want, "D %r off the normal" % th, 1e-6, 1e-9)
    wo = a["wo"] if a["wo"][2] > 0 else vmul(a["wo"], -1)
    if wo[2] < .1:
        raise Reject("grazing")
    wi = vsub(vmul(wh, 2 * vdot(wo, wh)), wo)
    if wi[2] < .05:
        raise Reject("below")
    m = {"k": "micro", "R": a["R"], "f": {"k": "full"}, "d": d}
    req_vclose(b_bdf(m).f(V(wo), V(wi)), m_f(m, wo, wi), "f %r off the mirror direction" % th, 1e-5, 1e-8)
    label(d["k"])
    nontriv(want > .5)


def normalised(a):
    """projected microfacet area is one; the density of half vectors integrates to one"""
    d = a["d"]
    D = b_dist(d)
    n = 32
    tot = 0.
    for c, q in GL:
        s = math.sqrt(1 - c * c)
        for j in range(n):
            p = 2 * PI * (j + .5) / n
            tot += q * 2 * PI / n * c * float(D.D(geo.Vector(s * math.cos(p), s * math.sin(p), c)))
    req_close(tot, 1., "projected area", 2e-3, 0)
    wh = a["w"]
    if 1 - wh[2] ** 2 > 1e-6:
        req_close(D.D(V(wh)), m_D(d, wh), "D", 1e-7, 1e-9)
    # same exponents: isotropic
    if 1 - wh[2] ** 2 > 1e-6:
        req_close(Anisotropic(d["ex"], d["ex"]).D(V(wh)), Blinn(d["ex"]).D(V(wh)), "equal exponents", 1e-7, 1e-9)
    req_close(D.D(V(vmul(wh, -1))), D.D(V(wh)), "D below", 1e-12, 1e-12)
    # parity of the half vector density with its use in pdf
    label(d["k"])
    nontriv(d["k"] == "aniso" and d["ex"] != d["ey"])


def albedo(a):
    """rho_hd and rho_hh are the estimates of the given samples; exact for Lambertian and smooth Oren-Nayar surfaces"""
    b, wo = a["b"], a["wo"]
    tame(wo)
    B = b_bdf(b)
    l, sc = b, [1.] * 3
    while l["k"] in ("scaled", "b2t"):
        if l["k"] == "scaled":
            sc = had(sc, l["s"])
        l = l["b"]
    L = b_bdf(l)
    s1, s2 = np.array([inside(u) for u in a["s1"]]), np.array([inside(u) for u in a["s2"]])
    n = min(len(s1), len(s2))
    s1, s2 = s1[:n], s2[:n]

    def hd(w, smp):
        t = [0.] * 3
        for u, v in smp:
            pdf, wi, f = L.sample_f(w, u, v)
            if pdf > 0:
                t = vadd(t, vmul(fl(f), abs(float(wi.z)) / float(pdf)))
        return vmul(t, 1. / len(smp))
    got = B.rho_hd(V(wo), s1)
    if l["k"] == "lambert" or (l["k"] == "oren" and l["sig"] == 0):
        req_vclose(got, had(sc, l["R"]), "directional albedo", 1e-6, 1e-9)
        if l["k"] == "lambert":
            req_vclose(B.rho_hh(n, s1, s2), had(sc, l["R"]), "albedo", 1e-6, 1e-9)
    req_vclose(got, had(sc, hd(V(wo), s1) if l["k"] != "lambert" else l["R"]), "directional albedo", 1e-6, 1e-9)
    if l["k"] != "lambert":
        t = [0.] * 3
        for p, q in zip(s1, s2):
            w = mc.uniform_sample_hemisphere(p[0], p[1])
            t = vadd(t, vmul(hd(w, [q]), 2 * abs(float(w.z))))
        req_vclose(B.rho_hh(n, s1, s2), had(sc, vmul(t, 1. / n)), "albedo", 1e-6, 1e-9)
    label(b["k"])
    nontriv(l["k"] != "lambert")


def flags(a):
    """type bitmasks: set algebra, truth value, matching as inclusion"""
    p, q = a["p"], a["q"]
    P, Q = BDFType(p), BDFType(q)
    for o in (Q, q):
        require(int((P | o).v) == p | q and int((P & o).v) == p & q and int((P ^ o).v) == p ^ q, "bit operations of %r and %r", p, o)
    require(int((P & ~Q).v) == p & ~q, "difference %r", int((P & ~Q).v))
    require(int(BDFType(P).v) == p, "copy")
    require(bool(P) == (p != 0), "truth value of %r", p)
    B = b_bdf(a["b"])
    t = m_type(a["b"])
    for o in (Q, q):
        require(bool(B.match_flag(o)) == (t & q == t), "match_flag(%r) of type %r", q, t)
    require(bool(B.match_flag(BDFType.ALL)), "ALL does not match")
    require(bool(B.match_flag(BDFType.ALL_REFLECTION)) == (t & 2 == 0) and bool(B.match_flag(BDFType.ALL_TRANSMISSION)) == (t & 1 == 0), "reflection/transmission masks")
    str(P)
    nontriv(t & q == t)


def inhalf(w, wh):
    """reflection of w about wh"""
    return vsub(vmul(wh, 2 * vdot(w, wh)), w)


def ramp(t):
    """a step soft enough for the spacing of the lattice"""
    return min(1., max(0., .5 + 3. * t))


def coverage(a):
    """sampling reaches every direction in proportion to the reported density: moments and octants over a lattice of the unit square"""
    b, wo = a["b"], a["wo"]
    tame(wo)
    l = leaf(b)
    B = b_bdf(b)
    G = lambda w: [1., w[0], w[1], w[2], w[0] * w[0], w[1] * w[1], w[0] * w[1]] + [ramp(w[0] - x) * ramp(w[1] - y) for x, y in ((0, 0), (wo[0], wo[1]))]
    n = 24
    tot = [0.] * 9
    vo = V(wo)
    for u, v in lattice(n):
        pdf, wi, f = B.sample_f(vo, u, v)
        if pdf > 0:
            w = fl(wi)
            if w[2] * wo[2] * side(b) > 0:
                tot = vadd(tot, G(flip(w) if side(b) < 0 else w))
    tot = vmul(tot, 1. / n ** 2)
    sg = 1. if wo[2] > 0 else -1.
    want, parts = [0.] * 9, []
    if l["k"] in ("lambert", "oren", "blend"):
        part = [0.] * 9
        for u, v in lattice(n):         # cosine density: square of the sine uniform
            s = math.sqrt(u)
            part = vadd(part, G([s * math.cos(2 * PI * v), s * math.sin(2 * PI * v), sg * math.sqrt(1 - u)]))
        parts.append(vmul(part, 1. / n ** 2))
    if "d" in l:
        d_ = l["d"]
        part, q = [0.] * 9, 0.
        ex = d_["ex"]
        ey = d_.get("ey", ex)
        for j in range(4 * n):
            p = 2 * PI * (j + .5) / (4 * n)
            e = ex * math.cos(p) ** 2 + ey * math.sin(p) ** 2
            # for an azimuth, the cosine of the half vector has density (e + 1) c^e
            wp = math.sqrt((ex + 1) * (ey + 1)) / (e + 1) / (4 * n)
            for k in range(n):
                c = ((k + .5) / n) ** (1 / (e + 1))
                s = math.sqrt(1 - c * c)
                wh = [s * math.cos(p), s * math.sin(p), sg * c]
                w = inhalf(wo, wh)
                if vdot(wo, wh) > 0 and w[2] * wo[2] > 0:
                    part = vadd(part, vmul(G(w), wp / n))
        parts.append(part)
    for p in parts:
        want = vadd(want, vmul(p, 1. / len(parts)))
    req_vclose(tot, want, "%s: mean over the unit square of 1, x, y, z, x2, y2, xy and quadrants" % l["k"], 0, .03)
    label(l["k"] + ("/" + l["d"]["k"] if "d" in l else ""))
    nontriv("d" in l)
