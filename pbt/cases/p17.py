"""P17 sampling warps: the density times the area element of the warp is one."""
import math
from cases.base import *
import numpy as np
import pytracer.geometry as geo
from pytracer.montecarlo import *

H = 1e-5


def jac2(f, u, v):
    a, b = [(fl(f(u + H, v)), fl(f(u - H, v))), (fl(f(u, v + H)), fl(f(u, v - H)))]
    du, dv = vmul(vsub(*a), .5 / H), vmul(vsub(*b), .5 / H)
    return du, dv


def element(f, u, v):
    du, dv = jac2(f, u, v)
    if len(du) == 2:
        return abs(du[0] * dv[1] - du[1] * dv[0])
    return vlen(vcross(du, dv))


def inner(a):
    u, v = a["u"]
    return .02 + .96 * u, .02 + .96 * v


def unit_vec(w, what):
    require(type(w) is geo.Vector, "%s: %s", what, type(w))
    req_close(vlen(w), 1., what + " length", 1e-9, 1e-9)


def directions(a):
    """sphere, hemisphere and cone warps: unit vectors in the domain, uniform or cosine density, exact at the ends"""
    u, v = inner(a)
    eu, ev = a["u"]
    k = a["kind"]
    ct = 1 - 2 * a["ct"]
    if k == "sphere":
        f, pdf, lo = uniform_sample_sphere, lambda w: uniform_sphere_pdf(), -1.
    elif k == "hemisphere":
        f, pdf, lo = uniform_sample_hemisphere, lambda w: uniform_hemisphere_pdf(), 0.
    elif k == "cosine":
        f, pdf, lo = cosine_sample_hemisphere, lambda w: cosine_hemisphere_pdf(w[2], 0.), 0.
    elif k == "cone":
        f, pdf, lo = (lambda p, q: uniform_sample_cone(p, q, ct)), lambda w: uniform_cone_pdf(ct), ct
    else:
        z = geo.Vector(*a["n"])
        _, x, y = geo.coordinate_system(z)
        f, pdf, lo = (lambda p, q: uniform_sample_cone(p, q, ct, x, y, z)), lambda w: uniform_cone_pdf(ct), ct
    axis = a["n"] if k == "framecone" else [0., 0., 1.]
    for p, q in ((eu, ev), (u, v)):
        w = f(p, q)
        unit_vec(w, k)
        require(vdot(fl(w), axis) >= lo - 1e-7, "%s: direction %r outside the domain (cos %r < %r)", k, fl(w), vdot(fl(w), axis), lo)
    if k == "cosine":
        if min(abs(2 * u - 1), abs(2 * v - 1), abs(abs(2 * u - 1) - abs(2 * v - 1))) < 1e-3 or max(abs(2 * u - 1), abs(2 * v - 1)) > .995:
            raise Reject()
    if lo < .9999:
        e = element(f, u, v) * float(pdf(fl(f(u, v))))
        req_close(e, 1., "%s: density times area element" % k, 1e-4, 1e-5)
    label(k)
    nontriv()


def quadrants(a):
    """the warp really covers its domain: halves of the unit square map to halves of the domain"""
    u, v = a["u"]
    w = fl(uniform_sample_sphere(u, v))
    req_close((1 - w[2]) / 2, u, "sphere: height", 1e-9, 1e-9)
    req_close(fl(uniform_sample_hemisphere(u, v))[2], u, "hemisphere: height", 1e-9, 1e-9)
    for f in (uniform_sample_sphere, uniform_sample_hemisphere):
        w = fl(f(u, v))
        if math.hypot(w[0], w[1]) > 1e-6:
            ph = math.atan2(w[1], w[0]) / (2 * math.pi) % 1.
            d_ = abs(ph - v)
            require(min(d_, 1 - d_) < 1e-6, "azimuth %r, expected %r", ph, v)
    x, y = fl(concentric_sample_disk(u, v))
    w = fl(cosine_sample_hemisphere(u, v))
    req_vclose(w[:2], [x, y], "cosine hemisphere above the disk", 1e-9, 1e-9)
    p = fl(uniform_sample_disk(u, v))
    req_close(math.hypot(*p), math.sqrt(u), "disk radius", 1e-9, 1e-9)
    nontriv(0 < u < 1)


def disk(a):
    """disk and triangle warps stay in the domain with constant area element; the concentric map is continuous and keeps squares square"""
    eu, ev = a["u"]
    u, v = inner(a)
    for f, nm in ((uniform_sample_disk, "disk"), (concentric_sample_disk, "concentric disk")):
        x, y = fl(f(eu, ev))
        require(math.hypot(x, y) <= 1 + 1e-9, "%s: (%r, %r) outside", nm, x, y)
        if nm == "concentric disk":
            req_close(math.hypot(x, y), max(abs(2 * eu - 1), abs(2 * ev - 1)), "concentric radius", 1e-9, 1e-9)
            # continuity
            for du, dv in ((1e-7, 0), (0, 1e-7), (-1e-7, 0), (0, -1e-7)):
                p, q = eu + du, ev + dv
                if 0 <= p <= 1 and 0 <= q <= 1:
                    require(vlen(vsub(fl(f(p, q)), [x, y])) < 1e-5, "concentric map jumps at (%r, %r)", eu, ev)
            if min(abs(2 * u - 1), abs(2 * v - 1), abs(abs(2 * u - 1) - abs(2 * v - 1))) < 1e-3:
                continue
        req_close(element(f, u, v), math.pi, nm + " area element", 1e-4, 1e-5)
    b0, b1 = fl(uniform_sample_triangle(eu, ev))
    require(b0 >= -1e-12 and b1 >= -1e-12 and b0 + b1 <= 1 + 1e-9, "barycentric (%r, %r) outside", b0, b1)
    req_close(element(uniform_sample_triangle, u, v), .5, "triangle area element", 1e-4, 1e-5)
    nontriv()


def rejection(a):
    """the first pair inside the disk is returned"""
    seq = list(a["seq"]) + [.5, .5]
    i = [0]

    def rng():
        i[0] += 1
        return seq[i[0] - 1]
    x, y = rejection_sample_disk(rng)
    for k in range(0, len(seq), 2):
        p = [1 - 2 * seq[k], 1 - 2 * seq[k + 1]]
        if p[0] ** 2 + p[1] ** 2 <= 1:
            break
    require(close(x, p[0]) and close(y, p[1]) and i[0] == k + 2, "returned (%r, %r) after %d numbers, expected %r after %d", x, y, i[0], p, k + 2)
    x, y = rejection_sample_disk()
    require(x * x + y * y <= 1, "outside the disk")
    nontriv(k > 0)


def heuristics(a):
    """weights of the two strategies sum to one and grow with the own density"""
    nf, ng, f, g = a["nf"], a["ng"], a["f"], a["g"]
    for h in (balance_heuristic, power_heuristic):
        w1, w2 = float(h(nf, f, ng, g)), float(h(ng, g, nf, f))
        req_close(w1 + w2, 1., "sum of weights", 1e-9, 1e-12)
        require(0 <= w1 <= 1, "weight %r", w1)
        require(float(h(nf, 2 * f, ng, g)) >= w1 - 1e-12, "weight falls with the density")
        require(float(h(nf, f, ng, 0.)) == 1., "single strategy has weight %r", h(nf, f, ng, 0.))
        require(float(h(nf, 0., ng, g)) == 0., "weight without density is %r", h(nf, 0., ng, g))
    req_close(balance_heuristic(nf, f, ng, g), nf * f / (nf * f + ng * g), "balance heuristic", 1e-9)
    req_close(power_heuristic(nf, f, ng, g), (nf * f) ** 2 / ((nf * f) ** 2 + (ng * g) ** 2), "power heuristic", 1e-9)
    nontriv(nf != ng)


def henyey(a):
    """Henyey-Greenstein sampling follows its density about any axis"""
    w, g = geo.Vector(*a["n"]), a["g"]
    u, v = inner(a)
    f = lambda p, q: sample_hg(w, g, p, q)
    wi = f(u, v)
    unit_vec(wi, "sample_hg")
    ct = vdot(fl(wi), a["n"])
    e = (1 - g * g) / (4 * math.pi * (1 + g * g - 2 * g * ct) ** 1.5)
    req_close(hg_pdf(w, wi, g), e, "hg_pdf", 1e-6, 1e-9)
    h = element(f, u, v) * e
    req_close(h, 1., "sample_hg: density times area element", 2e-3, 1e-4)
    # cumulative distribution of the cosine
    if abs(g) > 1e-3:
        F = (1 - g * g) / (2 * g) * (1 / math.sqrt(1 + g * g - 2 * g * ct) - 1 / (1 + g))
        require(min(abs(F - u), abs(1 - F - u)) < 1e-4, "cumulative probability %r of the sample for %r", F, u)
    unit_vec(sample_hg(w, g, *a["u"]), "sample_hg")
    nontriv(abs(g) > .05)


def moments_(a):
    """every part of a domain is reached, in its proportion: first and second moments over a lattice of the unit square"""
    k = a["kind"]
    n = a["n"]
    ct = 1 - 2 * a["ct"]
    g = a["g"]
    lat = lattice(20)
    Z = [0., 0., 1.]
    if k in ("disk", "concentric", "triangle"):
        f = {"disk": uniform_sample_disk, "concentric": concentric_sample_disk, "triangle": uniform_sample_triangle}[k]
        pts = [fl(f(u, v)) for u, v in lat]
        if k == "triangle":
            req_moments(pts, [1. / 3] * 2, [[1. / 6, 1. / 12], [1. / 12, 1. / 6]], k, .01)
        else:
            req_moments(pts, [0., 0.], [[.25, 0.], [0., .25]], k, .01)
        nontriv()
        label(k)
        return
    if k == "sphere":
        f, m = uniform_sample_sphere, about(Z, 0., 1. / 3)
    elif k == "hemisphere":
        f, m = uniform_sample_hemisphere, about(Z, .5, 1. / 3)
    elif k == "cosine":
        f, m = cosine_sample_hemisphere, about(Z, 2. / 3, .5)
    elif k == "cone":
        f, m = (lambda u, v: uniform_sample_cone(u, v, ct)), about_cone(Z, ct)
    elif k == "framecone":
        z = geo.Vector(*n)
        _, x, y = geo.coordinate_system(z)
        f, m = (lambda u, v: uniform_sample_cone(u, v, ct, x, y, z)), about_cone(n, ct)
    else:
        w = geo.Vector(*n)
        f = lambda u, v: sample_hg(w, g, u, v)
        m = about(n, g, (1 + 2 * g * g) / 3)
    req_moments([fl(f(u, v)) for u, v in lat], m[0], m[1], k, .02)
    nontriv()
    label(k)
