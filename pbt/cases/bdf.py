"""Reflection models: independent formulas and builders shared by P19-P22 and P26."""
import math
from cases.base import *
import numpy as np
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.reflection import *
from pytracer.reflection.fresnel import FresnelConductor, FresnelDielectric, FresnelFullReflect
from pytracer.reflection.bdf.orennayar import OrenNayar
import pytracer.montecarlo as mc

PI = math.pi


def had(a, b): return [x * y for x, y in zip(a, b)]


def spec(v): return Spectrum(np.array(v, dtype=float))


def flip(w): return [w[0], w[1], -w[2]]


# ---- Fresnel -------------------------------------------------------------------------------------------------------
def f_diel(ei, et, c):
    """reflectance of an interface, ei on the side of positive cosine"""
    if c < 0:
        ei, et = et, ei
    c = abs(c)
    s = ei / et * math.sqrt(max(0., 1 - c * c))
    if s >= 1:
        return 1.
    ct = math.sqrt(1 - s * s)
    rs, rp = (ei * c - et * ct) / (ei * c + et * ct), (et * c - ei * ct) / (et * c + ei * ct)
    return (rs * rs + rp * rp) / 2


def f_cond(e, k, c):
    c = abs(c)
    q = e * e + k * k
    return .5 * ((q * c * c - 2 * e * c + 1) / (q * c * c + 2 * e * c + 1) + (q - 2 * e * c + c * c) / (q + 2 * e * c + c * c))


def m_fresnel(f, c):
    if f["k"] == "full":
        return [1.] * 3
    if f["k"] == "diel":
        return [f_diel(f["ei"], f["et"], c)] * 3
    return [f_cond(e, k, c) for e, k in zip(f["eta"], f["kk"])]


def b_fresnel(f):
    if f["k"] == "full":
        return FresnelFullReflect()
    if f["k"] == "diel":
        return FresnelDielectric(f["ei"], f["et"])
    return FresnelConductor(spec(f["eta"]), spec(f["kk"]))


# ---- microfacet distributions ----------------------------------------------------------------------------------------
def m_D(d, wh):
    c = abs(wh[2])
    if d["k"] == "blinn":
        return (d["ex"] + 2) / (2 * PI) * c ** d["ex"]
    s = 1 - c * c
    if s < 1e-6:
        raise Reject()
    e = (d["ex"] * wh[0] ** 2 + d["ey"] * wh[1] ** 2) / s
    return math.sqrt((d["ex"] + 2) * (d["ey"] + 2)) / (2 * PI) * c ** e


def m_dpdf(d, wo, wi):
    h = vadd(wo, wi)
    if vlen(h) < 1e-3:
        raise Reject()
    wh = vnorm(h)
    c = abs(wh[2])
    oh = vdot(wo, wh)
    if oh <= 0:
        return 0.
    if d["k"] == "blinn":
        return (d["ex"] + 1) * c ** d["ex"] / (2 * PI) / (4 * oh)
    s = 1 - c * c
    if s < 1e-6:
        raise Reject()
    e = (d["ex"] * wh[0] ** 2 + d["ey"] * wh[1] ** 2) / s
    return math.sqrt((d["ex"] + 1) * (d["ey"] + 1)) / (2 * PI) * c ** e / (4 * oh)


def b_dist(d):
    return Blinn(d["ex"]) if d["k"] == "blinn" else Anisotropic(d["ex"], d["ey"])


# ---- models ----------------------------------------------------------------------------------------------------------
def m_f(b, wo, wi):
    k = b["k"]
    if k == "lambert":
        return vmul(b["R"], 1 / PI)
    if k == "oren":
        s = math.radians(b["sig"]) ** 2
        A, B = 1 - s / (2 * (s + .33)), .45 * s / (s + .09)
        ti, to = math.acos(max(-1., min(1., abs(wi[2])))), math.acos(max(-1., min(1., abs(wo[2]))))
        al, be = max(ti, to), min(ti, to)
        cp = 0.
        li, lo = math.hypot(wi[0], wi[1]), math.hypot(wo[0], wo[1])
        if li > 1e-5 and lo > 1e-5:
            cp = max(0., (wi[0] * wo[0] + wi[1] * wo[1]) / li / lo)
        return vmul(b["R"], (A + B * cp * math.sin(al) * math.tan(be)) / PI)
    if k == "scaled":
        return had(b["s"], m_f(b["b"], wo, wi))
    if k == "b2t":
        return m_f(b["b"], wo, flip(wi))
    if k in ("srefl", "strans"):
        return [0.] * 3
    h = vadd(wo, wi)
    if vlen(h) < 1e-3:
        raise Reject()
    wh = vnorm(h)
    D = m_D(b["d"], wh)
    ci, co, ch = abs(wi[2]), abs(wo[2]), vdot(wi, wh)
    if k == "blend":
        dif = vmul(had(b["R"], [1 - x for x in b["S"]]), 28 / (23 * PI) * (1 - (1 - ci / 2) ** 5) * (1 - (1 - co / 2) ** 5))
        sch = [x + (1 - ch) ** 5 * (1 - x) for x in b["S"]]
        return vadd(dif, vmul(sch, D / (4 * abs(ch) * max(ci, co))))
    G = min(1., 2 * abs(wh[2]) * co / abs(vdot(wo, wh)), 2 * abs(wh[2]) * ci / abs(vdot(wo, wh)))
    return vmul(had(b["R"], m_fresnel(b["f"], ch)), D * G / (4 * ci * co))


def m_pdf(b, wo, wi):
    k = b["k"]
    if k in ("srefl", "strans"):
        return 0.
    if k == "scaled":
        return m_pdf(b["b"], wo, wi)
    if k == "b2t":
        return m_pdf(b["b"], wo, flip(wi))
    if wo[2] * wi[2] <= 0:
        return 0.
    if k in ("lambert", "oren"):
        return abs(wi[2]) / PI
    p = m_dpdf(b["d"], wo, wi)
    return .5 * (abs(wi[2]) / PI + p) if k == "blend" else p


REFL, TRANS, DIFF, GLOSS, SPEC = 1, 2, 4, 8, 16


def m_type(b):
    k = b["k"]
    if k == "scaled":
        return m_type(b["b"])
    if k == "b2t":
        return m_type(b["b"]) ^ 3
    return {"lambert": REFL | DIFF, "oren": REFL | DIFF, "micro": REFL | GLOSS, "blend": REFL | GLOSS, "srefl": REFL | SPEC, "strans": TRANS | SPEC}[k]


def b_bdf(b):
    k = b["k"]
    if k == "lambert":
        return Lambertian(spec(b["R"]))
    if k == "oren":
        return OrenNayar(spec(b["R"]), b["sig"])
    if k == "scaled":
        return ScaledBDF(b_bdf(b["b"]), spec(b["s"]))
    if k == "b2t":
        return BRDF2BTDF(b_bdf(b["b"]))
    if k == "micro":
        return Microfacet(spec(b["R"]), b_fresnel(b["f"]), b_dist(b["d"]))
    if k == "blend":
        return FresnelBlend(spec(b["R"]), spec(b["S"]), b_dist(b["d"]))
    if k == "srefl":
        return SpecularReflection(spec(b["R"]), b_fresnel(b["f"]))
    return SpecularTransmission(spec(b["R"]), b["ei"], b["et"])


def V(w): return geo.Vector(*w)


def side(b):
    """+1 when the model scatters to wo's side, -1 when to the other"""
    return 1 if m_type(b) & REFL else -1
