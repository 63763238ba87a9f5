"""P20 Fresnel coefficients and perfectly specular scattering."""
from cases.bdf import *


def fresnel(a):
    """reflectances equal the Fresnel formulas, lie in [0, 1], are the same from both ends of a refracted path, total beyond the critical angle"""
    f, c = a["f"], a["c"]
    F = b_fresnel(f)
    got = F(c)
    got = fl(got) if np.ndim(got) else [float(got)] * 3
    e = m_fresnel(f, max(-1., min(1., c)))
    if 0 < abs(c) < 1e-9 or (c == 0 and math.copysign(1, c) < 0):
        raise Reject()
    req_vclose(got, e, "reflectance at cosine %r" % c, 1e-7, 1e-9)
    require(all(-1e-12 <= x <= 1 + 1e-9 for x in got), "reflectance %r", got)
    if f["k"] == "diel":
        ei, et = (f["ei"], f["et"]) if c >= 0 else (f["et"], f["ei"])
        s = ei / et * math.sqrt(max(0., 1 - min(1., c * c)))
        if abs(s - 1) < 1e-6:
            raise Reject()
        if s >= 1:
            require(got[0] == 1., "total reflection: %r", got)
        else:
            back = F(-math.copysign(math.sqrt(1 - s * s), c))
            req_close(back, got[0], "reflectance along the reversed path", 1e-6, 1e-9)
    if f["k"] == "cond":
        req_vclose(F(-c), got, "conductor from below", 1e-9, 1e-12)
        n = [((e_ - 1) ** 2 + k * k) / ((e_ + 1) ** 2 + k * k) for e_, k in zip(f["eta"], f["kk"])]
        req_vclose(F(1.), n, "reflectance at normal incidence", 1e-7, 1e-9)
    req_close(np.max(F(0.)), 1., "grazing reflectance", 1e-9, 1e-9) if not (f["k"] == "diel" and f["ei"] == f["et"]) else None
    label(f["k"])
    nontriv(f["k"] != "full" and 0 < abs(c) < 1)


def wanted(b, wo, wi, pdf, f):
    require(isinstance(wi, geo.Vector) and isinstance(f, Spectrum), "types %s, %s", type(wi), type(f))
    req_close(pdf, 1., "probability of the only direction", 0, 0)
    req_close(vlen(fl(wi)), 1., "length", 1e-9, 1e-7)


def reflect(a):
    """specular reflection: mirrored direction, value Fresnel times colour over the cosine, zero elsewhere"""
    b, wo = a["b"], a["wo"]
    B = b_bdf(b)
    vo = V(wo)
    pdf, wi, f = B.sample_f(vo, *a["u"])
    wanted(b, wo, wi, pdf, f)
    req_vclose(wi, [-wo[0], -wo[1], wo[2]], "mirrored direction", 1e-12, 1e-12)
    req_vclose(f, vmul(had(b["R"], m_fresnel(b["f"], wo[2])), 1 / abs(wo[2])), "value", 1e-7, 1e-9)
    dark(B, wo, wi)
    require(fl(vo) == wo, "argument altered")
    req_vclose(B.rho_hd(vo, [a["u"]]), had(b["R"], m_fresnel(b["f"], wo[2])), "albedo", 1e-7, 1e-9)
    require(int(B.type.v) == m_type(b), "type %r", B.type)
    label(b["f"]["k"])
    nontriv(b["f"]["k"] != "full")


def dark(B, wo, wi):
    require(max(map(abs, fl(B.f(V(wo), wi)))) == 0 and float(B.pdf(V(wo), wi)) == 0, "the delta direction has value or density when queried")


def transmit(a):
    """specular transmission: Snell's law away from the normal, Fresnel transmittance scaled with the radiance, nothing beyond the critical angle, reversible"""
    b, wo = a["b"], a["wo"]
    B = b_bdf(b)
    ei, et = (b["ei"], b["et"]) if wo[2] > 0 else (b["et"], b["ei"])
    vo = V(wo)
    s = math.hypot(wo[0], wo[1]) * ei / et
    if abs(s - 1) < 1e-5:
        raise Reject()
    pdf, wi, f = B.sample_f(vo, *a["u"])
    require(fl(vo) == wo, "argument altered")
    require(int(B.type.v) == m_type(b), "type %r", B.type)
    if s > 1:
        require(float(pdf) == 0. or max(fl(f)) == 0., "transmission beyond the critical angle: %r", pdf)
        label("total")
        return
    wanted(b, wo, wi, pdf, f)
    w = fl(wi)
    cz = math.sqrt(1 - s * s)
    req_vclose(w, [-wo[0] * ei / et, -wo[1] * ei / et, -math.copysign(cz, wo[2])], "refracted direction", 1e-7, 1e-7)
    F = f_diel(b["ei"], b["et"], wo[2])
    req_vclose(f, vmul(b["R"], (1 - F) * (ei / et) ** 2 / cz), "value", 1e-6, 1e-9)
    dark(B, wo, wi)
    p2, back, f2 = B.sample_f(wi, *a["u"])
    if p2 == 0:
        raise Reject()
    req_vclose(back, wo, "refracting the refracted direction", 1e-6, 1e-6)
    req_vclose(vmul(fl(f2), abs(wo[2]) * (ei / et) ** 2), vmul(b["R"], 1 - F), "value along the reversed path", 1e-6, 1e-9)
    # what is not reflected is transmitted
    R = SpecularReflection(Spectrum(1.), FresnelDielectric(b["ei"], b["et"]))
    _, wr, fr = R.sample_f(vo, *a["u"])
    T1 = SpecularTransmission(Spectrum(1.), b["ei"], b["et"])
    _, wt, ft = T1.sample_f(vo, *a["u"])
    req_close(float(fr[0]) * abs(float(wr.z)) + float(ft[0]) * abs(float(wt.z)) * (et / ei) ** 2, 1., "reflected plus transmitted power", 1e-6, 1e-6)
    label("entering" if wo[2] > 0 else "leaving")
    nontriv(ei != et)


def shapes(a):
    """angle helpers in the local frame and the Marschner remapping"""
    from pytracer.reflection.utility import cos_theta, abs_cos_theta, sin_theta_sq, sin_theta, cos_phi, sin_phi, brdf_remap
    wo, wi = a["wo"], a["wi"]
    v = V(wo)
    req_close(cos_theta(v), wo[2], "cos_theta", 0, 0)
    req_close(abs_cos_theta(v), abs(wo[2]), "abs_cos_theta", 0, 0)
    s2 = wo[0] ** 2 + wo[1] ** 2
    req_close(sin_theta_sq(v), s2, "sin_theta_sq", 1e-9, 1e-12)
    req_close(sin_theta(v), math.sqrt(s2), "sin_theta", 1e-6, 1e-7)
    if s2 > 1e-6:
        req_close(cos_phi(v), wo[0] / math.sqrt(s2), "cos_phi", 1e-6, 1e-7)
        req_close(sin_phi(v), wo[1] / math.sqrt(s2), "sin_phi", 1e-6, 1e-7)
    t2 = wi[0] ** 2 + wi[1] ** 2
    if s2 < 1e-6 or t2 < 1e-6:
        raise Reject()
    m = fl(brdf_remap(v, V(wi)))
    c = max(-1., min(1., (wo[0] * wi[0] + wo[1] * wi[1]) / math.sqrt(s2 * t2)))
    req_vclose(m, [math.sqrt(s2 * t2), math.acos(c) / PI, wo[2] * wi[2]], "remapped pair", 1e-5, 1e-5)
    req_vclose(brdf_remap(V(wi), v), m, "remapped pair exchanged", 1e-9, 1e-9)
    nontriv()
