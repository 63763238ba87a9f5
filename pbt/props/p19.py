from core import *
from props.bdf import *

MODULE = "p19"
RULE = ("Lambertian, Oren-Nayar, Torrance-Sparrow (Blinn, anisotropic; full, dielectric, conductor Fresnel), Fresnel blend, and scaled or "
        "transmissive wrappings of them, at random directions on both sides. Non-trivial: a non-Lambertian model scattering to the right side.")
ASSUMPTIONS = ["directions at least 0.3 degrees off the horizon", "anisotropic distributions are not judged at the pole, where the code defines them as 0",
               "exactly opposite directions have no half vector and are left out", "area elements by central differences to 0.2 %, away from seams of the warps"]


def mild(b):
    """exponents a lattice resolves"""
    b = dict(b)
    if "d" in b:
        b["d"] = {k: v if k == "k" else min(v, 25.) for k, v in b["d"].items()}
    if "b" in b:
        b["b"] = mild(b["b"])
    return b


CHECKS = [
    Check("value", d(b=bdf, wo=ldir, wi=ldir), 2400),
    Check("sample", d(b=bdf, wo=ldir, u=uv), 2400),
    Check("density", d(b=bdf, wo=ldir, u=uv), 2400),
    Check("coverage", d(b=st.one_of(micro, blend, micro, blend, lambert, oren).map(mild), wo=ldir), 64),
    Check("normalised", d(d=st.one_of(d(k=st.just("blinn"), ex=unif(0., 20.)), d(k=st.just("aniso"), ex=unif(0., 20.), ey=unif(0., 20.))), w=ldir), 64),
    Check("highlight", d(d=dist, lt=unif(-4., -.7), az=unit, wo=ldir, R=col), 600),
    Check("albedo", d(b=bdf, wo=ldir, s1=listn(uv, 1, 5), s2=listn(uv, 5, 5)), 480),
    Check("flags", d(b=anybdf, p=pickint(0, 31), q=pickint(0, 31)), 640),
]
