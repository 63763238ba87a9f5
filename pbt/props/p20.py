from core import *
from props.bdf import *

MODULE = "p20"
RULE = ("Fresnel reflectances of dielectric and conducting interfaces from both sides, perfect mirrors and refractors over random indices, colours and "
        "directions. Non-trivial: not full reflection; differing refractive indices.")
ASSUMPTIONS = ["directions at least 0.3 degrees off the horizon and off the critical angle by 1e-5 in the sine", "conductors by the documented approximate formula",
               "radiance (not importance) is transported, it scales with the squared refractive index"]
CHECKS = [
    Check("fresnel", d(f=fres, c=st.one_of(sym(1.), sym(1.), pick(0., 1., -1., 1.0000001, -1.0000001))), 1600),
    Check("reflect", d(b=srefl, wo=ldir, u=uv), 800),
    Check("transmit", d(b=strans, wo=ldir, u=uv), 1600),
    Check("shapes", d(wo=ldir, wi=ldir), 640),
]
