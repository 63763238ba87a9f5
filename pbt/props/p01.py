from hypothesis import strategies as st
from core import *

MODULE = "p01"
RULE = ("Hypothesis draws coordinates from a mixture of half-integer lattice values (ties, zeros, axis-aligned) and "
        "full-precision reals in [-100,100]; unit directions from axes, diagonals and the whole sphere. A case is "
        "non-trivial when the operands are non-zero and (where two are drawn) not parallel / not equal; distinct = "
        "distinct argument object.")
ASSUMPTIONS = ["coordinates are finite and of magnitude <= 1e2 (lengths far from overflow)"]

V = vec3(100.)
CHECKS = [
    Check("affine_types", d(a=V, b=V, c=V, s=real(10.)), 1600),
    Check("dot_cross_length", d(a=V, b=V, ka=st.sampled_from(["V", "N"]), kb=st.sampled_from(["V", "N"])), 2400),
    Check("equality_copy", d(a=V, b=V, same=st.booleans()), 800),
    Check("normalise", d(a=V, s=st.sampled_from([1e-40, 1e-12, 1e-6, 1e-3, 1., 1e3, 1e6, 1e12])), 1600),
    Check("frame", d(w=direction), 2400),
    Check("face_forward", d(n=V, v=V), 1600),
    Check("spherical", d(th=unif(0., 3.141592653589793), ph=unif(0., 6.283185307179586), w=direction), 2400),
    Check("ray", d(o=V, dr=V, t=real(50.), mint=unif(0., 5.), span=unif(0., 100.), depth=st.integers(0, 9),
                   time=real(3.), diff=st.booleans()), 1600),
    Check("ray_differential", d(o=V, dr=V, offs=st.lists(vec3(3.), min_size=4, max_size=4), s=st.one_of(unif(0., 3.), real(3.))), 1200),
]
