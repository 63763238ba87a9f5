from hypothesis import strategies as st
from core import *

MODULE = "p04"
RULE = ("Rotations by any angle (half turns, the 120-degree branch point of the quaternion conversion and both senses included) "
        "about any axis; key frames that are products translation * rotation * positive scale at distinct times; query times "
        "before, at, between and after the key times. Non-trivial: the two key frames differ in rotation by 1..179 degrees "
        "and the query time is strictly inside.")
ASSUMPTIONS = ["key-frame matrices have positive determinant and scale factors in [0.5,2] (up to 256 either way, and equal in both key frames, for `decompose` and `keyframes_scaled`); relative rotations stay below 179 degrees",
               "motion bounds are sampled: containment is required up to 0.1% of the box's reach"]

V = vec3(10.)
ang = st.one_of(unif(0., 360.), sym(180.), st.sampled_from([0., 180., -180., 90., 119.999, 120., 120.001, 179.9, 240., 360.]))
pscale = st.tuples(unif(.5, 2.), unif(.5, 2.), unif(.5, 2.)).map(list)
key = d(t=V, r=st.tuples(ang, direction).map(list), s=st.one_of(st.just([1., 1., 1.]), pscale))
wscale = st.tuples(*[unif(-7., 7.).map(lambda e: 2. ** e)] * 3).map(list)
wkey = d(t=V, r=st.tuples(ang, direction).map(list), s=st.one_of(pscale, wscale, unif(-8., 8.).map(lambda e: [2. ** e] * 3)))
tq = st.one_of(unit, st.sampled_from([0., 1., .5]), real(2.))
CHECKS = [
    Check("matrix_quaternion", d(r=st.tuples(ang, direction).map(list), r2=st.tuples(ang, direction).map(list), v=V), 4000),
    Check("slerp", d(r=st.tuples(ang, direction).map(list), rel=st.tuples(unif(0., 178.), direction).map(list), t=unit, v=V), 3200),
    Check("decompose", d(k=st.one_of(key, wkey)), 2400),
    Check("keyframes_scaled", d(k=wkey, dt=V, t0=real(2.), span=unif(.01, 3.), t=unit, p=V, v=V), 800),
    Check("keyframes", d(a=key, b=key, t0=real(2.), span=unif(.01, 3.), t=tq, p=V, v=V), 2400),
    Check("rigid_motion", d(r=st.tuples(ang, direction).map(list), rel=st.tuples(unif(0., 178.), direction).map(list),
                            a=V, b=V, s=st.one_of(st.just(None), st.tuples(pscale, pscale).map(list)),
                            t0=real(2.), span=unif(.01, 3.), t=unit, p=V), 3200),
    Check("static", d(a=key, t0=real(2.), span=st.one_of(st.just(0.), unif(0., 2.)), t=real(3.), p=V, v=V, q=V), 1200),
    Check("motion_bounds", d(a=key, b=key, t0=real(2.), span=unif(.01, 3.), t=unit, p=V, q=V, u=st.lists(unit, min_size=3, max_size=3), inv=st.booleans()), 240),
]
