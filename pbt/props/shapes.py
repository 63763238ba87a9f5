from hypothesis import strategies as st
from core import *

rad = st.one_of(unif(.05, 4.), st.sampled_from([1., 2., .01, .5]))
phi = st.one_of(st.just(360.), st.just(360.), unif(5., 360.), st.sampled_from([90., 180., 270., 400.]))


def _z(t):
    r, a, b, full = t
    if full:
        return r, -r, r
    a, b = (2 * a - 1) * r, (2 * b - 1) * r
    if abs(a - b) < .05 * r:
        b = a + .05 * r if a < .5 * r else a - .05 * r
    return r, a, b


_zr = st.tuples(rad, unit, unit, st.booleans()).map(_z)


def sphere(tr, partial=True):
    if not partial:
        return st.tuples(rad, st.booleans(), tr).map(lambda t: {"k": "sphere", "r": t[0], "z0": -t[0], "z1": t[0], "phi": 360., "ro": t[1], "t": t[2]})
    return st.tuples(_zr, phi, st.booleans(), tr).map(
        lambda t: {"k": "sphere", "r": t[0][0], "z0": t[0][1], "z1": t[0][2], "phi": t[1], "ro": t[2], "t": t[3]})


def cyl(tr):
    return st.tuples(_zr, phi, st.booleans(), tr, unif(.2, 3.)).map(
        lambda t: {"k": "cyl", "r": t[0][0] * t[4], "z0": t[0][1], "z1": t[0][2], "phi": t[1], "ro": t[2], "t": t[3]})


def disk(tr):
    return st.tuples(rad, st.one_of(st.just(0.), unif(.05, .9)), grid(-2, 2), phi, st.booleans(), tr).map(
        lambda t: {"k": "disk", "r": t[0], "ri": t[0] * t[1], "h": t[2], "phi": t[3], "ro": t[4], "t": t[5]})


VI = st.permutations([0, 1, 2]).map(list)
UV6 = st.one_of(st.none(), st.none(), st.lists(real(2.), min_size=6, max_size=6), st.just([0., 0., 0., 0., 1., 1.]))


def tri(tr):
    return st.tuples(vec3(3.), vec3(3.), vec3(3.), VI, UV6, st.booleans(), tr).map(
        lambda t: {"k": "tri", "P": [t[0], t[1], t[2]], "vi": t[3], "uv": t[4], "ro": t[5], "t": t[6]})


TR = chain(3)
RIGID = chain(3, scales=False)
shape = st.one_of(sphere(TR), cyl(TR), disk(TR), tri(TR))
quadric = st.one_of(sphere(TR), cyl(TR), disk(TR))
shape_rigid = st.one_of(sphere(RIGID), cyl(RIGID), disk(RIGID), tri(RIGID))

off = st.one_of(st.just([0., 0., 0.]), st.just([0., 0., 0.]), vec3(1.), vec3(3.))
org = st.one_of(vec3(6.), vec3(6.), vec3(1.), st.just([0., 0., 0.]), vec3(50.))
length = st.one_of(st.just(1.), unif(.05, 5.))
iuv = st.tuples(unif(.01, .99), unif(.01, .99)).map(list)
aimst = d(uv=st.one_of(iuv, iuv, iuv, uv), off=off, o=org, len=length)
window = st.tuples(st.one_of(st.just(0.), st.just(0.), unif(0., 3.), st.just(1e-5)), st.one_of(st.just(None), st.just(None), unif(.2, 6.))).map(list)
