"""Strategies for reflection models."""
from core import *

col = st.one_of(st.tuples(unit, unit, unit).map(list), st.tuples(unit, unit, unit).map(list), pick([0., 0., 0.], [1., 1., 1.], [.5, .5, .5]))
eta = st.one_of(unif(1.05, 2.5), pick(1.5, 1.33, 1.))
kcol = st.tuples(unif(.1, 4.), unif(.1, 4.), unif(.1, 4.)).map(list)
fres = st.one_of(st.just({"k": "full"}), d(k=st.just("diel"), ei=eta, et=eta), d(k=st.just("diel"), ei=st.just(1.), et=eta), d(k=st.just("cond"), eta=kcol, kk=kcol))
ex = st.one_of(unif(0., 30.), unif(0., 200.), pick(0., 1., 10., 50.), unif(2., 3.99).map(lambda t: 10. ** t))
dist = st.one_of(d(k=st.just("blinn"), ex=ex), d(k=st.just("aniso"), ex=ex, ey=ex), st.tuples(ex, pick(0., 0., .25, .5, 1.5)).map(lambda t: {"k": "aniso", "ex": t[0], "ey": t[0] + t[1]}))
lambert = d(k=st.just("lambert"), R=col)
oren = d(k=st.just("oren"), R=col, sig=st.one_of(unif(0., 90.), pick(0., 20.)))
micro = d(k=st.just("micro"), R=col, f=fres, d=dist)
blend = d(k=st.just("blend"), R=col, S=col, d=dist)
leaf = st.one_of(lambert, oren, micro, micro, blend, blend)
srefl = d(k=st.just("srefl"), R=col, f=fres)
strans = d(k=st.just("strans"), R=col, ei=eta, et=eta)
spec = st.one_of(srefl, strans)
scaled = d(k=st.just("scaled"), b=leaf, s=col)
b2t = d(k=st.just("b2t"), b=leaf)
bdf = st.one_of(leaf, leaf, leaf, scaled, b2t, d(k=st.just("scaled"), b=b2t, s=col), d(k=st.just("b2t"), b=scaled))
anybdf = st.one_of(bdf, bdf, bdf, spec, d(k=st.just("scaled"), b=spec, s=col))


def _ld(t):
    import math
    u, v, up = t
    z = .006 + .994 * u
    r = math.sqrt(max(0., 1 - z * z))
    return [r * math.cos(2 * math.pi * v), r * math.sin(2 * math.pi * v), z if up else -z]


_g = st.tuples(unit, unit, st.booleans()).map(_ld)
# local directions off the horizon
gldir = st.tuples(unif(.01, .99), unit, st.booleans()).map(_ld)
ldir = st.one_of(_g, _g, _g, pick([0., 0., 1.], [0., 0., -1.], [0.6, 0., 0.8], [0., -0.6, 0.8], [0.8, 0., -0.6]))
