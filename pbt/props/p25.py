from core import *

MODULE = "p25"
RULE = ("Points at full precision and on cell faces, edges and corners, positive and negative, up to 300 cells and several periods away; footprints over ten octaves; "
        "weights and octave counts. Non-trivial: value - off the lattice; smooth - on a cell border; octave - at least a fraction of an octave; footprint - at an inner octave border; step - strictly inside.")
ASSUMPTIONS = ["a point is any indexable triple, a footprint any vector", "the permutation table is the published one"]
c = st.one_of(unif(-8., 8.), unif(-8., 8.), unif(-300., 300.), pick(0., .5, -.5, 1., 255., 256., 255.5, -1., -256., 127.75))
p = st.tuples(c, c, c).map(list)
CHECKS = [
    Check("value", d(p=p, kind=pick("list", "array", "point", "vector"), wrap=st.tuples(*[pickint(-3, 3)] * 3).map(list)), 2400),
    Check("smooth", d(p=p, on=st.tuples(*[st.booleans()] * 3).map(list), dir=direction), 1600),
    Check("octave", d(p=p, dx=vec3(1.), dy=vec3(1.), scale=pick(0., 1e-4, 1e-3, .01, .05, .1, .3, .5, 1., 4.), omega=st.one_of(unit, pick(.5, 0., 1.)), n=pickint(0, 12)), 2000),
    Check("footprint", d(p=p, k=pickint(0, 8), omega=unit, n=pickint(0, 12)), 600),
    Check("step", d(lo=unif(-3., 3.), w=st.one_of(unif(.01, 3.), pick(.4, 1.)), t=unif(-.5, 1.5), at=pick("", "", "", "lo", "hi", "below", "above"), z=st.one_of(unif(0., 1.2), pick(0., .5, 1.)), tau=pick(1., 2., 3.)), 1000),
]
