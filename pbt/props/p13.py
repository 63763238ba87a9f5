from core import *

MODULE = "p13"
RULE = ("Box, triangle, Gaussian, Mitchell and windowed-sinc filters with random half widths and parameters at random offsets, up to 1.3 "
        "half widths out, centre and edges included. Non-trivial: an offset inside the extent of a filter that is not constant.")
ASSUMPTIONS = ["box and Mitchell filters are only defined inside their extent, where the film evaluates them"]
w = st.one_of(pick(.5, 1., 2., 4.), unif(.3, 5.))
off = st.one_of(sym(1.), sym(1.), sym(1.3), pick(0., 1., -1., .5, -.5))
base = dict(kind=pick("box", "triangle", "gaussian", "mitchell", "mitchell", "lanczos", "lanczos"), xw=w, yw=w, alpha=unif(.1, 4.),
            B=st.one_of(pick(0., 1., 1. / 3), unit), C=st.one_of(pick(0., .5, 1. / 3), unit), tau=unif(.5, 5.))
CHECKS = [
    Check("value", d(x=off, y=off, **base), 4000),
    Check("arrays", d(us=listn(st.tuples(off, off).map(list), 1, 6), **base), 1600),
    Check("partition", d(B=unit, C=unit, f=st.tuples(unit, unit).map(list)), 800),
]
