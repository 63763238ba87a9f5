from core import *

MODULE = "p18"
RULE = ("Random coefficients (zeros, negatives, near-black included), colours, and piecewise linear curves of 1-12 samples inside, across and "
        "outside the visible range, intervals ending on and between samples. Non-trivial: not black, not grey, not constant, overlapping the curve.")
ASSUMPTIONS = ["sample wavelengths are distinct", "colours given to the uplifting are non-negative"]
co = st.one_of(sym(3.), unit, pick(0., 1., -1., 1e-6, -1e-6, .5))
c3 = st.one_of(st.tuples(co, co, co).map(list), st.tuples(sym(2e-5), sym(2e-5), sym(2e-5)).map(list))
u3 = st.one_of(st.tuples(unit, unit, unit).map(list), st.tuples(pick(0., 1., .5, .25), pick(0., 1., .5, .25), pick(0., 1., .5, .25)).map(list))
gap = st.one_of(unif(1., 120.), pick(5., 10., 20., 50.))
curve = dict(start=st.one_of(unif(250., 600.), pick(380., 400., 410., 420.)), gaps=listn(gap, 0, 11), v=listn(st.one_of(unif(0., 5.), pick(0., 1.)), 12, 12))
CHECKS = [
    Check("arith", d(x=c3, y=c3, t=co), 1600),
    Check("convert", d(x=c3), 1600),
    Check("average", d(ls=unif(300., 750.), len=st.one_of(unif(.5, 300.), pick(10., 1.)), snap=st.one_of(st.none(), st.tuples(pickint(0, 11), pickint(0, 11)).map(list)), **curve), 1600),
    Check("resample", d(perm=listn(pickint(0, 50), 12, 12), arr=st.booleans(), **curve), 400),
    Check("uplift", d(rgb=u3, refl=st.booleans(), arr=st.booleans(), k=unif(.1, 3.)), 800),
]
