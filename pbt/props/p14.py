from core import *
import props.p13 as p13

MODULE = "p14"
RULE = ("Films of 1-9 by 1-9 pixels, square or not, all filters, random crop windows, up to 12 samples on, between and off pixels and splats; two threads adding at once, switched at chosen bytecode instructions. "
        "Oracle: direct filter-weighted sums over an independent filter model tabulated 16 x 16. Non-trivial: several pixels receive several samples.")
ASSUMPTIONS = ["the filter is tabulated on 16 x 16 cells over a quadrant (FILTER_TABLE_SIZE)", "pixels whose filter weights nearly cancel are not judged",
               "samples within rounding of a table cell border are not generated, unless exactly representable"]
w = st.one_of(pick(.5, 1., 2.), unif(.3, 3.))
filt = d(kind=pick("box", "triangle", "gaussian", "mitchell", "lanczos"), xw=w, yw=w, alpha=unif(.1, 3.), B=st.just(1. / 3), C=st.just(1. / 3), tau=unif(1., 3.))
c01 = st.one_of(unit, pick(0., .25, .5, .75, 1.))
crop1 = st.tuples(c01, c01).map(sorted).filter(lambda t: t[1] - t[0] > .05)
crop = st.tuples(crop1, crop1).map(lambda t: t[0] + t[1])
L = st.one_of(st.tuples(unit, unit, unit).map(list), pick([1., 1., 1.], [0., 0., 0.], [5., .1, 0.], [-.5, 1., .25]))
loc = st.one_of(unif(-.2, 1.2), unit, unit, pick(0., .5, 1., .25))
smp = d(x=loc, y=loc, L=L)


def f(n=9, **kw):
    return d(xr=pickint(1, n), yr=pickint(1, n), filt=filt, **kw)


maybe = st.one_of(st.none(), crop)
CHECKS = [
    Check("reconstruct", f(crop=maybe, samples=listn(smp, 0, 10), splats=listn(smp, 0, 3), scale=pick(1., .5, 2.)), 640),
    Check("order", f(6, crop=maybe, samples=listn(smp, 2, 8), perm=listn(pickint(0, 50), 8, 8), threads=pick(False, False, True)), 320),
    Check("many", f(3, crop=maybe, seed=seed, cnt=pickint(1, 300), amp=pick(1., 20.), scale=pick(1., .5)), 64),
    Check("crop", f(crop=crop, samples=listn(smp, 2, 8)), 480),
    Check("extent", f(crop=maybe, out=st.tuples(unit, unit).map(list), side=pickint(0, 3)), 480),
    Check("kinds", f(5, crop=maybe, samples=listn(d(x=loc, y=loc, S=listn(unif(0., 3.), 1, 30)), 1, 5)), 160),
    Check("written", f(7, crop=crop, samples=listn(smp, 2, 8)), 240),
    Check("meanwhile", d(xr=pickint(1, 4), yr=pickint(1, 4), filt=st.tuples(filt, pickint(0, 3), unif(.6, 3.), st.one_of(st.just(.5), unif(.3, 3.))).map(lambda t: dict(t[0], xw=t[2 + t[1] % 2], yw=t[3 - t[1] % 2])), crop=st.none(), samples=listn(smp, 1, 4), splats=listn(smp, 0, 4), cut=pickint(0, 4), scale=pick(1., .5), files=pick("", "film"), seed=seed, twice=pick(False, False, True)), 240),
]
