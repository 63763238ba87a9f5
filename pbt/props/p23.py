from core import *
from props.texture import *

MODULE = "p23"
RULE = ("Hits at random points with random parametric coordinates and footprints of six sizes, none included; the five mappings under chains of transforms, "
        "with points near the seam and axis of the angular ones; trees of all textures, depth up to 3, over numbers and spectra. "
        "Non-trivial: mapping - a footprint or transform; texture - not a constant; checks - filter crosses a check's edge; blend - a varying operand.")
ASSUMPTIONS = ["differentials of angular mappings are first order: judged for footprints small against the distance to the axis, 2 % of the radius away from it",
               "points on a cell border within rounding are not judged"]
near = st.tuples(pick(1., -1.), unif(.3, 2.), st.one_of(unif(-.002, .002), pick(0., -0.)), unif(-2., 2.)).map(lambda t: [t[0] * t[1], t[2], t[3]])
small = st.tuples(pick(0., 1e-4, .001, .01), vec3(1.)).map(lambda t: [t[0] * x for x in t[1]])
seam = dict(hit, p=near, dx=small, dy=small)
CHECKS = [
    Check("mapping", st.one_of(d(map=st.one_of(map2, map3), **hit), d(map=st.tuples(pick("sphere", "cylinder"), st.one_of(st.just([]), st.just([]), w2t)).map(list), **seam)), 2400),
    Check("texture", d(tex=tex, **hit), 1800),
    Check("checks", d(map=map2f, aa=pick("closedform", "closedform", "ClosedForm"), **hit), 1600),
    Check("blend", d(t1=tex, t2=tex, w=unit, v4=st.one_of(listn(rgbv, 4, 4), listn(flt, 4, 4)), **hit), 400),
]
