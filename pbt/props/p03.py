from hypothesis import strategies as st
from core import *

MODULE = "p03"
RULE = ("Transforms are products of 0-4 generated translations, (possibly mirroring, non-uniform) scales and rotations about "
        "arbitrary axes, plus look-at, perspective and orthographic ones; arguments are generated points, vectors, normals, "
        "rays, differential rays and boxes. Non-trivial: the product is not the identity and the argument is not zero.")
ASSUMPTIONS = ["transforms are invertible with scale factors in [0.2,4] and offsets below 10; look-at's up vector is at least 1 degree off the view axis",
               "boxes are transformed by axis-preserving maps (see known finding for general rotations)"]

V = vec3(20.)
quarter = st.tuples(st.sampled_from([90., 180., 270., -90.]), st.sampled_from([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]])).map(lambda t: ["R", t[0], t[1]])
axis_chain = st.lists(st.one_of(t_translate(), t_scale, quarter), max_size=4)
CHECKS = [
    Check("product_inverse", d(a=chain(4), b=chain(3), c=chain(2)), 2000),
    Check("apply", d(t=chain(4), p=V, v=V, n=V), 3200),
    Check("apply_ray", d(t=chain(3), o=V, dr=V, s=real(10.), mint=unif(0., 2.), maxt=st.one_of(st.none(), unif(2., 50.)),
                         depth=st.integers(0, 5), time=real(2.), offs=st.lists(vec3(2.), min_size=4, max_size=4),
                         has=st.booleans()), 2000),
    Check("bbox_axis", d(t=axis_chain, p=V, q=V, u=st.lists(unit, min_size=3, max_size=3)), 2000),
    Check("bbox_diagonal", d(t=chain(3), p=V, q=V), 1200),
    Check("elementary", d(v=V, deg=angle, axis=direction, k=unif(.2, 5.), s=st.tuples(t_scale, t_scale).map(lambda x: x[0][1])), 2000),
    Check("matrix", d(kind=pick("unit rows", "unit rows", "unit columns", "shear", "any"), rows=st.tuples(direction, direction, direction).map(list), any=st.tuples(vec3(3.), vec3(3.), vec3(3.)).map(list), ij=pickint(0, 5), k=sym(2.), off=vec3(5.),
                      c=chain(2), p=V, v=V, n=V), 1600),
    Check("look_at", d(eye=V, w=direction, dist=unif(.1, 30.), up=st.tuples(direction, unif(.2, 5.)).map(lambda t: [x * t[1] for x in t[0]]), p=V), 2400),
    Check("projections", d(fov=unif(5., 170.), n=unif(.05, 5.), span=unif(.1, 100.), p=st.tuples(unit, unit, unit).map(list), c=chain(2), any=st.one_of(vec3(20.), vec3(20.), st.tuples(sym(5.), sym(5.), unif(.97, 1.03)).map(list))), 1600),
    Check("predicates", d(t=chain(3), s=st.one_of(unif(.1, .97), unif(1.03, 4.)), ax=st.integers(0, 2), r=rigid), 2400),
    Check("copy_independence", d(t=chain(2), u=chain(2)), 800),
]
