from hypothesis import strategies as st
from core import *

MODULE = "p02"
RULE = ("Histories of up to 12 points / boxes / empty boxes grown by union and expand, and rays against boxes. Coordinates "
        "mix lattice values (shared faces, flat boxes, rays in slab planes, signed-zero direction components) with "
        "full-precision reals. Non-trivial: a box with three positive extents, a history of at least 3 insertions, "
        "or a ray whose slab overlap is a proper interval or a near miss.")
ASSUMPTIONS = ["coordinates are finite and of magnitude <= 1e2"]

V = vec3(20.)
zero = st.sampled_from([0., -0.])
comp = st.one_of(zero, grid(-2, 2, 1), sym(2.))
ray_dir = st.tuples(comp, comp, comp).filter(lambda v: any(abs(x) > 1e-3 for x in v)).map(list)
CHECKS = [
    Check("union_history", d(ops=st.lists(st.one_of(
        st.tuples(st.just("pt"), V).map(list),
        st.tuples(st.just("box"), V, V).map(list),
        st.tuples(st.just("empty")).map(list),
        st.tuples(st.just("expand"), unif(0., 3.)).map(list),
        st.tuples(st.just("copy")).map(list)), max_size=12), probe=V), 2000),
    Check("union_algebra", d(b=st.lists(st.one_of(st.tuples(V, V).map(list), st.just(None)), min_size=3, max_size=3), p=V), 1600),
    Check("measures", d(p=V, q=V, r=vec3(30.), t=st.lists(st.one_of(unit, real(2.)), min_size=3, max_size=3)), 2400),
    Check("overlap", d(p=V, q=V, r=V, s=V, same=st.integers(0, 7)), 2400),
    Check("ray_slab", d(p=V, q=V, o=V, dr=ray_dir, mint=st.one_of(st.just(0.), unif(0., 30.)),
                        maxt=st.one_of(st.just(None), unif(0., 60.)), snap=st.integers(0, 26)), 8000),
    Check("ray_through", d(p=V, q=V, t=st.lists(unit, min_size=3, max_size=3), dr=ray_dir, back=unif(0., 20.)), 3200),
]
