from props.shapes import *

MODULE = "p09"
RULE = ("Control meshes: tetrahedra, bipyramids, closed and open fans of valence 1-9, rectangular patches with random diagonals; "
        "jittered positions, random vertex labels, face order and starting corner; 0-3 levels; affine placements. Oracle: an "
        "independent edge-map implementation of Loop's rules and limit masks. Non-trivial: at least one level on several faces.")
ASSUMPTIONS = ["control meshes are consistently oriented 2-manifolds with boundary (documented precondition)",
               "normals are compared with face normals where the refined surface is locally flat (face normals within 14 degrees)"]
_j = st.one_of(st.lists(sym(.25), min_size=30, max_size=40), st.lists(sym(.1), min_size=30, max_size=40))
BASE = dict(k=st.sampled_from(["tetra", "bipyramid", "fan", "open", "patch", "patch"]), n=st.integers(1, 9), m=st.integers(1, 3),
            diag=st.integers(0, 65535), jit=_j, perm=st.lists(st.integers(0, 50), min_size=20, max_size=24), ro=st.booleans())


def lv(lo, hi):
    return st.integers(lo, hi)


CHECKS = [
    Check("subdivide", d(levels=st.sampled_from([0, 1, 1, 2, 2, 3]), t=chain(2), **BASE).filter(lambda a: a["levels"] < 3 or a["n"] * a["m"] < 10), 320),
    Check("normals", d(levels=st.sampled_from([2, 3]), **BASE).filter(lambda a: a["levels"] < 3 or a["n"] * a["m"] < 8), 160),
    Check("affine", d(levels=lv(0, 2), t=chain(3), **BASE), 240),
    Check("rejects", d(bad=st.sampled_from(["noP", "noindices", "P", "indices"]), **BASE), 300),
]
