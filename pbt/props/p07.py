from props.shapes import *

MODULE = "p07"
RULE = ("Shapes of every kind and meshes of 3-8 vertices and 1-6 triangles (shared, repeated and permuted indices) under 0-3 "
        "translations, rotations and mirror scales, sampled on a 5x3 grid and random surface parameters; malformed mesh "
        "descriptions. Non-trivial: a rotated shape, a mesh with several triangles, any area or refusal.")
ASSUMPTIONS = ["areas of quadrics are those of the untransformed shape (the code and its pbrt model define them so)"]

uvs = st.lists(uv, min_size=1, max_size=6)
MESH = d(P=st.lists(vec3(4.), min_size=3, max_size=8), vi=st.lists(st.integers(0, 7), min_size=3, max_size=18),
         uv=st.one_of(st.none(), st.lists(real(2.), min_size=5, max_size=16)), ro=st.booleans(), t=TR)
grid = st.one_of(listn(pick(0., 1.), 16, 16), st.permutations(list(range(9))).map(lambda q: [c * .5 for i in q for c in (i % 3, i // 3)]), listn(pick(0., .25, .5, .75, 1.), 16, 16))
# corners apart from each other, three different ones to a triangle; or any
BASE = [[0., 0., 0.], [2., 0., .5], [0., 2., -.5], [-1.5, -1., 1.], [.5, -2., 2.]]
PTS = pick(1, 1, 1, 0).flatmap(lambda k: st.tuples(pickint(3, 5), listn(vec3(.4), 5, 5)).map(lambda t: [[b + e for b, e in zip(B, j)] for B, j in zip(BASE, t[1])][:t[0]]) if k else st.lists(vec3(4.), min_size=3, max_size=5))
TRI3 = st.tuples(unit, unit, unit).map(lambda t: sorted(range(3), key=lambda i: (t[i], i)))
VI = pick(1, 1, 1, 0).flatmap(lambda k: st.lists(st.tuples(TRI3, pickint(0, 4)).map(lambda t: [i + t[1] for i in t[0]]), min_size=1, max_size=4).map(lambda l: [i for v in l for i in v]) if k else st.lists(st.integers(0, 4), min_size=3, max_size=12))
CHECKS = [
    Check("bounds", d(s=shape, uvs=uvs), 3000),
    Check("hits_in_bounds", d(s=shape, aim=aimst), 2500),
    Check("areas", d(s=shape, uv=uv), 3000),
    Check("mesh", MESH, 1200),
    Check("described", d(P=PTS, vi=VI, flat=st.booleans(), extra=pickint(0, 3), uv=st.one_of(st.none(), grid), st=st.one_of(st.none(), grid), N=pick(1, 1, 0),
                         S=st.booleans(), discard=pick(1, 1, 0), ro=st.booleans(), t=TR), 800),
    Check("rejects", d(k=st.sampled_from(["indices", "P", "range", "uv", "st", "N", "S", "alpha"]), n=st.integers(0, 30)), 400),
]
