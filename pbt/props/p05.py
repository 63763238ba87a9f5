from props.shapes import *

MODULE = "p05"
RULE = ("Spheres, cylinders, disks (full, z- or phi-clipped, annular) and triangles of generated size under 0-3 translations, "
        "rotations and (mirror) scales; rays aimed at or near the surface from inside, outside and far away, with any direction "
        "length and parameter interval. Cases within 1e-6 of a tangency, edge, clip or interval end are rejected as too close to "
        "call. Non-trivial: the ray hits a clipped or transformed shape (any triangle or disk).")
ASSUMPTIONS = ["radii in [0.01,12], scale factors in [0.2,4], ray directions of length 1e-6..500",
               "disks are not hit by rays within 2e-5 of their plane (the code treats those as parallel)"]


def mk(sh):
    return d(s=sh, aim=aimst, win=window)


ax = st.sampled_from([[0., 0., 1.], [0., 0., -1.], [1., 0., 0.], [-1., 0., 0.], [0., 1., 0.], [0., -2., 0.], [1., 1., 0.], [0., 1., 1.], [1., -1., 1.]])
gp = st.tuples(grid(-3, 3, 2), grid(-3, 3, 2), grid(-4, 4, 2)).map(list)
CHECKS = [
    Check("sphere", mk(sphere(TR)), 4000),
    Check("cylinder", mk(cyl(TR)), 4000),
    Check("disk", mk(disk(TR)), 3000),
    Check("triangle", mk(tri(TR)), 4000),
    Check("axis_rays", d(s=quadric, o=gp, d=ax), 3000),
    Check("scaled_ray", d(s=shape, aim=aimst, k=unif(.01, 100.), f=unif(0., .95)), 2000),
    Check("grazing", d(s=st.one_of(sphere(TR), cyl(TR)), u=unit, dir=direction, e=st.one_of(st.sampled_from([0., 1e-16, -1e-16, 1e-15, -1e-15, 1e-14, 1e-12, 1e-10, 1e-8, 1e-7, -1e-8]), sym(1e-12)),
                       back=unif(.1, 20.), len=length), 3000),
    Check("alpha", d(s=tri(TR), aim=aimst, const=pick(False, False, False, True), vals=pick([0., 1.], [1., 0.], [0., .5], [0., 0.], [.25, 1.], [0., -1.]),
                     map=st.tuples(*[st.one_of(unif(-6., 6.), pick(1., 2., 4., .5))] * 2 + [st.one_of(unif(-3., 3.), pick(0., .5))] * 2).map(list)), 1500),
]
