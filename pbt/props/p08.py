from props.shapes import *

MODULE = "p08"
RULE = ("Generated shapes, (u1,u2) in the unit square and viewpoints. Oracles: closed-form membership and normal, the Jacobian of "
        "the sample map (central differences; seams rejected by comparing two step sizes), frequencies of a 24x24 lattice, and "
        "the area-to-solid-angle conversion. Non-trivial: every judged case that is not a miss.")
ASSUMPTIONS = ["densities are compared under rigid placement; cone sampling is judged for whole spheres (the code and pbrt assume both)",
               "area-stretch comparison tolerance 2e-3"]
iu = st.tuples(unif(.01, .99), unif(.01, .99)).map(list)
srigid = sphere(RIGID, False)
CHECKS = [
    Check("support", d(s=shape, us=st.lists(uv, min_size=1, max_size=5)), 2500),
    Check("agrees_with_hit", d(s=shape, u=iu, dir=gen_direction, back=unif(.2, 4.)), 2500),
    Check("density", d(s=shape_rigid, u=iu), 3000),
    Check("coverage", d(s=shape_rigid, f=unif(.1, .9)), 100),
    Check("solid_angle", d(s=st.one_of(sphere(RIGID), cyl(RIGID), disk(RIGID), tri(RIGID)), aim=aimst, u=uv), 2500),
    Check("sphere_cone", d(s=srigid, u=uv, dir=direction, dist=st.one_of(unif(1.05, 3.), unif(3., 40.))), 2000),
    Check("cone_coverage", d(s=srigid, dir=direction, dist=st.one_of(unif(1.05, 3.), unif(3., 40.))), 32),
    Check("sphere_inside", d(s=srigid, u=uv, dir=direction, f=unif(0., .95), w=gen_direction), 1000),
]
