from props.shapes import *

MODULE = "p06"
RULE = ("Hits on generated spheres, cylinders, disks and triangles (clipped, mirrored, reversed orientation, permuted vertex "
        "indices, given/default/degenerate uv), rays with random differentials, vertex normals and tangents. Oracle: the closed-form "
        "parameterisation differentiated numerically, linear interpolation, and the tangent plane. Non-trivial: not at a pole, "
        "uv determinant non-zero, offset ray meets the plane elsewhere.")
ASSUMPTIONS = ["hits closer than 1e-3 radii to a pole, a disk's centre or an edge are rejected",
               "dn/du, dn/dv of quadrics are compared under rigid placement only (the code transforms them as normals)"]

small = st.lists(sym(.3), min_size=3, max_size=3)
CHECKS = [
    Check("quadric", d(s=quadric, aim=aimst), 4000),
    Check("weingarten", d(s=st.one_of(sphere(RIGID), cyl(RIGID), disk(RIGID)), aim=aimst), 2500),
    Check("triangle", d(s=tri(TR), aim=aimst), 2500),
    Check("footprint", d(s=shape, aim=aimst, ox=small, oy=small, dx=small, dy=small), 3000),
    Check("tri_shading", d(s=tri(TR), aim=aimst, useN=st.booleans(), useS=st.booleans(),
                           n=st.lists(st.lists(sym(1.), min_size=3, max_size=3), min_size=3, max_size=3),
                           s3=st.lists(gen_direction, min_size=3, max_size=3)), 3000),
]
