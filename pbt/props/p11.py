from props.shapes import *
from props.p10 import one, meshst, prims, rays, MP

MODULE = "p11"
RULE = ("Primitives over every shape kind with random placement, with and without area light; meshes; instances under static and "
        "key-framed rigid or scaled motion at random times, several instances of a shared aggregate; scenes with and without a volume "
        "region. Oracle: closed-form shapes under composed matrices. Non-trivial: a hit (refine: several triangles; instance: moved).")
ASSUMPTIONS = ["rays grazing a primitive, or whose window ends at a hit, are not judged", "instance transforms preserve handedness"]
pt = st.one_of(t_translate(4.), t_rotate, t_translate(4.), t_scale_pos)
PL = st.lists(pt, min_size=0, max_size=2)
small = listn(one, 1, 3)
CHECKS = [
    Check("geometric", d(s=shape, aim=aimst, w=window, light=st.booleans(), dir=direction), 2400),
    Check("refine", d(s=st.one_of(meshst, meshst, meshst, shape)), 480),
    Check("instance", d(s=shape, aim=aimst, w=window, ta=PL, tb=PL, t0=real(2.), span=unif(.01, 3.), u=unit, static=st.booleans()), 640),
    Check("instances", d(prims=small, places=listn(PL, 1, 4), rays=rays, simple=st.booleans(), mid=st.booleans(), mp=MP), 160),
    Check("scene", d(prims=small, lo=vec3(6.), hi=vec3(6.), vol=st.booleans(), rays=rays), 240),
]
