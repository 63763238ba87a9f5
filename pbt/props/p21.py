from core import *
from props.bdf import *

MODULE = "p21"
RULE = ("BSDFs of 0-4 random components (diffuse, glossy, blended, wrapped, specular) in random shading frames with a tilted geometric normal, all flag "
        "masks as integers or masks, world directions on both sides. Non-trivial: more than one component and one that matches.")
ASSUMPTIONS = ["directions off both tangent planes by 0.3 degrees", "component choice by the position of u among equal shares, in order of insertion",
               "components are judged by P19 and P20; here their combination is"]
flags = st.one_of(pick(31, 31, 31, 29, 30, 5, 9, 17, 18, 15, 13, 28, 0, 7, 11, 19), pickint(0, 31))
base = dict(n=gen_direction, h=gen_direction, lu=unif(.2, 3.), lv=unif(.2, 3.), sk=sym(1.), p=vec3(3.), tilt=st.tuples(sym(.6), sym(.6)).map(list),
            eta=eta, flags=flags, wrap=st.booleans(), wo=gen_direction)
bs = listn(anybdf, 0, 4)
CHECKS = [
    Check("evaluate", d(bs=bs, wi=gen_direction, **base), 1600),
    Check("sample", d(bs=listn(anybdf, 1, 4), u=uv, uc=unit, **base), 2400),
    Check("shares", d(bs=bs, u=uv, **base), 480),
    Check("albedo", d(bs=bs, k=pickint(1, 3), s=seed, **base), 480),
    Check("samples", d(n=pickint(1, 4), k=pickint(0, 3), before=listn(pickint(1, 3), 0, 3)), 160),
]
