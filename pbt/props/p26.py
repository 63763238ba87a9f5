from core import *
from props import texture as tx
from props.bdf import *

MODULE = "p26"
RULE = ("All materials but the measured (P22), nested mixtures included, with constant and hit-dependent textures whose values also leave [0, 1], opaque, clear and black ones; "
        "oblique parameterisations, tilted geometric normals, reversed and mirrored shapes, bumps over parametric and planar coordinates with and without footprint; directions on both sides. "
        "Non-trivial: bsdf - any component; subsurface - a translucent material; bump - a displacement.")
ASSUMPTIONS = ["surfaces are seen from an outside of refractive index one", "displacements are affine in the texture coordinates, so that any differencing step gives their derivative",
               "roughness is positive", "KdSubsurfaceMaterial's conversion from diffuse colour is a documented TODO of the code and not judged"]
cst = lambda v: v.map(lambda x: ["const", x])
val = st.one_of(tx.rgbv, tx.rgbv, listn(unif(-.5, 1.5), 3, 3))
bi = lambda v: st.tuples(st.just("bilerp"), st.tuples(st.just("uv"), st.tuples(unif(-2., 2.), unif(-2., 2.), unif(0., 1.), unif(0., 1.)).map(list)).map(list), listn(v, 4, 4)).map(list)
C = st.one_of(cst(val), cst(val), bi(val), cst(st.just([0., 0., 0.])))
Copq = st.one_of(cst(st.just([1., 1., 1.])), cst(tx.rgbv), bi(tx.rgbv))
rough = cst(st.one_of(unif(.02, 1.), pick(.1, 1.)))
ior = cst(eta)
sig = st.one_of(cst(st.one_of(unif(0., 90.), pick(0., 20., -5., 120.))), bi(unif(0., 60.)))
plane = st.tuples(st.just("plane"), vec3(1.), vec3(1.), st.tuples(unif(-1., 1.), unif(-1., 1.)).map(list)).map(list)
bmp = d(map=st.one_of(tx.uvmap, plane), c=st.tuples(unif(-.5, .5), unif(-.5, .5), unif(-.5, .5)).map(list))
B = st.one_of(st.none(), st.none(), bmp)
K = lambda s: st.just(s)
leafm = st.one_of(
    d(k=K("matte"), Kd=C, sigma=sig, bump=B), d(k=K("plastic"), Kd=C, Ks=C, rough=rough, bump=B), d(k=K("mirror"), Kr=C, bump=B),
    d(k=K("metal"), eta=cst(kcol), kk=cst(kcol), rough=rough, bump=B), d(k=K("glass"), Kr=C, Kt=C, ior=ior, bump=B),
    d(k=K("uber"), Kd=C, Ks=C, Kr=C, Kt=C, rough=rough, op=Copq, ior=ior, bump=B), d(k=K("uber"), Kd=C, Ks=C, Kr=C, Kt=C, rough=rough, op=Copq, ior=ior, bump=B),
    d(k=K("subsurface"), scale=unif(.1, 3.), Kr=C, sa=C, ss=C, ior=ior, bump=B), d(k=K("kdsubsurface"), Kd=C, Kr=C, mfp=ior, ior=ior, bump=B))
mix = d(k=K("mix"), m1=leafm, m2=leafm, scale=C)
mats = st.one_of(leafm, leafm, leafm, mix, d(k=K("mix"), m1=mix, m2=leafm, scale=C), d(k=K("mix"), m1=leafm, m2=mix, scale=C))
hit = st.fixed_dictionaries(dict(tx.hit, n=direction, h=gen_direction, lu=st.one_of(unif(.2, 4.), pick(1.)), lv=unif(.2, 4.), sk=st.one_of(unif(-1., 1.), pick(0.)),
                                 tilt=st.tuples(unif(-.3, .3), unif(-.3, .3)).map(list), ro=st.booleans(), swap=st.booleans(), dndu=vec3(.5), dndv=vec3(.5)))
CHECKS = [
    Check("bsdf", d(mat=mats, hit=hit, wo=gen_direction, wi=gen_direction, u=uv), 2400),
    Check("subsurface", d(mat=st.one_of(leafm.filter(lambda m: m["k"] != "kdsubsurface"), d(k=K("subsurface"), scale=unif(.1, 3.), Kr=C, sa=C, ss=C, ior=ior, bump=B)), hit=hit), 300),
    Check("bump", d(bump=bmp, hit=hit), 1200),
]
