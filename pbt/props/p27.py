from props.shapes import *

MODULE = "p27"
RULE = ("Point, spot, projection, goniophotometric, distant, diffuse area and environment lights under random rigid placement; receivers all around and, for cones, aimed into the cone; "
        "images 1 to 8 texels a side, square or not, RGB, RGBA or grey, or unreadable; area lights over spheres, cylinders, disks, triangles (partial, reversed) and meshes; scenes of spheres. "
        "Oracles: emission laws and an independent image lookup, the closed-form shapes of P05 and P08, finite-difference stretch of the sampling maps. "
        "Non-trivial: a receiver is lit (occlusion: something in between; samples: several).")
ASSUMPTIONS = ["lights are placed rigidly (documented)", "image sides are powers of two; values are those stored in the file (0 to 255)", "receivers keep 0.01 from a light, 0.001 from an emitting point",
               "receivers on the border of a cone, an image or a density cell within rounding are not judged", "power is the approximation each light documents"]
col = st.one_of(st.tuples(unif(.1, 20.), unif(.1, 20.), unif(.1, 20.)).map(list), pick([1., 1., 1.], [0., 2., 0.], [5., 0., .5]))
img = st.one_of(d(lw=pickint(0, 3), lh=pickint(0, 3), px=listn(pickint(0, 255), 3, 12), mode=pick("RGB", "RGB", "RGBA", "L")),
                d(lw=pickint(0, 3), lh=pickint(0, 3), px=listn(pick(0, 0, 0, 0, 255, 90), 24, 40), mode=pick("RGB", "RGB", "RGBA")),
                d(lw=pickint(0, 3), lh=pickint(0, 3), px=listn(pickint(0, 255), 3, 12), mode=pick("RGB", "RGB")), pick(None))
ball = st.tuples(vec3(4.), pos(.2, 2.)).map(list)
pts = listn(vec3(5.), 1, 4)
u3 = st.tuples(unit, unit, unit).map(list)
com = dict(I=col, t=RIGID, ps=pts, u=u3, v=uv, time=pick(0., .5, 1.25), eps=pick(0., 1e-3, .02), balls=listn(ball, 1, 3))
LSH = st.one_of(sphere(RIGID), sphere(RIGID, False), cyl(RIGID), disk(RIGID), tri(RIGID), tri(RIGID))
VT = st.tuples(unit, unit, unit, unit).map(lambda t: sorted(range(4), key=lambda i: (t[i], i))[:3])
mesh = d(k=st.just("mesh"), P=listn(vec3(3.), 4, 6), vi=listn(VT, 2, 4).map(lambda l: [i for v in l for i in v]), ro=st.booleans(), t=RIGID)
CHECKS = [
    Check("pointlike", d(k=pick("point", "spot", "spot", "proj", "proj", "gonio"), width=unif(2., 85.), fall=pick(.9, .5, .2, 0., .99), fov=st.one_of(unif(10., 120.), pick(45., 90., 150., 178.)), img=img,
                         near=st.one_of(st.none(), uv, uv), **com), 1200),
    Check("distant", d(d=direction, len=pick(1., .3, 5.), **com), 300),
    Check("area", d(s=pick(0, 0, 1).flatmap(lambda k: mesh if k else LSH), ns=pickint(0, 5), ws=listn(direction, 1, 4), n=gen_direction, **com), 480),
    Check("infinite", d(img=img, missing=st.booleans(), ns=pickint(0, 5), ws=listn(st.one_of(gen_direction, direction), 2, 8), len=pick(1., .5, 7.), **com), 220),
    Check("emission", d(k=pick("point", "spot", "proj", "gonio", "distant", "area", "infinite"), width=unif(2., 85.), fall=pick(.9, .5, .2, 0., .99), fov=st.one_of(unif(10., 120.), pick(45., 90.)), img=pick(None), d=direction,
                        s=st.one_of(sphere(RIGID), disk(RIGID)), **com), 40),
    Check("occlusion", d(k=pick("segment", "segment", "segment", "ray", "ray", "given"), p=vec3(5.), q=vec3(5.), aim=st.one_of(st.none(), st.tuples(unif(0., 3.), vec3(1.)).map(list)), e1=pick(0., 1e-3, .3), e2=pick(0., 1e-3, .2), time=pick(0., 1.), balls=listn(ball, 1, 3)), 1200),
    Check("samples", d(n=listn(pickint(1, 5), 1, 5)), 200),
]
