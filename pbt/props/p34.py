import os
from props.shapes import *
from props import p09 as q9, p10 as q10, p12 as q12, p13 as q13, p15 as q15, p21 as q21, p24 as q24, p26 as q26, p27 as q27, p28 as q28
from props import texture as tx
from props import bdf as B

MODULE = "p34"
RULE = ("Histories of 2 to 7 questions to two living objects of one kind (shapes, meshes, subdivision surfaces, transforms, key-framed transforms, cameras, filters, distributions, textures, image pyramids, reflection models, BSDFs, materials, "
        "lights, media, aggregates, scenes, primitives, spectra, samplers, films, integrators over scenes), printing the object or overwriting the answer in between. Oracle: an object freshly built for each question; arguments before and after. "
        "Objects built from the caller's tables (rays, boxes, intersection records, transforms, meshes, subdivision surfaces, density grids, aggregates, distributions, spectra, films), all of the tables overwritten afterwards. Oracle: the same object with its tables left alone. Two threads asking one object (or two) at once, switched at chosen bytecode instructions. Oracle: each alone. "
        "Non-trivial: at least one question that is answered.")
ASSUMPTIONS = ["two threads at once: subdivision surfaces are refined by one thread at a time, as aggregates do under a lock; questions that draw from numpy's global generator are not judged", "numpy's global generator is reset before every question", "a ray's range, an intersection record and the screen derivatives of a hit are outputs of closest-hit queries", "objects that keep state by contract (samplers' next sample, films, parameter sets, the scene description) are P14, P15 and P31's"]
x = d(p=st.one_of(vec3(3.), vec3(.3)), o=vec3(6.), w=direction, v=direction, u=st.tuples(unit, unit, unit).map(list), uv=uv, time=pick(0., .5, .375, 1.25, -1.), rng=window, hit=q26.hit, flags=q21.flags)
xs = listn(x, 1, 2)
# few different questions, so that they are asked again
steps = st.lists(pickint(0, 59), min_size=1, max_size=3).flatmap(lambda qs: listn(st.tuples(pickint(0, 1), pick(*qs), pickint(0, 1), pick("plain", "repr", "scramble", "scramble")).map(list), 2, 7))


def kind(k, obj):
    return d(k=st.just(k), objs=st.tuples(obj, obj).map(list), xs=xs, steps=steps)


small = st.lists(st.one_of(t_translate(2.), st.tuples(sym(80.), direction).map(lambda t: ["R", t[0], t[1]])), min_size=1, max_size=2)
anim = st.tuples(RIGID, st.one_of(st.none(), small), pick(0., .25), pick(1., .5)).map(list)
light = d(k=pick("point", "spot", "distant", "env", "proj", "gonio", "map"), t=RIGID, I=q27.col, width=unif(5., 80.), d=direction, ns=pickint(1, 3), img=q27.img)
PT = chain(2, m=3.)
agg = d(prims=listn(st.one_of(sphere(PT), disk(PT), cyl(PT), tri(PT)), 1, 5), mats=listn(q26.leafm, 1, 2), glow=st.booleans(), move=st.one_of(st.none(), anim), acc=q10.ACC, mp=q10.MP, inner=q10.OUT, outer=q10.OUT)
integ = d(g=agg, lights=listn(d(k=pick("point", "spot", "distant", "env"), t=RIGID, I=q27.col, width=unif(5., 80.), d=direction, ns=pickint(1, 3), img=pick(None)), 1, 2), i=pick("whitted", "path", "all", "one"))
loop = d(levels=pickint(0, 2), t=chain(2), **q9.BASE).filter(lambda a: a["levels"] < 2 or a["n"] * a["m"] < 5)
crop = st.tuples(unif(0., .4), unif(.5, 1.), unif(0., .4), unif(.5, 1.)).map(list)
meshes = st.one_of(q27.mesh)
TREES = [tx.grow(True, 0), st.one_of(tx.grow(True, 1), tx.grow(False, 1)), tx.tex]
ALL = [("shape", shape, 6), ("mesh", meshes, 2), ("loop", loop, 1), ("transform", TR, 3), ("animated", anim, 3), ("camera", q12.cam(q12.ALL), 4), ("filter", d(**q13.base), 1), ("dist1", listn(unit, 1, 6), 1), ("dist2", listn(unif(.1, 1.), 6, 6), 1),
       ("texture", pick(0, 0, 1, 2).flatmap(lambda n: TREES[n]), 4), ("image", d(img=q27.img, op=q24.op), 2), ("mip", d(tri=st.booleans(), **q24.imgp), 3), ("bdf", B.anybdf, 4), ("bsdf", d(bs=listn(B.anybdf, 0, 4), **q21.base), 4), ("material", q26.mats, 5), ("light", light, 6),
       ("area", d(s=pick(0, 0, 1).flatmap(lambda k: q27.mesh if k else q27.LSH), ns=pickint(1, 3), t=RIGID, I=q27.col), 3), ("region", q28.near.flatmap(lambda r: st.one_of(st.just(r), q28.near, listn(q28.near, 1, 3), q28.reg)), 3), ("aggregate", agg, 6), ("integrator", integ, 6),
       ("scene", d(g=agg, lights=st.just([]), vr=st.one_of(st.none(), q28.reg)), 2), ("primitive", d(s=pick(0, 1).flatmap(lambda k: q27.mesh if k else shape), m=q26.leafm), 3), ("fresnel", B.fres, 1), ("facets", B.dist, 2),
       ("spectrum", pick(3, 3, 3, 16).flatmap(lambda n: listn(unit, n, n)), 3), ("sampler", d(**q15.base), 1),
       ("film", d(xr=pickint(1, 20), yr=pickint(1, 20), w=unif(.5, 3.), crop=crop), 1)]
OWN = ["image", "spectral image"] * 2 + ["ray", "differential ray", "ray from a ray", "differential ray from a ray", "box", "box of a point", "box from a box", "box around a box", "hit", "point", "vector", "normal", "transform", "transform with inverse"] + ["mesh", "described mesh"] * 4 + [
    "subdivision surface", "density grid", "density grid", "distribution", "distribution of an array", "distribution of a plane", "spectrum of rgb", "spectrum of rgb array", "spectrum of xyz", "spectrum of xyz array", "spectrum of a spectrum", "film"] + ["aggregate", "aggregate of media"] * 2
bag = [i for i, t in enumerate(ALL) for _ in range(t[2])]
if os.environ.get("P34_ONLY"):   # development: restrict to some kinds
    bag = [i for i, t in enumerate(ALL) if t[0] in os.environ["P34_ONLY"].split(",")]
def pair(k, obj):
    return d(k=st.just(k), objs=st.tuples(obj, obj).map(list), xs=xs, asked=pick(False, True).flatmap(lambda same: listn(st.tuples(pickint(0, 59), pickint(0, 1)).map(list), 1, 1).map(lambda l: l * 2) if same else listn(st.tuples(pickint(0, 59), pickint(0, 1)).map(list), 2, 2)), other=pick(False, False, True), seed=seed, twice=pick(False, False, True))


# the schemes that subdivide write on their control mesh: aggregates refine under a lock, one thread at a time
calm = sorted(set(i for i in bag if ALL[i][0] != "loop"))
CHECKS = [Check("meanwhile", pick(*(calm or bag)).flatmap(lambda i: pair(ALL[i][0], ALL[i][1])), 600), Check("history", pick(*bag).flatmap(lambda i: kind(ALL[i][0], ALL[i][1])), 1500),
          Check("owned", d(k=pick(*OWN), x=x, a=vec3(3.), b=vec3(3.), c=vec3(3.), t=chain(2, m=2.), P=listn(vec3(3.), 4, 6), vi=listn(q27.VT, 2, 4).map(lambda l: [i for v in l for i in v]), ro=st.booleans(),
                           dirs=listn(direction, 16, 16), duv=listn(uv, 8, 8), reg=q28.reg, base=d(**q9.BASE), ws=listn(unif(.05, 1.), 3, 7), **{"with": pickint(0, 15)}), 1500)]
