from props.shapes import *

MODULE = "p29"
import props.bdf as B

RULE = ("Scenes of one to three spheres and a disk, matte, mirror, glass or mixed, lit by point and distant lights, an even sky or glowing spheres, with or without a medium that lets a fraction through; depth limits 1 to 5. "
        "Closed spheres with point lights in the middle or a glowing wall (every path carries the same radiance); receivers under one to three lights (area, sky, point, distant) with occluders and one or two lobes. "
        "Oracles: an independent recursive ray tracer, the geometric series of a furnace, the multiple importance sampling estimator written out, closed-form irradiance, finite differences of neighbouring rays. "
        "Non-trivial: a secondary ray or a lit or shadowed diffuse point; several vertices; a lit receiver.")
ASSUMPTIONS = ["spectra below 1e-5 count as black (documented EPS), scenes near that are not judged", "rays grazing a surface, hitting two at once, or at the critical angle within tolerance are not judged",
               "media are a stand-in volume integrator, the repository has none", "glass in the path integrator is judged for one bounce (mean over both lobes)", "reversed spheres are not judged for differentials"]
u01 = unif(.05, .95)
col = st.one_of(st.tuples(unif(.05, 1.), unif(.05, 1.), unif(.05, 1.)).map(list), pick([1., 1., 1.], [0., .8, 0.], [.5, 0., .5]))
Ic = st.one_of(st.tuples(unif(.5, 50.), unif(.5, 50.), unif(.5, 50.)).map(list), pick([10., 10., 10.], [0., 40., 0.]))
ior = pick(1.5, 1.5, 1.33, 2.4, 1.05, .7)
def mats(*ks):
    return pick(*ks).flatmap(lambda k: {
    "matte": d(kd=col), "mirror": d(kr=col), "glass": d(kr=col, kt=col, ior=ior), "tglass": d(kt=col, ior=ior), "both": d(kd=col, kr=col),
    "metalglass": d(kr=col, ior=ior)}[k])
def _ball(m, emit):
    return d(k=st.just("ball"), c=vec3(2.), r=pos(.3, 2.), m=m, ro=pick(False, False, False, True), emit=emit)


def _disk(m):
    return d(k=st.just("disk"), h=unif(-4., 4.), r=unif(2., 20.), m=m, ro=st.booleans(), emit=st.none())


def _prims(m, emit):
    return st.tuples(listn(_ball(m, emit), 1, 3), listn(_disk(m), 0, 1)).map(lambda t: t[0] + t[1])


off = st.tuples(sym(1.), sym(1.), sym(1.)).map(list)
plight = d(k=st.just("point"), p=vec3(5.), I=Ic)
dlight = d(k=st.just("distant"), d=direction, I=Ic)
slight = d(k=st.just("spot"), p=vec3(5.), I=Ic, ang=sym(180.), axis=direction, width=unif(15., 90.), inner=unif(.1, .9))
env = d(k=st.just("env"), I=Ic)
frac = st.tuples(unif(.1, 1.), unif(.1, 1.), unif(.1, 1.)).map(list)
medium = pick(0, 0, 1).flatmap(lambda b: d(c=frac, e=frac) if b else st.none())
long_medium = pick(0, 1).flatmap(lambda b: d(c=frac.map(lambda c: [.4 + .6 * v for v in c]), e=frac, len=st.just(True)) if b else st.none())
spawned = ("mirror", "glass", "glass", "tglass", "metalglass")
glow = pick(0, 0, 1).flatmap(lambda b: Ic if b else st.none())


def _scene(k, smats=spawned, **kw):
    com = dict(o=vec3(5.), at=pickint(0, 3), off=off, time=pick(0., .5), medium=long_medium, **kw)
    if k == "diffuse":
        return d(prims=_prims(mats(*(("matte", "matte", "both") + spawned)), st.none()), lights=listn(st.one_of(plight, plight, dlight, slight, slight), 1, 3), **com)
    return d(prims=_prims(mats(*smats), glow), lights=listn(st.one_of(plight, dlight, env, env), 0, 2), **com)


com2 = dict(time=pick(0., .5), medium=medium)
u3 = st.tuples(unit, unit, unit).map(list)
sph = sphere(RIGID)
ashape = st.one_of(d(k=st.just("sphere"), r=pos(.2, 1.5), c=vec3(3.), lift=unif(0., 3.)).map(lambda a: {"k": "sphere", "r": a["r"], "z0": -a["r"], "z1": a["r"], "phi": 360., "ro": False,
                                                                                                   "t": [["T", [a["c"][0], a["c"][1], a["r"] + .1 + a["lift"]]]]}),
                   disk(st.tuples(vec3(3.), t_rotate).map(lambda t: [["T", [t[0][0], t[0][1], 3.]], t[1]])), tri(st.tuples(vec3(3.), t_rotate).map(lambda t: [["T", [t[0][0], t[0][1], 3.]], t[1]])),
                   sphere(st.tuples(vec3(2.)).map(lambda t: [["T", [t[0][0], t[0][1], 3.5]]])))
alight = d(k=st.just("area"), s=ashape, I=Ic, ns=pickint(1, 3))
elight = d(k=st.just("env"), I=Ic, t=RIGID, ns=pickint(1, 3))
anyl = pick(0, 0, 1, 2).flatmap(lambda k: alight if k == 0 else elight if k == 1 else st.one_of(plight, dlight))
rmat = pick(0, 0, 1, 2, 3).flatmap(lambda k: d(kd=col) if k == 0 else d(kd=col, lobe=B.leaf) if k == 1 else d(kd=col, kr=col) if k == 2 else d(lobe=B.leaf))
upw = st.tuples(unit, unit, pick(True, True, True, False)).map(B._ld)
prim = st.one_of(d(k=st.just("ball"), r=pos(.3, 3.), t=RIGID, ro=pick(False)), d(k=st.just("disk"), r=pos(1., 3.), h=real(1.), t=RIGID, ro=st.booleans()))
nb = st.tuples(st.tuples(vec3(1.), vec3(1.)), st.tuples(vec3(1.), vec3(1.))).map(lambda t: [list(x) for x in t])
def _facing(t):
    """two facing disks, something between or beyond them"""
    lo, hi, r, m1, m2, balls, e1, e2 = t
    return [dict(k="disk", h=-lo, r=r, m=m1, ro=False, emit=e1), dict(k="disk", h=hi, r=r, m=m2, ro=True, emit=e2)] + balls


hall = st.tuples(unif(.5, 1.5), unif(.5, 1.5), unif(3., 30.), mats("mirror"), mats("mirror"), listn(_ball(mats("mirror", "tglass"), pick(0, 1, 1).flatmap(lambda b: Ic if b else st.none())), 0, 2), glow, glow).map(_facing)
slant = st.tuples(sym(1.), sym(1.), unif(.3, 1.), pick(1, -1)).map(lambda t: [t[0], t[1], t[2] * t[3]])
wmats = pick(0, 1, 2, 3, 4).flatmap(lambda k: d(kd=col, lobe=B.leaf) if k == 0 else d(lobe=B.leaf) if k == 1 else d(kd=col, kr=col) if k == 2 else d(kd=col) if k == 3 else mats(*spawned))
_room = pick(0, 1, 1).flatmap(lambda k: st.just([]) if not k else st.tuples(d(k=st.just("ball"), c=vec3(1.), r=unif(7., 12.), m=wmats, ro=pick(True, True, True, False), emit=pick(0, 1, 1).flatmap(lambda b: Ic if b else st.none()))).map(list))
CHECKS = [
    Check("corridor", d(prims=hall, lights=listn(env, 0, 1), o=st.tuples(sym(3.), sym(3.), sym(.4)).map(list), dir=slant, max=pick(1, 2, 3, 4, 4, 4), u=u01, time=pick(0., .5), medium=long_medium), 1000),
    Check("whitted", pick("diffuse", "diffuse", "specular").flatmap(lambda k: _scene(k, max=pickint(1, 5))), 700),
    Check("specpath", pick(0, 0, 1).flatmap(lambda g: _scene("specular", ("mirror", "tglass", "metalglass") if not g else ("glass", "mirror"), max=pickint(0, 4) if not g else pickint(0, 2), u=u01)), 300),
    Check("furnace", d(r=pos(.5, 4.), rho=col, max=pick(0, 1, 2, 3, 4, 5, 5, 5), c=vec3(3.), glow=st.booleans(), ro=st.booleans(), I=listn(Ic, 1, 3), o=vec3(1.).map(lambda v: [x * .5 for x in v]),
                       w=gen_direction, us=st.tuples(u01, u01, u01).map(list), **com2), 100),
    Check("mis", d(m=rmat, ro=st.booleans(), lights=listn(anyl, 1, 3), balls=listn(st.tuples(vec3(3.), pos(.2, 1.)).map(list), 0, 2), wo=upw, p=st.tuples(sym(2.), sym(2.)).map(list), us=listn(u3, 2, 4), **dict(com2, medium=long_medium)), 400),
    Check("walk", d(prims=st.tuples(_prims(wmats, glow), _room).map(lambda t: t[0] + t[1]), lights=listn(st.one_of(plight, dlight, env, env), 0, 2), us=st.tuples(u01, unit, unit).map(list), max=pickint(1, 4), o=vec3(4.), at=pickint(0, 3), off=off, time=pick(0., .5), medium=long_medium), 1000),
    Check("irradiance", d(rho=col, th=unif(0., 1.3), dist=unif(1., 10.), size=unif(.05, .9), sky=pick(False, False, True), I=Ic, t=st.tuples(t_rotate).map(list), wo=upw.map(lambda v: [v[0], v[1], abs(v[2])]), u=st.tuples(u01, u01, u01).map(list), time=pick(0.), tol=st.just(.06)), 24),
    Check("used", d(k=pick("path", "all", "one"), seed=seed, faces=st.permutations(range(6)).map(list), n=st.just(2), ns=st.tuples(pickint(1, 3), pickint(1, 3), pickint(1, 3)).map(list), I=st.tuples(Ic, Ic, Ic).map(list),
                    rho=col, ro=st.just(False), o=vec3(1.), w=gen_direction), 12),
    Check("spawn", d(prim=prim, kr=col, kt=col, ior=pick(1.5, 1.5, 1.33, 2.4, .7, 1.1), off=off, dir=gen_direction, far=pick(.2, 1., 3., 8.), nb=nb, depth=pickint(0, 3), time=pick(0., .5), diff=pick(True, True, True, False)), 300),
]
