from core import *

MODULE = "p12"
RULE = ("Perspective, orthographic, environment and pinhole cameras with random film sizes, screen windows, fields of view, lenses, rigid and "
        "moving camera-to-world maps; samples on and off the film, lattice and full precision. Non-trivial: a lens, a moving camera or "
        "the environment map.")
ASSUMPTIONS = ["camera-to-world maps are rigid (so that directions stay unit length)",
               "moving maps are evaluated through AnimatedTransform.interpolate, which P04 judges"]
win = st.one_of(st.none(), st.tuples(sym(2.), sym(2.), unif(.1, 3.), unif(.1, 3.)).map(list))
small = st.lists(st.one_of(t_translate(3.), st.tuples(sym(80.), direction).map(lambda t: ["R", t[0], t[1]])), min_size=1, max_size=2)
c2w = st.tuples(rigid, st.one_of(st.none(), small), sym(2.), unif(.2, 3.)).map(list)
lens_uv = st.tuples(st.one_of(unit, pick(0., .5, .25, .75)), st.one_of(unit, pick(0., .5, .25, .75))).map(list)


def cam(kinds, lensr=st.one_of(st.just(0.), unif(.01, 1.))):
    return d(kind=pick(*kinds), xr=pickint(1, 64), yr=pickint(1, 64), win=win, fov=st.one_of(unif(5., 150.), pick(90., 45., 60.)), lensr=lensr,
             focal=unif(.5, 20.), c2w=c2w, shutter=st.tuples(sym(2.), unif(0., 2.)).map(lambda t: [t[0], t[0] + t[1]]),
             frac=st.tuples(st.one_of(unif(-.1, 1.1), pick(0., .5, 1., .25)), st.one_of(unif(-.1, 1.1), pick(0., .5, 1., .25))).map(list),
             lens=lens_uv, time=sym(3.), full=st.booleans(), us=listn(lens_uv, 2, 4))


ALL = ("persp", "persp", "ortho", "ortho", "env", "pinhole")
CHECKS = [
    Check("ray", cam(ALL), 1600),
    Check("differential", cam(ALL), 1600),
    Check("focus", cam(("persp", "ortho"), unif(.01, 1.)), 480),
]
