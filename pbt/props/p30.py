from props.p29 import *
import props.p12 as P12
import props.p14 as P14
import props.shapes as SH

MODULE = "p30"
RULE = ("Renders of small windows: stratified samplers with 1 to 6 samples a pixel, weights of zero and more, one to three spheres before zero to two skies, a medium or none, integrators that sometimes return NaN, infinite or negative radiance, samplers that refuse results; "
        "pictures by every kind of camera of glowing spheres written to files. Oracles: a record of what the sampler made and the film received, closed-form silhouettes. Non-trivial: some sample sees a surface and some light arrives; the picture has two colours.")
ASSUMPTIONS = ["samples on a silhouette within rounding are not judged", "an infinite and a negative infinite channel never come together", "pictures have no channel that is zero everywhere (writing scales every channel to its maximum)"]
w3 = st.tuples(pickint(0, 3), pickint(1, 5), pickint(0, 3), pickint(1, 5)).map(lambda t: [t[0], t[0] + t[1], t[2], t[2] + t[3]])
balls = listn(st.tuples(vec3(3.), pos(.3, 3.)).map(list), 1, 3)
Ip = st.tuples(unif(.5, 50.), unif(.5, 50.), unif(.5, 50.)).map(list)
skies = listn(Ic, 0, 2)
Ip01 = st.tuples(unif(.1, .9), unif(.1, .9), unif(.1, .9)).map(list)
LOC = st.lists(st.one_of(t_rotate, t_scale), min_size=0, max_size=2)
small_shape = st.one_of(SH.sphere(LOC), SH.cyl(LOC), SH.disk(LOC), SH.tri(LOC))


def near(f):
    # wide filters need many samples
    return dict(f, xw=min(f["xw"], 1.5), yw=min(f["yw"], 1.5))


def aimed(c):
    return dict(c, fov=min(max(c["fov"], 20.), 110.))


BASE = dict(w=w3, xs=pickint(1, 3), ys=pickint(1, 2), jitter=st.booleans(), open=sym(1.), dur=pick(0., 1.), balls=balls, sky=skies, medium=medium, seed=seed, x0=unif(-3., 1.), y0=unif(-3., 1.), dx=unif(.2, .9), wts=listn(pick(0., 1., 1., .5, 2., 1.), 1, 4), n1=listn(pickint(1, 4), 0, 3), n2=listn(pickint(1, 4), 0, 3), sick=pick("", "", "nan", "inf", "neg", "ninf"), refuse=pick(False, False, True), mask=pick(False, False, False, False, True))
CHECKS = [
    Check("loop", d(**BASE), 600),
    Check("tasks", d(tiles=pickint(1, 6), perm=listn(pickint(0, 9), 1, 4), threads=st.booleans(), twice=st.booleans(), files=pick("", "renderer", "sampler"), **BASE), 160),
    Check("picture", d(cam=P12.cam(("persp", "persp", "ortho", "ortho", "env", "pinhole")), xr=pickint(1, 9), yr=pickint(1, 9), sky=listn(Ip, 0, 2), integ=pick("whitted", "direct", "path"),
                       balls=listn(st.tuples(unif(1., 8.), st.tuples(sym(.7), sym(.7)).map(list), unif(.2, 2.), Ip, pick(False, False, True)).map(list), 1, 3)), 120),
    Check("lit", d(xr=pickint(1, 7), yr=pickint(1, 7), filt=P14.filt.map(near), crop=P14.maybe, seed=seed, xs=pickint(1, 2), ys=pickint(1, 2), jitter=st.booleans(), cam=P12.cam(("persp", "persp", "ortho", "env"), st.one_of(st.just(0.), st.just(0.), unif(.01, .3))).map(aimed),
                   prims=listn(d(dist=unif(1.5, 8.), off=st.tuples(sym(.6), sym(.6)).map(list), s=small_shape, inst=pick(False, False, True), behind=st.booleans(),
                                 kd=Ip01, tex=st.one_of(st.none(), listn(Ip01, 4, 4)), emit=st.one_of(st.none(), st.none(), Ip01)), 1, 5),
                   lights=listn(d(k=pick("point", "point", "distant", "spot"), p=st.tuples(sym(3.), sym(3.), unif(-3., 6.)).map(list), d=direction, I=Ip, ang=sym(180.), axis=direction, width=unif(10., 90.), inner=unif(.1, .9)), 1, 3),
                   acc=pick("simple", "grid", "lazygrid", "sah", "middle", "nested"), inner=pick("simple", "sah", "grid"), outer=pick("simple", "sah", "grid"), integ=pick("whitted", "direct", "one", "path"), integ2=pick("whitted", "direct")), 120),
]
