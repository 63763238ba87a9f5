from core import *

MODULE = "p28"
RULE = ("All phase functions at random directions and asymmetries; homogeneous, exponential and gridded regions of random extent under affine "
        "placements, points in and outside, rays from everywhere with clipped ranges; aggregates of 1-3 overlapping regions. Non-trivial: "
        "the point or the ray is inside a region.")
ASSUMPTIONS = ["asymmetry below 0.9 in magnitude", "points and rays within rounding of a region's border are not judged", "subsurface_from_diffuse is an unimplemented stub and left out"]
g = st.one_of(sym(.85), pick(0., .5, -.5))
c3 = st.one_of(st.tuples(unit, unit, unit).map(list), pick([0., 0., 0.], [1., 1., 1.]))
size = st.one_of(unif(.3, 4.), pick(1., 2.))
reg = d(kind=pick("homog", "exp", "grid", "grid"), lo=vec3(2.), size=st.tuples(size, size, size).map(list), t=chain(2, m=2.), sa=c3, ss=c3, le=c3, g=g, a=unif(.1, 2.),
        b=unif(0., 2.), up=st.tuples(direction, pick(1., 1., .5, .1, 3.)).map(lambda t: [c * t[1] for c in t[0]]), n=st.tuples(pickint(1, 4), pickint(1, 4), pickint(1, 4)).map(list), d=listn(unit, 5, 13))
near = reg.flatmap(lambda r: st.just(dict(r, lo=[c * .4 - r["size"][i] / 2 for i, c in enumerate(r["lo"])], t=r["t"][:1] if r["t"] and r["t"][0][0] == "R" else [])))
p3 = st.one_of(st.tuples(unif(-.2, 1.2), unif(-.2, 1.2), unif(-.2, 1.2)), st.tuples(unit, unit, unit), st.tuples(unit, unit, unit)).map(list)
rng = st.tuples(st.one_of(st.just(0.), unif(0., 4.)), st.one_of(st.none(), unif(4., 12.))).map(list)
rays = dict(o=st.tuples(sym(6.), sym(6.), sym(6.)).map(list), len=st.one_of(st.just(1.), unif(.3, 3.)), rng=rng, step=unif(.1, 1.5), u=unif(.01, .99), k=unif(.3, 3.))
CHECKS = [
    Check("phase", d(kind=pick("isotropic", "rayleigh", "hazy", "murky", "hg", "hg", "schlick"), w=direction, v=direction, g=g), 960),
    Check("coefficients", d(r=reg, p=p3, w=direction, v=direction, time=sym(2.)), 1600),
    Check("bounds", d(r=reg, p=p3, **rays), 1200),
    Check("thickness", d(r=reg, p=p3, time=sym(2.), **rays), 1200),
    Check("aggregate", d(rs=listn(st.one_of(reg, near), 1, 3), p=p3, w=direction, v=direction, time=sym(2.), **dict(rays, k=pickint(0, 2))), 640),
    Check("bssrdf", d(sa=c3, ss=c3, eta=unif(1., 2.), k=pickint(0, 100)), 160),
]
