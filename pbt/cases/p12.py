"""P12 cameras against closed-form projections."""
import math
from cases.base import *
from cases.p03 import build
import numpy as np
import pytracer.geometry as geo
from pytracer.transform import Transform, AnimatedTransform
from pytracer.camera import PerspectiveCamera, OrthoCamera, EnvironmentCamera, PinholeCamera, Camera
from pytracer.sampler import CameraSample, Sample


class Film(object):
    def __init__(self, xr, yr):
        self.xResolution, self.yResolution = xr, yr


def lens(u, v):
    """Shirley-Chiu concentric map (independent formulation)."""
    a, b = 2 * u - 1, 2 * v - 1
    if a == 0 and b == 0:
        return [0., 0.]
    if abs(a) > abs(b):
        r, t = a, math.pi / 4 * b / a
    else:
        r, t = b, math.pi / 2 - math.pi / 4 * a / b
    return [r * math.cos(t), r * math.sin(t)]


def window(a):
    if a["win"] is None:
        asp = a["xr"] / float(a["yr"])
        return [-asp, asp, -1., 1.] if asp > 1 else [-1., 1., -1. / asp, 1. / asp]
    x, y, w, h = a["win"]
    return [x, x + w, y, y + h]


def motion(a):
    k0, k1, t0, dt = a["c2w"]
    A = build(k0)
    if k1 is None:
        return AnimatedTransform(A, t0, A, t0 + dt)
    return AnimatedTransform(A, t0, A * build(k1), t0 + dt)


def make(a, film=None):
    kind, f, w = a["kind"], film or Film(a["xr"], a["yr"]), window(a)
    m = motion(a)
    so, sc = a["shutter"]
    if kind == "persp":
        return PerspectiveCamera(m, w, so, sc, a["lensr"], a["focal"], a["fov"], f), m
    if kind == "ortho":
        return OrthoCamera(m, w, so, sc, a["lensr"], a["focal"], f), m
    if kind == "env":
        return EnvironmentCamera(m, so, sc, f), m
    return PinholeCamera(m, a["focal"], f), m


def expected(a, ix, iy):
    """camera-space origin and unit direction"""
    kind = a["kind"]
    if kind == "env":
        th, ph = math.pi * iy / a["yr"], 2 * math.pi * ix / a["xr"]
        return [0., 0., 0.], [math.sin(th) * math.cos(ph), math.cos(th), math.sin(th) * math.sin(ph)]
    if kind == "pinhole":
        return [ix, iy, 0.], vnorm([-ix, -iy, a["focal"]])
    w = window(a)
    sx = w[0] + ix / float(a["xr"]) * (w[1] - w[0])
    sy = w[3] + iy / float(a["yr"]) * (w[2] - w[3])
    if kind == "persp":
        t = math.tan(math.radians(a["fov"]) / 2)
        o, d = [0., 0., 0.], [sx * t, sy * t, 1.]
        foc = [a["focal"] * sx * t, a["focal"] * sy * t, a["focal"]]
    else:
        o, d = [sx, sy, 0.], [0., 0., 1.]
        foc = [sx, sy, a["focal"]]
    if a["lensr"] > 0:
        l = lens(a["lens"][0], a["lens"][1])
        o = [l[0] * a["lensr"], l[1] * a["lensr"], 0.]
        d = vsub(foc, o)
    return o, vnorm(d)


def sample(a, dx=0., dy=0., full=False):
    x, y = a["frac"][0] * a["xr"], a["frac"][1] * a["yr"]
    if full:
        s = Sample(imageX=x + dx, imageY=y + dy, lens_u=a["lens"][0], lens_v=a["lens"][1], time=a["time"])
        s.add_1d(3)
        s.oneD = [np.array([.1, .2, .3])]
        return s
    return CameraSample(x + dx, y + dy, a["lens"][0], a["lens"][1], a["time"])


def state(s):
    return [float(getattr(s, k)) for k in ("imageX", "imageY", "lens_u", "lens_v", "time")]


def check(ro, rd, a, m, ix, iy, what):
    o, d = expected(a, ix, iy)
    M = [[float(c) for c in r] for r in np.asarray(m.interpolate(a["time"]).m)]
    sc = 1. + max(abs(c) for r in M for c in r) + a["focal"] * 1e-3
    req_vclose(ro, mapply_point(M, o), what + " origin", 1e-7, 1e-8 * sc)
    req_vclose(rd, mapply_vec(M, d), what + " direction", 1e-6, 1e-8)


def ray(a):
    cam, m = make(a)
    s = sample(a)
    before = state(s)
    w, r = cam.generate_ray(s)
    require(state(s) == before, "generate_ray altered the sample")
    require(float(w) == 1., "weight %r", w)
    require(type(r.o) is geo.Point and type(r.d) is geo.Vector, "types %s %s", type(r.o), type(r.d))
    check(r.o, r.d, a, m, s.imageX, s.imageY, "ray")
    req_close(vlen(r.d), 1., "direction length", 1e-9, 1e-9)
    require(float(r.mint) == 0. and float(r.maxt) == float("inf") and r.depth == 0, "range %r %r depth %r", r.mint, r.maxt, r.depth)
    require(float(r.time) == a["time"], "time %r, expected %r", r.time, a["time"])
    label(a["kind"] + ("+lens" if a["lensr"] > 0 else ""))
    nontriv(a["kind"] == "env" or a["lensr"] > 0 or a["c2w"][1] is not None)


def differential(a):
    cam, m = make(a)
    s = sample(a, full=a["full"])
    before = state(s)
    w, r = cam.generate_ray_differential(s)
    require(state(s) == before, "generate_ray_differential altered the sample")
    require(float(w) == 1., "weight %r", w)
    require(isinstance(r, geo.RayDifferential) and bool(r.has_differentials), "no differentials")
    w0, r0 = cam.generate_ray(sample(a))
    req_vclose(r.o, r0.o, "main origin", 1e-9, 1e-9)
    req_vclose(r.d, r0.d, "main direction", 1e-8, 1e-9)
    require(float(r.time) == float(r0.time) and float(r.mint) == 0. and float(r.maxt) == float("inf") and r.depth == 0, "ray fields %r", r)
    X, Y = s.imageX, s.imageY
    check(r.rxOrigin, r.rxDirection, a, m, X + 1, Y, "x-shifted ray")
    check(r.ryOrigin, r.ryDirection, a, m, X, Y + 1, "y-shifted ray")
    label(a["kind"] + ("+lens" if a["lensr"] > 0 else ""))
    nontriv(a["kind"] == "env" or a["lensr"] > 0 or a["c2w"][1] is not None)


def focus(a):
    """every lens sample of one image point meets the same point of the focal plane, and fills the lens disk"""
    cam, m = make(a)
    M = [[float(c) for c in r] for r in np.asarray(m.interpolate(a["time"]).m)]
    I = minv(M)
    pts = []
    for u, v in a["us"]:
        s = sample(a)
        s.lens_u, s.lens_v = u, v
        _, r = cam.generate_ray(s)
        o, d = mapply_point(I, fl(r.o)), mapply_vec(I, fl(r.d))
        require(abs(o[2]) < 1e-7 and math.hypot(o[0], o[1]) <= a["lensr"] * (1 + 1e-7) + 1e-9, "lens point %r outside the lens", o)
        e = lens(u, v)
        req_vclose(o[:2], vmul(e, a["lensr"]), "lens point", 1e-7, 1e-8)
        t = (a["focal"] - o[2]) / d[2]
        pts.append(vadd(o, vmul(d, t)))
    for p in pts[1:]:
        req_vclose(p, pts[0], "focused point", 1e-6, 1e-7 * (1 + a["focal"]))
    nontriv(len(pts) > 1)
