"""P15 samplers: stratification, pixel coverage, tiling."""
import math
from cases.base import *
import numpy as np
from pytracer.sampler import *
from pytracer.sampler.utility import *


def rng_of(a):
    rs = np.random.RandomState(a["seed"])
    np.random.seed(a["seed"] ^ 0x5a5a)
    if a["rng"] == "const":
        return lambda n: np.full(n, a["c"])
    return rs.rand


def strata(vals, n, what):
    """exactly one value per stratum"""
    cells = sorted(int(math.floor(float(v) * n)) for v in vals)
    require(len(vals) == n, "%s: %d values, expected %d", what, len(vals), n)
    require(all(0. <= float(v) < 1. for v in vals), "%s: value outside [0, 1): %r", what, fl(vals))
    # a stratum border met by rounding is tolerated
    if cells != list(range(n)):
        s = sorted(float(v) * n for v in vals)
        require(all(i - 1e-9 <= v <= i + 1 + 1e-9 for i, v in enumerate(s)), "%s: strata %r of %r", what, cells, fl(vals))


def grid2(pts, nx, ny, jitter, what):
    require(len(pts) == nx * ny, "%s: %d points, expected %d", what, len(pts), nx * ny)
    seen = {}
    for x, y in pts:
        x, y = float(x), float(y)
        require(-1e-12 <= x < 1 + 1e-12 and -1e-12 <= y < 1 + 1e-12, "%s: (%r, %r) outside the unit square", what, x, y)
        u, v = x * nx, y * ny
        i, j = int(math.floor(u + 1e-9)), int(math.floor(v + 1e-9))
        if not jitter:
            require(abs(u - i - .5) < 1e-6 and abs(v - j - .5) < 1e-6, "%s: (%r, %r) is not a cell centre", what, x, y)
        seen[(min(i, nx - 1), min(j, ny - 1))] = seen.get((min(i, nx - 1), min(j, ny - 1)), 0) + 1
    require(len(seen) == nx * ny, "%s: %d of %d cells occupied", what, len(seen), nx * ny)


class Surf(object):
    def __init__(self, n1, n2):
        self.n1, self.n2 = n1, n2

    def request_samples(self, sampler, sample, scene):
        self.idx = [sample.add_1d(n) for n in self.n1], [sample.add_2d(n) for n in self.n2]
        self.scene = scene, sampler


def run(a):
    """every pixel of the range once, row by row, each with stratified image, lens, time and integrator samples"""
    x0, y0, w, h = a["win"]
    nx, ny = a["n"]
    so, sc = a["shutter"]
    s = StratifiedSampler(x0, x0 + w, y0, y0 + h, nx, ny, a["jitter"], so, sc)
    nx, ny = max(1, nx), max(1, ny)
    spp = nx * ny
    require(s.maximum_sample_cnt() == spp and s.spp == spp, "samples per pixel %r, expected %d", s.maximum_sample_cnt(), spp)
    require(s.round_size(a["seed"] % 97) == a["seed"] % 97, "round_size")
    surf, vol = Surf(a["n1"], a["n2"]), Surf(a["m1"], [])
    proto = Sample(s, surf, vol, "scene")
    require(surf.scene == ("scene", s) and vol.scene == ("scene", s), "request_samples arguments")
    n1, n2 = a["n1"] + a["m1"], a["n2"]
    require(list(proto.n1D) == n1 and list(proto.n2D) == n2, "requests %r %r", proto.n1D, proto.n2D)
    require(surf.idx == (list(range(len(a["n1"]))), list(range(len(n2)))) and vol.idx[0] == list(range(len(a["n1"]), len(n1))), "request indices")
    samples = proto.duplicate(spp)
    require(len(samples) == spp and len(set(map(id, samples))) == spp and len(set(id(q.oneD) for q in samples)) == spp, "duplicates share storage")
    if a["seed"] % 2:   # what is requested later concerns neither them
        proto.add_1d(3)
        proto.add_2d(2)
        require(all(list(q.n1D) == n1 and list(q.n2D) == n2 for q in samples), "a request reached the duplicates made before")
    rng = rng_of(a)
    mixed = [False, False]
    seen = set()
    for py in range(y0, y0 + h):
        for px in range(x0, x0 + w):
            require(bool(s.generate(samples, rng)), "sampler stopped before pixel (%d, %d)", px, py)
            grid2([(q.imageX - px, q.imageY - py) for q in samples], nx, ny, a["jitter"], "pixel (%d, %d)" % (px, py))
            grid2([(q.lens_u, q.lens_v) for q in samples], nx, ny, a["jitter"], "lens")
            ts = [float(q.time) for q in samples]
            require(all(so - 1e-12 <= t <= sc + 1e-12 for t in ts), "times %r outside the shutter interval", ts)
            if sc > so:
                u = sorted((t - so) / (sc - so) * spp for t in ts)
                require(all(i - 1e-6 <= v <= i + 1 + 1e-6 for i, v in enumerate(u)), "times %r are not stratified", ts)
                require(a["jitter"] or all(abs(v - i - .5) < 1e-6 for i, v in enumerate(u)), "times %r are not centred", ts)
            order = [(int((q.imageX - px) * nx), int((q.imageY - py) * ny)) for q in samples]
            lorder = [(int(q.lens_u * nx), int(q.lens_v * ny)) for q in samples]
            mixed[0] |= order != lorder
            mixed[1] |= ts != sorted(ts) or sc == so
            for q in samples:
                require(len(q.oneD) == len(n1) and len(q.twoD) == len(n2), "arrays")
                for k, n in enumerate(n1):
                    strata(q.oneD[k], n, "1d pattern")
                for k, n in enumerate(n2):
                    require(np.shape(q.twoD[k]) == (n, 2), "2d pattern of shape %r", np.shape(q.twoD[k]))
                    strata(q.twoD[k][:, 0], n, "2d pattern, x")
                    strata(q.twoD[k][:, 1], n, "2d pattern, y")
            if a["rng"] == "rand":   # drawn anew for every sample of every pixel
                for k in range(len(n1) + len(n2)):
                    for q in samples:
                        v = q.oneD[k] if k < len(n1) else q.twoD[k - len(n1)]
                        v = (k,) + tuple(fl(np.ravel(v)))
                        require(v not in seen, "pattern %d of a sample repeats: %r", k, v)
                        seen.add(v)
    if spp >= 9:
        require(all(mixed), "image, lens and time strata are in the same order")
    last = [(q.imageX, q.imageY, q.time) for q in samples]
    for _ in range(3):
        require(not s.generate(samples, rng), "samples generated past the last pixel")
        require(last == [(q.imageX, q.imageY, q.time) for q in samples], "samples altered past the last pixel")
    nontriv(spp > 1 and w * h > 1)


def empty(a):
    """a window without pixels is done before it begins, a small one after its last pixel"""
    x0, y0, w, h = a["win"]
    s = StratifiedSampler(x0, x0 + w, y0, y0 + h, a["n"][0], a["n"][1], a["jitter"], *a["shutter"])
    buf, rng = Sample().duplicate(s.spp), rng_of(a)
    want = max(0, w) * max(0, h)
    n = 0
    while s.generate(buf, rng):
        n += 1
        require(n <= want, "window %r: more than %d pixels", a["win"], want)
    require(n == want, "window %r: %d of %d pixels", a["win"], n, want)
    for _ in range(3):
        require(not s.generate(buf, rng), "the sampler goes on after its end")
    nontriv(want == 0)


def tiles(a):
    """sub-windows tile the pixel range exactly; subsamplers visit every pixel once with the parent's settings"""
    x0, y0, w, h = a["win"]
    s = StratifiedSampler(x0, x0 + w, y0, y0 + h, a["n"][0], a["n"][1], a["jitter"], *a["shutter"])
    cnt = a["cnt"]
    count = {}
    rng = rng_of(a)
    for k in range(cnt):
        win = [float(v) for v in s.compute_subwindow(k, cnt)]
        require(all(v == round(v) for v in win), "sub-window %d of %d: %r", k, cnt, win)
        xs, xe, ys, ye = [int(v) for v in win]
        require(x0 <= xs <= xe <= x0 + w and y0 <= ys <= ye <= y0 + h, "sub-window %r outside %r", win, a["win"])
        sub = s.get_subsampler(k, cnt)
        if (xe - xs) * (ye - ys) == 0:
            require(sub is None, "subsampler for an empty window")
            label("empty tile")
            continue
        require(sub is not None and sub is not s, "no subsampler for %r", win)
        require((sub.spp, sub.jitter, sub.s_open, sub.s_close) == (s.spp, s.jitter, s.s_open, s.s_close), "subsampler settings")
        buf = Sample().duplicate(s.spp)
        n = 0
        while sub.generate(buf, rng):
            n += 1
            require(n <= (xe - xs) * (ye - ys), "subsampler does not stop")
            p = set((int(math.floor(q.imageX)), int(math.floor(q.imageY))) for q in buf)
            require(len(p) == 1, "samples of several pixels: %r", p)
            p = p.pop()
            mx, my = max(1, a["n"][0]), max(1, a["n"][1])
            grid2([(q.imageX - p[0], q.imageY - p[1]) for q in buf], mx, my, a["jitter"], "tile, pixel %r" % (p,))
            grid2([(q.lens_u, q.lens_v) for q in buf], mx, my, a["jitter"], "tile, lens")
            so, sc = a["shutter"]
            if sc > so:
                us = sorted((float(q.time) - so) / (sc - so) * s.spp for q in buf)
                require(all(i - 1e-6 <= v <= i + 1 + 1e-6 for i, v in enumerate(us)), "tile: times are not stratified")
            require(xs <= p[0] < xe and ys <= p[1] < ye, "pixel %r outside the tile", p)
            count[p] = count.get(p, 0) + 1
    want = set((x, y) for x in range(x0, x0 + w) for y in range(y0, y0 + h))
    require(set(count) == want and all(v == 1 for v in count.values()), "%d tiles of %r: pixels missed %r, repeated %r", cnt, a["win"],
            sorted(want - set(count))[:4], sorted(p for p, v in count.items() if v > 1)[:4])
    # the parent is untouched
    require(s.xPos == x0 and s.yPos == y0, "tiling advanced the parent")
    nontriv(cnt > 1 and w * h > 1)


def patterns(a):
    n, (nx, ny) = a["cnt"], (max(1, a["n"][0]), max(1, a["n"][1]))
    rng = rng_of(a)
    v = stratified_sample_1d(n, a["jitter"], rng)
    strata(v, n, "stratified_sample_1d")
    require(all(float(p) < float(q) for p, q in zip(v, v[1:])), "strata out of order")
    require(a["jitter"] or vclose(v, [(i + .5) / n for i in range(n)], 1e-12, 1e-12), "not centred")
    p = stratified_sample_2d(nx, ny, a["jitter"], rng)
    require(np.shape(p) == (nx * ny, 2), "shape %r", np.shape(p))
    grid2([(q[0], q[1]) for q in p], nx, ny, a["jitter"], "stratified_sample_2d")
    strata(latin_hypercube_1d(n, rng), n, "latin_hypercube_1d")
    q = latin_hypercube_2d(n, rng)
    require(np.shape(q) == (n, 2), "shape %r", np.shape(q))
    strata(q[:, 0], n, "latin_hypercube_2d x")
    strata(q[:, 1], n, "latin_hypercube_2d y")
    if n >= 12:
        require(any(int(x * n) != int(y * n) for x, y in zip(q[:, 0], q[:, 1])), "latin hypercube is a diagonal")
        pair = lambda t: [int(y * n) for x, y in sorted((float(x), float(y)) for x, y in t)]
        require(pair(q) != pair(latin_hypercube_2d(n, rng)), "two latin hypercubes pair their strata alike")
        require([int(x * n) for x in latin_hypercube_1d(n, rng)] != [int(x * n) for x in latin_hypercube_1d(n, rng)], "two 1d patterns visit their strata in the same order")
    # default generators
    strata(latin_hypercube_1d(n), n, "default rng")
    strata(stratified_sample_1d(n), n, "default rng")
    nontriv(n > 1)
