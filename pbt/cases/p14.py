"""P14 film: weighted reconstruction, crop windows, extents, splats."""
import math, os, tempfile, shutil, threading, sys
from cases.base import *
from cases.threads import together, moments
import numpy as np
from pytracer import Spectrum
from pytracer.film import ImageFilm
from pytracer.sampler import CameraSample
import pytracer.utility.imageio as iio
from cases.p13 import make as make_filter, one
import cases.p13 as p13
import cases.p18 as p18

N = 16
Y2R = [[3.240479, -1.537150, -.498535], [-.969256, 1.875991, .041556], [.055648, -.204043, 1.057311]]
R2X = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]]


def mat3(m, v):
    return [sum(m[i][j] * v[j] for j in range(3)) for i in range(3)]


def crop_of(a):
    return list(a["crop"]) if a["crop"] else [0., 1., 0., 1.]


def window(a):
    c, xr, yr = crop_of(a), a["xr"], a["yr"]
    x0, y0 = int(math.ceil(xr * c[0])), int(math.ceil(yr * c[2]))
    return x0, max(1, int(math.ceil(xr * c[1])) - x0), y0, max(1, int(math.ceil(yr * c[3])) - y0)


def film(a, fn="x.png", crop=None):
    return ImageFilm(a["xr"], a["yr"], make_filter(a["filt"]), crop or crop_of(a), fn)


def feed(f, a, samples):
    for s in samples:
        f.add_sample(CameraSample(s["x"] * a["xr"], s["y"] * a["yr"], 0., 0., 0.), Spectrum(np.array(s["L"])))


def develop(f, splat_scale=1.):
    """the float image the film hands to the writer; falls back to the 8-bit image"""
    got = []
    old = iio.write_image

    def fake(filename, rgb, alpha, *rest):
        got.append((filename, np.array(rgb, dtype=float), alpha, [int(x) for x in rest]))
        return rgb
    iio.write_image = fake
    try:
        f.write_image(splat_scale)
    finally:
        iio.write_image = old
    require(len(got) == 1, "image written %d times", len(got))
    return got[0]


def weight(a, dx, dy):
    """tabulated filter value; None when the table cell is ambiguous"""
    fl_ = a["filt"]
    w = 1.
    for v, h in ((dx, fl_["xw"]), (dy, fl_["yw"])):
        v = abs(v) * N / h
        if abs(v - round(v)) < 1e-7 and abs(v - N) > 1e-7 and fl_["kind"] != "box" and v > 1e-7 and not exact(v * 1024):
            raise Reject()
        i = min(N - 1, int(math.floor(v)))
        w *= one(fl_, (i + .5) / N * h, h)
    return w


def exact(x):
    return x == round(x)


def covers(a, p, c, h):
    """is pixel p inside the filter extent of a sample at continuous coordinate c"""
    t = abs(p - (c - .5)) - h
    if abs(t) < 1e-7 and not (exact(c * 1024) and exact(h * 1024)):
        raise Reject()
    return t <= 0


def image(a, samples, full=False):
    x0, nx, y0, ny = (0, a["xr"], 0, a["yr"]) if full else window(a)
    out = []
    for y in range(y0, y0 + ny):
        row = []
        for x in range(x0, x0 + nx):
            acc, ws = [0.] * 3, 0.
            for s in samples:
                cx, cy = s["x"] * a["xr"], s["y"] * a["yr"]
                if covers(a, x, cx, a["filt"]["xw"]) and covers(a, y, cy, a["filt"]["yw"]):
                    w = weight(a, x - (cx - .5), y - (cy - .5))
                    acc = [p + w * q for p, q in zip(acc, s["L"])]
                    ws += w
            row.append((acc, ws))
        out.append(row)
    return x0, nx, y0, ny, out


def compare(got, exp, splats, scale, what):
    x0, nx, y0, ny, px = exp
    require(np.shape(got) == (ny, nx, 3), "%s: shape %r, expected %r", what, np.shape(got), (ny, nx, 3))
    for j in range(ny):
        for i in range(nx):
            acc, ws = px[j][i]
            if ws != 0. and abs(ws) < 1e-4:
                continue
            e = [max(0., c / ws) for c in acc] if ws != 0. else acc
            sp = [0.] * 3
            for s in splats:
                if s[0] == x0 + i and s[1] == y0 + j:
                    sp = vadd(sp, s[2])
            e = vadd(e, vmul(sp, scale))
            m = max([abs(c) for c in acc] + [1e-3]) / max(abs(ws), 1e-4) + max(abs(c) for c in sp) * scale
            req_vclose(got[j][i], e, "%s: pixel (%d, %d)" % (what, x0 + i, y0 + j), 1e-4, 1e-5 * (1 + m))


def reconstruct(a):
    """every pixel is the filter-weighted mean of the samples in reach, plus its splats"""
    f = film(a)
    exp = image(a, a["samples"])
    feed(f, a, a["samples"])
    spl = []
    for s in a["splats"]:
        L = Spectrum(np.array(s["L"]))
        f.splat(CameraSample(s["x"] * a["xr"], s["y"] * a["yr"]), L)
        require(fl(L) == s["L"], "splat altered the spectrum")
        spl.append((math.floor(s["x"] * a["xr"]), math.floor(s["y"] * a["yr"]), s["L"]))
    fn, rgb, alpha, rest = develop(f, a["scale"])
    x0, nx, y0, ny, _ = exp
    require(fn == "x.png" and alpha is None and rest == [nx, ny, a["xr"], a["yr"], x0, y0], "image written as %r, window %r", rest, [nx, ny, a["xr"], a["yr"], x0, y0])
    require([int(v) for v in f.get_pixel_extent()] == [x0, x0 + nx, y0, y0 + ny], "pixel extent %r, expected %r", f.get_pixel_extent(), [x0, x0 + nx, y0, y0 + ny])
    compare(rgb, exp, spl, a["scale"], "image")
    again = develop(f, a["scale"])[1]
    require(np.array_equal(rgb, again), "developing twice gives different images")
    label(a["filt"]["kind"])
    label("crop" if a["crop"] else "full")
    nontriv(sum(1 for r in exp[4] for c in r if c[1] != 0) > 1 and len(a["samples"]) > 1)


def order(a):
    """the image does not depend on the order of samples, nor on splitting them over threads"""
    exp = image(a, a["samples"])
    f = film(a)
    n = len(a["samples"])
    perm = sorted(range(n), key=lambda i: (a["perm"][i % len(a["perm"])], i))
    if a["threads"]:
        sw = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            th = [threading.Thread(target=feed, args=(f, a, [a["samples"][i] for i in perm[k::2]] * 3)) for k in range(2)]
            [t.start() for t in th]
            [t.join() for t in th]
        finally:
            sys.setswitchinterval(sw)
    else:
        feed(f, a, [a["samples"][i] for i in perm])
    compare(develop(f)[1], exp, [], 1., "reordered image")
    nontriv(perm != list(range(n)))


def meanwhile(a):
    """two threads adding samples and splats to one film, the first interrupted anywhere by the second: nothing is lost"""
    if a["filt"]["xw"] <= .5 and a["filt"]["yw"] <= .5:
        raise Reject("samples reach a single pixel, which one thread owns")
    n = len(a["samples"])
    c = a["cut"] % (n + 1)
    sides = [a["samples"][:c], a["samples"][c:]]
    spl = [a["splats"][::2], a["splats"][1::2]]
    exp = image(a, a["samples"])

    def side(f, i):
        def go():
            feed(f, a, sides[i])
            for s in spl[i]:
                f.splat(CameraSample(s["x"] * a["xr"], s["y"] * a["yr"]), Spectrum(np.array(s["L"])))
        return go
    g, any_ = LCG(a["seed"]), False
    ks = moments(side(film(a), 0), g, 16, a["files"])
    ms = moments(side(film(a), 1), g, 16, a["files"]) if a["twice"] and (sides[1] or spl[1]) else [-1] * 16
    for k, m in zip(ks, ms):
        f = film(a)
        any_ |= together(side(f, 0), side(f, 1), k, m, "samples of two threads")[2]
        compare(develop(f, a["scale"])[1], exp, [(math.floor(s["x"] * a["xr"]), math.floor(s["y"] * a["yr"]), s["L"]) for s in a["splats"]], a["scale"], "image of two threads")
    nontriv(any_ and bool(sides[1] or spl[1]))
    label("two interruptions" if a["twice"] else "one interruption")


def many(a):
    """hundreds of samples per pixel are weighed like a few"""
    f, g = film(a), LCG(a["seed"])
    smp = [{"x": g.u() * 1.2 - .1, "y": g.u() * 1.2 - .1, "L": [g.u() * a["amp"], g.u(), g.u()]} for _ in range(a["cnt"])]
    exp = image(a, smp)
    feed(f, a, smp)
    spl = []
    for s in smp[:a["cnt"] // 2]:
        f.splat(CameraSample(s["x"] * a["xr"], s["y"] * a["yr"]), Spectrum(np.array(s["L"])))
        spl.append((math.floor(s["x"] * a["xr"]), math.floor(s["y"] * a["yr"]), s["L"]))
    compare(develop(f, a["scale"])[1], exp, spl, a["scale"], "image of %d samples" % a["cnt"])
    nontriv(a["cnt"] > 40)
    label(a["filt"]["kind"])


def crop(a):
    """a cropped film shows the same pixels as the full film"""
    f, g = film(a), film(a, crop=[0., 1., 0., 1.])
    x0, nx, y0, ny = window(a)
    if x0 + nx > a["xr"] or y0 + ny > a["yr"]:
        raise Reject()
    feed(f, a, a["samples"])
    feed(g, a, a["samples"])
    r, R = develop(f)[1], develop(g)[1]
    require(np.shape(r) == (ny, nx, 3), "shape %r", np.shape(r))
    require(np.array_equal(r, R[y0:y0 + ny, x0:x0 + nx]), "crop window %r differs from the full image", [x0, nx, y0, ny])
    nontriv(nx * ny < a["xr"] * a["yr"] and bool((np.abs(r) > 0).any()))


def extent(a):
    """samples outside the sample extent never change the image; the extent contains the pixels"""
    f = film(a)
    e = [int(v) for v in f.get_sample_extent()]
    p = [int(v) for v in f.get_pixel_extent()]
    require(e[0] <= p[0] and p[1] <= e[1] and e[2] <= p[2] and p[3] <= e[3], "sample extent %r does not contain the pixels %r", e, p)
    h = (a["filt"]["xw"], a["filt"]["yw"])
    require(p[0] + .5 - h[0] - e[0] < 1 and e[1] - (p[1] + .5 + h[0]) <= 0 and p[2] + .5 - h[1] - e[2] < 1 and e[3] - (p[3] + .5 + h[1]) <= 0,
            "sample extent %r is wider than the filter reaches from %r", e, p)
    u, v = a["out"]
    side = a["side"]
    x = [e[0] - u - 1e-3, e[1] + u, e[0] + u * (e[1] - e[0]), e[0] + u * (e[1] - e[0])][side]
    y = [e[2] + v * (e[3] - e[2]), e[2] + v * (e[3] - e[2]), e[2] - v - 1e-3, e[3] + v][side]
    f.add_sample(CameraSample(x, y), Spectrum(np.array([1., 2., 3.])))
    require(float(np.abs(develop(f)[1]).max()) == 0., "a sample at (%r, %r), outside the extent %r, changed the image", x, y, e)
    nontriv()


def kinds(a):
    """a sampled spectrum counts for the colour it stands for, in samples as in splats"""
    from pytracer.spectral.spectrum import SampledSpectrum, N_SPECTRAL_SAMPLES
    p18.init()
    f, g = film(a), film(a)
    for i, s in enumerate(a["samples"]):
        S = SampledSpectrum([s["S"][k % len(s["S"])] for k in range(N_SPECTRAL_SAMPLES)])
        keep = fl(S)
        cs = CameraSample(s["x"] * a["xr"], s["y"] * a["yr"])
        rgb = mat3(Y2R, fl(S.to_xyz()))
        if i % 3 == 2:
            f.splat(cs, S)
            g.splat(cs, Spectrum(np.array(rgb)))
        else:
            f.add_sample(cs, S)
            g.add_sample(cs, Spectrum(np.array(rgb)))
        require(fl(S) == keep, "the film altered the spectrum")
    r, R = develop(f)[1], develop(g)[1]
    x0, nx, y0, ny, px = image(a, [dict(s, L=[1., 1., 1.]) for i, s in enumerate(a["samples"]) if i % 3 != 2])
    for j in range(ny):
        for i in range(nx):
            if px[j][i][1] != 0. and abs(px[j][i][1]) < 1e-3:
                continue
            m = max(abs(v) for v in fl(R[j][i]))
            req_vclose(r[j][i], fl(R[j][i]), "pixel (%d, %d) of a film fed sampled spectra" % (x0 + i, y0 + j), 1e-4, 1e-4 * (1. + m))
    nontriv(bool((np.abs(R) > 0).any()) and len(a["samples"]) > 1)


def written(a):
    """the written file is the developed image, each channel scaled to its largest value; crops update the file in place"""
    d = tempfile.mkdtemp(prefix="p14")
    try:
        import PIL.Image
        fn = os.path.join(d, "o.png")
        full = film(a, fn, [0., 1., 0., 1.])
        feed(full, a, a["samples"])
        R = develop(full)[1]
        ret = full.write_image()
        e = quant(R)
        disk = np.array(PIL.Image.open(fn)).astype(int)
        require(np.shape(disk) == (a["yr"], a["xr"], 3), "file has shape %r", np.shape(disk))
        require(np.array_equal(np.asarray(ret).astype(int), disk), "returned image differs from the file")
        require(int(np.abs(disk - e).max()) <= 1, "file differs from the image by %r", int(np.abs(disk - e).max()))
        x0, nx, y0, ny = window(a)
        if nx * ny < a["xr"] * a["yr"] and x0 + nx <= a["xr"] and y0 + ny <= a["yr"]:
            f = film(a, fn)
            feed(f, a, a["samples"][::-1][:3])
            e2 = disk.copy()
            e2[y0:y0 + ny, x0:x0 + nx] = quant(develop(f)[1])
            ret = f.write_image()
            disk2 = np.array(PIL.Image.open(fn)).astype(int)
            require(np.shape(disk2) == np.shape(e2) and int(np.abs(disk2 - e2).max()) <= 1, "updating the crop window %r", [x0, nx, y0, ny])
            require(np.array_equal(np.asarray(ret).astype(int), disk2), "returned image differs from the file")
            label("crop")
        nontriv(float(R.max()) > 0)
    finally:
        shutil.rmtree(d)


def quant(R):
    out = np.zeros(np.shape(R), dtype=int)
    for c in range(3):
        m = float(R[:, :, c].max())
        if m > 0:
            out[:, :, c] = np.floor(255. * R[:, :, c] / m)
    return out
