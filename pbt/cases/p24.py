"""P24 MIP maps and image textures."""
import math
import os
import shutil
import tempfile
from cases.base import *
from cases.mip import *
from cases import p18, texture as tex
import numpy as np
import PIL.Image
import pytracer.geometry as geo
from pytracer import Spectrum, FLOAT
from pytracer.spectral.spectrum import RGBSpectrum
from pytracer.texture.utility import MIPMap, ImageWrap
from pytracer.texture.texture import ImageTexture


def image(a):
    """(typename, array for the library, image for the model)"""
    w, h, v = a["w"], a["h"], a["vals"]
    g = lambda i: v[i % len(v)] + (i % 7) * a["slope"]
    k = a["type"]
    if k in ("float", "FLOAT"):
        m = [[g(t * w + s) for s in range(w)] for t in range(h)]
        return (float if k == "float" else FLOAT), np.array(m), m
    m = [[[g(t * w + s), g(t * w + s + 1), g(2 * (t * w + s))] for s in range(w)] for t in range(h)]
    if k == "rgb3":
        return RGBSpectrum, np.array(m), m
    o = np.empty([h, w], dtype=object)
    for t in range(h):
        for s in range(w):
            o[t, s] = RGBSpectrum(np.array(m[t][s]))
    return RGBSpectrum, o, m


def same(got, e, what, tn, tol=1e-8):
    if isinstance(e, list):
        require(isinstance(got, RGBSpectrum), "%s: %s is no spectrum", what, type(got))
        req_vclose(got, e, what, tol, tol)
    else:
        require(np.ndim(got) == 0, "%s: %r is no number", what, got)
        req_close(got, e, what, tol, tol)


def build(a, trilinear=False, aniso=8.):
    tn, arr, m = image(a)
    mp = MIPMap(tn, arr, trilinear, aniso, ImageWrap[a["wrap"]])
    return tn, mp, Mip(m, a["wrap"], trilinear, aniso, clip=True)


def pyramid(a):
    """every texel of every level, inside and wrapped"""
    tn, mp, m = build(a)
    n = len(m.levels)
    require(mp.levels == n, "%r levels for a %r x %r image, expected %r", mp.levels, a["w"], a["h"], n)
    require((mp.width, mp.height) == m.dims(0), "size %r, expected %r", (mp.width, mp.height), m.dims(0))
    out = a["out"]
    for l in range(n):
        u, v = m.dims(l)
        for s in list(range(u)) + [out[0], -1, u, u + out[0]]:
            for t in list(range(v)) + [out[1], -1, v]:
                same(mp.texel(l, s, t), m.texel(l, s, t), "texel (%d, %d) of level %d of %d x %d" % (s, t, l, u, v), tn)
    if a["wrap"] != "BLACK" and pow2(a["w"]) == a["w"] and pow2(a["h"]) == a["h"]:
        tot = comb([(1. / (a["w"] * a["h"]), x) for r in m.levels[0] for x in r])
        same(mp.texel(n - 1, 0, 0), tot, "coarsest level, the mean of the image", tn)
    # what is handed out is not the map's own storage
    x = mp.texel(0, 0, 0)
    keep = m.texel(0, 0, 0)
    if isinstance(keep, list):
        x *= 3.
        x += 1.
        same(mp.texel(0, 0, 0), keep, "texel after its first copy was altered", tn)
    nontriv(a["w"] * a["h"] > 1)
    label("square" if a["w"] == a["h"] else "not square")
    label("resampled" if (pow2(a["w"]), pow2(a["h"])) != (a["w"], a["h"]) else "power of two")


def lookup(a):
    """filtered lookups: none, isotropic and anisotropic footprints"""
    tn, mp, m = build(a, a["trilinear"], a["aniso"])
    lo = hi = None
    flat = [v for r in m.levels[0] for x in r for v in (x if isinstance(x, list) else [x])]
    lo, hi = min(flat), max(flat)
    for q in a["q"]:
        q = list(q)
        if len(q) == 6 and math.hypot(q[2], q[3]) != math.hypot(q[4], q[5]) and close(math.hypot(q[2], q[3]), math.hypot(q[4], q[5]), 1e-9, 0):
            raise Reject("axes of equal length within rounding")
        e = m.lookup(q)
        keep = list(q)
        got = mp.look_up(q)
        require(q == keep, "query altered")
        same(got, e, "look_up(%r)" % (q,), tn)
        if a["wrap"] != "BLACK":
            g = fl(got) if isinstance(e, list) else [float(got)]
            require(min(g) >= lo - 1e-9 and max(g) <= hi + 1e-9, "look_up(%r) = %r outside the range of the image", q, g)
        if a["wrap"] == "REPEAT":
            r = list(q)
            r[0] += 1
            r[1] -= 2
            try:
                m.lookup(r)
                same(mp.look_up(r), e, "look_up a period away from %r" % (q,), tn, 1e-7)
            except Reject:
                pass
        if len(q) == 6:
            same(mp.look_up(q[:2] + q[4:] + q[2:4]), e, "look_up(%r) with the axes exchanged" % (q,), tn)
            same(mp.look_up(q[:2] + [-x for x in q[2:4]] + q[4:]), e, "look_up(%r) with an axis reversed" % (q,), tn)
            label("anisotropic" if not a["trilinear"] else "trilinear")
        else:
            label("isotropic")
        if isinstance(e, list):
            got *= 2.
            same(mp.look_up(q), e, "look_up(%r) after its first result was altered" % (q,), tn)
        nontriv(hi > lo)


def constant(a):
    """a constant image stays constant under resampling, wrapping (but black) and filtering"""
    b = dict(a)
    b["vals"], b["slope"] = [a["c"]], 0.
    if b["wrap"] == "BLACK":
        b["wrap"] = "CLAMP"
    tn, mp, m = build(b, a["trilinear"], a["aniso"])
    e = [a["c"]] * 3 if isinstance(m.zero, list) else a["c"]
    for l in range(len(m.levels)):
        same(mp.texel(l, 0, 0), e, "level %d of a constant image" % l, tn)
    for q in a["q"]:
        same(mp.look_up(list(q)), e, "look_up(%r) in a constant image" % (q,), tn)
    nontriv(a["c"] != 0)


def kernel(a):
    """resampling weights: four around each new texel, windowed sinc, of unit sum; coarser targets are refused"""
    o, n = a["o"], a["o"] + a["more"]
    w = MIPMap.resample(o, n)
    ref = weights(o, n)
    require(len(w) == n, "%d rows of weights", len(w))
    for i in range(n):
        require(int(w[i][0]) == ref[i][0], "first texel %r of row %d, expected %r", w[i][0], i, ref[i][0])
        req_vclose(w[i][1:5], ref[i][1], "weights of row %d (%d from %d)" % (i, n, o), 1e-9, 1e-9)
    must_raise(RuntimeError, lambda: MIPMap.resample(n + 1, n), "resampling to fewer texels")
    nontriv(n > o)


_dirs = []


def files(a):
    """image textures: own image, types, scaling and filtering, whatever was loaded before"""
    p18.init()
    d = tempfile.mkdtemp(prefix="p24")
    try:
        imgs = []
        for i, f in enumerate(a["files"]):
            w, h = 2 ** f["lw"], 2 ** f["lh"]
            px = [[[(f["px"][(3 * (t * w + s) + c) % len(f["px"])] + 31 * (t * w + s)) % 256 for c in range(3)] for s in range(w)] for t in range(h)]
            arr = np.array(px, dtype=np.uint8)
            if f["alpha"]:
                arr = np.array([[x + [255] for x in r] for r in px], dtype=np.uint8)
            PIL.Image.fromarray(arr, mode="RGBA" if f["alpha"] else "RGB").save(os.path.join(d, "%d.png" % i), "PNG")
            imgs.append(px)
        made = []
        for o in a["ops"]:
            i = o["file"] % (len(imgs) + 1)
            mem, ret = {"rgb": (RGBSpectrum, Spectrum), "FLOAT": (FLOAT, FLOAT), "float": (float, float), "mixed": (FLOAT, float)}[o["type"]]
            mapping = {"uv": tex.b_map}["uv"](["uv", o["uv"]])
            kw = dict(trilinear=o["trilinear"], max_aniso=o["aniso"], wrap=ImageWrap[o["wrap"]], scale=o["scale"], gamma=o["gamma"])
            t = ImageTexture(ret, mem, mapping, os.path.join(d, "%d.png" % i), **kw)
            cv = lambda v: (o["scale"] * v) ** o["gamma"]
            if i < len(imgs):
                m = [[[cv(v) for v in x] for x in r] for r in imgs[i]] if o["type"] == "rgb" else \
                    [[cv(.212671 * x[0] + .715160 * x[1] + .072169 * x[2]) for x in r] for r in imgs[i]]
            else:
                c = cv(1.)
                m = [[[c] * 3]] if o["type"] == "rgb" else [[c]]
                o = dict(o, wrap="REPEAT", trilinear=False, aniso=8.)
            made.append((t, o, m, i))
        for t, o, m, i in made:
            model = Mip(m, o["wrap"], o["trilinear"], o["aniso"])
            for hit in a["hits"]:
                q = tex.m_map(["uv", o["uv"]], hit)
                if math.hypot(q[2], q[3]) != math.hypot(q[4], q[5]) and close(math.hypot(q[2], q[3]), math.hypot(q[4], q[5]), 1e-9, 0):
                    continue
                try:
                    e = model.lookup(q)
                except Reject:
                    continue
                if isinstance(e, list):
                    e = fl(Spectrum.from_rgb(e))
                g = tex.dg(hit)
                got = t(g)
                what = "texture of %s, %r" % ("file %d" % i if i < len(imgs) else "no file", o)
                if isinstance(e, list):
                    require(isinstance(got, Spectrum), "%s: %s is no spectrum", what, type(got))
                    req_vclose(got, e, what, 1e-7, 1e-7)
                else:
                    require(isinstance(got, float), "%s: %s is no number", what, type(got))
                    req_close(got, e, what, 1e-7, 1e-7)
        if len(set((i, o["type"]) for t, o, m, i in made)) > 1:
            nontriv()
            label("several")
        repr(made[0][0].mipmap)
        for k in ImageTexture.textures:
            require(k.filename in repr(k), "a cache key does not print its file: %r", repr(k))
    finally:
        ImageTexture.textures = {}
        shutil.rmtree(d)
