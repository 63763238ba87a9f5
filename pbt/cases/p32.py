"""P32 images survive the way to a file and back."""
import contextlib
import os
import shutil
import tempfile
from cases.base import *
import numpy as np
import PIL.Image
import pytracer.utility.imageio as iio


@contextlib.contextmanager
def scratch():
    t = tempfile.mkdtemp(prefix="pbt32_")
    try:
        yield t
    finally:
        shutil.rmtree(t, ignore_errors=True)


def image(a, h, w):
    """h x w x 3 non-negative reals"""
    r = LCG(a["seed"])
    v = np.zeros((h, w, 3))
    top = [float(x) for x in a["top"]]
    for y in range(h):
        for x in range(w):
            for c in range(3):
                u = r.u()
                k = r.u()
                v[y, x, c] = 0. if k < .1 else top[c] if k > .9 else u * top[c]
    return v


def as_bytes(v):
    """The interval of bytes for every value: each channel is scaled so that its maximum becomes 255."""
    lo, hi = np.zeros(v.shape, dtype=int), np.zeros(v.shape, dtype=int)
    for c in range(3):
        m = float(v[:, :, c].max())
        for y in range(v.shape[0]):
            for x in range(v.shape[1]):
                t = 255. * float(v[y, x, c]) / m if m else 0.
                lo[y, x, c] = min(255, max(0, math.floor(t - 1e-9)))
                hi[y, x, c] = min(255, max(0, math.floor(t + 1e-9)))
    return lo, hi


def req_bytes(got, lo, hi, what):
    got = np.asarray(got)
    require(got.shape == lo.shape, "%s: shape %r, not %r", what, got.shape, lo.shape)
    require(got.dtype == np.uint8, "%s: type %r", what, got.dtype)
    g = got.astype(int)
    for y in range(g.shape[0]):
        for x in range(g.shape[1]):
            for c in range(g.shape[2]):
                require(lo[y, x, c] <= g[y, x, c] <= hi[y, x, c], "%s: row %d column %d channel %d is %d, not %d", what, y, x, c, g[y, x, c], hi[y, x, c])


def disk(fn):
    with PIL.Image.open(fn) as p:
        require(p.mode == "RGB", "mode %r", p.mode)
        return np.array(p)


def pow2(n): return n & (n - 1) == 0


def write(a):
    """A whole picture, then any number of updates of parts of it, read back after each."""
    W, H = a["w"], a["h"]
    with scratch() as t:
        fn = os.path.join(t, a["name"])
        v = image(a, H, W)
        keep = v.copy()
        if a["parts"]:
            must_raise(RuntimeError, lambda: iio.write_image(fn, v[:1, :1], None, 1, 1, W + 1, H + 1, 0, 0), "part of a picture that does not exist")
            require(not os.path.exists(fn), "a refused update left a file")
        arg = v.tolist() if a["aslist"] else v
        ret = iio.write_image(fn, arg, None, W, H, W, H, 0, 0)
        require(np.array_equal(v, keep), "write_image changed the picture it was given")
        lo, hi = as_bytes(v)
        req_bytes(ret, lo, hi, "the picture returned")
        req_bytes(disk(fn), lo, hi, "the picture in the file")
        now = disk(fn).astype(int)
        for i, (s, x0, y0, wd, ht) in enumerate(a["parts"]):
            x0, y0 = x0 % W, y0 % H
            wd, ht = 1 + wd % (W - x0), 1 + ht % (H - y0)
            if wd == W and ht == H:
                continue
            p = image({"seed": s, "top": a["top"]}, ht, wd)
            keep = p.copy()
            ret = iio.write_image(fn, p, None, wd, ht, W, H, x0, y0)
            require(np.array_equal(p, keep), "an update changed the part it was given")
            lo, hi = now.copy(), now.copy()
            lo[y0:y0 + ht, x0:x0 + wd], hi[y0:y0 + ht, x0:x0 + wd] = as_bytes(p)
            got = disk(fn)
            req_bytes(got, lo, hi, "update %d" % i)
            require(np.array_equal(np.asarray(ret), got), "update %d returned another picture than it wrote", i)
            now = got.astype(int)
            label("update")
        require(os.listdir(t) == [a["name"]], "files left: %r", os.listdir(t))
        # reading it again
        before = open(fn, "rb").read()
        img = np.array(iio.read_image(fn))
        require(open(fn, "rb").read() == before, "read_image changed the file")
        if pow2(W) and pow2(H):
            req_bytes(img, now, now, "the picture read again")
            label("exact")
        else:
            require(img.shape == (next2(H), next2(W), 3), "a %dx%d picture was read as %r", W, H, img.shape)
        must_raise(NotImplementedError, lambda: iio.write_image(fn, v, np.ones((H, W)), W, H, W, H, 0, 0), "an alpha channel")
        must_raise(IOError, lambda: iio.write_image(None, v, None, W, H, W, H, 0, 0), "no file name")
        must_raise(IOError, lambda: iio.write_image(fn, None, None, W, H, W, H, 0, 0), "no picture")
        require(open(fn, "rb").read() == before, "refused writes changed the file")
        nontriv(W * H > 1 and len({tuple(p) for r in now.tolist() for p in r}) > 1)


def next2(n):
    k = 1
    while k < n:
        k *= 2
    return k


def read(a):
    """Files of every mode and size: exact colours at powers of two, faithful resampling at other sizes."""
    W, H, mode = a["w"], a["h"], a["mode"]
    r = LCG(a["seed"])
    px = np.zeros((H, W, 3), dtype=np.uint8)
    kind = a["kind"]
    base = [int(r.u() * 256) for _ in range(3)]
    for y in range(H):
        for x in range(W):
            for c in range(3):
                px[y, x, c] = base[c] if kind == "flat" else 255 * x // max(1, W - 1) if kind == "rampx" else 255 * y // max(1, H - 1) if kind == "rampy" else int(r.u() * 256)
    if mode == "L":
        px[:, :, 1] = px[:, :, 0]
        px[:, :, 2] = px[:, :, 0]
    pic = PIL.Image.fromarray(px, mode="RGB")
    if mode == "L":
        pic = PIL.Image.fromarray(px[:, :, 0].copy(), mode="L")
    elif mode == "RGBA":
        al = np.array([[int(r.u() * 256) for _ in range(W)] for _ in range(H)], dtype=np.uint8)
        pic = PIL.Image.fromarray(np.dstack([px, al]), mode="RGBA")
    elif mode == "1":
        bits = px[:, :, 0] > 127
        px = np.dstack([bits * 255] * 3).astype(np.uint8)
        pic = PIL.Image.new("1", (W, H))
        pic.putdata([255 if b else 0 for b in bits.reshape(-1).tolist()])
    with scratch() as t:
        fn = os.path.join(t, "p." + a["ext"])
        pic.save(fn)
        img = np.array(iio.read_image(fn))
        must_raise(IOError, lambda: iio.read_image(None), "no file name")
        must_raise((IOError, OSError), lambda: iio.read_image(fn + "x"), "no such file")
    require(img.shape == (next2(H), next2(W), 3), "a %s picture of %d rows and %d columns was read as %r", mode, H, W, img.shape)
    if pow2(W) and pow2(H):
        req_bytes(img, px.astype(int), px.astype(int), "a %s picture" % mode)
        label("exact")
        nontriv(W * H > 1)
        return
    label("resampled")
    g = img.astype(int)
    if kind == "flat" and mode != "1":
        for c in range(3):
            require(abs(g[:, :, c] - int(px[0, 0, c])).max() <= 1, "a flat picture of %r became %r..%r", px[0, 0].tolist(), g[:, :, c].min(), g[:, :, c].max())
    if kind in ("rampx", "rampy") and mode != "1":
        q = g if kind == "rampx" else g.transpose(1, 0, 2)
        require(all(int(abs(q[i] - q[0]).max()) <= 1 for i in range(len(q))), "a %s varies across", kind)
        n = W if kind == "rampx" else H
        if n >= 3:
            row = q[0, :, 0].tolist()
            require(all(row[i] <= row[i + 1] for i in range(len(row) - 1)), "a %s of %d became %r", kind, n, row)
            require(row[0] < 70 and row[-1] > 185, "a %s of %d became %r", kind, n, row)
    nontriv()
