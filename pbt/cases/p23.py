"""P23 texture mappings and textures."""
import math
from cases.base import *
from cases.texture import *


def mapping(a):
    """a mapping's coordinates and their differentials"""
    k = a["map"]
    g = dg(a)
    before = state(g)
    if k[0] == "identity":
        p, x, y = b_map(k)(g)
        P, X, Y = m_map3(k, a)
        req_vclose(p, P, "mapped point", 1e-9, 1e-9)
        req_vclose(x, X, "mapped dpdx", 1e-9, 1e-9)
        req_vclose(y, Y, "mapped dpdy", 1e-9, 1e-9)
        nontriv(len(k[1]) > 0)
        return
    r = b_map(k)(g)
    require(len(r) == 6, "%d values from a 2D mapping", len(r))
    require(state(g) == before, "the hit was altered")
    if k[0] in ("uv", "plane"):
        req_vclose(r, m_map(k, a), k[0] + " mapping", 1e-9, 1e-9)
        nontriv(any(r[2:]))
        return
    st, dx, dy, e, w = angular(k, a)
    if max(e) > .01:
        raise Reject("footprint too large for a derivative")
    r = fl(r)
    req_close((r[w] - st[w] + .5) % 1., .5, "%s mapping: periodic coordinate %r for %r" % (k[0], r[w], st[w]), 0, 1e-8)
    require(-1e-12 <= r[w] <= 1 + 1e-12, "%s mapping: periodic coordinate %r outside [0, 1]", k[0], r[w])
    req_close(r[1 - w], st[1 - w], k[0] + " mapping: polar coordinate", 1e-8, 1e-8)
    for n, got, ref, err in (("x", r[2:4], dx, e[0]), ("y", r[4:6], dy, e[1])):
        for i in (0, 1):
            req_close(got[i], ref[i], "%s mapping at %r: d%sd%s" % (k[0], st, "st"[i], n), 0., 2 * err + 1e-8)
    nontriv(max(e) > 0)
    if min(st[w], 1 - st[w]) < .01:
        label("at the seam")


def texture(a):
    """a texture's value is that of its definition, whatever is composed of whatever"""
    k = a["tex"]
    g = dg(a)
    e = m_tex(k, a)
    t = b_tex(k)
    before = state(g)
    got = t(g)
    req_val(got, e, "texture %s" % k[0])
    require(state(g) == before, "texture %s altered the hit", k[0])
    req_val(t(g), e, "texture %s evaluated again" % k[0])
    nontriv(k[0] != "const")
    label(k[0])


def checks(a):
    """antialiased checks: the share of the second texture is the area share of odd cells under the box filter"""
    g = dg(a)
    k = a["map"]
    s, t, sx, tx_, sy, ty = m_map(k, a)
    h, l = max(abs(sx), abs(sy)), max(abs(tx_), abs(ty))
    T = b_tex(["checks", k, ["const", 0.], ["const", 1.], a["aa"]])
    r = float(T(g))
    fs, ft = odd(s, h), odd(t, l)
    f = fs * (1 - ft) + ft * (1 - fs)
    require(-1e-9 <= r <= 1 + 1e-9, "share %r of the second texture", r)
    if h > 1 or l > 1:
        req_close(r, .5, "share of the second texture under a filter wider than a check, half widths %r" % [h, l], 1e-9, 1e-9)
        label("wide")
        nontriv()
        return
    req_close(r, f, "share of the second texture at %r with half widths %r" % ([s, t], [h, l]), 1e-7, 1e-7)
    nontriv(0 < f < 1)
    label("crossing" if 0 < f < 1 else "inside")


def blend(a):
    """composed textures: mixing amounts 0 and 1 select, scaling by one keeps, corners of a bilinear texture are its values"""
    g = dg(a)
    k, l = a["t1"], a["t2"]
    e, f = m_tex(k, a), m_tex(l, a)
    req_val(b_tex(["mix", k, l, ["const", 0.]])(g), mix([(1., e), (0., f)]), "mix by nothing")
    req_val(b_tex(["mix", k, l, ["const", 1.]])(g), mix([(0., e), (1., f)]), "mix by all")
    req_val(b_tex(["mix", k, k, ["const", a["w"]]])(g), e, "mix of a texture with itself")
    req_val(b_tex(["scale", k, ["const", 1.]])(g), e, "scaled by one")
    req_val(b_tex(["scale", k, l])(g), mul(e, f), "product")
    req_val(b_tex(["scale", l, k])(g), mul(e, f), "product, exchanged")
    v = a["v4"]
    for i, c in enumerate([(0., 0.), (0., 1.), (1., 0.), (1., 1.)]):
        b = dict(a)
        b["u"], b["v"] = c
        req_val(b_tex(["bilerp", ["uv", [1., 1., 0., 0.]], v])(dg(b)), m_val(v[i]), "corner %r of a bilinear texture" % (c,))
    nontriv(k[0] != "const" or l[0] != "const")
