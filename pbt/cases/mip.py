"""Independent MIP map: image[t][s] of numbers or lists; no code under test here."""
import math
from cases.base import Reject


def comb(ws):
    """weighted sum of values, numbers or lists"""
    r = None
    for w, x in ws:
        if isinstance(x, list):
            r = [w * v for v in x] if r is None else [p + w * v for p, v in zip(r, x)]
        else:
            r = w * x if r is None else r + w * x
    return r


def lanczos(x, tau=2.):
    x = abs(x)
    if x < 1e-5:
        return 1.
    if x > 1:
        return 0.
    s = lambda q: math.sin(math.pi * q) / (math.pi * q)
    return s(x * tau) * s(x)


def weights(old, new):
    r = []
    for i in range(new):
        c = (i + .5) * old / new
        f = math.floor(c - 1.5)
        w = [lanczos((f + j + .5 - c) / 2.) for j in range(4)]
        t = sum(w)
        r.append((int(f), [x / t for x in w]))
    return r


def at(wrap, i, n):
    """index i of n under the wrap mode, None outside"""
    if wrap == "REPEAT":
        return i % n
    if wrap == "CLAMP":
        return min(n - 1, max(0, i))
    return i if 0 <= i < n else None


def pow2(n):
    p = 1
    while p < n:
        p *= 2
    return p


def zero(x):
    return [0.] * len(x) if isinstance(x, list) else 0.


class Mip(object):
    def __init__(self, img, wrap, trilinear=False, aniso=8., clip=False):
        self.wrap, self.trilinear, self.aniso = wrap, trilinear, aniso
        h, w = len(img), len(img[0])
        self.zero = zero(img[0][0])
        if pow2(w) != w or pow2(h) != h:
            W, H = pow2(w), pow2(h)
            ws = weights(w, W)
            rows = []
            for t in range(h):
                row = []
                for s in range(W):
                    p, q = ws[s]
                    row.append(comb([(1., self.zero)] + [(q[j], img[t][at(wrap, p + j, w)]) for j in range(4) if at(wrap, p + j, w) is not None]))
                rows.append(row)
            wt = weights(h, H)
            img = []
            for t in range(H):
                p, q = wt[t]
                img.append([comb([(1., self.zero)] + [(q[j], rows[at(wrap, p + j, h)][s]) for j in range(4) if at(wrap, p + j, h) is not None]) for s in range(W)])
            if clip:
                img = [[[max(0., v) for v in x] if isinstance(x, list) else x for x in r] for r in img]
        self.levels = [img]
        while len(self.levels[-1]) > 1 or len(self.levels[-1][0]) > 1:
            a = self.levels[-1]
            h, w = len(a), len(a[0])
            self.levels.append([[comb([(.25, a[min(h - 1, 2 * t + j)][min(w - 1, 2 * s + i)]) for i in (0, 1) for j in (0, 1)])
                                 for s in range(max(1, w // 2))] for t in range(max(1, h // 2))])

    def dims(self, l):
        return len(self.levels[l][0]), len(self.levels[l])

    def texel(self, l, s, t):
        u, v = self.dims(l)
        s, t = at(self.wrap, s, u), at(self.wrap, t, v)
        return self.zero if s is None or t is None else self.levels[l][t][s]

    def tri(self, l, s, t):
        u, v = self.dims(l)
        s, t = s * u - .5, t * v - .5
        a, b = int(math.floor(s)), int(math.floor(t))
        x, y = s - a, t - b
        return comb([((1 - x) * (1 - y), self.texel(l, a, b)), ((1 - x) * y, self.texel(l, a, b + 1)),
                     (x * (1 - y), self.texel(l, a + 1, b)), (x * y, self.texel(l, a + 1, b + 1))])

    def iso(self, s, t, width=0.):
        n = len(self.levels)
        l = n - 1 + math.log(max(width, 1e-5), 2)
        if l < 0:
            return self.tri(0, s, t)
        if l >= n - 1:
            return self.levels[-1][0][0]
        i = int(math.floor(l))
        return comb([(1 - l + i, self.tri(i, s, t)), (l - i, self.tri(i + 1, s, t))])

    def ellipse(self, l, s, t, a, b, c, d):
        """Gaussian over the ellipse with axes (a, b), (c, d), widened by one texel"""
        if l >= len(self.levels):
            return self.levels[-1][0][0]
        u, v = self.dims(l)
        s, t = s * u - .5, t * v - .5
        a, b, c, d = a * u, b * v, c * u, d * v
        A, B, C = b * b + d * d + 1, -2 * (a * b + c * d), a * a + c * c + 1
        F = A * C - B * B / 4
        A, B, C = A / F, B / F, C / F
        # half extents of the ellipse A x^2 + B x y + C y^2 < 1
        det = 4 * A * C - B * B
        hs, ht = 2 * math.sqrt(C / det), 2 * math.sqrt(A / det)
        ws, tot = [(0., self.zero)], 0.
        for y in range(int(math.floor(t - ht)) - 1, int(math.ceil(t + ht)) + 2):
            for x in range(int(math.floor(s - hs)) - 1, int(math.ceil(s + hs)) + 2):
                r2 = A * (x - s) ** 2 + B * (x - s) * (y - t) + C * (y - t) ** 2
                if r2 < 1 + 1e-9:
                    k = r2 * 128
                    if k > .5 and abs(k - round(k)) < 1e-7:
                        raise Reject("entry border")
                    w = math.exp(-2 * min(127, int(max(0., k))) / 127.) - math.exp(-2)
                    ws.append((w, self.texel(l, x, y)))
                    tot += w
        return comb([(w / tot, x) for w, x in ws])

    def aniso_lookup(self, s, t, a, b, c, d):
        if self.trilinear:
            return self.iso(s, t, 2 * max(abs(a), abs(b), abs(c), abs(d)))
        if math.hypot(a, b) < math.hypot(c, d):
            a, b, c, d = c, d, a, b
        major, minor = math.hypot(a, b), math.hypot(c, d)
        if minor == 0:
            return self.tri(0, s, t)
        if minor * self.aniso < major:
            f = major / (minor * self.aniso)
            c, d, minor = c * f, d * f, minor * f
        l = max(0., len(self.levels) - 1 + math.log(minor, 2))
        i = int(math.floor(l))
        return comb([(1 - l + i, self.ellipse(i, s, t, a, b, c, d)), (l - i, self.ellipse(i + 1, s, t, a, b, c, d))])

    def lookup(self, q):
        return self.iso(*q) if len(q) < 4 else self.aniso_lookup(*q)
