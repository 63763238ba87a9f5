"""P18 spectra: coefficient arithmetic, colour conversion, resampling."""
import math
from cases.base import *
import numpy as np
from pytracer import Spectrum, SpectrumType
from pytracer.spectral.spectrum import xyz2rgb, rgb2xyz, CoefficientSpectrum, SampledSpectrum, RGBSpectrum, N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END
from cases import colour as data
import pytracer.utility as util

RGB = [[3.240479, -1.537150, -.498535], [-.969256, 1.875991, .041556], [.055648, -.204043, 1.057311]]
XYZ = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]]
_done = []


def init():
    if not _done:
        Spectrum.init()
        _done.append(1)


def mv(m, v):
    return [vdot(r, v) for r in m]


def arith(a):
    """coefficientwise arithmetic, results of the same type, operands untouched"""
    x, y, t = a["x"], a["y"], a["t"]
    A, B = RGBSpectrum(np.array(x)), RGBSpectrum(np.array(y))
    for got, e in ((A + B, [p + q for p, q in zip(x, y)]), (A - B, [p - q for p, q in zip(x, y)]), (A * B, [p * q for p, q in zip(x, y)]),
                   (A * t, [p * t for p in x]), (t * A, [p * t for p in x]), (-A, [-p for p in x]), (A.lerp(.25, B), [.75 * p + .25 * q for p, q in zip(x, y)]),
                   (A.lerp(0., B), x), (A.lerp(1., B), y), (A.exp(), [math.exp(p) for p in x]), (A.clip(-1., 1.), [max(-1., min(1., p)) for p in x]),
                   (A.clip(), [max(0., p) for p in x]), (A.copy(), x), (A.to_rgb(), x)):
        require(type(got) is RGBSpectrum, "result of type %s", type(got))
        req_vclose(got, e, "spectrum arithmetic", 1e-12, 1e-12)
    pos_ = RGBSpectrum(np.array([abs(p) for p in x]))
    req_vclose(pos_.sqrt(), [math.sqrt(abs(p)) for p in x], "sqrt", 1e-12, 1e-12)
    req_vclose(pos_.pow(abs(t)), [abs(p) ** abs(t) for p in x], "pow", 1e-12, 1e-12)
    if all(abs(q) > 1e-6 for q in y):
        req_vclose(A / B, [p / q for p, q in zip(x, y)], "division", 1e-12, 1e-12)
    require(fl(A) == x and fl(B) == y, "operands altered")
    C = A.copy()
    require(C == A and not (C != A), "copy is unequal")
    C[0] += 1.
    require(C != A and not (C == A) and fl(A) == x, "copy shares its coefficients")
    black = all(abs(p) < 1e-5 for p in x)
    if not any(abs(abs(p) - 1e-5) < 1e-9 for p in x):
        require(bool(A.is_black()) == black, "is_black of %r: %r", x, A.is_black())
        require(bool(util.is_black(A)) == black, "util.is_black of %r", x)
    require(not A.has_nans() and bool(RGBSpectrum(np.array([0., float("nan"), 1.])).has_nans()), "has_nans")
    require(A.n_samples == 3 and fl(RGBSpectrum(t)) == [t] * 3 and fl(RGBSpectrum()) == [0.] * 3, "constructors")
    K = CoefficientSpectrum(7, t)
    require(K.n_samples == 7 and fl(K) == [t] * 7, "constant spectrum %r", fl(K))
    for make in (RGBSpectrum.create, RGBSpectrum.create_from_list, CoefficientSpectrum.create, CoefficientSpectrum.create_from_list):
        lst = list(x)
        S = make(lst)
        require(fl(S) == x and isinstance(S, CoefficientSpectrum), "%s from a list: %r", make, fl(S))
    for make in (RGBSpectrum.create, RGBSpectrum.create_from_array, RGBSpectrum.create_from_array):
        arr = np.array(x)
        S = make(arr)
        require(type(S) is RGBSpectrum and fl(S) == x, "%s from an array: %r", make, fl(S))
        arr[0] += 1.
        require(fl(S) == x, "created spectrum shares the array")
    S = RGBSpectrum.create(A)
    S[0] += 1.
    require(fl(A) == x, "created spectrum shares its source")
    must_raise(TypeError, lambda: RGBSpectrum.create([1., 2.]), "RGB spectrum of two coefficients")
    must_raise(TypeError, lambda: RGBSpectrum.create("abc"), "RGB spectrum of a string")
    if black:
        label("black")
    nontriv(not black)


def convert(a):
    """RGB and XYZ convert back and forth linearly"""
    x = a["x"]
    s = 1 + max(abs(p) for p in x)
    req_vclose(rgb2xyz(x), mv(XYZ, x), "rgb2xyz", 1e-9, 1e-9)
    req_vclose(xyz2rgb(x), mv(RGB, x), "xyz2rgb", 1e-9, 1e-9)
    req_vclose(xyz2rgb(rgb2xyz(np.array(x))), x, "rgb -> xyz -> rgb", 0, 2e-5 * s)
    req_vclose(rgb2xyz(xyz2rgb(np.array(x))), x, "xyz -> rgb -> xyz", 0, 2e-5 * s)
    A = RGBSpectrum(np.array(x))
    req_vclose(A.to_xyz(), mv(XYZ, x), "to_xyz", 1e-9, 1e-9)
    req_close(A.y(), mv(XYZ, x)[1], "luminance", 1e-9, 1e-9)
    for tp in (SpectrumType.REFLECTANCE, SpectrumType.ILLUMINANT):
        req_vclose(RGBSpectrum.from_rgb(x, tp), x, "from_rgb", 1e-12, 1e-12)
        B = RGBSpectrum.from_xyz(A.to_xyz(), tp)
        require(type(B) is RGBSpectrum, "type %s", type(B))
        req_vclose(B, x, "from_xyz of to_xyz", 0, 2e-5 * s)
    require(type(A.to_rgb()) is RGBSpectrum and A.to_rgb() is not A, "to_rgb aliases")
    nontriv(len(set(x)) > 1)


def integral(lam, v, lo, hi):
    """exact integral of the clamped piecewise linear curve"""
    xs = [lo] + [l for l in lam if lo < l < hi] + [hi]

    def at(x):
        if x <= lam[0]:
            return v[0]
        if x >= lam[-1]:
            return v[-1]
        for i in range(len(lam) - 1):
            if lam[i] <= x <= lam[i + 1]:
                return v[i] + (v[i + 1] - v[i]) * (x - lam[i]) / (lam[i + 1] - lam[i])
    ys = [at(x) for x in xs]
    return sum((xs[i + 1] - xs[i]) * (ys[i] + ys[i + 1]) / 2 for i in range(len(xs) - 1))


def curve(a):
    lam, x = [], a["start"]
    for g in a["gaps"]:
        lam.append(x)
        x += g
    lam.append(x)
    v = a["v"][:len(lam)]
    return lam, v


def average(a):
    """the average over an interval is the integral of the piecewise linear curve over its length"""
    lam, v = curve(a)
    lo, hi = a["ls"], a["ls"] + a["len"]
    if a["snap"] is not None:         # ends on sample wavelengths
        i, j = sorted(k % len(lam) for k in a["snap"])
        if i != j:
            lo, hi = lam[i], lam[j]
            label("on samples")
    e = integral(lam, v, lo, hi) / (hi - lo)
    for conv in (list, np.array):
        L, V = conv(lam), conv(v)
        got = SampledSpectrum.average_spectrum_samples(L, V, lo, hi)
        req_close(got, e, "average over [%r, %r]" % (lo, hi), 1e-9, 1e-9)
        require(fl(L) == lam and fl(V) == v, "the curve was altered")
    mid = (lo + hi) / 2
    p, q = [SampledSpectrum.average_spectrum_samples(list(lam), list(v), *w) for w in ((lo, mid), (mid, hi))]
    req_close((p + q) / 2, got, "average of the halves", 1e-9, 1e-9)
    nontriv(lo < lam[-1] and hi > lam[0] and len(lam) > 1)


def resample(a):
    """30 band averages, whatever the order of the samples; bands of a constant are that constant"""
    init()
    lam, v = curve(a)
    perm = sorted(range(len(lam)), key=lambda i: (a["perm"][i % len(a["perm"])], i))
    L, V = [lam[i] for i in perm], [v[i] for i in perm]
    conv = np.array if a["arr"] else list
    l2, v2 = conv(L), conv(V)
    S = SampledSpectrum.from_sampled(l2, v2)
    require(fl(l2) == L and fl(v2) == V, "the samples were altered")
    require(type(S) is SampledSpectrum and len(S) == N_SPECTRAL_SAMPLES, "result %s of %d", type(S), len(S))
    n, w = N_SPECTRAL_SAMPLES, (SAMPLED_LAMBDA_END - SAMPLED_LAMBDA_START) / float(N_SPECTRAL_SAMPLES)
    e = [integral(lam, v, SAMPLED_LAMBDA_START + i * w, SAMPLED_LAMBDA_START + (i + 1) * w) / w for i in range(n)]
    req_vclose(S, e, "band averages", 1e-8, 1e-9)
    # colour of the curve: direct integration against the CIE curves, 1 nm trapezia
    X = [SampledSpectrum.X, SampledSpectrum.Y, SampledSpectrum.Z]
    xyz = fl(S.to_xyz())
    req_close(S.y(), xyz[1], "luminance", 1e-9, 1e-9)
    bands = [[integral_cie(c, SAMPLED_LAMBDA_START + i * w, SAMPLED_LAMBDA_START + (i + 1) * w) / w for i in range(n)] for c in (data.CIE_X, data.CIE_Y, data.CIE_Z)]
    k = (SAMPLED_LAMBDA_END - SAMPLED_LAMBDA_START) / (data.CIE_Y_INTEGRAL * n)
    for c in range(3):
        req_close(xyz[c], sum(p * q for p, q in zip(bands[c], fl(S))) * k, "XYZ"[c], 1e-7, 1e-9)
    R = RGBSpectrum.from_sampled(conv(L), conv(V))
    require(type(R) is RGBSpectrum, "type %s", type(R))
    req_vclose(R, mv(RGB, xyz), "from_sampled to RGB", 1e-9, 1e-9)
    req_vclose(S.to_rgb(), R, "to_rgb", 1e-9, 1e-9)
    nontriv(len(set(v)) > 1)


_cum = {}


def integral_cie(c, lo, hi):
    key = (id(c), lo, hi)
    if key not in _cum:
        lam = [float(x) for x in data.CIE_LAMBDA]
        _cum[key] = integral(lam, [float(x) for x in c], lo, hi)
    return _cum[key]


def uplift(a):
    """an RGB colour becomes a non-negative spectrum that shows that colour again"""
    init()
    rgb = a["rgb"]
    tp = SpectrumType.REFLECTANCE if a["refl"] else SpectrumType.ILLUMINANT
    arr = np.array(rgb)
    S = SampledSpectrum.from_rgb(arr if a["arr"] else list(rgb), tp)
    require(fl(arr) == rgb, "colour altered")
    require(type(S) is SampledSpectrum and len(S) == N_SPECTRAL_SAMPLES, "type %s", type(S))
    require(all(0. <= v <= 1.2 * max(rgb) + 1e-9 for v in fl(S)), "spectrum %r", fl(S))
    # mixture of the basis spectra: white takes the smallest component, then the two-colour and the pure basis
    lo, me, hi = sorted(range(3), key=lambda i: (rgb[i], i))
    b = "Refl" if a["refl"] else "Illum"
    n, w = N_SPECTRAL_SAMPLES, (SAMPLED_LAMBDA_END - SAMPLED_LAMBDA_START) / float(N_SPECTRAL_SAMPLES)

    def get(nm):
        key = (b, nm)
        if key not in _cum:
            c = getattr(data, "RGB%s2Spect%s" % key)
            _cum[key] = [integral(data.RGB2SpectLambda, c, SAMPLED_LAMBDA_START + i * w, SAMPLED_LAMBDA_START + (i + 1) * w) / w for i in range(n)]
        return _cum[key]
    sec = get(["Cyan", "Magenta", "Yellow"][lo])
    pri = get(["Red", "Green", "Blue"][hi])
    wh = get("White")
    sc = .94 if a["refl"] else .86445
    e = [max(0., sc * (rgb[lo] * w_ + (rgb[me] - rgb[lo]) * s_ + (rgb[hi] - rgb[me]) * p_)) for w_, s_, p_ in zip(wh, sec, pri)]
    req_vclose(S, e, "spectrum of the colour", 1e-9, 1e-9)
    back = fl(S.to_rgb())
    m = max(rgb)
    req_vclose(back, rgb, "colour of the spectrum", 0, (.22 if a["refl"] else .15) * m + 1e-9)
    k = a["k"]
    req_vclose(SampledSpectrum.from_rgb([k * c for c in rgb], tp), vmul(fl(S), k), "scaled colour", 1e-9, 1e-9)
    T = SampledSpectrum.from_xyz(rgb2xyz(rgb), tp)
    req_vclose(T, S, "from_xyz", 0, 1e-3 * m + 1e-9)
    nontriv(len(set(rgb)) == 3)
