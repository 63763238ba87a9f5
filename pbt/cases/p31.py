"""P31 the scene description interface: histories of API calls against a reference graphics state; parameter lists."""
import contextlib
import io
import sys
from cases.base import *
import numpy as np
import pytracer.geometry as geo
import pytracer.transform as trans
from pytracer.spectral.spectrum import SampledSpectrum
try:
    import pytracer.interface as inter
    from pytracer.interface import Param, Option
    BROKEN = None
except (NameError, ImportError, AttributeError, RuntimeError) as e:
    BROKEN = e

SETTINGS = {"pixel_filter": "filter", "film": "film", "camera": "camera", "sampler": "sampler", "aggregator": "aggregator",
            "renderer": "renderer", "surface": "surface", "volume": "volume"}
DEFAULTS = {"filter": "box", "film": "image", "camera": "perspective", "sampler": "stratified", "aggregator": "simple", "renderer": "sampler",
            "surface": "directlighting", "volume": ""}
API = ["trans_identity", "trans_translate", "trans_rotate", "trans_scale", "trans_look_at", "trans_concat", "trans_set", "add_coordinate_system",
       "set_coordinate_system", "set_transformation_time", "world_begin", "attribute_begin", "attribute_end", "transform_begin", "transform_end"] \
    + ["set_" + k for k in SETTINGS]

_real = SampledSpectrum.init
_done = []


def _init_once():
    """The spectral tables take long to build and never change: sessions after the first keep them."""
    if not _done:
        _done.append(1)
        _real()


SampledSpectrum.init = staticmethod(_init_once)


@contextlib.contextmanager
def captured():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


def mat(m):
    return [[float(x) for x in r] for r in np.asarray(m)]


def norm(m):
    return max(sum(abs(x) for x in r) for r in m)


class T(object):
    """a reference transformation: matrix, inverse, magnitudes of the factors"""

    def __init__(self, m=None, mi=None, s=1., si=1.):
        self.m, self.mi, self.s, self.si = m or mident(), mi or mident(), s, si

    def __mul__(self, o):
        return T(mmul(self.m, o.m), mmul(o.mi, self.mi), self.s * o.s, self.si * o.si)

    def inv(self): return T(self.mi, self.m, self.si, self.s)


def factor(m):
    mi = minv(m)
    return T(m, mi, max(1., norm(m)), max(1., norm(mi)))


def mlook(eye, at, up):
    z = vnorm(vsub(at, eye))
    x = vnorm(vcross(up, z))
    y = vcross(z, x)
    return [[x[i], y[i], z[i], eye[i]] for i in range(3)] + [[0., 0., 0., 1.]]


def req_same(t, r, what):
    for got, want, s in ((t.m, r.m, r.s), (t.m_inv, r.mi, r.si)):
        for i in range(4):
            for j in range(4):
                require(abs(float(got[i, j]) - want[i][j]) <= 1e-11 * s, "%s is\n%r, not\n%r", what, mat(got), want)


def req_set(ts, rs, what):
    require(len(ts) == len(rs), "%s has %d transformations", what, len(ts))
    for t, r in zip(ts, rs):
        req_same(t, r, what)


class Model(object):
    def __init__(self):
        self.status = "uninit"

    def init(self, opt):
        self.status, self.opt = "options", opt
        self.ctm = T()
        self.stack, self.named = [], {}
        self.time = (0., 1.)
        self.names, self.params = dict(DEFAULTS), {k: None for k in DEFAULTS}
        self.cam = T()


def observe(M, what):
    want = {"uninit": inter.API_UNINIT, "options": inter.API_OPTIONS, "world": inter.API_WORLD}[M.status]
    require(inter.API_STATUS == want, "%s: status %r instead of %s", what, inter.API_STATUS, M.status)
    if M.status == "uninit":
        require(inter.GLOBAL_OPTION is None and inter.RENDER_OPTION is None, "%s: options left without a session", what)
        return
    require(inter.GLOBAL_OPTION is M.opt, "%s: the options are not the session's", what)
    require(inter.GRAPHICS_STATE is not None, "%s: no graphics state", what)
    req_set(inter.TRANSFORM_SET, [M.ctm] * inter.MAX_TRANSFORM, what + ": the current transformation")
    require(set(inter.COORDINATE_SYSTEM) == set(M.named), "%s: coordinate systems %r, not %r", what, sorted(inter.COORDINATE_SYSTEM), sorted(M.named))
    for k in M.named:
        req_set(inter.COORDINATE_SYSTEM[k], [M.named[k]] * inter.MAX_TRANSFORM, what + ": coordinate system " + k)
    R = inter.RENDER_OPTION
    require((R.trans_start_time, R.trans_end_time) == M.time, "%s: shutter %r, not %r", what, (R.trans_start_time, R.trans_end_time), M.time)
    for k in DEFAULTS:
        require(getattr(R, k + "_name") == M.names[k], "%s: %s is %r, not %r", what, k, getattr(R, k + "_name"), M.names[k])
        require(getattr(R, k + "_param") is M.params[k], "%s: %s parameters are not the ones given", what, k)
    req_set(R.cam2wld, [M.cam] * inter.MAX_TRANSFORM, what + ": camera to world")


def call(name, *args):
    """an API function, with its arguments left alone"""
    before = [list(x) if isinstance(x, list) else x for x in args]
    r = getattr(inter, name)(*args)
    for x, y in zip(args, before):
        require(not isinstance(x, list) or x == y, "%s changed its argument %r to %r", name, y, x)
    return r


def arg_list(v, as_array):
    return np.array(v) if as_array else list(v)


def apply(M, op):
    k = op[0]
    if k == "init":
        opt = Option(op[1], op[2], op[3])
        require((opt.image_file, opt.quick_render, opt.n_cores) == (op[1], op[2], op[3]), "Option holds %r", vars(opt))
        if M.status != "uninit":
            must_raise(RuntimeError, lambda: inter.system_init(opt), "a second system_init")
            label("second init")
            return
        inter.system_init(opt)
        M.init(opt)
        return
    if k == "clean":
        inter.system_clean()
        M.status = "uninit"
        label("clean")
        return
    if M.status == "uninit":
        name, args = {"T": ("trans_translate", ([1., 2., 3.],)), "S": ("trans_scale", ([1., 2., 3.],)), "R": ("trans_rotate", (30., [0., 0., 1.])),
                      "look": ("trans_look_at", ([0., 0., 1.], [0., 0., 0.], [0., 1., 0.])), "concat": ("trans_concat", (trans.Transform(),)),
                      "set": ("trans_set", (trans.Transform(),)), "identity": ("trans_identity", ()), "name": ("add_coordinate_system", ("world",)),
                      "use": ("set_coordinate_system", ("world",)), "time": ("set_transformation_time", (0., 1.)),
                      "what": ("set_" + str(op[1] if len(op) > 1 else ""), ("Box", Param())), "world": ("world_begin", ()),
                      "abegin": ("attribute_begin", ()), "aend": ("attribute_end", ()), "tbegin": ("transform_begin", ()),
                      "tend": ("transform_end", ())}[k]
        must_raise(RuntimeError, lambda: getattr(inter, name)(*args), name + " without a session")
        label("no session")
        return
    if k in ("T", "S", "R"):
        v = arg_list(op[-2], op[-1])
        if k == "T":
            call("trans_translate", v)
            f = factor(mtranslate(op[1]))
        elif k == "S":
            call("trans_scale", v)
            f = factor(mscale(op[1]))
        else:
            call("trans_rotate", op[1], v)
            m = mrotate(op[1], op[2])
            f = T(m, mT(m), 3., 3.)
        M.ctm = M.ctm * f
        label("transform")
    elif k == "look":
        eye, at, up = op[1], vadd(op[1], vmul(op[2], op[3])), op[4]
        if vlen(vcross(vnorm(up), op[2])) < .05:
            return
        call("trans_look_at", arg_list(eye, op[5]), arg_list(at, op[5]), arg_list(up, op[5]))
        m = mlook(eye, at, up)
        M.ctm = M.ctm * T(minv(m), m, 10. * (1. + vlen(eye)), 10. * (1. + vlen(eye)))
        label("look-at")
    elif k in ("concat", "set"):
        m = mmul(mrotate(op[1], op[2]), mtranslate(op[3]))
        t = trans.Transform(np.array(m))
        keep = mat(t.m)
        call("trans_" + k, t)
        require(mat(t.m) == keep, "trans_%s changed the given transformation", k)
        f = factor(m)
        f.s, f.si = 3. * f.s, 3. * f.si
        M.ctm = M.ctm * f if k == "concat" else f
        label(k)
    elif k == "identity":
        call("trans_identity")
        M.ctm = T()
    elif k == "name":
        call("add_coordinate_system", op[1])
        M.named[op[1]] = M.ctm
        label("named")
    elif k == "use":
        if op[1] in M.named:
            call("set_coordinate_system", op[1])
            M.ctm = M.named[op[1]]
            label("used")
        else:
            must_raise(RuntimeError, lambda: inter.set_coordinate_system(op[1]), "an unknown coordinate system")
            label("unknown name")
    elif k == "time":
        call("set_transformation_time", op[1], op[2])
        M.time = (op[1], op[2])
    elif k == "what":
        p = Param()
        call("set_" + op[1], op[2], p)
        key = SETTINGS[op[1]]
        M.names[key], M.params[key] = op[2].lower(), p
        if op[1] == "camera":
            M.cam = M.ctm.inv()
            M.named["camera"] = M.cam
            label("camera")
    elif k == "world":
        call("world_begin")
        M.status, M.ctm = "world", T()
        M.named["world"] = T()
        label("world")
    elif k in ("abegin", "tbegin"):
        call("attribute_begin" if k == "abegin" else "transform_begin")
        M.stack.append((k[0], M.ctm))
    elif k in ("aend", "tend"):
        kinds = [s[0] for s in M.stack]
        name = "attribute_end" if k == "aend" else "transform_end"
        if (k == "aend" and "a" not in kinds) or not kinds:
            with captured() as out:
                call(name)
            require(out.getvalue().strip(), "nothing said about an unmatched %s", name)
            label("unmatched")
        elif kinds[-1] == k[0]:
            call(name)
            M.ctm = M.stack.pop()[1]
            label("restored")
        # blocks that cross each other are not judged
    else:
        raise ValueError(k)


def history(a):
    require(BROKEN is None, "the interface cannot be imported: %r", BROKEN)
    inter.system_clean()
    M = Model()
    try:
        observe(M, "at the start")
        if a["start"]:
            apply(M, ["init", "", False, 1])
            observe(M, "after system_init")
        changed = set()
        for i, op in enumerate(a["ops"]):
            apply(M, op)
            observe(M, "after call %d (%s)" % (i, op[0]))
            if M.status != "uninit" and norm(M.ctm.m) != 1.:
                changed.add(op[0])
        nontriv(len(set(labels()) & {"restored", "used", "camera", "look-at", "concat"}) >= 2)
    finally:
        inter.system_clean()


def params(a):
    require(BROKEN is None, "the interface cannot be imported: %r", BROKEN)
    P = [Param(), Param()]
    M = [{k: [] for k in Param.PARAM_TYPE} for _ in P]
    require(set(("float", "int", "bool", "vector", "normal", "spectrum", "point", "string")) <= set(Param.PARAM_TYPE), "kinds of parameters: %r", Param.PARAM_TYPE)
    taken = 0
    for which, op, tp, val in a["ops"]:
        p, m = P[which], M[which]
        if tp not in m:
            must_raise(KeyError, {"push": lambda: p.push_back(tp, val), "next": lambda: p.enum(tp), "fetch": lambda: p.fetch(tp), "more": lambda: p.has_more(tp)}[op], "an unknown kind")
            label("unknown kind")
        elif op == "push":
            p.push_back(tp, val)
            m[tp].append(val)
        elif op == "next":
            got = p.enum(tp)
            if m[tp]:
                want = m[tp].pop(0)
                require(got is want, "enum(%s) gave %r instead of %r", tp, got, want)
                taken += 1
            else:
                require(got is None, "enum(%s) of nothing gave %r", tp, got)
        elif op == "fetch":
            got = p.fetch(tp)
            require(len(got) == len(m[tp]) and all(x is y for x, y in zip(got, m[tp])), "fetch(%s) gave %r instead of %r", tp, got, m[tp])
        else:
            require(bool(p.has_more(tp)) == (len(m[tp]) > 0), "has_more(%s) with %d left", tp, len(m[tp]))
    for p, m in zip(P, M):
        for tp in m:
            require(bool(p.has_more(tp)) == (len(m[tp]) > 0) and len(p.fetch(tp)) == len(m[tp]), "left over of %s: %r, not %r", tp, p.fetch(tp), m[tp])
    nontriv(taken > 1)
