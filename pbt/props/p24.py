from core import *
from props.texture import hit

MODULE = "p24"
RULE = ("Images of 1 to 16 texels a side, square or not, powers of two or not, of numbers (two types), spectra, or three channels; three wrap modes; lookups inside and several periods outside "
        "with no, isotropic and anisotropic footprints from far below a texel to beyond the image; one to three image files (RGB and RGBA, sides 1 to 8) and up to five textures loaded from them "
        "with different types, scales and filters, one file missing. Non-trivial: pyramid - more than one texel; lookup, constant - the image varies (is not black); kernel - a real enlargement; files - different images or types.")
ASSUMPTIONS = ["image rows run along t, columns along s, as ImageTexture stores them", "image values are non-negative", "one-valued stand-in for an unreadable file",
               "queries whose texels fall on the border of a filter table entry within rounding are not judged",
               "image files of power-of-two sizes; resampling is judged on the map itself"]
side = st.one_of(pick(1, 2, 4, 8, 4, 8, 16, 2), pickint(1, 9))
val = st.one_of(unit, unit, pick(0., 1., 5.))
img = dict(w=side, h=side, vals=listn(val, 3, 12), slope=pick(0., .25, .1), wrap=pick("REPEAT", "CLAMP", "BLACK"), type=pick("float", "FLOAT", "rgb", "rgb3"))
pc = st.one_of(unit, unit, unif(-1.5, 2.5), pick(0., 1., .5, .25))
fsz = pick(.5, .2, .05, .01, 2., 1e-4)
iso = st.tuples(pc, pc).map(list)
isow = st.tuples(pc, pc, st.one_of(unit, unif(0., 1.5), pick(0., 1., .5, .25, .125, 2.))).map(list)
ani = st.tuples(pc, pc, fsz, fsz, gen_direction, pick(0, 0, 0, 1, 2)).map(
    lambda t: [t[0], t[1], t[2] * t[4][0], t[2] * t[4][1]] + ([t[3] * t[4][1], t[3] * t[4][2]] if t[5] == 0 else [0., 0.] if t[5] == 1 else [-t[3] * t[4][1], t[3] * t[4][0]]))
q = st.one_of(iso, isow, ani, ani)
pow2s = pick(1, 2, 4, 8)
imgp = dict(img, w=st.one_of(pow2s, side), h=st.one_of(pow2s, side))
fil = d(lw=pickint(0, 3), lh=pickint(0, 3), px=listn(pickint(0, 255), 3, 12), alpha=pick(False, False, True))
op = d(file=pickint(0, 3), type=pick("rgb", "rgb", "FLOAT", "float", "mixed"), uv=st.tuples(pick(1., 2., .5), pick(1., -1.), pick(0., .3), pick(0., .1)).map(list),
       trilinear=pick(False, True), aniso=pick(8., 1., 2.), wrap=pick("REPEAT", "CLAMP", "BLACK"), scale=pick(1., 1 / 255., 2.), gamma=pick(1., 2.2, .5))
CHECKS = [
    Check("pyramid", d(out=st.tuples(pickint(-20, 40), pickint(-20, 40)).map(list), **imgp), 900),
    Check("lookup", d(q=listn(q, 1, 5), trilinear=pick(False, False, False, True), aniso=pick(8., 8., 2., 1., 16.), **imgp), 1400),
    Check("constant", d(q=listn(q, 1, 3), trilinear=pick(False, False, True), aniso=pick(8., 2.), c=val, **imgp), 300),
    Check("kernel", d(o=pickint(1, 12), more=pickint(0, 12)), 200),
    Check("files", d(files=listn(fil, 1, 3), ops=listn(op, 1, 5), hits=listn(d(**hit), 1, 3)), 500),
]
