from core import *

MODULE = "p32"
RULE = ("Pictures of 1 to 17 pixels a side with random, black and maximal values, written whole and then updated part by part, read back from disk after every step; files of several modes, formats and sizes to be read. "
        "Oracles: the byte arithmetic, the pixels of the file, flat pictures and ramps under resampling. Non-trivial: several colours; more than one pixel or a resampled picture.")
ASSUMPTIONS = ["values are not negative", "every channel is scaled to its own maximum, as the code does", "the quality of resampling is judged on flat pictures and ramps only"]
n = pick(1, 2, 2, 3, 4, 4, 5, 7, 8, 8, 12, 16, 16, 17)
CHECKS = [
    Check("write", d(w=n, h=n, seed=seed, top=st.tuples(*[pick(0., 1., 255., .001, 3.7, 1e6)] * 3).map(list), aslist=st.booleans(), name=pick("a.png", "b.png", "c"),
                     parts=listn(st.tuples(seed, pickint(0, 16), pickint(0, 16), pickint(0, 16), pickint(0, 16)).map(list), 0, 4)), 700),
    Check("read", d(w=n, h=n, seed=seed, mode=pick("RGB", "RGB", "RGBA", "L", "1"), ext=pick("png", "png", "tiff"), kind=pick("noise", "noise", "flat", "rampx", "rampy")), 900),
]
