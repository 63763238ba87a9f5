from core import *

MODULE = "p33"
RULE = ("Numbers of all signs, sizes and types, values just inside and outside tolerances, powers of two and their neighbours up to 2^30, spectra and vectors, progress of every fraction. Oracles: the definitions. "
        "Non-trivial: fractions or negative numbers, no power of two, outside the tolerance or the limits, proper interpolation.")
ASSUMPTIONS = ["within 5% of a tolerance nothing is judged", "powers of two are judged for positive integers up to 2^30"]
big = st.one_of(grid(-4, 4), sym(1e3), sym(1e12), st.tuples(st.integers(-2000, 2000), pick(0., 1e-9, -1e-9, .5, .49999)).map(sum))
num = pick("float", "float", "np", "int", "uint")
n = st.one_of(st.integers(1, 1 << 30), st.tuples(pickint(0, 29), pick(-1, 0, 1)).map(lambda t: max(1, (1 << t[0]) + t[1])), pickint(1, 300))
v3 = st.tuples(real(5.), real(5.), real(5.)).map(list)
sp = st.tuples(v3, pick(1., 1., 1e-5, 1e-7, 0.)).map(lambda t: [x * t[1] for x in t[0]])
word = pick("", "Rendering", "a b", "Done")
CHECKS = [
    Check("rounding", d(x=big, type=pick("float", "np")), 3000),
    Check("powers", d(n=n), 3000),
    Check("comparisons", d(x=st.one_of(grid(-2, 2), sym(3.), sym(50.)), k=st.one_of(sym(.99), sym(3.), sym(300.), pick(0., .9, -.9, 1.1, -1.1))), 2500),
    Check("lerp", d(t=st.one_of(unit, unit, pick(0., 1., .5), sym(3.)), u=real(9.), v=real(9.), e=st.tuples(pickint(-18, 18), pickint(-18, 18)).map(list), p=v3, q=v3), 1500),
    Check("clip", d(x=real(9.), lo=real(5.), hi=real(5.), type=num, p=sp), 2000),
    Check("reports", d(total=pickint(1, 300), it=pickint(0, 1000), length=pickint(1, 100), decimals=pickint(1, 4), pre=word, suf=word), 1200),
]
