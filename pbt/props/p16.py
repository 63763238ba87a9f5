from core import *

MODULE = "p16"
RULE = ("Tables of 1-12 (1-D) and 1-6 by 1-6 (2-D) values, full precision and lattice, with zeros, leading and trailing zero runs, zero rows and "
        "all-zero tables, half of them overwritten once the distribution is built; random numbers uniform, 0, on and next to the steps. Non-trivial: more than one entry and positive sum.")
ASSUMPTIONS = ["table values are non-negative and random numbers lie in [0, 1)", "an all-zero one-dimensional table is taken as uniform, two-dimensional tables are not all zero"]
f = st.one_of(unit, unif(0., 10.), pick(0., 0., 1., 2.))
u = st.one_of(unit, unit, pick(0., .5, .25, .75, 1 - 2. ** -53))
CHECKS = [
    Check("one", d(f=listn(f, 1, 12), zero=pick(*([False] * 19 + [True])), arr=st.booleans(), own=st.booleans(), us=listn(u, 1, 6)), 2400),
    Check("two", d(nv=pickint(1, 6), nu=pickint(1, 6), g=listn(f, 36, 36), zero=st.just(False), own=st.booleans(), zrow=st.one_of(st.none(), pickint(0, 5)),
                   uv=listn(st.tuples(u, u).map(list), 1, 4)), 1200),
]
