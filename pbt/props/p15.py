from core import *

MODULE = "p15"
RULE = ("Stratified samplers over random pixel windows (offset, 1-7 by 1-7, and windows without pixels), 0-4 by 0-4 strata, with and without jitter, with integrator "
        "requests and constant or random generators; sub-windows for 1-40 tiles. Non-trivial: several samples or tiles over several pixels.")
ASSUMPTIONS = ["random numbers of the generator lie in [0, 1)"]
base = dict(win=st.tuples(pickint(-5, 9), pickint(-5, 9), pickint(1, 7), pickint(1, 7)).map(list), n=st.tuples(pickint(0, 4), pickint(0, 4)).map(list),
            jitter=st.booleans(), shutter=st.tuples(sym(3.), st.one_of(st.just(0.), unif(.1, 2.))).map(lambda t: [t[0], t[0] + t[1]]),
            seed=seed, rng=pick("rand", "rand", "const"), c=st.one_of(unit, pick(0., .5, .999999)))
req = listn(pickint(1, 6), 0, 2)
CHECKS = [
    Check("run", d(n1=req, n2=req, m1=listn(pickint(1, 6), 0, 1), **base), 480),
    Check("empty", d(win=st.tuples(pickint(-5, 9), pickint(-5, 9), pickint(-2, 3), pickint(-2, 3)).map(list), n=base["n"], jitter=base["jitter"],
                     shutter=base["shutter"], seed=seed, rng=base["rng"], c=base["c"]), 240),
    Check("tiles", d(cnt=st.one_of(pickint(1, 40), pick(1, 2, 4, 8, 16, 32)), **base), 640),
    Check("patterns", d(cnt=pickint(1, 40), **base), 800),
]
