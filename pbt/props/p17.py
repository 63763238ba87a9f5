from core import *

MODULE = "p17"
RULE = ("Random points of the unit square (borders, centre, diagonals included), cone angles, axes, asymmetry parameters, strategies. Oracle: density "
        "times numerical area element of the warp equals one, plus cumulative relations. Every case away from kinks is non-trivial.")
ASSUMPTIONS = ["area elements are taken by central differences, to 1e-4, away from the creases of the concentric map"]
u = st.one_of(unit, unit, unit, pick(0., .5, .25, .75, 1 - 2. ** -53))
uv2 = st.tuples(u, u).map(list)
dens = st.one_of(unif(1e-4, 50.), unif(-6., 6.).map(lambda t: 10. ** t))
CHECKS = [
    Check("directions", d(kind=pick("sphere", "hemisphere", "cosine", "cone", "framecone"), u=uv2, ct=st.one_of(unit, unif(0., .1), pick(.5, 1.)).map(lambda x: max(x, 1e-3)), n=direction), 2400),
    Check("quadrants", d(u=uv2), 800),
    Check("disk", d(u=uv2), 1600),
    Check("rejection", d(seq=listn(u, 2, 10).map(lambda s: s[:len(s) // 2 * 2])), 400),
    Check("heuristics", d(nf=pickint(1, 16), ng=pickint(1, 16), f=dens, g=dens), 800),
    Check("moments_", d(kind=pick("sphere", "hemisphere", "cosine", "cone", "framecone", "henyey", "disk", "concentric", "triangle"), ct=st.one_of(unit, pick(.5, 1.)).map(lambda x: max(x, 1e-3)), n=direction, g=sym(.9)), 60),
    Check("henyey", d(u=uv2, n=direction, g=st.one_of(sym(.9), pick(0., .5, -.5, 1e-6))), 1200),
]
