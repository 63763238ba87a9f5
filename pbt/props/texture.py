from core import *

# texture mappings and texture trees
w2t = chain(3)
uvmap = st.tuples(st.just("uv"), st.tuples(*[st.one_of(unif(-6., 6.), pick(1., 2., 4., -1., .5))] * 2 + [st.one_of(unif(-3., 3.), pick(0., 0., .5))] * 2).map(list)).map(list)
plane = st.tuples(st.just("plane"), vec3(2.), vec3(2.), st.tuples(unif(-2., 2.), unif(-2., 2.)).map(list)).map(list)
ang = st.tuples(pick("sphere", "cylinder"), w2t).map(list)
map2 = st.one_of(uvmap, plane, ang)
map2f = st.one_of(uvmap, plane)
map3 = st.tuples(st.just("identity"), w2t).map(list)
rgbv = st.one_of(st.tuples(unit, unit, unit).map(list), pick([0., 0., 0.], [1., 1., 1.], [.5, .5, .5], [1., 0., 0.]))
flt = st.one_of(unit, unif(-2., 2.), pick(0., 1.))
omega = st.one_of(unit, pick(.5))


def leaf(col):
    c = st.tuples(st.just("const"), rgbv if col else flt).map(list)
    v4 = listn(rgbv if col else flt, 4, 4)
    b = st.tuples(st.just("bilerp"), map2, v4).map(list)
    if col:
        return st.one_of(c, b, st.tuples(st.just("uv"), map2).map(list),
                         st.tuples(st.just("marble"), map3, pickint(0, 6), omega, unif(.2, 3.), unif(0., 3.)).map(list))
    return st.one_of(c, b, st.tuples(pick("fbm", "wrinkled"), map3, pickint(0, 6), omega).map(list), st.tuples(st.just("windy"), map3).map(list))


def grow(col, depth):
    l = leaf(col)
    if depth == 0:
        return l
    s = grow(col, depth - 1)
    f = grow(False, depth - 1)
    return st.one_of(
        l,
        st.tuples(st.just("scale"), s, s).map(list),
        st.tuples(st.just("scale"), f, s).map(list),
        st.tuples(st.just("mix"), s, s, f).map(list),
        st.tuples(st.just("checks"), map2f, s, s, pick("none", "closedform", "closedform", None, "None", "ClosedForm")).map(list),
        st.tuples(st.just("checks"), map2, s, s, st.just("none")).map(list),
        st.tuples(st.just("checks3"), map3, s, s).map(list),
        st.tuples(st.just("dots"), map2, s, s).map(list))


tex = st.one_of(grow(True, 2), grow(False, 2))
size = pick(0., .001, .01, .05, .2, .6)
hit = dict(p=vec3(4.), u=unif(-2., 3.), v=unif(-2., 3.),
           duv=st.tuples(size, listn(unif(-1., 1.), 4, 4)).map(lambda t: [t[0] * x for x in t[1]]),
           dx=st.tuples(size, vec3(1.)).map(lambda t: [t[0] * x for x in t[1]]), dy=st.tuples(size, vec3(1.)).map(lambda t: [t[0] * x for x in t[1]]))
