from core import *

MODULE = "p31"
RULE = ("Histories of up to 30 calls of the scene-description API (sessions, transformations, saved and named states, settings, camera, unmatched ends, calls outside a session), judged after every call "
        "against a reference graphics state; histories on two parameter lists against queues. Non-trivial: states are restored, used or inverted in at least two ways; several parameters are taken.")
ASSUMPTIONS = ["attribute and transform blocks that cross each other are not judged", "look-at directions are kept off the up axis"]
nm = pick("a", "b", "world", "camera", "none")
sc = st.tuples(pick(1., 1., -1.), unif(.4, 2.5)).map(lambda t: t[0] * t[1])
arr = st.booleans()
J = st.just
OPS = dict(
    T=st.tuples(J("T"), vec3(5.), arr), S=st.tuples(J("S"), st.tuples(sc, sc, sc).map(list), arr), R=st.tuples(J("R"), angle, direction, arr),
    look=st.tuples(J("look"), vec3(5.), direction, unif(.2, 9.), gen_direction, arr),
    concat=st.tuples(J("concat"), angle, direction, vec3(4.)), set=st.tuples(J("set"), angle, direction, vec3(4.)), identity=J(["identity"]),
    name=st.tuples(J("name"), nm), use=st.tuples(J("use"), nm), time=st.tuples(J("time"), grid(-1, 1), grid(1, 3)),
    what=st.tuples(J("what"), pick("pixel_filter", "film", "camera", "camera", "sampler", "aggregator", "renderer", "surface", "volume"), pick("Box", "Image", "PERSPECTIVE", "x", "Mixed Case", "")),
    world=J(["world"]), abegin=J(["abegin"]), aend=J(["aend"]), tbegin=J(["tbegin"]), tend=J(["tend"]),
    init=st.tuples(J("init"), pick("", "out.png"), st.booleans(), pickint(1, 8)), clean=J(["clean"]))
op = pick(*(2 * "T T S R look concat set identity name name use use use time what what what world abegin abegin abegin aend aend aend tbegin tbegin tend tend T R".split() + ["init", "clean"])).flatmap(lambda k: OPS[k]).map(list)
val = st.one_of(st.integers(-3, 3), sym(9.), st.lists(st.integers(0, 3), max_size=3), st.text(max_size=3), st.none(), st.booleans())
CHECKS = [
    Check("history", d(start=pick(True, True, True, True, False), ops=listn(op, 1, 30)), 900),
    Check("params", d(ops=listn(st.tuples(pickint(0, 1), pick("push", "push", "push", "next", "next", "fetch", "more"), pick("float", "int", "bool", "vector", "normal", "spectrum", "point", "string", "float", "int", "string", "double"), val).map(list), 1, 30)), 1000),
]
