"""P09 Loop subdivision against an independent implementation of the scheme."""
import math
from cases.base import *
from cases.p03 import build as build_t
import pytracer.geometry as geo
from pytracer.shape import create_loop_subdiv


def base(a):
    k, n, m = a["k"], a["n"], a["m"]
    if k == "tetra":
        P = [[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]
        F = [[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]]
    elif k == "bipyramid":
        n = max(3, n)
        P = [[math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), 0] for i in range(n)] + [[0, 0, 1], [0, 0, -1]]
        F = []
        for i in range(n):
            j = (i + 1) % n
            F += [[i, j, n], [j, i, n + 1]]
    elif k == "fan":          # one interior vertex of valence n
        n = max(3, n)
        P = [[math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), 0] for i in range(n)] + [[0, 0, .3]]
        F = [[i, (i + 1) % n, n] for i in range(n)]
    elif k == "open":         # one boundary vertex with n wedges
        n = max(1, n)
        P = [[math.cos(math.pi * i / n), math.sin(math.pi * i / n), 0] for i in range(n + 1)] + [[0, 0, .2]]
        F = [[i, i + 1, n + 1] for i in range(n)]
    else:                     # patch with random diagonals
        m = max(1, m)
        n = max(1, n)
        P = [[i, j, 0] for j in range(m + 1) for i in range(n + 1)]
        F = []
        for j in range(m):
            for i in range(n):
                q = [j * (n + 1) + i, j * (n + 1) + i + 1, (j + 1) * (n + 1) + i + 1, (j + 1) * (n + 1) + i]
                if a["diag"] >> ((j * n + i) % 16) & 1:
                    F += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
                else:
                    F += [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
    J = a["jit"]
    P = [[float(P[i][c]) + J[(3 * i + c) % len(J)] for c in range(3)] for i in range(len(P))]
    # relabel vertices, rotate and reorder faces
    key = a["perm"]
    order = sorted(range(len(P)), key=lambda i: (key[i % len(key)], i))
    new = {o: i for i, o in enumerate(order)}
    P = [P[o] for o in order]
    F = [[new[v] for v in f] for f in F]
    F = [f[key[i % len(key)] % 3:] + f[:key[i % len(key)] % 3] for i, f in enumerate(F)]
    F = [F[i] for i in sorted(range(len(F)), key=lambda i: (key[(i * 7 + 3) % len(key)], i))]
    return P, F


def edges(F):
    E = {}
    for f in F:
        for i in range(3):
            E.setdefault(frozenset((f[i], f[(i + 1) % 3])), []).append(f[(i + 2) % 3])
    return E


def rings(P, F, E):
    nb = [set() for _ in P]
    bd = [set() for _ in P]
    for e, opp in E.items():
        x, y = tuple(e)
        nb[x].add(y)
        nb[y].add(x)
        if len(opp) == 1:
            bd[x].add(y)
            bd[y].add(x)
    return nb, bd


def comb(P, terms):
    return [sum(w * P[i][c] for w, i in terms) for c in range(3)]


def beta(n):
    return 3. / 16 if n == 3 else 3. / (8 * n)


def step(P, F):
    E = edges(F)
    nb, bd = rings(P, F, E)
    Q = []
    for v in range(len(P)):
        if bd[v]:
            Q.append(comb(P, [(.75, v)] + [(.125, w) for w in bd[v]]))
        else:
            n = len(nb[v])
            b = beta(n)
            Q.append(comb(P, [(1 - n * b, v)] + [(b, w) for w in nb[v]]))
    mid = {}
    for e, opp in E.items():
        x, y = tuple(e)
        mid[e] = len(Q)
        if len(opp) == 1:
            Q.append(comb(P, [(.5, x), (.5, y)]))
        else:
            Q.append(comb(P, [(.375, x), (.375, y), (.125, opp[0]), (.125, opp[1])]))
    G = []
    for a, b, c in F:
        ab, bc, ca = mid[frozenset((a, b))], mid[frozenset((b, c))], mid[frozenset((c, a))]
        G += [[a, ab, ca], [ab, b, bc], [ca, bc, c], [ab, bc, ca]]
    return Q, G


def limit(P, F):
    E = edges(F)
    nb, bd = rings(P, F, E)
    out = []
    for v in range(len(P)):
        if bd[v]:
            out.append(comb(P, [(.6, v)] + [(.2, w) for w in bd[v]]))
        else:
            n = len(nb[v])
            g = 1. / (n + 3. / (8 * beta(n)))
            out.append(comb(P, [(1 - n * g, v)] + [(g, w) for w in nb[v]]))
    return out


def run(P, F, t, ro, levels):
    T = build_t(t)
    s = create_loop_subdiv(T, T.inverse(), ro, {"nlevels": levels, "indices": [i for f in F for i in f], "P": [c for p in P for c in p]})
    return s


def subdivide(a):
    P, F = base(a)
    L = a["levels"]
    s = run(P, F, a["t"], a["ro"], L)
    require(not s.can_intersect(), "an unrefined subdivision surface claims to be intersectable")
    M = mchain(a["t"])
    lo = [min(p[c] for p in P) for c in range(3)]
    hi = [max(p[c] for p in P) for c in range(3)]
    ob = s.object_bound()
    req_vclose(ob.pMin, lo, "object bound", 1e-9, 1e-9)
    req_vclose(ob.pMax, hi, "object bound", 1e-9, 1e-9)
    W = [mapply_point(M, p) for p in P]
    wb = s.world_bound()
    r = s.refine()
    require(len(r) == 1, "refine() returned %d shapes", len(r))
    me = r[0]
    Q, G = P, F
    for _ in range(L):
        Q, G = step(Q, G)
    lim = [mapply_point(M, p) for p in limit(Q, G)]
    require(me.ntris == len(F) * 4 ** L == len(G), "%d triangles, expected %d", me.ntris, len(G))
    require(me.nverts == len(Q), "%d vertices, expected %d", me.nverts, len(Q))
    sz = 1 + max(vlen(p) for p in W)
    # old vertices keep their order; match every vertex through geometry
    gp = [fl(p) for p in me.p]
    tol = 1e-8 * sz
    buckets = {}
    for i, p in enumerate(lim):
        buckets.setdefault(tuple(int(math.floor(c / (sz * 1e-5))) for c in p), []).append(i)
    where = []
    for i, p in enumerate(gp):
        k = [int(math.floor(c / (sz * 1e-5))) for c in p]
        found = None
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                for dz in (-1, 0, 1):
                    for j in buckets.get((k[0] + dx, k[1] + dy, k[2] + dz), ()):
                        if vlen(vsub(lim[j], p)) <= tol:
                            if found is not None and found != j:
                                raise Reject()       # coincident vertices
                            found = j
        require(found is not None, "vertex %d at %r is not a limit vertex of the scheme", i, p)
        where.append(found)
    require(len(set(where)) == len(lim), "some limit vertices are missing")
    got = sorted(rot([where[i] for i in me.vertexIndex[3 * k:3 * k + 3]]) for k in range(me.ntris))
    exp = sorted(rot(f) for f in G)
    require(got == exp, "triangulation differs: %r... expected %r...", [x for x in got if x not in exp][:3], [x for x in exp if x not in got][:3])
    for p in gp:
        for c in range(3):
            require(wb.pMin[c] - tol <= p[c] <= wb.pMax[c] + tol, "limit vertex %r outside the world bound", p)
    require(me.ro == bool(a["ro"]), "orientation flag lost")
    require([fl(v.P) for v in s.vertices] == P, "refining changed the control points")
    nb, bd = rings(P, F, edges(F))
    val = set(len(x) for x, b in zip(nb, bd) if not b)
    nontriv(L > 0 and len(F) > 1)
    for v in val:
        label("interior valence %d" % min(v, 9))
    label("levels %d" % L)
    if any(bd):
        label("boundary")


def rot(f):
    k = f.index(min(f))
    return tuple(f[k:] + f[:k])


def normals(a):
    """vertex normals are orthogonal to the limit surface: they agree with the face normals of a fine level, all on one side"""
    P, F = base(a)
    if a["k"] == "open" and a["n"] < 2 and False:
        raise Reject()
    s = run(P, F, [], False, a["levels"])
    me = s.refine()[0]
    gp = [fl(p) for p in me.p]
    N = [fl(n) for n in me.n]
    require(len(N) == len(gp), "%d normals for %d vertices", len(N), len(gp))
    acc = [[0., 0., 0.] for _ in gp]
    worst = [1.] * len(gp)
    fn = []
    for k in range(me.ntris):
        i, j, l = me.vertexIndex[3 * k:3 * k + 3]
        n = vcross(vsub(gp[j], gp[i]), vsub(gp[l], gp[i]))
        fn.append((i, j, l, n))
        for v in (i, j, l):
            acc[v] = vadd(acc[v], n)
    sgn = []
    for i, j, l, n in fn:
        for v in (i, j, l):
            if vlen(n) > 0 and vlen(acc[v]) > 0:
                worst[v] = min(worst[v], vdot(vnorm(n), vnorm(acc[v])))
    for v in range(len(gp)):
        for c in N[v]:
            require(isfinite(c), "normal %r at vertex %d", N[v], v)
        if worst[v] < .97:        # not flat enough at this resolution to compare with faces
            continue
        require(vlen(N[v]) > 0, "zero normal at a smooth vertex")
        c = vdot(vnorm(N[v]), vnorm(acc[v]))
        require(abs(c) > .9, "vertex normal %r at %r deviates from the surface normal %r (cos %r)", vnorm(N[v]), gp[v], vnorm(acc[v]), c)
        sgn.append(c > 0)
    if not sgn:
        raise Reject()
    require(all(sgn) or not any(sgn), "vertex normals point to both sides of the surface")
    nontriv(len(sgn) > 3)


def affine(a):
    """subdivision commutes with affine maps of the control points"""
    P, F = base(a)
    M = mchain(a["t"])
    A = run(P, F, a["t"], False, a["levels"]).refine()[0]
    B = run([mapply_point(M, p) for p in P], F, [], False, a["levels"]).refine()[0]
    sz = 1 + max(vlen(fl(p)) for p in B.p)
    require(list(A.vertexIndex) == list(B.vertexIndex), "connectivity depends on the positions")
    for p, q in zip(A.p, B.p):
        req_vclose(p, fl(q), "vertex", 1e-8, 1e-8 * sz)
    nontriv(len(a["t"]) > 0 and a["levels"] > 0)


def rejects(a):
    P, F = base(a)
    good = {"nlevels": 1, "indices": [i for f in F for i in f], "P": [c for p in P for c in p]}
    T = build_t([])
    mk = lambda d: create_loop_subdiv(T, T.inverse(), False, d)
    require(mk(dict(good)) is not None, "good description refused")
    d3 = dict(good)
    del d3["nlevels"]
    require(mk(d3).nLevels == 3, "default level count %r", mk(d3).nLevels)
    k = a["bad"]
    d_ = dict(good)
    if k == "noP":
        del d_["P"]
    elif k == "noindices":
        del d_["indices"]
    elif k == "P":
        d_["P"] = good["P"][:-1]
    elif k == "indices":
        d_["indices"] = good["indices"][:-1]
    require(mk(d_) is None, "malformed description (%s) accepted", k)
    nontriv()
