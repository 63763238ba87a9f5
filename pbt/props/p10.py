from props.shapes import *

MODULE = "p10"
RULE = ("Aggregates (SimpleAggregate, GridAccel refined eagerly and lazily, BVH by SAH and by midpoint with 1-8 primitives per leaf, "
        "aggregates of aggregates) over 1-10 random placed shapes and meshes, rows/planes/volumes of up to 40 spheres, up to 20 concentric spheres, and lattice "
        "meshes; histories of 4-10 closest-hit and shadow queries with random windows, and two threads asking at once, switched at chosen bytecode instructions. Oracle: closed-form model of every primitive "
        "(lattice: direct scan). Non-trivial: some query's ray meets at least two primitives (lattice: is a hit).")
ASSUMPTIONS = ["rays grazing a primitive, or whose window ends at a hit, are not judged (lattice meshes: they are)",
               "the accuracy of the shapes themselves is P05's subject"]
PT = chain(2, m=4.)
meshst = d(k=st.just("mesh"), P=st.lists(vec3(3.), min_size=3, max_size=7), vi=st.lists(st.integers(0, 6), min_size=3, max_size=15),
           ro=st.booleans(), t=PT)
speck = d(k=st.just("mesh"), P=st.lists(vec3(.3), min_size=3, max_size=5), vi=st.lists(st.integers(0, 6), min_size=3, max_size=9), ro=st.booleans(), t=chain(1, m=6.))
one = st.one_of(sphere(PT), sphere(PT), cyl(PT), disk(PT), tri(PT), meshst)
prims = listn(one, 1, 8)
ACC = pick("simple", "grid", "lazygrid", "sah", "sah", "middle", "middle", "default", "nested")
MP = pick(1, 2, 3, 4, 4, 6, 8, 255)
OUT = pick("simple", "grid", "lazygrid", "sah", "middle")
ray = d(i=pickint(0, 60), aim=aimst, w=window, cf=st.booleans())
rays = st.lists(ray, min_size=4, max_size=8)
CHECKS = [
    Check("nearest", d(prims=prims, acc=ACC, mp=MP, inner=OUT, outer=OUT, rays=rays), 640),
    Check("crowd", d(n=pickint(2, 40), seed=seed, dims=pickint(0, 7), snap=st.booleans(), skew=st.booleans(), rmax=st.sampled_from([.05, .3, 1.5]),
                     acc=ACC, mp=MP, inner=OUT, outer=OUT, rays=rays), 240),
    Check("lattice", d(n=st.integers(1, 4), m=st.integers(1, 4), ax=st.integers(0, 2), o=st.tuples(grid(-3, 0, 1), grid(-3, 0, 1)).map(list),
                       h=st.one_of(st.just([0.]), st.lists(grid(-2, 2, 2), min_size=1, max_size=8)),
                       acc=OUT, mp=MP, inner=OUT, outer=OUT,
                       rays=st.lists(st.tuples(st.integers(0, 8).map(float), st.integers(0, 8).map(float), st.sampled_from([1., -1.])).map(list), min_size=4, max_size=8)), 320),
    Check("empty", d(acc=OUT, mp=MP, o=vec3(3.), d=direction), 64),
    Check("shells", d(n=pickint(1, 20), c=vec3(3.), perm=listn(pickint(0, 30), 1, 5), acc=pick("simple", "grid", "sah", "middle", "default", "nested"), mp=pick(1, 2, 4, 4, 8, 16, 255), inner=OUT, outer=OUT,
                      rays=listn(d(d=direction, x=unit, out=st.booleans(), u=st.one_of(st.just(0.), unit), v=unit, inf=st.booleans()), 3, 8)), 160),
    Check("deep", d(n=pickint(2, 130), q=unif(1.3, 4.), ax=pickint(0, 2), side=pick(1., -1.), rho=unif(.1, .45), seed=seed, acc=pick("sah", "middle", "middle", "default"), mp=pick(1, 1, 2, 4),
                    inner=OUT, outer=OUT, rays=listn(st.tuples(pickint(0, 129), st.booleans(), unit, unit).map(list), 2, 8)), 64),
    Check("meanwhile", d(prims=listn(pick(0, 1, 2, 2).flatmap(lambda k: [one, meshst, speck][k]), 1, 5), acc=pick("lazygrid", "lazygrid", "lazygrid", "grid", "sah", "middle", "simple", "nested"), mp=MP, inner=OUT, outer=OUT,
                         rays=listn(ray, 1, 3), rays2=listn(ray, 1, 3), same=pick(True, True, False), files=pick("", "aggregate"), seed=seed, twice=pick(False, False, True)), 240),
]
