"""Strategy vocabulary shared by the property modules (Hypothesis side)."""
from hypothesis import strategies as st


class Check(object):
    """One generated-input check of a property.

    name      function in cases/<module>.py that executes and judges one case
    strategy  Hypothesis strategy for the JSON argument object
    quick     number of generated cases in the quick tier (all shards together)
    thorough  same for the thorough tier (default 12x quick)
    """

    def __init__(self, name, strategy, quick, thorough=None, rule=""):
        self.name = name
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.rule = rule


# [0, 1), 48 random bits.  Bytes are drawn uniformly; Hypothesis draws wide integers with a strong bias to
# small magnitudes, which would put almost every "uniform" value next to 0.
unit = st.binary(min_size=6, max_size=6).map(lambda b: int.from_bytes(b, "big") / float(1 << 48))


def unif(lo, hi):
    """Full-precision uniform-ish reals of [lo, hi); shrinks to lo."""
    return unit.map(lambda u: lo + (hi - lo) * u)


def sym(m):
    """Reals of (-m, m), shrinking towards 0."""
    return st.tuples(st.booleans(), unit).map(lambda t: -m * t[1] if t[0] else m * t[1])


def grid(lo, hi, den=4):
    """Exactly representable lattice values: the source of ties and degeneracies."""
    return st.integers(int(lo * den), int(hi * den)).map(lambda k: k / float(den))


def real(m):
    """Mixture of lattice values and full-precision values in [-m, m]."""
    return st.one_of(grid(-m, m, 2), sym(m), sym(m))


def pos(lo, hi):
    return st.one_of(unif(lo, hi), unif(lo, hi), st.sampled_from([lo, hi, 1.0 if lo <= 1.0 <= hi else lo]))


def vec3(m):
    return st.tuples(real(m), real(m), real(m)).map(list)


def _dir_from(u):
    import math
    z = 1 - 2 * u[0]
    r = math.sqrt(max(0., 1 - z * z))
    p = 2 * math.pi * u[1]
    return [r * math.cos(p), r * math.sin(p), z]


AXES = [[1., 0., 0.], [-1., 0., 0.], [0., 1., 0.], [0., -1., 0.], [0., 0., 1.], [0., 0., -1.]]
_s = 0.7071067811865476
DIAGS = [[_s, _s, 0.], [0., _s, _s], [_s, 0., -_s], [-_s, _s, 0.]]
direction = st.one_of(st.sampled_from(AXES), st.tuples(unit, unit).map(_dir_from), st.tuples(unit, unit).map(_dir_from),
                      st.tuples(unit, unit).map(_dir_from), st.sampled_from(DIAGS))
gen_direction = st.tuples(unit, unit).map(_dir_from)
uv = st.tuples(unit, unit).map(list)
seed = st.binary(min_size=4, max_size=4).map(lambda b: int.from_bytes(b, 'big') & 0x7fffffff)


def t_translate(m=10.):
    return vec3(m).map(lambda v: ["T", v])


t_scale_uniform = st.one_of(st.sampled_from([.5, 2.]), unif(.2, 4.)).map(lambda s: ["S", [s, s, s]])
_sc = st.tuples(st.sampled_from([1, 1, 1, -1]), st.one_of(st.sampled_from([.5, 1., 2.]), unif(.2, 4.))).map(lambda t: t[0] * t[1])
_scp = st.one_of(st.sampled_from([.5, 1., 2.]), unif(.2, 4.))
t_scale = st.tuples(_sc, _sc, _sc).map(lambda s: ["S", list(s)])
t_scale_pos = st.tuples(_scp, _scp, _scp).map(lambda s: ["S", list(s)])
angle = st.one_of(st.sampled_from([0., 90., -90., 180., 45., 30., 270., 360.]), sym(360.))
t_rotate = st.tuples(angle, direction).map(lambda t: ["R", t[0], t[1]])


def chain(max_size=3, scales=True, mirror=True, m=10.):
    """List of elementary transforms, multiplied left to right."""
    alts = [t_translate(m), t_rotate]
    if scales:
        alts.append(t_scale if mirror else t_scale_pos)
    return st.lists(st.one_of(*alts), min_size=0, max_size=max_size)


rigid = chain(3, scales=False)


def d(**kw):
    return st.fixed_dictionaries(kw)


def pick(*xs):
    """Uniform choice (Hypothesis' own sampled_from favours the first elements)."""
    return st.binary(min_size=2, max_size=2).map(lambda b: xs[int.from_bytes(b, "big") % len(xs)])


def pickint(lo, hi):
    return st.binary(min_size=2, max_size=2).map(lambda b: lo + int.from_bytes(b, "big") % (hi - lo + 1))


def listn(el, lo, hi):
    """Lists whose length is uniform in lo..hi."""
    return pickint(lo, hi).flatmap(lambda n: st.lists(el, min_size=n, max_size=n))
