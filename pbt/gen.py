"""Strategies. Every case is a plain JSON value: arrays are {'s': shape, 'h': hex, 'k': kind}."""
import numpy as np
from hypothesis import strategies as st

_DIV = {'fine': 4096.0, 'wide': 256.0, 'tiny': 2.0 ** 20}


@st.composite
def array(draw, shape, kinds=('fine', 'fine', 'grid', 'wide')):
    """An array case. fine: 16-bit values in [-8, 8); wide: in [-128, 128); tiny: around zero;
    grid: multiples of 1/2 in [-3, 3] (many ties); same: all rows of the last axes identical."""
    shape = [int(s) for s in shape]
    n = int(np.prod(shape))
    k = draw(st.sampled_from(kinds))
    h = draw(st.binary(min_size=2 * n, max_size=2 * n)).hex()
    return {'s': shape, 'h': h, 'k': k}


def large_array(shape):
    return seeds.map(lambda h: {'s': [int(k) for k in shape], 'h': h, 'k': 'seed'})


def dec(a):
    """Decode an array case."""
    if isinstance(a, (int, float)):
        return a
    if a['k'] == 'seed':              # normal numbers, for large arrays
        return np.round(np.random.default_rng(a['h']).standard_normal(a['s']) * 2, 6)
    u = np.frombuffer(bytes.fromhex(a['h']), dtype='>u2').astype(np.int64)
    z = (u >> 1) ^ -(u & 1)
    if a['k'] == 'grid':
        v = (np.abs(z) % 7) * np.where(z < 0, -1, 1) / 2.0
    elif a['k'] == 'unit':            # (0, 1)
        v = (u + 0.5) / 65536.0
    elif a['k'] == 'pos':             # (0, 16)
        v = (u + 1) / 4096.0
    else:
        v = z / _DIV[a['k']]
    return v.reshape(a['s']).astype(float)


def q(lo, hi, digits=3):
    """Floats on a decimal grid: shrink well and print well."""
    s = 10 ** digits
    return st.integers(int(round(lo * s)), int(round(hi * s))).map(lambda i: i / s)


def pick(*v):
    return st.sampled_from(v)


def ints(lo, hi):
    return st.integers(lo, hi)


seeds = st.integers(0, 2 ** 31 - 1)


def log_pos(lo_exp, hi_exp):
    """Positive floats spread over decades: m * 10**e."""
    return st.tuples(st.integers(10, 99), st.integers(lo_exp, hi_exp)).map(lambda t: t[0] / 10.0 * 10.0 ** t[1])


# ---- objectives ------------------------------------------------------------------------------
OBJ_KINDS = ('quad', 'rastr', 'abs', 'lin', 'floor', 'const', 'mix')


@st.composite
def objective(draw, kinds=OBJ_KINDS, inf=False, scale=True):
    o = {'kind': draw(st.sampled_from(kinds)), 'c': draw(q(-2, 2, 2)), 'w': draw(q(0, 1, 2))}
    if scale:
        o['scale'] = draw(pick(1.0, 1.0, 1.0, 0.01, 50.0))
        o['off'] = draw(pick(0.0, 0.0, -3.0, 1000.0))
    if inf:
        o['inf'] = draw(pick(None, None, 0.5, -1.0))
    return o


def obj_value(o, x, nd=1):
    """Value of objective spec `o` at points x[..., domain axes (nd of them)]."""
    x = np.asarray(x, dtype=float)
    x = x.reshape(x.shape[:x.ndim - nd] + (-1,))
    d = x.shape[-1]
    c = o['c']
    w = 1.0 + o['w'] * np.arange(d)
    z = x - c
    k = o['kind']
    if k == 'quad':
        v = (w * z ** 2).sum(-1)
    elif k == 'rastr':
        v = (w * z ** 2 + 2.5 * (1 - np.cos(3 * z))).sum(-1)
    elif k == 'abs':
        v = (w * np.abs(z)).sum(-1)
    elif k == 'lin':
        v = (w * z).sum(-1)
    elif k == 'floor':
        v = np.floor((w * np.abs(z)).sum(-1))
    elif k == 'const':
        v = 0.0 * z.sum(-1) + c
    else:                                  # not separable, not symmetric
        v = (z ** 2).sum(-1) + w[-1] * z[..., 0] * np.sin(z.sum(-1)) + o['w'] * z[..., -1]
    v = o.get('scale', 1.0) * v + o.get('off', 0.0)
    if o.get('inf') is not None:
        v = np.where(x[..., 0] > o['inf'], np.inf, v)
    return v
