"""C17: advertised minimisers of the benchmark objectives are global minimisers."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, fail, hit, note, shape_is
from pbt.gen import dec, ints, pick, q

P = Prop('C17', assumptions=['the minimisers of functions without a minima attribute (McCormick, Rosenbrock, Quadratic) are those of the documentation',
                             'a search cannot prove global minimality', 'printed digits: 1e-5 for cross_in_tray, 1e-4 for Holder_table and '
                             'Michalewicz, 1e-3 for eggholder, 1e-7 for Himmelblau'])
PI = math.pi
num = q(-3, 3, 1)
posn = pick(1., .5, 2., 10., .1)


def opt(**k):
    return st.fixed_dictionaries({}, optional=k)


@st.composite
def terms(draw, d):
    n = draw(ints(1, 5))
    p = {'alpha': draw(st.lists(pick(1., 2., 3., .5), min_size=n, max_size=n)),
         'z': draw(st.lists(st.lists(num, min_size=d, max_size=d), min_size=n, max_size=n))}
    return p if draw(pick(True, True, False)) else {}


def box(lo, hi):
    return lambda p: (np.array(lo, float), np.array(hi, float))


def holder_box(p):
    s = np.array(p.get('shift', 0.)) * np.ones(2)
    k = 10 / p.get('factor', 1.)
    return s - k, s + k


def shifted(w, key):
    return lambda p: (np.array(p.get(key, 0.)) - w, np.array(p.get(key, 0.)) + w)


# name -> (parameters(d), dimension, minimal value(par), search box(par), tolerance, scale of the parameter in x)
OBJ = {
    'three_hump_camel': (lambda d: opt(), 2, 0., box(-5, 5), 1e-9),
    'McCormick': (lambda d: opt(), 2, -1.9132229549810367, box([-1.5, -3], [4, 4]), 1e-9),
    'Rosenbrock': (lambda d: opt(a=num, b=posn), 2, 0., box(-10, 10), 1e-9),
    'Himmelblau': (lambda d: opt(factor=posn), 2, 0., lambda p: (-6 / p.get('factor', 1.), 6 / p.get('factor', 1.)), 1e-7),
    'Rastrigin': (lambda d: opt(b=num, c=num, A=posn), None, lambda p: p.get('c', 0.), shifted(5.12, 'b'), 1e-9),
    'Rastrigin_multimodal': (terms, None, 0., box(-6, 6), 1e-6),
    'Ackley': (lambda d: opt(A=posn, b=pick(.2, .1, 1.), c=pick(2 * PI, 1., 3.),
                             minimum=st.one_of(num, st.lists(num, min_size=d, max_size=d))), None, 0., shifted(8, 'minimum'), 1e-9),
    'Ackley_multimodal': (terms, None, 0., box(-6, 6), 1e-9),
    'Bukin6': (lambda d: opt(), 2, 0., box([-15, -3], [-5, 3]), 1e-9),
    'cross_in_tray': (lambda d: opt(), 2, -2.06261, box(-10, 10), 1e-5),
    'Easom': (lambda d: opt(), 2, -1., box(-100, 100), 1e-9),
    'drop_wave': (lambda d: opt(), 2, -2., box(-5.12, 5.12), 1e-9),
    'Holder_table': (lambda d: opt(factor=posn, shift=st.one_of(num, st.lists(num, min_size=2, max_size=2))), 2, -19.2085, holder_box, 1e-4),
    # the square root of a rounded zero cosine: sqrt(1e-16)
    'snowflake': (lambda d: opt(alpha=posn), 2, -.25, lambda p: (-1.6 / p.get('alpha', .5), 1.6 / p.get('alpha', .5)), 1e-6),
    'eggholder': (lambda d: opt(), 2, -959.6407, box(-512, 512), 1e-3),
    'Michalewicz': (lambda d: pick({}, dict(d=2), dict(d=2, m=10)), 2, -1.8013, box(0, PI), 1e-4),
    'Quadratic': (lambda d: opt(alpha=posn), None, 0., box(-5, 5), 1e-9),
}


def make(name, par):
    import cbx.objectives as O
    p = dict(par)
    for k in ('z', 'minimum', 'shift'):
        if isinstance(p.get(k), list):
            p[k] = np.array(p[k], dtype=float)
    return getattr(O, name)(**p)


def minima(c, f):
    d = c['d']
    if c['name'] == 'McCormick':
        return np.array([[-.5471975511965976, -1.5471975511965976]])
    if c['name'] == 'Rosenbrock':
        a = c['par'].get('a', 1.)
        return np.array([[a, a * a]])
    if c['name'] == 'Quadratic':
        return np.zeros((1, d))
    m = np.asarray(f.minima, dtype=float)
    if m.ndim == 0:
        m = m.reshape(1, 1)
    m = np.atleast_2d(m)
    if m.shape[1] != d:
        m = np.repeat(m[:, :1], d, axis=1)
    return m


@st.composite
def case(draw):
    name = draw(pick(*OBJ))
    par, nd = OBJ[name][:2]
    d = nd or (draw(ints(1, 4)))
    return {'name': name, 'd': d, 'par': draw(par(d)), 'x': draw(gen.array([draw(ints(1, 40)), d], ('unit',))),
            'near': draw(gen.array([8, d], ('fine',))), 'r': draw(pick(1e-4, 1e-2, .05, .3, 1.)), 'k': draw(ints(0, 20))}


RULE = 'every objective with advertised minimisers and generated shift and scale parameters; '


def setup(c):
    par, nd, val, bx, tol = OBJ[c['name']]
    f = make(c['name'], c['par'])
    m = minima(c, f)
    v = val(c['par']) if callable(val) else val
    lo, hi = bx(c['par'])
    return f, m, v, np.broadcast_to(lo, c['d']), np.broadcast_to(hi, c['d']), tol


NUM = {'Rastrigin_multimodal': 3, 'Ackley_multimodal': 3}
COUNT = {'three_hump_camel': 1, 'Himmelblau': 4, 'Rastrigin': 1, 'Ackley': 1, 'Bukin6': 1, 'cross_in_tray': 4, 'Easom': 1, 'drop_wave': 1,
         'Holder_table': 4, 'snowflake': 6, 'eggholder': 1, 'Michalewicz': 1}


@P.facet('attained', case, quick=400, rule=RULE + 'the documented minimal value is attained at each of them; non-trivial: a parameter differs from its default, or several minimisers')
def attained(c):
    f, m, v, lo, hi, tol = setup(c)
    got = np.asarray(f(m))
    shape_is(got, (len(m),), 'values at the minimisers')
    for p, g in zip(m, got):
        if not abs(g - v) <= tol:
            fail('%s(%s) takes the value %r at its minimiser %s, documented %r' % (c['name'], c['par'], float(g), p.tolist(), v))
        if np.any(p < lo - 1e-9) or np.any(p > hi + 1e-9):
            fail('%s(%s): minimiser %s outside the domain' % (c['name'], c['par'], p.tolist()))
    if c['name'] in COUNT and len({tuple(p) for p in np.round(m, 9).tolist()}) != COUNT[c['name']]:
        fail('%s advertises %s' % (c['name'], m.tolist()))
    note(c['name'])
    if c['par'] or len(m) > 1:
        hit()


@P.facet('search', case, quick=600, rule=RULE + 'random and neighbouring points of the domain are not lower; non-trivial: 100 points or more tested')
def search(c):
    f, m, v, lo, hi, tol = setup(c)
    u = dec(c['x'])
    pts = [lo + u * (hi - lo)]
    rng = np.random.default_rng(c['k'])
    pts.append(lo + rng.random((200, c['d'])) * (hi - lo))
    near = m[c['k'] % len(m)] + c['r'] * dec(c['near']) / 8 * min(1., float(np.max(hi - lo)) / 4)
    pts.append(np.clip(near, lo, hi))
    x = np.concatenate(pts)
    y = np.asarray(f(x))
    i = int(np.argmin(y))
    if not y[i] >= v - tol or np.any(np.isnan(y)):
        fail('%s(%s) takes the value %r at %s, below its documented minimum %r' % (c['name'], c['par'], float(y[i]), x[i].tolist(), v))
    hit(c['name'])


@P.facet('descent', case, quick=250, rule=RULE + 'compass descent from a random point, from a minimiser, and from every mirrored minimiser finds nothing lower; non-trivial: always')
def descent(c):
    f, m, v, lo, hi, tol = setup(c)
    rng = np.random.default_rng(c['k'])
    starts = lo + rng.random((12, c['d'])) * (hi - lo)
    base = m[c['k'] % len(m)]
    signs = rng.choice([-1., 1.], (4, c['d']))
    starts = np.concatenate([starts, base[None], base + (rng.random((4, c['d'])) - .5) * .2 * (hi - lo) / 10,
                             np.clip(base * signs, lo, hi), np.clip(base[::-1] * signs, lo, hi)])
    starts = np.clip(starts, lo, hi)
    step = (hi - lo) / 8
    x, y = starts, np.asarray(f(starts))
    D = np.concatenate([np.eye(c['d']), -np.eye(c['d'])])
    for _ in range(45):
        cand = np.clip(x[:, None] + (D * step)[None], lo, hi)
        val = np.asarray(f(cand))
        j = np.argmin(val, 1)
        best = val[np.arange(len(x)), j]
        up = best < y
        x = np.where(up[:, None], cand[np.arange(len(x)), j], x)
        y = np.where(up, best, y)
        if not np.any(up):
            step = step / 2
            if np.all(step < 1e-9):
                break
    i = int(np.argmin(y))
    hit(c['name'])
    if not y[i] >= v - tol or np.any(np.isnan(y)):
        fail('%s(%s) takes the value %r at %s, below its documented minimum %r' % (c['name'], c['par'], float(y[i]), x[i].tolist(), v))


# distance from the place the descent arrives at: the digits of the advertised minimisers, or what rounding in the values allows
DIGITS = {'cross_in_tray': 1e-5, 'Holder_table': 1e-5, 'Himmelblau': 2e-6, 'eggholder': 1e-4, 'Michalewicz': 1e-2}
PRECISE = [n for n in OBJ if n not in ('Rastrigin_multimodal', 'Ackley_multimodal', 'Bukin6', 'Quadratic')]


@P.facet('precise', lambda: case().filter(lambda c: c['name'] in PRECISE), quick=120, rule='descent from every advertised minimiser ends where it starts, up to the digits given; non-trivial: several minimisers or digits')
def precise(c):
    f, m, v, lo, hi, tol = setup(c)
    par = c['par']
    near = DIGITS.get(c['name'], 2e-6) / par.get('factor', 1.) + 1e-12 * (1 + np.abs(m).max())
    D = np.concatenate([np.eye(c['d']), -np.eye(c['d'])])
    lo, hi = np.minimum(lo, m.min(0)), np.maximum(hi, m.max(0))
    x, y = m.copy(), np.asarray(f(m))
    step = 1e-3 * (hi - lo) / 10
    for _ in range(400):
        cand = np.clip(x[:, None] + (D * step)[None], lo, hi)
        val = np.asarray(f(cand))
        j = np.argmin(val, 1)
        best = val[np.arange(len(x)), j]
        up = best < y
        x = np.where(up[:, None], cand[np.arange(len(x)), j], x)
        y = np.where(up, best, y)
        if not np.any(up):
            step = step / 2
            if np.all(step < 1e-8 / par.get('factor', 1.)):
                break
    off = np.abs(x - m).max(1)
    i = int(np.argmax(off))
    if not off[i] <= near:
        fail('%s(%s): the lowest point near the minimiser %s is %s' % (c['name'], par, m[i].tolist(), x[i].tolist()))
    note(c['name'])
    if len(m) > 1 or c['name'] in DIGITS:
        hit(c['name'])
