"""C16: benchmark objectives act pointwise with their documented formulas."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is
from pbt.gen import dec, ints, pick, q

P = Prop('C16', assumptions=['Rastrigin is the unnormalised sum (its documentation mentions a factor 1/n that neither the code nor the '
                             'cited definition has)', 'objectives without a documented formula: the formula is the one of the code base',
                             'list-valued parameters are given as lists'])
E, PI = math.e, math.pi
sin, cos, exp, sqrt = math.sin, math.cos, math.exp, math.sqrt


# (value, size of the terms that cancel) at one point
def rastrigin(x, b=0., c=0., A=10.):
    t = [(v - b) ** 2 - A * cos(2 * PI * (v - b)) + A for v in x]
    return sum(t) + c, sum(abs(v) + 2 * abs(A) for v in t) + abs(c)


def ackley(x, A=20., b=.2, c=2 * PI, minimum=0.):
    mu = minimum if isinstance(minimum, list) else [minimum] * len(x)
    z = [v - k for v, k in zip(x, mu)]
    d = len(z)
    r = sqrt(sum(v * v for v in z) / d)
    return -A * exp(-b * r) - exp(sum(cos(c * v) for v in z) / d) + A + E, 2 * abs(A) + 6


def product(V):
    def f(x, alpha=None, z=None):
        alpha = alpha or [1.]
        z = z if z is not None else [[0.]] * len(alpha)
        val, size = 1., 1.
        for a, s in zip(alpha, z):
            s = s if len(s) == len(x) else s * len(x)
            v, k = V([a * (p - t) for p, t in zip(x, s)])
            val, size = val * v, size * max(1., k)
        return val, size
    return f


def camel(x):
    a, b = x[0], x[1]
    return 2 * a * a - 1.05 * a ** 4 + a ** 6 / 6 + a * b + b * b, abs(a) ** 6 + a ** 4 + 2 * a * a + b * b


def mccormick(x):
    a, b = x[0], x[1]
    return sin(a + b) + (a - b) ** 2 - 1.5 * a + 2.5 * b + 1, 3 + (a - b) ** 2 + 3 * abs(a) + 3 * abs(b)


def rosenbrock(x, a=1., b=100.):
    return (a - x[0]) ** 2 + b * (x[1] - x[0] ** 2) ** 2, 1 + abs(b) * (x[1] ** 2 + x[0] ** 4)


def himmelblau(x, factor=1.):
    a, b = factor * x[0], factor * x[1]
    return (a * a + b - 11) ** 2 + (a + b * b - 7) ** 2, (a * a + abs(b) + 11) ** 2 + (abs(a) + b * b + 7) ** 2


def acc_sin(x, a=1.):
    r2 = sum(v * v for v in x)
    return sin(a * sqrt(r2) / (1 + r2)) + 1, 2.


def nd_sin(x, a=1.):
    y = [.3 * v for v in x]
    z = sum(v * v for v in y) / len(y)
    return (sin(z) + 1) * (y[0] ** 4 - y[0] ** 2 + 1), 2 * (y[0] ** 4 + y[0] ** 2 + 1)


def p4(x):
    s4, s2 = sum(v ** 4 for v in x), sum(v ** 2 for v in x)
    return s4 - s2 + 1, s4 + s2 + 1


def quadratic(x, alpha=1.):
    v = sum((alpha * t) ** 2 for t in x)
    return v, v


def banana(x, m=0, sigma=.5, sigma_prior=2):
    G = (x[1] - 1) ** 2 - (x[0] - 2.5) - 1
    r2 = sum(v * v for v in x)
    return (G - m) ** 2 / (2 * sigma ** 2) + r2 / (2 * sigma_prior ** 2), (abs(G) + abs(m) + abs(x[0]) + 4) ** 2 / sigma ** 2 + r2


def nlse(terms):
    k = max(terms)
    return -(k + math.log(sum(exp(t - k) for t in terms)))


def bimodal(x, a=None, b=None):
    a, b = a or [1., 1.5], b or [-1.2, -.7]
    t = [-(x[0] - a[0]) ** 2 - (x[1] - a[1]) ** 2 / .2, math.log(.5) - (x[0] - b[0]) ** 2 / 8 - (x[1] - b[1]) ** 2 / .5]
    return nlse(t), 1 + abs(max(t))


def unimodal(x, a=None):
    a = a or [-1.2, -.7]
    v = (x[0] - a[0]) ** 2 / 8 + (x[1] - a[1]) ** 2 / .5 - math.log(.5)
    return v, 1 + v


def multimodal(x, means=None, covs=None):
    means = means or [[0., 0.]]
    covs = covs or [[[1., 0.], [0., 1.]]]
    t = []
    for m, c in zip(means, covs):
        (p, r), (_, s) = c
        det = p * s - r * r
        u, v = x[0] - m[0], x[1] - m[1]
        t.append(-.5 * (s * u * u - 2 * r * u * v + p * v * v) / det - math.log(2 * PI) - .5 * math.log(det))
    return nlse(t), 10 + 10 * abs(max(t))


def bukin(x):
    w = x[1] - .01 * x[0] ** 2
    # the square root amplifies the rounding of a vanishing argument
    return 100 * sqrt(abs(w)) + .01 * abs(x[0] + 10), 1e2 * (1 + 1e-5 / max(sqrt(abs(w)), 1e-8))


def cross(x):
    r = sqrt(x[0] ** 2 + x[1] ** 2)
    v = abs(sin(x[0]) * sin(x[1]) * exp(abs(100 - r / PI)))
    return -.0001 * (v + 1) ** .1, .0001 * (v + 1) ** .1 + 1e-4


def easom(x):
    v = exp(-((x[0] - PI) ** 2 + (x[1] - PI) ** 2))
    return -cos(x[0]) * cos(x[1]) * v, v


def dropw(x):
    r2 = x[0] ** 2 + x[1] ** 2
    return -(1 + cos(12 * sqrt(r2))) * exp(-.5 * r2 / (1 + .001 * r2)), 1e2 * exp(-.5 * r2 / (1 + .001 * r2))


def holder(x, factor=1., shift=0):
    s = shift if isinstance(shift, list) else [shift] * 2
    a, b = (x[0] - s[0]) * factor, (x[1] - s[1]) * factor
    v = exp(abs(1 - sqrt(a * a + b * b) / PI))
    return -abs(sin(a) * cos(b) * v), v * (1 + abs(a) + abs(b))


def snow(x, alpha=.5):
    a, b = alpha * x[0], alpha * x[1]
    r, phi = sqrt(a * a + b * b), math.atan2(b, a)
    v = .8
    for i in range(3):
        v = min(v, r ** 8 - r ** 4 + sqrt(abs(cos(phi + i * PI / 3))) * r ** .3)
    return v, 100.


def egg(x):
    a, b = x
    u, v = abs(b + a / 2 + 47), abs(a - (b + 47))
    k = 1e-6 / max(min(sqrt(u), sqrt(v)), 1e-7)
    return -(b + 47) * sin(sqrt(u)) - a * sin(sqrt(v)), (abs(a) + abs(b) + 47) * (10 + k)


def michal(x, m=10):
    return -sum(sin(v) * sin((i + 1) * v * v / PI) ** (2 * m) for i, v in enumerate(x)), \
        sum(1 + (i + 1) * v * v for i, v in enumerate(x)) * m


num = q(-3, 3, 1)
posn = pick(1., .5, 2., 10., .1)
pair = st.lists(q(-3, 3, 1), min_size=2, max_size=2)


def opt(**k):
    """Each parameter is given or left at its default."""
    return st.fixed_dictionaries({}, optional=k)


@st.composite
def terms(draw, d):
    n = draw(ints(1, 5))
    p = {'alpha': draw(st.lists(pick(1., 2., 3., .5), min_size=n, max_size=n))}
    if draw(st.booleans()):
        k = draw(pick(1, d))
        p['z'] = draw(st.lists(st.lists(num, min_size=k, max_size=k), min_size=n, max_size=n))
    return p if draw(pick(True, True, False)) else {}


@st.composite
def normals(draw):
    n = draw(ints(1, 3))
    if draw(pick(False, False, True)):
        return {}
    cov = st.tuples(q(.5, 2, 1), q(-.4, .4, 1), q(.5, 2, 1)).map(lambda t: [[t[0], t[1]], [t[1], t[2]]])
    return {'means': draw(st.lists(pair, min_size=n, max_size=n)), 'covs': draw(st.lists(cov, min_size=n, max_size=n))}


# name -> (reference, parameters(d), number of dimensions or None)
OBJ = {
    'three_hump_camel': (camel, lambda d: opt(), 2), 'McCormick': (mccormick, lambda d: opt(), 2),
    'Rosenbrock': (rosenbrock, lambda d: opt(a=num, b=posn), 2), 'Himmelblau': (himmelblau, lambda d: opt(factor=posn), 2),
    'Rastrigin': (rastrigin, lambda d: opt(b=num, c=num, A=posn), None),
    'Rastrigin_multimodal': (product(rastrigin), terms, None),
    'Ackley': (ackley, lambda d: opt(A=posn, b=pick(.2, .1, 1.), c=pick(2 * PI, 1., 3.),
                                     minimum=st.one_of(num, st.lists(num, min_size=d, max_size=d))), None),
    'Ackley_multimodal': (product(ackley), terms, None),
    'accelerated_sinus': (acc_sin, lambda d: opt(a=posn), None), 'nd_sinus': (nd_sin, lambda d: opt(a=posn), None),
    'p_4th_order': (p4, lambda d: opt(), None), 'Quadratic': (quadratic, lambda d: opt(alpha=posn), None),
    'Banana': (banana, lambda d: opt(m=num, sigma=posn, sigma_prior=posn), 2),
    'Bimodal': (bimodal, lambda d: opt(a=pair, b=pair), 2), 'Unimodal': (unimodal, lambda d: opt(a=pair), 2),
    'Multimodal': (multimodal, lambda d: normals(), 2), 'Bukin6': (bukin, lambda d: opt(), 2),
    'cross_in_tray': (cross, lambda d: opt(), 2), 'Easom': (easom, lambda d: opt(), 2), 'drop_wave': (dropw, lambda d: opt(), 2),
    'Holder_table': (holder, lambda d: opt(factor=posn, shift=st.one_of(num, pair)), 2),
    'snowflake': (snow, lambda d: opt(alpha=posn), 2), 'eggholder': (egg, lambda d: opt(), 2),
    'Michalewicz': (michal, lambda d: st.tuples(ints(1, 12), st.booleans()).map(lambda t: dict(d=d, m=t[0]) if t[1] else {}), None),
}


def make(name, par):
    import cbx.objectives as O
    p = dict(par)
    for k in ('z', 'minimum', 'shift'):
        if isinstance(p.get(k), list):
            p[k] = np.array(p[k], dtype=float)
    for k in ('means', 'covs'):
        if k in p:
            p[k] = [np.array(v, dtype=float) for v in p[k]]
    return getattr(O, name)(**p)


@st.composite
def case(draw):
    name = draw(pick(*OBJ))
    ref, par, nd = OBJ[name]
    d = nd or draw(ints(1, 5))
    lead = draw(st.lists(ints(1, 4), max_size=3))
    return {'name': name, 'par': draw(par(d)), 'x': draw(gen.array(lead + [d], ('fine', 'fine', 'grid', 'wide'))),
            'int': draw(pick(False, False, False, True)), 'perm': draw(gen.seeds)}


RULE = 'every benchmark objective with generated parameters on arrays of shape (d,) to (a, b, c, d); '


def reference(c, x):
    f = OBJ[c['name']][0]
    par = {k: v for k, v in c['par'].items() if not (c['name'] == 'Michalewicz' and k == 'd')}
    flat = x.reshape(-1, x.shape[-1])
    v = [f([float(t) for t in p], **par) for p in flat]
    return np.array([a for a, _ in v]).reshape(x.shape[:-1]), np.array([b for _, b in v]).reshape(x.shape[:-1])


def points(c):
    x = dec(c['x'])
    if c['int']:
        x = np.rint(x).astype(int)
    return x


def agree(v, want, size, what):
    v = np.asarray(v)
    shape_is(v, want.shape, what)
    tol = 1e-9 * np.abs(want) + 1e-10 * size + 1e-12
    bad = ~(np.abs(v - want) <= tol)
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(bad)[0]) if v.ndim else ()
        fail('%s: got %r, the formula gives %r at %s' % (what, float(v[i]), float(want[i]), list(i)))


@P.facet('formula', case, quick=1500, rule=RULE + 'values equal a scalar reference, inputs stay intact, counter; non-trivial: two points or a singleton axis')
def formula(c):
    x = points(c)
    want, size = reference(c, x)
    f = make(c['name'], c['par'])
    given = x.copy()
    agree(f(given), want, size, c['name'])
    exact(given, x, 'points passed to ' + c['name'])
    n = want.size
    if f.num_eval != n:
        fail('%s counts %r evaluations of %d points' % (c['name'], f.num_eval, n))
    agree(f(given), want, size, 'second evaluation of ' + c['name'])
    if f.num_eval != 2 * n:
        fail('%s counts %r evaluations of %d points' % (c['name'], f.num_eval, 2 * n))
    f.reset()
    if f.num_eval != 0:
        fail('%d evaluations after reset' % f.num_eval)
    note(c['name'], 'ndim %d' % x.ndim, 'integer' if c['int'] else 'float')
    if n > 1 or 1 in x.shape[:-1]:
        hit()


@P.facet('independent', case, quick=500, rule=RULE + 'value of a point is the same alone, reordered, reshaped or for another object; non-trivial: two points')
def independent(c):
    x = points(c)
    want, size = reference(c, x)
    d = x.shape[-1]
    flat = x.reshape(-1, d)
    order = np.random.default_rng(c['perm']).permutation(len(flat))
    f = make(c['name'], c['par'])
    make(c['name'], {})                        # another object with default parameters changes nothing
    agree(f(flat[order]), want.reshape(-1)[order], size.reshape(-1)[order], c['name'] + ' of reordered points')
    k = order[0]
    agree(f(flat[k]), want.reshape(-1)[k].reshape(()), size.reshape(-1)[k].reshape(()), c['name'] + ' of one point')
    agree(f(flat[:, None, :]), want.reshape(-1, 1), size.reshape(-1, 1), c['name'] + ' of shape (n, 1, d)')
    agree(f(flat[None]), want.reshape(1, -1), size.reshape(1, -1), c['name'] + ' of shape (1, n, d)')
    ff = np.asfortranarray(flat)
    agree(f(ff), want.reshape(-1), size.reshape(-1), c['name'] + ' of Fortran-ordered points')
    if len(flat) > 1:
        hit(c['name'])


@P.facet('ensemble', case, quick=120, rule='a dynamic started with a benchmark objective reports its pointwise values; non-trivial: always')
def ensemble(c):
    import cbx.dynamics as D
    x = points(c).astype(float)
    x = x.reshape((1,) * (3 - x.ndim) + x.shape) if x.ndim < 3 else x.reshape((-1,) + x.shape[-2:])
    want, size = reference(c, x)
    f = make(c['name'], c['par'])
    hit(c['name'])
    dyn = D.CBO(f, f_dim='3D', x=x.copy(), verbosity=0, max_it=1, check_f_dims=False, sigma=0., seed=c['perm'] % 100)
    dyn.step()
    agree(dyn.energy, want, size, 'energies of the ensemble for ' + c['name'])
    if f.num_eval != want.size:
        fail('%s counts %r evaluations of %d points' % (c['name'], f.num_eval, want.size))
