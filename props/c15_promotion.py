"""C15: objectives given for points, arrays of points or runs."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q

P = Prop('C15', assumptions=['functions of one point return a number, a 0-d or a one-element array; functions of arrays of points accept any number of '
                             'points; flat domains'])
RULE = 'one pointwise function wrapped as 1D, 2D and 3D objective; '
POINT = {
    'sum2': lambda p: sum(t * t for t in p),
    'first': lambda p: p[0] * math.sin(sum(p)),
    'steps': lambda p: 0 if p[0] < 0.5 else p[0] ** 2 + 0.25,        # integers at some points
    'int': lambda p: int(math.floor(sum(p))),
    'bool': lambda p: p[0] > 0,
    'inf': lambda p: math.inf if p[-1] > 1 else abs(p[-1]),
    'index': lambda p: sum((i + 1) * t for i, t in enumerate(p)),
    'max': lambda p: max(p),
}
FORM = {'float': lambda v: v, 'np': np.float64, 'zero-d': np.array, 'one': lambda v: np.array([v]), 'f32': lambda v: np.float64(v)}


def point(c):
    g = POINT[c['g']]
    return lambda p: g([float(t) for t in p])


def wrap(c, dim, log=None):
    g = point(c)
    form = FORM[c['form']]

    def f1(p):
        if np.ndim(p) != 1:
            fail('a 1D objective was called with an array of shape %s' % (np.shape(p),))
        return form(g(p))

    def f2(x):
        if np.ndim(x) != 2:
            fail('a 2D objective was called with an array of shape %s' % (np.shape(x),))
        v = np.array([float(g(p)) for p in x])
        return v[:, None] if c['col'] else v

    def f3(x):
        if np.ndim(x) != 3:
            fail('a 3D objective was called with an array of shape %s' % (np.shape(x),))
        return np.array([[float(g(p)) for p in r] for r in x])
    return {'1D': f1, '2D': f2, '3D': f3}[dim]


@st.composite
def case(draw, Ms=(1, 4), Ns=(1, 5), ds=(1, 4)):
    x = draw(gen.array([draw(ints(*Ms)), draw(ints(*Ns)), draw(ints(*ds))], ('fine', 'fine', 'grid', 'wide')))
    return {'x': x, 'g': draw(pick(*POINT)), 'form': draw(pick(*FORM)), 'col': draw(st.booleans()), 'cls': draw(pick('CBO', 'CBO', 'PSO', 'CBOMemory',
            'PolarCBO', 'MirrorCBO')), 'steps': draw(ints(1, 4)), 'ns': draw(gen.seeds), 'corr': draw(pick('no_correction', 'heavi_side')),
            'batch': draw(ints(0, 4)), 'at': draw(st.lists(ints(0, 4), min_size=4, max_size=4))}


@P.facet('values', case, quick=300,
         rule=RULE + 'promoted values and evaluation counts for arrays of points and single points; non-trivial: two points or a singleton axis')
def values(c):
    from cbx.utils.objective_handling import _promote_objective
    x = dec(c['x'])
    M, N, d = x.shape
    g = point(c)
    want = np.array([[float(g(p)) for p in r] for r in x])
    for dim in ('1D', '2D', '3D'):
        f = _promote_objective(wrap(c, dim), dim)
        given = x.copy()
        v = np.asarray(f(given))
        shape_is(v, (M, N), 'value of the %s objective for an array of shape %s' % (dim, x.shape))
        exact(v.astype(float), want, 'values of the %s objective' % dim)
        exact(given, x, 'points passed to the %s objective' % dim)
        if dim != '3D':
            n = f.num_eval
            if n != M * N:
                fail('the %s objective counts %r evaluations of %d points' % (dim, n, M * N))
            f(x[:1])
            if f.num_eval != M * N + N:
                fail('the %s objective counts %r evaluations of %d points' % (dim, f.num_eval, M * N + N))
            f.reset()
            if f.num_eval != 0:
                fail('%r evaluations after reset' % (f.num_eval,))
            v = np.asarray(f(x[0].copy()))         # a single run
            shape_is(v, (1, N), 'value of the %s objective for the particles of one run' % dim)
            exact(v.astype(float), want[:1], 'values of the %s objective for one run' % dim)
            if f.num_eval != N:
                fail('the %s objective counts %r evaluations of %d points' % (dim, f.num_eval, N))
            f.reset()
            v = np.asarray(f(x[0, 0]))             # one point
            exact(v.reshape(-1).astype(float), want[0, 0].reshape(-1), 'value of the %s objective at a single point' % dim)
            if f.num_eval != 1:
                fail('the %s objective counts %r evaluations of one point' % (dim, f.num_eval))
    if M * N > 1:
        hit(c['g'], 'form ' + c['form'])
    for n, k in (('M', M), ('N', N), ('d', d)):
        if k == 1:
            hit(n + '=1')


@P.facet('sizes', lambda: case((1, 8), (20, 90), (1, 6)), quick=40, rule='as values, for up to 8 x 90 points; non-trivial: as above')
def sizes(c):
    values(c)


@P.facet('optimise', case, quick=250,
         rule=RULE + 'bitwise the same optimisation for all three forms, also after runs ended and with mini-batches; non-trivial: as above')
def optimise(c):
    x = dec(c['x'])
    M, N, d = x.shape
    out = []
    for dim in ('1D', '2D', '3D'):
        smp = scen.Sampler(c['ns'], range(M))
        kw = {}
        if c['cls'] in ('CBO', 'MirrorCBO'):
            kw['correction'] = c['corr']
        if c['batch'] and N > 1:
            kw['batch_args'] = {'size': min(c['batch'], N)}
        dyn = scen.cbx_classes()[c['cls']](wrap(c, dim), f_dim=dim, x=x.copy(), verbosity=0, sampler=smp, dt=0.1, sigma=1.0,
                                           term_criteria=[scen.Script([c['at'][m] for m in range(M)]), {'name': 'max-it', 'max_it': c['steps']}],
                                           check_f_dims=True, alpha=2.0)
        smp.dyn = dyn
        r = dyn.optimize()
        out.append({'x': np.array(dyn.x), 'best_energy': np.array(dyn.best_energy), 'result': np.array(r), 'num_f_eval': np.array(dyn.num_f_eval),
                    'energy': np.array(dyn.energy)})
    for o, dim in zip(out[:2], ('1D', '2D')):
        for k in o:
            exact(o[k], out[2][k], '%s of the optimisation with the %s and the 3D objective' % (k, dim))
    if M * N > 1:
        hit(c['cls'])


@P.facet('default', lambda: case(), quick=40,
         rule='f_dim defaults to a function of one point; a benchmark objective object can be passed as any form; non-trivial: always')
def default(c):
    import cbx.dynamics as D
    from cbx.objectives import Rastrigin
    hit()
    x = dec(c['x'])
    a = D.CBO(wrap(c, '1D'), x=x.copy(), verbosity=0, max_it=2, seed=c['ns'])
    b = D.CBO(wrap(c, '1D'), f_dim='1D', x=x.copy(), verbosity=0, max_it=2, seed=c['ns'])
    exact(a.optimize(), b.optimize(), 'result with the default f_dim')
    ref = np.array([[Rastrigin().apply(p) for p in r] for r in x])
    for dim in ('1D', '2D', '3D'):
        o = Rastrigin()
        dyn = D.CBO(o, f_dim=dim, x=x.copy(), verbosity=0, max_it=1, seed=c['ns'], check_f_dims=False)
        dyn.optimize()
        same(dyn.energy, ref, 'energies of a benchmark objective passed as %s' % dim, rtol=1e-12, atol=1e-12)
        if o.num_eval != x.shape[0] * x.shape[1]:
            fail('the benchmark objective passed as %s counts %d evaluations' % (dim, o.num_eval))


BADS = {'none': lambda x: None, 'vector': lambda x: np.zeros(x.shape), 'per run': lambda x: np.zeros(x.shape[0]),
        'per particle': lambda x: np.zeros(x.shape[1]), 'flat': lambda x: np.zeros(x.shape[0] * x.shape[1]),
        'transposed': lambda x: np.zeros(x.shape[:2][::-1]), 'extra axis': lambda x: np.zeros(x.shape[:2] + (1,)),
        'scalar': lambda x: np.float64(0.0), 'row': lambda x: np.zeros((1, x.shape[1])), 'column': lambda x: np.zeros((x.shape[0], 1)),
        'leading': lambda x: np.zeros((1,) + x.shape[:2])}


@P.facet('rejected', lambda: st.fixed_dictionaries({'M': ints(1, 4), 'N': ints(1, 5), 'd': ints(1, 3), 'bad': pick(*BADS),
                                                    'noncall': pick(None, 3, 'f', [1.0]), 'dim': pick('4D', '3d', '', 'd', None, 3, '0D'),
                                                    'cls': pick('CBO', 'PSO', 'CBS', 'CBOMemory'), 'k': ints(2, 3)}), quick=150,
         rule='wrongly shaped objectives, non-callables and unknown modes are rejected at construction; non-trivial: always')
def rejected(c):
    import cbx.dynamics as D
    cls = getattr(D, c['cls'])
    M, N, d = c['M'], c['N'], c['d']
    x = np.zeros((M, N, d))
    hit()
    kw = dict(x=x, verbosity=0)
    rejects(lambda: cls(c['noncall'], **kw), (TypeError,), 'the non-callable objective %r' % (c['noncall'],))
    rejects(lambda: cls(lambda p: 0.0, f_dim=c['dim'], **kw), (ValueError,), 'f_dim=%r' % (c['dim'],))
    b = BADS[c['bad']]
    try:
        wrong = b(x).shape != (M, N)
    except AttributeError:
        wrong = True
    if wrong:
        note(c['bad'])
        rejects(lambda: cls(b, f_dim='3D', **kw), (Exception,), 'an objective returning %r for shape %s' % (c['bad'], x.shape))
    # 1D and 2D functions with too many values
    if True:
        rejects(lambda: cls(lambda p: np.zeros(c['k']), f_dim='1D', **kw), (Exception,), 'a 1D objective with %d values' % c['k'])
        rejects(lambda: cls(lambda p: np.zeros((len(p), c['k'])), f_dim='2D', **kw), (Exception,), 'a 2D objective with %d values per point' % c['k'])
