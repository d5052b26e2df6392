"""C38: initial ensembles."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C38', assumptions=['floating point particles', 'moments of random ensembles are compared within eight standard errors'])
FLAT = ('CBS', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'RegCombinationCBO', 'PolarCBO', 'MirrorCBO')


@st.composite
def given_cases(draw):
    cls = draw(st.sampled_from(scen.DYNS))
    lead = draw(pick([], [1], [3], [4], [5], [2, 4], [1, 1], [3, 1], [4, 4]))
    dims = [draw(ints(2 if cls == 'HyperSurfaceCBO' else 1, 5))]
    if len(lead) == 2 and cls not in FLAT and draw(st.booleans()):
        dims = draw(pick([2, 2], [1, 3], [3, 1]))
    return {'cls': cls, 'x': draw(gen.array(lead + dims)), 'fd': draw(pick('1D', '2D', '3D')), 'order': draw(pick('C', 'F', 'view', 'f32')), 'MN': draw(pick(False, 'other', 'fit', 'swap')), 'check': draw(st.booleans()), 'run': draw(st.booleans())}


def law(x, cdf, what, edges=None):
    """Empirical distribution of independent numbers against the cdf (Dvoretzky-Kiefer-Wolfowitz at 1e-13)."""
    z = np.sort(np.ravel(x))
    n = len(z)
    F = cdf(z)
    k = np.arange(1, n + 1) / n
    gap = max(np.abs(F - k).max(), np.abs(F - k + 1 / n).max())
    if gap > np.sqrt(np.log(2e13) / (2 * n)):
        fail('%s: %d numbers, their distribution is off by %.3f' % (what, n, gap))
    if edges is not None:
        e = 30 / n * (edges[1] - edges[0])
        if z[0] > edges[0] + e or z[-1] < edges[1] - e:
            fail('%s: %d numbers only reach from %g to %g' % (what, n, z[0], z[-1]))


def gauss_cdf(z):
    from math import erf
    return np.array([.5 * (1 + erf(v / np.sqrt(2))) for v in z])


def fn(fd, nd):
    def f3(x):
        return np.tanh(x).reshape(x.shape[:x.ndim - nd] + (-1,)).sum(-1)
    return f3


def kwargs(cls):
    kw = {'verbosity': 0, 'max_it': 2}
    if cls == 'DriftConstrainedCBO':
        kw['constraints'] = [{'name': 'sphere', 'r': 1.}]
        kw['eps'] = .5317                  # off the grid: no singular systems
    return kw


@P.facet('given', given_cases, quick=400, rule='every dynamic started from particles of shape (d,), (N,d) or (M,N,d...) in any memory layout: one, one or M runs with exactly these values, which are copied; '
         'non-trivial: more than one particle or fewer than three axes')
def given_(c):
    cls = scen.cbx_classes()[c['cls']]
    x = dec(c['x'])
    if c['order'] == 'F':
        x = np.asfortranarray(x)
    elif c['order'] == 'view':
        x = np.repeat(x, 2, axis=0)[::2]
    elif c['order'] == 'f32':
        x = x.astype(np.float32)
    nd = max(1, x.ndim - 2)
    fd = c['fd'] if nd == 1 else '3D'
    keep = x.copy()
    kw = kwargs(c['cls'])
    if c['MN']:
        kw.update({'other': dict(M=7, N=5, d=9), 'fit': dict(M=x.shape[0], N=x.shape[-2] if x.ndim > 1 else 1), 'swap': dict(M=x.shape[-1], N=x.shape[0])}[c['MN']])   # ignored if the particles are given
    dyn = cls(fn(fd, nd), x=x, f_dim=fd, check_f_dims=c['check'], seed=1, **kw)
    want = keep.reshape((1,) * (3 - x.ndim) + x.shape) if x.ndim < 3 else keep
    exact(dyn.x, want, 'initial particles')
    if (dyn.M, dyn.N) != want.shape[:2] or tuple(dyn.d) != want.shape[2:]:
        fail('M=%r, N=%r, d=%r for particles of shape %s' % (dyn.M, dyn.N, dyn.d, want.shape))
    if np.shares_memory(dyn.x, x):
        fail('the initial particles are not copied')
    for n, s in (('energy', want.shape[:2]), ('best_energy', want.shape[:1]), ('num_f_eval', want.shape[:1]), ('best_particle', want.shape[:1] + want.shape[2:]), ('update_diff', want.shape[:1])):
        shape_is(getattr(dyn, n), s, n)
    if dyn.it != 0 or len(dyn.term_reason) != want.shape[0] or list(dyn.active_runs_idx) != list(range(want.shape[0])):
        fail('it=%r, %d reasons, active %s' % (dyn.it, len(dyn.term_reason), dyn.active_runs_idx))
    n0 = want.shape[1] if c['check'] else 0
    for n in np.asarray(dyn.num_f_eval):       # the memory variants evaluate the ensemble once when they are set up
        if n != n0 and not (c['cls'] in ('CBOMemory', 'PSO') and n == n0 + want.shape[1]):
            fail('%d evaluations before the first step, expected %d' % (n, n0))
    if c['run']:
        dyn.step()
        if dyn.x.shape != want.shape:
            fail('particles of shape %s after a step' % (dyn.x.shape,))
    exact(x, keep, 'the particles that were passed')
    if x.size > x.shape[-1] or x.ndim < 3:
        hit(c['cls'])


@st.composite
def drawn_cases(draw):
    return {'cls': draw(st.sampled_from(scen.DYNS)), 'M': draw(pick(None, 1, 2, 5, 30, 30)), 'N': draw(pick(None, 1, 4, 20, 50, 2000)), 'd': draw(pick(None, 2, 3, 7, 2, 3)), 'fd': draw(pick('1D', '2D', '3D')), 'np': draw(seeds)}


@P.facet('drawn', drawn_cases, quick=250, rule='dynamics without particles: shape from M, N and d with defaults 1 and 20, values in [-1, 1], a missing dimension is rejected; non-trivial: shapes other than the default')
def drawn(c):
    cls = scen.cbx_classes()[c['cls']]
    kw = kwargs(c['cls'])
    for k in ('M', 'N', 'd'):
        if c[k] is not None:
            kw[k] = c[k]
    np.random.seed(c['np'] % 2 ** 32)
    make = lambda: cls(fn(c['fd'], 1), f_dim=c['fd'], **kw)
    if c['d'] is None:
        rejects(make, (RuntimeError, ValueError, TypeError), 'neither particles nor a dimension')
        hit('rejected')
        return
    dyn = make()
    M, N = c['M'] or 1, c['N'] or 20
    shape_is(dyn.x, (M, N, c['d']), 'initial particles')
    if (dyn.M, dyn.N, tuple(dyn.d)) != (M, N, (c['d'],)):
        fail('M=%r, N=%r, d=%r' % (dyn.M, dyn.N, dyn.d))
    x = dyn.x
    if not np.all(np.abs(x) <= 1):
        fail('initial particles in [%g, %g]' % (x.min(), x.max()))
    if x.size > 1 and len(np.unique(x)) < x.size:
        fail('equal random coordinates')
    n = x.size
    if n >= 20 and (abs(x.mean()) > 8 * .58 / np.sqrt(n) or abs((x ** 2).mean() - 1 / 3) > 8 * .3 / np.sqrt(n)):
        fail('mean %g and second moment %g of %d coordinates' % (x.mean(), (x ** 2).mean(), n))
    if n >= 100:
        law(x, lambda z: (z + 1) / 2, 'initial coordinates', (-1, 1))
    for i in range(M):                     # every run and particle by itself
        if N * c['d'] >= 100:
            law(x[i], lambda z: (z + 1) / 2, 'coordinates of run %d' % i, (-1, 1))
    if (M, N) != (1, 20):
        hit(c['cls'])


@st.composite
def init_cases(draw):
    m = draw(pick('uniform', 'uniform', 'normal', 'normal', 'normal', 'bad', None))
    sh = draw(pick([3, 4, 2], [1, 50, 3], [2, 30, 1], [40, 2], [7, 1], [1, 1, 1], [200, 3], [2, 100, 4], [10, 100, 5], [200, 1], [2, 100, 1]))
    if m == 'uniform' and draw(pick(False, False, True)):
        sh = draw(pick([5], [2, 3, 2, 2], []))
    if m == 'normal' and draw(pick(False, False, False, True)):
        sh = draw(pick([5], [2, 3, 2, 2]))
    lo = draw(q(-5, 5, 1))
    return {'m': m, 's': sh, 'lo': lo, 'hi': lo + draw(q(0, 5, 1)), 'delta': draw(pick(None, .1, 1., 3., 0., 2e4, 1e-9)), 'b': draw(pick('both', 'both', 'none', 'lo', 'hi')), 'np': draw(seeds)}


@P.facet('init_particles', init_cases, quick=400, rule='both methods with every shape, bound and scale; unknown methods and shapes are rejected; non-trivial: twenty coordinates or a rejection')
def init_particles(c):
    from cbx.utils.particle_init import init_particles as init
    np.random.seed(c['np'] % 2 ** 32)
    kw = {'shape': tuple(c['s'])}
    lo, hi = -1., 1.
    if c['b'] in ('both', 'lo'):
        lo = kw['x_min'] = c['lo'] if c['b'] == 'both' else min(c['lo'], 1.)
    if c['b'] in ('both', 'hi'):
        hi = kw['x_max'] = c['hi'] if c['b'] == 'both' else max(c['hi'], -1.)
    if c['m'] is not None:
        kw['method'] = c['m']
    if c['delta'] is not None:
        kw['delta'] = c['delta']
    if c['m'] == 'bad':
        for b in ('gauss', 'Uniform', ''):
            rejects(lambda: init(**dict(kw, method=b)), (RuntimeError, ValueError), 'method ' + repr(b))
        hit('unknown method')
        return
    if c['m'] == 'normal' and len(c['s']) not in (2, 3):
        rejects(lambda: init(**kw), (RuntimeError, ValueError), 'normal initialisation of shape %s' % (c['s'],))
        hit('rejected shape')
        return
    x = np.asarray(init(**kw))
    n = x.size
    if c['m'] != 'normal':
        shape_is(x, c['s'], 'uniform particles')
        if np.any(x < lo) or np.any(x > hi):
            fail('uniform particles in [%g, %g], bounds [%g, %g]' % (x.min(), x.max(), lo, hi))
        w = hi - lo
        if n >= 20 and (abs(x.mean() - (lo + hi) / 2) > 8 * .3 * w / np.sqrt(n) + 1e-9 or abs(x.var() - w * w / 12) > 8 * .09 * w * w / np.sqrt(n) + w * w / n + 1e-9):
            fail('mean %g and variance %g of %d uniform coordinates in [%g, %g]' % (x.mean(), x.var(), n, lo, hi))
    else:
        shape_is(x, [1] * (3 - len(c['s'])) + c['s'], 'normal particles')
        s = 1. if c['delta'] is None else c['delta']
        if not np.all(np.isfinite(x)):
            fail('normal particles are not finite')
        if n >= 20 and (abs(x.mean()) > 8 * s / np.sqrt(n) or abs((x ** 2).mean() - s * s) > 8 * 1.5 * s * s / np.sqrt(n)):
            fail('mean %g and second moment %g of %d normal coordinates of scale %g' % (x.mean(), (x ** 2).mean(), n, s))
        if x.shape[-1] > 1 and x.size >= 100 and s > 0:
            a = x.reshape(-1, x.shape[-1])
            r = (a[:, 0] * a[:, 1]).mean() / (s * s)
            if abs(r) > 8 / np.sqrt(len(a)):
                fail('correlation %g between the coordinates' % r)
            v = (a ** 2).mean(0) / (s * s)
            if np.any(np.abs(v - 1) > 8 * 1.5 / np.sqrt(len(a))):
                fail('second moments %s of the coordinates' % v)
    if n >= 100 and c['m'] != 'normal' and hi > lo:
        law(x, lambda z: (z - lo) / (hi - lo), 'uniform particles', (lo, hi))
    if n >= 100 and c['m'] == 'normal' and s > 0:
        law(x, lambda z: gauss_cdf(z / s), 'normal particles')
    np.random.seed(c['np'] % 2 ** 32)
    exact(np.asarray(init(**{'x_min': -1., 'x_max': 1., 'delta': 1., 'method': 'uniform', **kw})), x, 'particles with the defaults given')
    if c['np'] % 8 == 0:
        shape_is(init(), (1, 1, 1), 'particles without arguments')
    y = np.asarray(init(**kw))
    if n > 1 and (c['m'] == 'normal' and c['delta'] != 0. or c['m'] != 'normal' and hi > lo) and np.array_equal(x, y):
        fail('two calls give the same ensemble')
    if n >= 20:
        hit(str(c['m']))
