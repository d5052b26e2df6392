"""C30: the effective-sample-size scheduler and its bisection."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C30', assumptions=['each run has a particle with finite objective value', 'the resolution of the bisection is (maximum-minimum)/2^(iterations+1), '
                             'and it stops early where the equation is solved up to 0.01'])


def J(alpha, E):
    """Effective sample size with exact summation."""
    E = np.asarray(E, dtype=float) - np.min(E)
    w = [math.exp(-alpha * v) if np.isfinite(v) else (0. if alpha > 0 else float('nan')) for v in E]
    return math.fsum(w) ** 2 / math.fsum([v * v for v in w])


@st.composite
def energies(draw, Ms=(1, 4), Ns=(2, 9)):
    M, N = draw(ints(*Ms)), draw(ints(*Ns))
    c = {'E': draw(gen.array([M, N], ('fine', 'fine', 'grid', 'wide', 'tiny'))), 'scale': draw(pick(1., 50., .05, 1e-2, 1e-3, 1e-3, 1e-4, 1e-12)), 'off': draw(pick(0., 0., -7., 1000., 1e9, -1e12)),
         'eta': draw(pick(.5, .5, .2, .8, .99, .05, 1.))}
    c['inf'] = draw(pick(None, None, .5))
    return c


def e_of(c):
    E = dec(c['E'])
    S = E * c['scale'] + c['off']
    if c['inf'] is not None:
        bad = E > c['inf']
        bad[np.arange(len(E)), E.argmin(1)] = False
        S = np.where(bad, np.inf, S)
    return S


def check_root(a, E, eta, lo, hi, its, thresh, what):
    """a solves J(a) = eta*N up to the resolution, or sits at the end of [lo, hi]."""
    N = len(E)
    if not lo <= a <= hi:
        fail('%s: %r outside [%g, %g]' % (what, a, lo, hi))
    w = (hi - lo) / 2. ** its * (1 + 1e-9) + 1e-12 * hi
    sl = 1e-9 * N
    if abs(J(a, E) - eta * N) <= thresh + sl:
        return 'solved'
    left, right = max(lo, a - w), min(hi, a + w)
    ok_l = left <= lo + w * 1e-9 or J(left, E) >= eta * N - sl
    ok_r = right >= hi - w * 1e-9 or J(right, E) <= eta * N + sl
    if a - w <= lo:
        ok_l = True
    if a + w >= hi:
        ok_r = True
    if not (ok_l and ok_r):
        fail('%s: J(%r) = %r, target %r, and J does not cross it within %g' % (what, a, J(a, E), eta * N, w))
    # at an end the equation has to have no solution further inside
    if a + w >= hi and not (a - w <= lo) and J(max(lo, a - w), E) < eta * N - sl:
        fail('%s: the right end although the solution lies to the left' % what)
    return 'end' if a - w <= lo or a + w >= hi else 'bracket'


@P.facet('sample size', energies, quick=600, rule='the gap function against an exact summation, shifted energies and single runs; non-trivial: two particles with different finite energies')
def sample_size(c):
    from cbx.scheduler import eff_sample_size_gap
    E = e_of(c)
    M, N = E.shape
    a = np.array([1e-3, .1, 1., 37., 4000.]) / (c['scale'] if c['scale'] < 1e-9 else 1.)
    prev = None
    g = eff_sample_size_gap(E.copy(), c['eta'])
    h = eff_sample_size_gap(E + 512., c['eta'])
    for v in a:
        got = np.asarray(g(v * np.ones(M)))
        shape_is(got, (M,), 'gap')
        want = np.array([J(v, e) for e in E]) - c['eta'] * N
        same(got, want, 'J - eta N at alpha=%g' % v, rtol=1e-7, atol=1e-7 * N)
        if abs(c['off']) <= 1000 and c['scale'] > 1e-9:
            same(np.asarray(h(v * np.ones(M))), want, 'J - eta N with a constant added to the energies', rtol=1e-5, atol=1e-9 * (1 + v) * N)
        if prev is not None and np.any(got > prev + 1e-8 * N):
            fail('the effective sample size increases with alpha')
        prev = got
    va = np.array([.3 * (m + 1) for m in range(M)])
    same(np.asarray(g(va)), np.array([J(v, e) for v, e in zip(va, E)]) - c['eta'] * N, 'J - eta N with one alpha per run', rtol=1e-7, atol=1e-7 * N)
    if any(len(set(e[np.isfinite(e)])) > 1 for e in E):
        hit('infinite' if c['inf'] is not None and np.isinf(E).any() else 'finite')


class Dummy:
    pass


@st.composite
def upd_cases(draw):
    c = draw(energies())
    c['max'] = draw(pick(None, None, 1e3, 20., 1e13))
    c['its'] = draw(pick(None, 15, 40, 40, 60, 3))
    c['alpha'] = draw(pick(1., 30.))
    return c


@P.facet('update', upd_cases, quick=600, rule='one update from given energies; non-trivial: an interior solution exists for some run')
def update(c):
    from cbx.scheduler import effective_sample_size
    E = e_of(c)
    M, N = E.shape
    kw = {'eta': c['eta']}
    if c['max'] is not None:
        kw['maximum'] = c['max']
    if c['its'] is not None:
        kw['solve_max_it'] = c['its']
    hi, its = c['max'] or 1e5, c['its'] or 15
    d = Dummy()
    d.M, d.N, d.alpha, d.energy = M, N, c['alpha'], E.copy()
    s = effective_sample_size(**kw)
    s.update(d)
    shape_is(d.alpha, (M, 1), 'alpha')
    exact(d.energy, E, 'the energies')
    first = d.alpha.copy()
    for m in range(M):
        r = check_root(float(d.alpha[m, 0]), E[m], c['eta'], 1e-5, hi, its + 1, 1e-2, 'run %d' % m)
        if J(hi, E[m]) < c['eta'] * N < J(1e-5, E[m]):
            hit(r)
        note(r)
        one = Dummy()
        one.M, one.N, one.alpha, one.energy = 1, N, 1., E[m:m + 1].copy()
        effective_sample_size(**kw).update(one)
        same(one.alpha[0], d.alpha[m], 'alpha of run %d alone' % m, rtol=1e-9, atol=1e-9)
    s.update(d)
    same(d.alpha, first, 'alpha after a second update with the same energies', rtol=1e-12, atol=0)


@st.composite
def run_cases(draw):
    s = draw(scen.scenario(dyns=('CBO', 'CBO', 'CBOMemory', 'AdamCBO', 'CBS', 'MirrorCBO', 'PolarCBO'), multi=True, Ms=(1, 4), Ns=(2, 7), ds=(1, 3), steps=(1, 5), term=True, batch=True, alphas=(.1, 20)))
    s['f']['scale'] = draw(pick(1., .1, 1e-2, 1e-3, 1e-3, 1e-4))
    return {'s': s, 'eta': draw(pick(.5, .3, .9)), 'named': draw(st.booleans())}


class Check:
    def __init__(self, eta, hi, inner):
        self.eta, self.hi, self.inner, self.n, self.kinds = eta, hi, inner, 0, set()

    def update(self, dyn):
        before = {n: np.array(getattr(dyn, n), copy=True) for n in ('x', 'energy', 'num_f_eval', 'best_energy')}
        self.inner.update(dyn)
        self.n += 1
        for n, v in before.items():
            exact(getattr(dyn, n), v, n + ' across the update of alpha')
        shape_is(dyn.alpha, (dyn.M, 1), 'alpha')
        for m in range(dyn.M):
            if np.isfinite(dyn.energy[m]).any():
                self.kinds.add(check_root(float(dyn.alpha[m, 0]), dyn.energy[m], self.eta, 1e-5, self.hi, 16, 1e-2, 'run %d after step %d' % (m, dyn.it)))


@P.facet('in a run', run_cases, quick=250, rule='optimize() with this scheduler: after every step each run has its own solution for the current energies; the trajectory equals that of a loop '
         'with the same alphas; non-trivial: an interior solution in a run with two steps')
def in_a_run(c):
    from cbx.scheduler import effective_sample_size, scheduler
    s = c['s']
    e, r = scen.build(s), scen.build(s)
    named = c['named'] and s['dyn'] != 'CBS'
    if named:
        e.dyn.optimize(sched='effective')
        k = Check(.5, 1e5, effective_sample_size())
    else:
        k = Check(c['eta'], 1e5, effective_sample_size(eta=c['eta']))
        e.dyn.optimize(sched=scheduler([k]))
        k = Check(c['eta'], 1e5, effective_sample_size(eta=c['eta']))
    n = 0
    while scen.step(r) is not None:
        k.update(r.dyn)
        n += 1
    same(e.dyn.alpha, r.dyn.alpha, 'alpha at the end', rtol=1e-9, atol=1e-9)
    for a in ('x', 'best_energy', 'energy'):
        same(getattr(e.dyn, a), getattr(r.dyn, a), a + ' at the end', rtol=1e-6, atol=1e-7)
    if n > 1 and k.kinds & {'solved', 'bracket'}:
        hit(s['dyn'])


@st.composite
def bis_cases(draw):
    M = draw(ints(1, 5))
    return {'root': draw(gen.array([M], ('fine', 'grid'))), 'slope': draw(gen.array([M], ('pos', 'unit'))), 'lo': draw(gen.array([M], ('unit', 'pos'))), 'hi': draw(gen.array([M], ('unit', 'pos'))),
            'kind': draw(pick('lin', 'step', 'cube', 'sat')), 'its': draw(pick(5, 15, 60, 0)), 'thresh': draw(pick(1e-2, 1e-8, .5)),
            'int': draw(pick(False, False, True)), 'verb': draw(pick(0, 1))}


def fun(c):
    r, sl = dec(c['root']), dec(c['slope'])

    def f(x):
        z = np.asarray(x) - r
        if c['kind'] == 'lin':
            return -sl * z
        if c['kind'] == 'step':
            return np.where(z < 0, sl, np.where(z > 0, -sl, 0.))
        if c['kind'] == 'cube':
            return -sl * z ** 3
        return -np.tanh(sl * z)
    return f, r


@P.facet('bisection', bis_cases, quick=800, rule='non-increasing functions with a root per run inside or outside the interval; non-trivial: two runs, one of which solves earlier')
def bisection(c):
    from cbx.scheduler import bisection_solve
    f, r = fun(c)
    M = len(r)
    lo, hi = r - 2 * dec(c['lo']) + .75, r + 2 * dec(c['hi']) - .75
    lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
    if c['int']:
        lo, hi = np.floor(lo).astype(int), np.ceil(hi).astype(int)
    klo, khi = lo.copy(), hi.copy()
    x = np.asarray(bisection_solve(f, lo, hi, max_it=c['its'], thresh=c['thresh'], verbosity=c['verb']))
    shape_is(x, (M,), 'result')
    exact(lo, klo, 'the lower ends')
    exact(hi, khi, 'the upper ends')
    fx = f(x)
    early = 0
    for m in range(M):
        w = (khi[m] - klo[m]) / 2. ** (c['its'] + 1) + 1e-12 * (1 + abs(x[m]))
        if not klo[m] - 1e-12 <= x[m] <= khi[m] + 1e-12:
            fail('run %d: %r outside [%r, %r]' % (m, x[m], klo[m], khi[m]))
        if abs(fx[m]) <= c['thresh'] * (1 + 1e-9):
            early += 1
            continue
        t = min(max(r[m], klo[m]), khi[m])
        if abs(x[m] - t) > w * (1 + 1e-9):
            fail('run %d: %r is farther than %g from %r' % (m, x[m], w, t))
    for m in range(M):
        one = dict(c)
        def g(z, m=m):
            full = np.array(x, dtype=float)
            full[m] = np.asarray(z).reshape(-1)[0]
            return f(full)[m:m + 1]
        y = bisection_solve(g, klo[m:m + 1], khi[m:m + 1], max_it=c['its'], thresh=c['thresh'])
        same(y, x[m:m + 1], 'run %d alone' % m, rtol=1e-12, atol=1e-12)
    if M > 1 and 0 < early < M or M > 1 and c['its'] > 5:
        hit(c['kind'])
