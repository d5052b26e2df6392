"""C31: drift corrections."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C31', assumptions=['values within rounding of the jump of the Heaviside function may be decided either way, except exact ties, which count as not exceeding'])


def heavi(z):
    return 1. if z > 0 else 0.


def reg(z, eps):
    return .5 * (1 + math.tanh(z / eps))


@st.composite
def cases(draw):
    A, N = draw(ints(1, 3)), draw(ints(1, 6))
    dims = draw(pick([1], [2], [3], [2, 2], [1, 3], [3, 1], [2, 1, 2]))
    return {'x': draw(gen.array([A, N] + dims)), 'e': draw(gen.array([A, N], ('grid', 'fine'))), 'c': draw(gen.array([A, draw(pick(1, 1, N))] + dims, ('grid', 'fine'))),
            'name': draw(pick('heavi_side', 'heavi_side_reg', 'no_correction')), 'eps': draw(pick(None, 1e-3, .1, 1., 7., 25., 200.)), 'f': draw(pick('sum', 'tie', 'max')), 'unit': draw(pick(1., 1., 1e-14, 1e-150, 1e150))}


def fval(c, x):
    return c['unit'] * fval_(c, x)


def fval_(c, x):
    nd = x.ndim - 2
    ax = tuple(range(-nd, 0))
    if c['f'] == 'max':
        return x.max(axis=ax)
    if c['f'] == 'tie':                    # many ties with the energies on the grid
        return np.clip(np.round(2 * x.max(axis=ax)) / 2, -3, 3)
    return x.sum(axis=ax)


class Dyn:
    pass


@P.facet('pointwise', cases, quick=700, rule='corrections of arbitrary drifts and energies against a loop over the particles, directly and through a dynamic-like object whose active runs are a '
         'subset; exact ties occur; non-trivial: particles on both sides of the consensus value')
def pointwise(c):
    from cbx.correction import get_correction
    x, e, con = dec(c['x']), c['unit'] * dec(c['e']), dec(c['c'])
    kw = {} if c['eps'] is None else {'eps': c['eps'] * c['unit']}
    g = get_correction(c['name'], **kw)
    eps = 1e-3 if c['eps'] is None else c['eps'] * c['unit']
    fc = fval(c, con)
    calls = []

    def f(y):
        calls.append(np.array(y, copy=True))
        return fval(c, y)
    want = x.copy()
    sides = set()
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            z = e[i, j] - fc[i, j if fc.shape[1] > 1 else 0]
            sides.add(np.sign(z))
            if c['name'] == 'heavi_side':
                want[i, j] = heavi(z) * x[i, j]
            elif c['name'] == 'heavi_side_reg':
                want[i, j] = reg(z, eps) * x[i, j]
    kx, ke, kc = x.copy(), e.copy(), con.copy()
    if c['name'] == 'no_correction':
        exact(g.correct(x), want, 'corrected drift')
    else:
        same(g.correct(x, f, e, con), want, 'corrected drift', rtol=1e-12, atol=1e-12)
    # through a dynamic with one more run, which has ended
    A = x.shape[0]
    d = Dyn()
    d.M, d.N = A + 1, x.shape[1]
    d.active_runs_idx = np.arange(A)
    d.particle_idx = (d.active_runs_idx, Ellipsis)
    d.energy = np.concatenate([e, 99. + 0 * e[:1]])
    d.consensus, d.f = con, f
    d.num_f_eval = np.arange(A + 1) * 10
    del calls[:]
    same(g(d, x), want, 'corrected drift in a dynamic', rtol=1e-12, atol=1e-12)
    n = 0 if c['name'] == 'no_correction' else con.shape[1]
    exact(d.num_f_eval, np.arange(A + 1) * 10 + n * (np.arange(A + 1) < A), 'evaluation counts')
    if n and sum(int(np.prod(p.shape[:2])) for p in calls) != A * con.shape[1]:
        fail('%d points evaluated, counted %d' % (sum(int(np.prod(p.shape[:2])) for p in calls), A * con.shape[1]))
    exact(x, kx, 'the drift argument')
    exact(e, ke, 'the energies')
    exact(con, kc, 'the consensus')
    if {1., -1.} <= sides:
        hit(c['name'])
    if 0. in sides:
        note('tie')


@st.composite
def run_cases(draw, dyns=('CBO', 'CBO', 'MirrorCBO', 'AdamCBO', 'PSO', 'CBOMemory')):
    s = draw(scen.scenario(dyns=dyns, corr=('heavi_side', 'heavi_side_reg', 'no_correction'), batch=True, multi=True, term=True,
                           Ms=(1, 3), Ns=(1, 6), ds=(1, 3), steps=(1, 4)))
    return {'s': s, 'how': draw(pick('half', 'mask', 'identity'))}


@P.facet('callable', run_cases, quick=300, rule='a user-supplied correction is called with the dynamic and the drift of the moved particles, its result is used, and the identity reproduces '
         'the uncorrected dynamic exactly; non-trivial: two particles and a non-zero drift')
def callable_(c):
    s = dict(c['s'])
    s.pop('corr', None)
    got = []

    def user(dyn, x):
        got.append((dyn, np.array(x, copy=True)))
        if c['how'] == 'half':
            return .5 * x
        if c['how'] == 'mask':
            return x * (np.arange(x.shape[1]) % 2).reshape((1, -1) + (1,) * (x.ndim - 2))
        return x
    e = scen.build(s, correction=user)
    r = scen.build(s)
    plain = s['dyn'] in ('CBO',)
    for _ in range(s['steps']):
        del got[:]
        o = scen.step(e)
        if o is None:
            break
        if c['how'] == 'identity':
            scen.step(r)
            exact(e.dyn.x, r.dyn.x, 'positions with the identity as correction')
        if s['dyn'] == 'AdamCBO':           # never corrected
            continue
        if not got or any(g[0] is not e.dyn for g in got):
            fail('the correction was called %d times, with %s' % (len(got), [type(g[0]).__name__ for g in got]))
        act = o[0]['active']
        mv = scen.moved_of(e.dyn)
        if got[0][1].shape[:2] != (len(act), len(mv[act[0]])):
            fail('the correction got a drift of shape %s for %d active runs with %d moved particles' % (got[0][1].shape, len(act), len(mv[act[0]])))
        if plain:
            for i, m in enumerate(act):
                D = o[0]['x'][m][mv[m]] - o[1]['consensus'][i]
                same(got[0][1][i], D, 'drift handed to the correction', rtol=1e-12, atol=1e-12)
                h = 1. if c['how'] == 'identity' else .5
                if c['how'] == 'mask':
                    h = (np.arange(D.shape[0]) % 2).reshape((-1,) + (1,) * (D.ndim - 1))
                same(np.asarray(e.dyn.drift)[i], h * D, 'corrected drift', rtol=1e-12, atol=1e-12)
        if e.dyn.N > 1 and any(np.any(g[1]) for g in got):
            hit(s['dyn'] + ' ' + c['how'])


@P.facet('in a run', lambda: run_cases(('CBO',)), quick=300, rule='named corrections inside CBO: the corrected drift of every step against the definition; non-trivial: the correction changes some drift and leaves another')
def in_a_run(c):
    s = c['s']
    e = scen.build(s)
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        mv = scen.moved_of(e.dyn)
        kept = zeroed = False
        for i, m in enumerate(o[0]['active']):
            X = o[0]['x'][m][mv[m]]
            D = X - o[1]['consensus'][i]
            z = e.obj.value(X[None])[0] - e.obj.value(o[1]['consensus'][i][None])[0]
            fc = e.obj.value(o[1]['consensus'][i][None])[0][0]
            for j in range(len(X)):
                u = 1e-9 * (s.get('unit', 1.) + abs(fc))
                if s['corr'] == 'no_correction':
                    h = 1.
                elif s['corr'] == 'heavi_side':
                    if abs(z[j]) < u and z[j] != 0:
                        continue
                    h = heavi(z[j])
                else:
                    h = reg(z[j], s['corr_eps'])
                got = np.asarray(e.dyn.drift)[i][j]
                tol = 1e-6 / min(1., 10 * s['corr_eps'] / s.get('unit', 1.)) if s['corr'] == 'heavi_side_reg' else 1e-9
                if s['corr'] == 'heavi_side' and abs(z[j]) < u and np.any(D[j]):
                    continue                # a tie: the consensus was summed differently
                same(got, h * D[j], 'drift of particle %d of run %d, excess %g' % (j, m, z[j]), rtol=tol, atol=tol)
                kept |= h > .9
                zeroed |= h < .1
        if kept and zeroed:
            hit(s['corr'])


@P.facet('scaled', lambda: st.tuples(run_cases(('CBO',)), pick(*scen.UNITS)).map(lambda t: dict(t[0], s=scen.in_units(t[0]['s'], t[1]))), quick=150,
         rule='as in a run, for objectives of very small and very large values')
def scaled(c):
    in_a_run(c)


@P.facet('names', lambda: st.fixed_dictionaries({'bad': pick('heaviside', '', 'None', 'HEAVI_SIDE', 'reg', 'no'), 'how': pick('get', 'dyn', 'type'), 'eps': pick(.5, .01)}), quick=40,
         rule='unknown names and objects that are not callable are rejected, eps reaches the regularised correction; non-trivial: all')
def names(c):
    from cbx.correction import get_correction
    import cbx.dynamics as D
    x = np.zeros((1, 2, 1))
    if c['how'] == 'get':
        rejects(lambda: get_correction(c['bad']), (ValueError,), 'correction ' + repr(c['bad']))
    elif c['how'] == 'dyn':
        rejects(lambda: D.CBO(lambda x: x.sum(-1), x=x, correction=c['bad']), (ValueError,), 'correction ' + repr(c['bad']))
    else:
        rejects(lambda: D.CBO(lambda x: x.sum(-1), x=x, correction=3), (ValueError,), 'correction 3')
    hit(c['how'])
