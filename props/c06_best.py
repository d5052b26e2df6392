"""C06: best energy and best particle belong together."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is, skip
from pbt.gen import ints, pick, q

P = Prop('C06')
RULE = 'every evaluated ensemble position is recorded per run and compared with the reported best after each step; '
MEMORY = ('CBOMemory', 'PSO')


def value(e, x):
    """Objective value seen by the dynamic at points x (one run: (n, *d))."""
    s = e.spec
    v = e.obj.value(x[None])[0]
    if s['dyn'] == 'RegCombinationCBO':
        for c in scen.np_const(s['constraints']) or []:
            v = v + ref.con_value(c, x) ** 2 / s['nu']
    return v


class Record:
    """Smallest value evaluated at an ensemble position, per run."""

    def __init__(self, M):
        self.best = np.full(M, np.inf)
        self.pts = [[] for _ in range(M)]

    def add(self, e, x, runs):
        for i, m in enumerate(runs):
            v = value(e, x[i])
            self.pts[m].append((x[i], v))
            if v.size:
                self.best[m] = min(self.best[m], v.min())


def ensemble_calls(e, n_act):
    """Calls at ensemble positions (not at consensus points of corrections)."""
    calls = e.obj.calls
    if e.spec.get('corr') not in (None, 'no_correction'):
        return calls[:1]
    return calls


def tol_of(s):
    return 1e-11


def check_state(e, rec, prev, act):
    dyn, s = e.dyn, e.spec
    M = dyn.M
    be, bp = np.array(dyn.best_energy, float), np.array(dyn.best_particle)
    shape_is(be, (M,), 'best_energy')
    shape_is(bp, (M,) + tuple(dyn.d), 'best_particle')
    tol, unit = tol_of(s), s.get('unit', 1.)
    for m in range(M):
        # the best of everything evaluated
        same(be[m], rec.best[m], 'best energy of run %d' % m, rtol=1e-11, atol=1e-11 * unit)
        if not np.isfinite(be[m]):
            continue
        scale = unit + np.abs(be[m]) + 100 * np.abs(bp[m]).max() ** 2 * s['f'].get('scale', 1.0)
        same(value(e, bp[m][None])[0], be[m], 'objective at the best particle of run %d' % m, rtol=0, atol=tol * scale)
        d = min(float(np.abs(x - bp[m]).reshape(len(x), -1).max(-1).min()) for x, v in rec.pts[m])
        if d > tol * (1 + np.abs(bp[m]).max()) :
            fail('the best particle of run %d was never evaluated (distance %g)' % (m, d))
        if prev is not None and be[m] > prev[m]:
            fail('best energy of run %d increased from %r to %r' % (m, prev[m], be[m]))
    if not (s.get('batch') and s['dyn'] not in MEMORY):
        ce, cp = np.array(dyn.best_cur_energy, float), np.array(dyn.best_cur_particle)
        en = np.array(dyn.energy)
        same(ce, en.min(axis=1), 'current best energy', rtol=1e-12, atol=0)
        same(np.array(dyn.f_min), ce, 'f_min', rtol=0, atol=0)
        for m in range(M):
            if np.isfinite(ce[m]):
                scale = unit + np.abs(ce[m]) + 100 * np.abs(cp[m]).max() ** 2 * s['f'].get('scale', 1.0)
                same(value(e, cp[m][None])[0], ce[m], 'objective at the current best particle of run %d' % m, rtol=0,
                     atol=tol * scale)
            if m in act and s['dyn'] not in MEMORY and not s.get('batch'):
                x, v = rec.pts[m][-1]
                same(ce[m], v.min(), 'current best energy of run %d' % m, rtol=1e-11, atol=1e-11 * unit)
    return be


def drive(s, e):
    dyn = e.dyn
    rec = Record(dyn.M)
    for x, v in e.obj.calls:               # construction
        if s['dyn'] in MEMORY:
            rec.add(e, x, range(dyn.M))
    prev = None
    k = 0
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        k += 1
        act = o[0]['active']
        for x, v in ensemble_calls(e, len(act)):
            if x.shape[0] != len(act):
                fail('objective evaluated for %d runs, %d are active' % (x.shape[0], len(act)))
            rec.add(e, x, act)
        prev = check_state(e, rec, prev, act)
    return rec, k


def label(s, e, k):
    if k >= 1 and e.dyn.N > 1:
        hit(s['dyn'])
        if k > 1:
            note('several steps')
    if s.get('batch'):
        note('mini-batch')


OBJ = ('quad', 'rastr', 'abs', 'lin', 'mix', 'const')


@P.facet('history', lambda: scen.scenario(
    dyns=('CBO', 'CBO', 'AdamCBO', 'MirrorCBO', 'PolarCBO', 'CBS', 'HyperSurfaceCBO', 'DriftConstrainedCBO', 'RegCombinationCBO'),
    noises=('isotropic', 'anisotropic', 'constant'), batch=True, multi=True, term=True, steps=(1, 6), objs=OBJ, Ns=(1, 7),
    corr=('no_correction', 'no_correction', 'heavi_side', 'heavi_side_reg')),
    quick=400, rule=RULE + 'non-trivial: at least one step with N > 1')
def history(s):
    if s['dyn'] == 'PolarCBO' and s['kernel'] == 'Constant':
        s = dict(s, kernel='Gaussian')
    e = scen.build(s)
    rec, k = drive(s, e)
    label(s, e, k)


@P.facet('memory', lambda: scen.scenario(dyns=MEMORY, batch=True, multi=True, term=True, steps=(1, 6), objs=OBJ), quick=250,
         rule=RULE + 'memory dynamics; non-trivial as above')
def memory(s):
    e = scen.build(s)
    rec, k = drive(s, e)
    label(s, e, k)


@P.facet('infeasible', lambda: scen.scenario(dyns=('CBO', 'CBO', 'MirrorCBO', 'AdamCBO') + MEMORY, inf=True, multi=False, term=False,
                                             steps=(2, 10), objs=('quad', 'abs', 'rastr'), alphas=(1, 20)),
         quick=240, rule=RULE + 'objectives that are +inf on a half space; non-trivial as above')
def infeasible(s):
    s = dict(s, alpha=[max(a, 0.5) for a in s['alpha']] if isinstance(s['alpha'], list) else max(s['alpha'], 0.5))
    if s['ns'] % 4 and s['f'].get('inf') is None:
        s['f'] = dict(s['f'], inf=s['f']['c'])       # the unconstrained minimiser is on the boundary
    if s['f'].get('inf') is not None:
        ok = np.isfinite(gen.obj_value(s['f'], scen.x0(s), 1)).any(1)
        if not ok.all():
            skip('a run without feasible particle')
    e = scen.build(s)
    dyn = e.dyn
    rec = Record(dyn.M)
    for x, v in e.obj.calls:
        rec.add(e, x, range(dyn.M))
    prev = None
    for k in range(s['steps']):
        if s['f'].get('inf') is not None and s['dyn'] not in MEMORY \
                and not np.isfinite(e.obj.value(dyn.x)).any(1).all():
            skip('a run without feasible particle')
        o = scen.step(e)
        if o is None:
            break
        for x, v in e.obj.calls:
            rec.add(e, x, o[0]['active'])
        prev = check_state(e, rec, prev, o[0]['active'])
        if dyn.N > 1:
            hit(s['dyn'])


@P.facet('optimize', lambda: scen.scenario(
    dyns=scen.DYNS, noises=('isotropic', 'anisotropic'), batch=True, multi=True, term=True, steps=(1, 5), objs=OBJ), quick=200,
    rule='optimize() returns, for every run, the best evaluated position with the reported best energy; non-trivial: N > 1')
def optimize(s):
    if s['dyn'] == 'PolarCBO' and s['kernel'] == 'Constant':
        s = dict(s, kernel='Gaussian')
    e = scen.build(s)
    r = e.dyn.optimize(sched=None)
    dyn = e.dyn
    if r is None:
        fail('%s.optimize returned None' % s['dyn'])
    shape_is(r, (dyn.M,) + tuple(dyn.d), 'optimize() result')
    exact(r, dyn.best_particle, 'optimize() result')
    for m in range(dyn.M):
        be = float(dyn.best_energy[m])
        if not np.isfinite(be):
            if dyn.it:
                note('no finite energy')
            continue
        x = np.array(r[m])
        scale = 1 + abs(be) + 100 * np.abs(x).max() ** 2 * s['f'].get('scale', 1.0)
        same(value(e, x[None])[0], be, 'objective at the result of run %d' % m, rtol=0, atol=tol_of(s) * scale)
    if dyn.M == 1 and s.get('corr') is None and s['dyn'] != 'RegCombinationCBO' and e.obj.calls:
        same(dyn.best_energy[0], min(v.min() for _, v in e.obj.calls), 'best energy of all evaluations', rtol=1e-11, atol=1e-11)
    if dyn.N > 1 and dyn.it:
        hit(s['dyn'])


@P.facet('scaled', lambda: st.tuples(scen.scenario(
    dyns=('CBO', 'CBO', 'AdamCBO', 'MirrorCBO', 'HyperSurfaceCBO') + MEMORY, noises=('isotropic', 'anisotropic', 'constant'), batch=True, multi=True, term=True, steps=(1, 6),
    objs=('quad', 'rastr', 'abs', 'lin', 'mix'), fscale=False, alphas=(0, 10)), pick(1e-14, 1e-9, 1e-150, 1e12, 1e150)), quick=200,
    rule=RULE + 'for objectives of very small and very large values; non-trivial as above')
def scaled(t):
    s, u = t
    s = dict(s, f=dict(s['f'], scale=u), unit=u, alpha=[a / u for a in s['alpha']] if isinstance(s['alpha'], list) else s['alpha'] / u)
    if s.get('term'):
        s['term'] = [k for k in s['term'] if not (isinstance(k, dict) and k.get('name') == 'energy-tol')] or ['max-it']
    e = scen.build(s)
    rec, k = drive(s, e)
    label(s, e, k)


@P.probe('current_best_with_mini_batches', rule='CBO with mini-batches: current best energy and particle')
def current_best_with_mini_batches():
    import cbx.dynamics as D
    f = lambda x: (x ** 2).sum(-1)
    x = np.array([[[1.], [2.], [3.], [4.]]])
    dyn = D.CBO(f, f_dim='3D', x=x, sigma=0., dt=.5, verbosity=0, max_it=9, batch_args={'size': 2, 'partial': True, 'seed': 0})
    for _ in range(6):
        dyn.terminate()
        dyn.step()
        v = f(dyn.best_cur_particle[:, None])[:, 0]
        if not np.allclose(v, dyn.best_cur_energy, rtol=1e-9):
            fail('the current best particle has the value %r, the current best energy is %r' % (v.tolist(), dyn.best_cur_energy.tolist()))


@P.facet('sizes', lambda: st.sampled_from(('long', 'large')).flatmap(lambda z: scen.scenario(
    dyns=('CBO', 'CBO', 'AdamCBO', 'MirrorCBO', 'PolarCBO', 'CBS', 'HyperSurfaceCBO', 'DriftConstrainedCBO', 'RegCombinationCBO') + MEMORY,
    noises=('isotropic', 'anisotropic', 'constant'), batch=True, multi=True, term=True, objs=OBJ, size=z)),
    quick=60, rule='as history, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    memory(s) if s['dyn'] in MEMORY else history(s)
