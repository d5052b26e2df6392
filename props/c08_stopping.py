"""C08: when runs stop, and that they are left alone afterwards."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is, skip
from pbt.gen import ints, pick, q

P = Prop('C08')
STATE = ('x', 'energy', 'best_energy', 'best_particle', 'best_cur_energy', 'best_cur_particle', 'f_min', 'num_f_eval', 'y', 'v', 'm')


class Probe:
    """Wraps a criterion and remembers its last answer."""

    def __init__(self, term):
        self.term = term
        self.last = None
        self.n = 0

    def __call__(self, dyn):
        r = np.array(self.term(dyn))
        self.last = r.copy()
        self.n += 1
        return r


def row(dyn, name, m):
    a = getattr(dyn, name, None)
    if isinstance(a, np.ndarray) and a.ndim >= 1 and a.shape[0] == dyn.M:
        return np.array(a[m], copy=True)
    return None


def state(dyn, m):
    return {n: r for n in STATE for r in [row(dyn, n, m)] if r is not None}


@st.composite
def scripts(draw, steps, M, n=None):
    n = draw(ints(1, 3)) if n is None else n
    out = []
    for _ in range(n):
        out.append(draw(st.lists(st.one_of(ints(0, steps), st.just(99)), min_size=M, max_size=M)))
    return out


@st.composite
def _scen(draw, **kw):
    kw.setdefault('Ms', (1, 4))
    s = draw(scen.scenario(steps=(1, 6), **kw))
    s['script'] = draw(scripts(s['steps'], s['x']['s'][0]))
    s['extra'] = draw(pick(None, None, 'energy-tol', 'diff-tol', 'energy-stagnation'))
    s['rel'] = draw(q(0, 1, 2))
    s['twice'] = draw(pick(False, False, True))
    s['later'] = draw(st.one_of(st.none(), scripts(s['steps'], s['x']['s'][0], n=len(s['script']))))
    return s


def criteria(s):
    from cbx.utils.termination import select_term
    M = s['x']['s'][0]
    out = [scen.Script(a) for a in s['script']]
    if s['extra'] == 'energy-tol':
        out.append(select_term(scen.resolve_term({'name': 'energy-tol', 'rel': s['rel']}, s, range(M))))
    elif s['extra'] == 'diff-tol':
        out.append(select_term({'name': 'diff-tol', 'diff_tol': 0.057}))
    elif s['extra'] == 'energy-stagnation':
        out.append(select_term({'name': 'energy-stagnation', 'patience': 2, 'std_thresh': 0.3}))
    out.append(scen.Script([s['steps']] * M))
    return [Probe(t) for t in out]


def build(s):
    if s['dyn'] == 'PolarCBO':
        s = dict(s, corr=None, kernel='Gaussian' if s['kernel'] == 'Constant' else s['kernel'])
    pr = criteria(s)
    e = scen.build(s, term_criteria=pr)
    for t in pr:
        if t.n:
            fail('a criterion was called during construction')
    return e, pr


def held(pr, m):
    return [i for i, t in enumerate(pr) if bool(t.last[m])]


ALL = dict(dyns=scen.DYNS + ('CBO', 'CBOMemory', 'PSO'), noises=('isotropic', 'anisotropic', 'constant', 'covariance'),
           corr=('no_correction', 'no_correction', 'heavi_side', 'heavi_side_reg'), batch=True, multi=True)


@P.facet('frozen', lambda: _scen(**ALL), quick=500,
         rule='state of ended runs compared bitwise after every further step; non-trivial: a run ended while another one went on')
def frozen(s):
    e, pr = build(s)
    dyn = e.dyn
    watch(s, e, pr)
    if s['later'] is not None and s['extra'] is None:
        # after a reset the runs are started again, with other stopping times
        for t, at in zip(pr, s['later']):
            t.term = scen.Script(at)
        dyn.reset()
        watch(s, e, pr, False)
        note('second run after reset')


def watch(s, e, pr, first=True):
    dyn = e.dyn
    ended = {}
    start = np.array(dyn.x, copy=True)
    for k in range(200):
        stop = dyn.terminate()
        if s['twice'] or stop:                    # asking again without a step changes nothing
            act = list(dyn.active_runs_idx)
            if bool(dyn.terminate()) != bool(stop) or list(dyn.active_runs_idx) != act:
                fail('asked again, terminate() leaves the runs %s active instead of %s' % (list(dyn.active_runs_idx), act))
        holds = [held(pr, m) for m in range(dyn.M)]
        act = [int(i) for i in dyn.active_runs_idx]
        want = [m for m in range(dyn.M) if not holds[m]]
        if act != want:
            fail('active runs %s, the criteria leave %s' % (act, want))
        if bool(stop) != (not want):
            fail('terminate() says %r with active runs %s' % (stop, want))
        for m in range(dyn.M):
            if holds[m]:
                r = dyn.term_reason[m]
                if r is None or sorted(int(i) for i in np.atleast_1d(r)) != holds[m]:
                    fail('recorded reason of run %d is %r, the fulfilled criteria are %s' % (m, r, holds[m]))
                if m not in ended:
                    ended[m] = state(dyn, m)
                    if k == 0:
                        exact(dyn.x[m], start[m], 'particles of a run that ended before the first step')
            elif first and dyn.term_reason[m] is not None:
                fail('run %d is active but has the reason %r' % (m, dyn.term_reason[m]))
        if stop:
            break
        dyn.step()
        if dyn.it != k + 1:
            fail('iteration counter %r after %d steps' % (dyn.it, k + 1))
        for m, old in ended.items():
            new = state(dyn, m)
            for n in old:
                if n in new:
                    exact(new[n], old[n], '%s of run %d, which ended before step %d' % (n, m, k + 1))
        if ended:
            hit(s['dyn'])
            if s.get('batch'):
                note('mini-batch')
            if s.get('corr') not in (None, 'no_correction'):
                note('correction')
    else:
        fail('the loop did not end')


@P.facet('optimize', lambda: _scen(**ALL), quick=250,
         rule='optimize() makes exactly the steps of the run stopping last; non-trivial: at least one step and M > 1')
def optimize(s):
    s = dict(s, extra=None)
    M = s['x']['s'][0]
    at = [min([a[m] for a in s['script']] + [s['steps']]) for m in range(M)]
    e, pr = build(s)
    dyn = e.dyn
    moved = np.zeros(M, dtype=int)
    stepped = [0]
    orig = dyn.step

    def step(*a, **k):
        before = np.array(dyn.x, copy=True)
        stepped[0] += 1
        r = orig(*a, **k)
        ch = np.array([not np.array_equal(before[m], dyn.x[m]) for m in range(M)])
        moved[ch] = stepped[0]
        return r
    dyn.step = step
    dyn.optimize(sched=None)
    if dyn.it != max(at) or stepped[0] != max(at):
        fail('optimize stopped after %d steps (%d counted), the criteria allow exactly %d' % (stepped[0], dyn.it, max(at)))
    for m in range(M):
        if moved[m] > at[m]:
            fail('run %d moved in step %d, but its criterion held after %d steps' % (m, moved[m], at[m]))
    for m in range(M):
        want = [i for i, a in enumerate(s['script']) if dyn.it >= a[m]] + ([len(s['script'])] if dyn.it >= s['steps'] else [])
        got = sorted(int(i) for i in np.atleast_1d(dyn.term_reason[m]))
        if got != want:
            fail('reason of run %d is %s, fulfilled are %s' % (m, got, want))
    if s['dyn'] in ('CBO', 'AdamCBO', 'CBS', 'MirrorCBO') and s.get('corr') in (None, 'no_correction'):
        n = min((s.get('batch') or {}).get('size', dyn.N), dyn.N)
        exact(dyn.num_f_eval, [n * a for a in at], 'evaluations of the runs stopping after %s steps' % at)
    # asking again changes nothing
    old = [state(dyn, m) for m in range(M)]
    n = e.obj.n
    dyn.optimize(sched=None)
    if stepped[0] != max(at) or e.obj.n != n:
        fail('optimize() on an ended dynamic made another step')
    for m in range(M):
        for k, v in old[m].items():
            exact(getattr(dyn, k)[m], v, '%s after a second optimize()' % k)
    if dyn.it and M > 1:
        hit(s['dyn'])
        if len(set(at)) > 1:
            note('different stopping times')


@P.facet('resampled', lambda: st.tuples(_scen(dyns=('CBO', 'AdamCBO', 'CBOMemory', 'PSO'), batch=True, multi=True),
                                        ints(1, 3), pick('x', 'x', 'y')).map(lambda t: dict(t[0], wait=t[1], var=t[2])), quick=120,
         rule='resampling schedulers leave ended runs unchanged; non-trivial: a resampling while a run had ended')
def resampled(s):
    from cbx.utils.resampling import consensus_stagnation, ensemble_update_resampling, loss_update_resampling, resampling
    e, pr = build(s)
    dyn = e.dyn
    var = s['var'] if hasattr(dyn, s['var']) else 'x'
    rs = resampling([loss_update_resampling(s['wait']), ensemble_update_resampling(0.5), consensus_stagnation(2, 0.2)],
                    var_name=var, sigma_indep=1.0, track_best_consensus=bool(s['wait'] % 2))
    ended = {}
    for k in range(20):
        if dyn.terminate():
            break
        for m in range(dyn.M):
            if m not in dyn.active_runs_idx and m not in ended:
                ended[m] = state(dyn, m)
        dyn.step()
        rs(dyn)
        if ended and rs.num_resampling.sum():
            hit(s['dyn'])
        for m, old in ended.items():
            for n, v in old.items():
                if var == 'y' and n.startswith('best_cur'):      # follows the perturbed historical bests
                    continue
                exact(getattr(dyn, n)[m], v, '%s of ended run %d after step and resampling %d' % (n, m, k + 1))


@P.facet('sizes', lambda: st.sampled_from(('long', 'large')).flatmap(lambda z: _scen(size=z, **ALL)), quick=40,
         rule='as frozen, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    frozen(s)
