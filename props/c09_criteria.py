"""C09: the built-in stopping criteria."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, fail, hit, note, rejects, shape_is, skip
from pbt.gen import ints, pick, q

P = Prop('C09')
NAMES = {'energy_tol': ('energy-tol', 'energy tol', 'energy_tol'), 'diff_tol': ('diff-tol', 'diff tol', 'diff_tol'),
         'max_eval': ('max-eval', 'max eval', 'max_eval'), 'max_it': ('max-it', 'max it', 'max_it'),
         'max_time': ('max-time', 'max time', 'max_time'),
         'stag': ('energy-stagnation', 'energy stagnation', 'energy_stagnation')}
DEF = {'energy_tol': 1e-7, 'diff_tol': 1e-7, 'max_eval': 1000, 'max_it': 1000, 'max_time': 10.0, 'stag': (20, 1e-9)}


@st.composite
def crit(draw, steps):
    k = draw(pick('energy_tol', 'energy_tol', 'diff_tol', 'diff_tol', 'max_eval', 'max_it', 'max_time', 'stag', 'stag'))
    c = {'k': k, 'sp': draw(ints(0, 2)), 'form': draw(pick('dict', 'dict', 'dict', 'dict', 'str', 'obj'))}
    if k == 'energy_tol':
        c['v'] = draw(st.one_of(q(0, 1, 3), pick('exact 0', 'exact 1')))
    elif k == 'diff_tol':
        c['v'] = draw(pick(0.0131, 0.0572, 0.2113, 1.0319, 5.07, 0.0))
    elif k == 'max_eval':
        c['v'] = draw(ints(0, 60))
    elif k == 'max_it':
        c['v'] = draw(st.one_of(ints(0, steps), st.just(None)))
    elif k == 'max_time':
        c['v'] = draw(pick(0.0, 0.05, 0.25, 0.35, 0.5, 0.5 + 1e-10, 0.5 - 1e-10, 1.0, 1 + 1e-10, 1.15, 1.5, 2.0, 2.3, 3.0, 7.7))
    else:
        c['v'] = [draw(ints(1, 5)) if steps < 20 else draw(ints(9, 21)), draw(pick(1e-9, 0.01, 0.31, 2.13, 1e3))]
    if k in ('energy_tol', 'diff_tol', 'stag') and draw(st.booleans()):
        # a threshold just above or below a quantity of a trial run
        c['near'] = [draw(ints(0, 3)), draw(ints(0, steps - 1)), draw(pick(1 - 1e-6, 1 + 1e-6, 1 - 1e-3, 1 + 1e-3))]
    return c


@st.composite
def _scen(draw):
    s = draw(scen.scenario(dyns=('CBO', 'CBO', 'CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'CBS', 'PolarCBO'), batch=True, multi=True,
                           steps=(3, 12), objs=('quad', 'rastr', 'abs', 'mix', 'const', 'floor'), alphas=(0, 10)))
    s['sigma'] = draw(pick(0.0, 0.3, 1.0))
    if draw(ints(0, 3)) == 0:
        s['steps'] = draw(ints(22, 32))
    s['again'] = draw(pick(0, 0, 1, 2))
    s['near'] = draw(pick(None, None, 0.5))
    s['crit'] = draw(st.lists(crit(s['steps']), min_size=1, max_size=3))
    s['unit'], s['redt'] = draw(pick(1., 1., 1., 2. ** -50)), draw(pick(1., 1., .5, 2.))       # the unit of time, and a factor after every other step
    s['dt'] *= s['unit']
    if s['unit'] < 1:
        for c in s['crit']:
            if c['k'] == 'max_time':
                c.update(v=c['v'] * s['unit'], form='dict' if c['form'] == 'str' else c['form'])
    # the stagnation criterion evaluates the consensus whenever it is asked
    s['gap'] = draw(pick(1, 1, 2, 3)) if all(c['k'] != 'stag' for c in s['crit']) else 1
    return s


def value(c, s):
    """The threshold(s) of criterion c."""
    if c['form'] == 'str':
        return DEF[c['k']]
    if c['k'] == 'energy_tol' and isinstance(c['v'], str):      # exactly the best energy of one of the runs
        X = scen.x0(s)
        E = gen.obj_value(s['f'], X, X.ndim - 2).min(1)
        return float(E[int(c['v'][-1]) % len(E)])
    if c['k'] == 'energy_tol' and c.get('near'):
        return c['v']
    if c['k'] == 'energy_tol':
        return scen.resolve_term({'name': 'x', 'rel': c['v']}, s, range(s['x']['s'][0]))['energy_tol']
    return c['v']


def make(c, s):
    import cbx.utils.termination as T
    name = NAMES[c['k']][c['sp']]
    v = value(c, s)
    if c['form'] == 'str':
        return name
    kw = dict(patience=v[0], std_thresh=v[1]) if c['k'] == 'stag' else {c['k']: v}
    if c['form'] == 'obj':
        return {'energy_tol': T.energy_tol_term, 'diff_tol': T.diff_tol_term, 'max_eval': T.max_eval_term, 'max_it': T.max_it_term,
                'max_time': T.max_time_term, 'stag': T.energy_stagnation_term}[c['k']](**kw)
    return dict(kw, name=name)


class Log:
    def __init__(self, e, s):
        M = e.dyn.M
        self.en = np.full((M, e.dyn.N), np.inf)
        self.fmin = np.full(M, np.inf)
        self.diff = np.full(M, np.inf)
        self.stag = [[] for _ in range(M)]
        self.time = 0.0
        self.it = 0
        self.memory = s['dyn'] in ('CBOMemory', 'PSO')
        if self.memory:
            self.fmin = gen.obj_value(s['f'], e.x_init, e.x_init.ndim - 2).min(1)

    def step(self, e, s):
        dyn = e.dyn
        act = [int(i) for i in dyn.active_runs_idx]
        x_old = np.array(dyn.x, copy=True)
        e.obj.clear()
        dt = dyn.dt
        dyn.step()
        self.it += 1
        self.time += dt
        if self.it % 2 and s['redt'] != 1 and s['unit'] / 1e6 < dt * s['redt'] < 1.5 * s['unit']:
            dyn.dt = dt * s['redt']              # as a scheduler would
            note('changing time step')
        d = (dyn.x - x_old).reshape(dyn.M, -1)
        self.diff = np.sqrt((d ** 2).sum(-1)) / dyn.N
        # energies known for the particles
        B = scen.moved_of(dyn) if self.memory else scen.batch_of(dyn)
        (xs, vs) = e.obj.calls[0]
        for i, m in enumerate(act):
            js = B[m]
            self.en[m, js] = np.minimum(self.en[m, js], vs[i]) if self.memory else vs[i]
        if self.memory:
            self.fmin = np.minimum(self.fmin, self.en.min(1))
        else:
            self.fmin = self.en.min(1)
        c = np.array(dyn.consensus)
        for i, m in enumerate(act):
            self.stag[m].append(float(gen.obj_value(s['f'], c[i], c.ndim - 2).mean()))
        if any(m not in act for m in range(dyn.M)):
            note('some runs ended earlier')


def sharpen(s):
    """Replace the thresholds that refer to a trial run."""
    if not any(c.get('near') for c in s['crit']):
        return s
    e = scen.build(s, term_criteria=[lambda d: np.zeros(d.M, dtype=bool)])
    e.dyn.terminate()
    log = Log(e, s)
    rec = []
    for _ in range(s['steps']):
        log.step(e, s)
        rec.append((log.fmin.copy(), log.diff.copy(), [list(v) for v in log.stag]))
    out = []
    for c in s['crit']:
        if c.get('near'):
            m, k, z = c['near'][0] % e.dyn.M, c['near'][1], c['near'][2]
            f, d, g = rec[k]
            c = dict(c, form='dict' if c['form'] == 'str' else c['form'])
            if c['k'] == 'energy_tol':
                c['v'] = float(f[m] + (z - 1) * (1e-3 + abs(f[m]))) if np.isfinite(f[m]) else .5
            elif c['k'] == 'diff_tol':
                c['v'] = float(d[m] * z)
            elif len(g[m]) >= c['v'][0]:
                c['v'] = [c['v'][0], max(float(np.std(g[m][-c['v'][0]:])) * z, 1e-9)]
        out.append(c)
    return dict(s, crit=out)


def expect(c, s, e, log):
    """-> (decision, certain) per run."""
    M = e.dyn.M
    v = value(c, s)
    sure = np.ones(M, dtype=bool)
    if c['k'] == 'energy_tol':
        return log.fmin < v, sure         # both are recorded values of the objective or given: no rounding
    if c['k'] == 'diff_tol':
        return log.diff < v, ~(np.abs(log.diff - v) <= 1e-9 * v) if v else sure
    if c['k'] == 'max_eval':
        n = min((s.get('batch') or {}).get('size', e.dyn.N), e.dyn.N)
        # the stagnation criterion evaluates the objective, possibly after this criterion was asked
        a, b = log.evals + n > v, np.array(e.dyn.num_f_eval) + n > v
        return b, a == b
    if c['k'] == 'max_it':
        return np.full(M, v is not None and log.it >= v), sure
    if c['k'] == 'max_time':
        exact_sum = s['dt'] / s['unit'] in (.25, .5, 1.)
        return np.full(M, log.time >= v), np.full(M, exact_sum or abs(log.time - v) > 1e-9 * s['unit'])
    p, th = v
    out = np.zeros(M, dtype=bool)
    for m in range(M):
        L = log.stag[m]
        if len(L) >= p:
            sd = float(np.std(L[-p:]))
            out[m] = sd < th
            sure[m] = abs(sd - th) > 1e-9 * (1 + np.max(np.abs(L[-p:])))
    return out, sure


@P.facet('history', _scen, quick=900,
         rule='the set of criteria fulfilled by each run is recomputed from the recorded history at every check; non-trivial: '
              'some criterion other than max-it fired after at least one step')
def history(s):
    if s['dyn'] == 'PolarCBO' and s['kernel'] == 'Constant':
        s = dict(s, kernel='Gaussian')
    s = sharpen(s)
    e = scen.build(s, term_criteria=[make(c, s) for c in s['crit']])
    dyn = e.dyn
    log = Log(e, s)
    k = 0
    while True:
        for _ in range(s['again']):               # asking more than once without a step changes nothing
            dyn.terminate()
        log.evals = np.array(dyn.num_f_eval, copy=True)
        stop = dyn.terminate()
        ended = [m for m in range(dyn.M) if m not in [int(i) for i in dyn.active_runs_idx]]
        exp = [expect(c, s, e, log) for c in s['crit']]
        for m in range(dyn.M):
            got = set() if m not in ended else set(int(i) for i in np.atleast_1d(dyn.term_reason[m]))
            for i, (d, sure) in enumerate(exp):
                if not sure[m]:
                    note('at a threshold')
                    continue
                if bool(d[m]) != (i in got):
                    fail('after %d steps criterion %r %s run %d (history: f_min %r, update %r, consensus energies %r, evaluations %r)' % (
                        k, s['crit'][i], 'stopped' if i in got else 'did not stop', m, log.fmin[m], log.diff[m],
                        log.stag[m][-6:], int(dyn.num_f_eval[m])))
                if d[m] and k and s['crit'][i]['k'] != 'max_it':
                    hit(s['crit'][i]['k'])
        if bool(stop) != (len(ended) == dyn.M):
            fail('terminate() is %r with ended runs %s' % (stop, ended))
        if stop or k >= s['steps']:
            break
        for _ in range(s['gap']):
            log.step(e, s)
            k += 1
    note(*['form ' + c['form'] for c in s['crit']])


@P.facet('names', lambda: st.fixed_dictionaries({'k': pick(*NAMES), 'sp': ints(0, 2), 'bad': pick('maxit', 'energy', '', 'tol', 'max__it'),
                                                 'M': ints(1, 4), 'v': ints(0, 5), 'steps': ints(0, 6)}), quick=80,
         rule='every documented spelling selects its criterion, as string or dictionary; unknown names and dictionaries without name are rejected; '
              'non-trivial: always')
def names(c):
    import cbx.dynamics as D
    from cbx.utils.termination import select_term
    hit(c['k'])
    n = NAMES[c['k']][c['sp']]

    def dyn(term, **kw):
        return D.CBO(lambda x: (x ** 2).sum(-1), f_dim='3D', x=np.ones((c['M'], 3, 2)) * np.arange(1, 4)[:, None], verbosity=0,
                     term_criteria=term, seed=1, **kw)
    forms = [n, {'name': n}]
    res = []
    for f in forms:
        a = dyn([f, {'name': 'max_it', 'max_it': c['steps']}])
        a.optimize(sched=None)
        res.append((a.it, [list(map(int, r)) for r in a.term_reason]))
    if res[0] != res[1]:
        fail('string and dictionary of %r differ: %r, %r' % (n, res[0], res[1]))
    ref = dyn([{'name': NAMES[c['k']][0]}, {'name': 'max_it', 'max_it': c['steps']}])
    ref.optimize(sched=None)
    if (ref.it, [list(map(int, r)) for r in ref.term_reason]) != res[0]:
        fail('spelling %r behaves unlike %r' % (n, NAMES[c['k']][0]))
    term = dict({'name': n}, **({} if c['k'] == 'stag' else {c['k']: c['v']}))
    keep = dict(term)
    for _ in range(2):
        dyn([term])
        select_term(term)
        if term != keep:
            fail('the dictionary %r given as criterion became %r' % (keep, term))
    keep = lambda d: np.zeros(d.M, dtype=bool)   # noqa: E731
    if select_term(keep) is not keep:
        fail('a callable is not used as it is')
    rejects(lambda: select_term({'max_it': 3}), (ValueError,), 'dictionary without name')
    rejects(lambda: dyn([{'energy_tol': 3}]), (ValueError,), 'dictionary without name')
    rejects(lambda: select_term(c['bad']), (KeyError, ValueError), 'unknown criterion %r' % c['bad'])
    rejects(lambda: select_term({'name': c['bad']}), (KeyError, ValueError), 'unknown criterion %r' % c['bad'])
    # without criteria, max_it decides; None never stops
    a = dyn(None, max_it=c['v'])
    a.optimize(sched=None)
    if a.it != c['v']:
        fail('max_it=%d stopped after %d steps' % (c['v'], a.it))
    a = dyn(None, max_it=None)
    for _ in range(3):
        if a.terminate():
            fail('max_it=None stopped')
        a.step()
