"""C07: exact per-run evaluation counts."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is, skip
from pbt.gen import ints, pick, q

P = Prop('C07', assumptions=['constructing regularised objectives and resampling with several rules are covered, custom '
                             'corrections that evaluate the objective themselves are not'])
RULE = 'a recording objective counts the points of each run; compared with num_f_eval after each step; '


class Counting(scen.Objective):
    """Attributes every evaluated point to the run it belongs to."""

    def __init__(self, spec, nd, M, blind=False):
        super().__init__(spec, nd, wrap=(lambda v, p: np.full_like(v, np.inf)) if blind else None)
        self.M = M
        self.count = np.zeros(M, dtype=int)
        self.dyn = None
        self.only = None

    def __call__(self, x):
        v = super().__call__(x)
        runs = list(range(self.M))
        if self.only is not None:
            runs = list(self.only)
        elif self.dyn is not None and x.shape[0] != self.M:
            runs = [int(i) for i in self.dyn.active_runs_idx]
        if len(runs) != x.shape[0]:
            fail('objective evaluated on %d rows while %d runs are active' % (x.shape[0], len(runs)))
        self.count[runs] += int(v.shape[1])
        return v


def build(s, **over):
    X = scen.x0(s)
    obj = Counting(s['f'], X.ndim - 2, X.shape[0], s.get('blind', False))
    e = scen.build(s, obj=obj, **over)
    obj.dyn = e.dyn
    return e


def check(e, when):
    n = np.array(e.dyn.num_f_eval)
    shape_is(n, (e.dyn.M,), 'num_f_eval')
    if not np.array_equal(n, e.obj.count):
        fail('%s: reported evaluations %s, the objective saw %s points' % (when, n.tolist(), e.obj.count.tolist()))
    if n.dtype.kind not in 'iu':
        fail('num_f_eval has dtype %s' % n.dtype)


@st.composite
def _terms(draw, steps, M):
    out = draw(scen.terms(steps, M))
    if draw(st.booleans()):
        out.insert(0, {'name': 'energy-stagnation', 'patience': draw(ints(1, 3)), 'std_thresh': draw(pick(1e-9, 0.1, 2.0))})
    if draw(pick(True, False, False)):
        out.insert(0, {'name': 'max-eval', 'max_eval': draw(ints(1, 60))})
    return out


@st.composite
def _scen(draw, **kw):
    s = draw(scen.scenario(batch=True, multi=True, steps=(1, 5), **kw))
    s['term'] = draw(_terms(s['steps'], s['x']['s'][0]))
    s['check_f'] = draw(st.booleans())
    if s['dyn'] == 'PolarCBO' and s['kernel'] == 'Constant':
        s['kernel'] = 'Gaussian'
    return s


@P.facet('all_dynamics', lambda: _scen(dyns=scen.DYNS + ('CBO', 'CBO', 'MirrorCBO'), noises=('isotropic', 'anisotropic', 'covariance'),
                                       corr=('no_correction', 'heavi_side', 'heavi_side_reg')), quick=500,
         rule=RULE + 'all dynamics, corrections and criteria; non-trivial: at least one step')
def all_dynamics(s):
    if s['dyn'] == 'PolarCBO':                       # no single consensus point per run
        s = dict(s, corr=None)
    e = build(s)
    check(e, 'after construction')
    k = 0
    while k < 60:
        if e.dyn.terminate():
            check(e, 'at the end')
            break
        check(e, 'before step %d' % k)
        e.dyn.step()
        k += 1
        check(e, 'after step %d' % k)
    if k:
        hit(s['dyn'])
        if s.get('corr') not in (None, 'no_correction'):
            note('correction')
        if len(set(e.obj.count.tolist())) > 1:
            note('runs with different counts')
        if s.get('batch'):
            note('mini-batch')
        note(*['criterion ' + t['name'] for t in s['term']])


@P.facet('polar', lambda: _scen(dyns=('PolarCBO',), noises=('isotropic',)).flatmap(
    lambda s: pick('heavi_side', 'heavi_side_reg').map(lambda c: dict(s, corr=c))), quick=80,
    rule=RULE + 'PolarCBO with corrections evaluates one consensus point per particle; non-trivial: at least one step')
def polar(s):
    e = build(dict(s, term=[t for t in s['term'] if t['name'] != 'energy-stagnation']))
    for k in range(60):
        if e.dyn.terminate():
            break
        e.dyn.step()
        check(e, 'after step %d' % (k + 1))
        hit()


@P.facet('resampling', lambda: _scen(dyns=('CBO', 'CBOMemory'), noises=('isotropic',)).flatmap(
    lambda s: st.fixed_dictionaries({'thresh': pick(0.05, 0.3, 10.0), 'tbc': st.booleans()}).map(lambda t: dict(s, **t))),
    quick=120, rule=RULE + 'tracking the best consensus at resamplings is charged to the resampled runs; non-trivial: a resampling')
def resampling(s):
    from cbx.utils.resampling import ensemble_update_resampling, resampling as Res
    e = build(s)
    called = []

    def apply(dyn, idx, **kw):
        called.append(list(idx))
        e.obj.only = [int(i) for i in idx]
    rs = Res([ensemble_update_resampling(s['thresh'])], apply=apply, track_best_consensus=s['tbc'])
    for k in range(60):
        if e.dyn.terminate():
            break
        e.dyn.step()
        rs(e.dyn)
        e.obj.only = None
        check(e, 'after step %d with resampling' % (k + 1))
    if called:
        hit('tracked' if s['tbc'] else 'plain')


@P.facet('dims', lambda: st.fixed_dictionaries({'x': st.tuples(ints(1, 3), ints(1, 5), ints(1, 3)).flatmap(
    lambda t: gen.array(list(t))), 'f_dim': pick('1D', '2D', '3D', 'obj'), 'steps': ints(0, 4), 'check': st.booleans(),
    'cls': pick('CBO', 'CBOMemory', 'PSO', 'CBS')}), quick=120,
    rule='single evaluations of 1D/2D/3D objectives and cbx objectives; total and per-run counts agree; non-trivial: a step')
def dims(c):
    import cbx.dynamics as D
    from cbx.objectives import Rastrigin
    x = gen.dec(c['x'])
    n = [0]

    def f1(z):
        n[0] += 1
        return float((z ** 2).sum())

    def f2(z):
        n[0] += z.shape[0]
        return (z ** 2).sum(-1)

    def f3(z):
        n[0] += z.shape[0] * z.shape[1]
        return (z ** 2).sum(-1)
    f = {'1D': f1, '2D': f2, '3D': f3, 'obj': Rastrigin()}[c['f_dim']]
    kw = {} if c['f_dim'] == 'obj' else {'f_dim': c['f_dim']}
    dyn = getattr(D, c['cls'])(f, x=x, verbosity=0, max_it=c['steps'], check_f_dims=c['check'], **kw)
    dyn.optimize()
    num = int(np.sum(dyn.num_f_eval))
    M, N = x.shape[:2]
    want = M * N * (c['check'] + c['steps'] + (c['cls'] in ('CBOMemory', 'PSO')))
    if num != want:
        fail('%d evaluations reported after %d steps, expected %d' % (num, c['steps'], want))
    if c['f_dim'] == 'obj':
        if f.num_eval != num:
            fail('the objective counted %d, the dynamic %d' % (f.num_eval, num))
    elif n[0] != num:
        fail('the function was called %d times, reported %d' % (n[0], num))
    if getattr(dyn.f, 'num_eval', num) != num:
        fail('the promoted objective counted %d, the dynamic %d' % (dyn.f.num_eval, num))
    if c['steps']:
        hit(c['f_dim'])


@P.facet('sizes', lambda: st.sampled_from(('long', 'large')).flatmap(lambda z: _scen(
    dyns=scen.DYNS + ('CBO', 'CBO', 'MirrorCBO'), noises=('isotropic', 'anisotropic', 'covariance'),
    corr=('no_correction', 'heavi_side', 'heavi_side_reg'), size=z)), quick=40,
    rule=RULE + 'as all_dynamics, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    all_dynamics(s)


@P.facet('infeasible', lambda: _scen(dyns=('CBO', 'CBOMemory', 'PSO', 'MirrorCBO', 'AdamCBO'), noises=('isotropic', 'anisotropic'),
                                     corr=('no_correction', 'heavi_side')).map(lambda s: dict(s, blind=True)), quick=60,
         rule=RULE + 'objectives that are infinite everywhere; non-trivial: at least one step')
def infeasible(s):
    all_dynamics(s)
