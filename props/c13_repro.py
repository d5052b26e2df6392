"""C13: reproducibility, optimize() against its loop, and freedom from side effects of observing."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, skip
from pbt.gen import ints, pick, q, seeds

P = Prop('C13', assumptions=['initial particles are given: their default initialisation uses the global NumPy generator'])
NAMES = ('x', 'energy', 'best_energy', 'best_particle', 'best_cur_energy', 'num_f_eval', 'y', 'v', 'm', 'alpha', 'consensus', 'drift',
         'update_diff', 'lamda', 'sigma', 'dt', 'it', 't')


def state(dyn):
    out = {}
    for n in NAMES:
        if hasattr(dyn, n):
            a = getattr(dyn, n)
            if a is not None:
                out[n] = np.array(a, copy=True)
    out['reason'] = [None if r is None else list(map(int, np.atleast_1d(r))) for r in dyn.term_reason]
    return out


def equal(a, b, what):
    if set(a) != set(b):
        fail('%s: attributes %s' % (what, set(a) ^ set(b)))
    for n in a:
        if n == 'reason':
            if a[n] != b[n]:
                fail('%s: reasons %s and %s' % (what, a[n], b[n]))
        else:
            exact(a[n], b[n], '%s: %s' % (what, n))


@st.composite
def sched(draw):
    k = draw(pick('none', 'default', 'effective', 'list', 'list'))
    if k != 'list':
        return k
    return draw(st.lists(st.tuples(pick('alpha', 'sigma', 'lamda', 'dt', 'eff'), pick(0.5, 0.9, 1.05, 2.0), pick(None, 1.5, 20.0)), min_size=0,
                         max_size=3))


@st.composite
def _scen(draw, **kw):
    kw = dict(dict(dyns=scen.DYNS + ('CBO', 'CBO'), noises=('isotropic', 'anisotropic', 'constant', 'covariance'), batch=True, multi=True,
                   term=True, steps=(1, 6), corr=('no_correction', 'heavi_side', 'heavi_side_reg')), **kw)
    s = draw(scen.scenario(**kw))
    if s['dyn'] == 'PolarCBO':
        s['corr'] = None
        if s['kernel'] == 'Constant':
            s['kernel'] = 'Gaussian'
    s['sched'] = draw(sched())
    if s['dyn'] == 'CBS' and s['sched'] == 'effective':
        s['sched'] = 'default'
    if s['dyn'] == 'DriftConstrainedCBO' and draw(st.booleans()):
        s['sigma_indep'], s['eps_indep'] = 0.5, 0.05
    s['global'] = draw(seeds)
    s['check_f'] = draw(st.booleans())
    return s


def make_sched(s):
    from cbx.scheduler import effective_sample_size, multiply, scheduler
    if not isinstance(s['sched'], list):
        return s['sched'] if s['sched'] != 'none' else None
    out = []
    for n, f, mx in s['sched']:
        kw = {} if mx is None else {'maximum': mx}
        out.append(effective_sample_size(**kw) if n == 'eff' else multiply(name=n, factor=f, **kw))
    return scheduler(out)


def updater(s, dyn):
    """What optimize() has to apply after each step."""
    from cbx.scheduler import effective_sample_size
    r = make_sched(s)
    if r is None:
        return lambda d: None
    if r == 'effective':
        return effective_sample_size().update
    if r == 'default':
        return dyn.default_sched().update
    return r.update


def loop(e, s, other=None):
    up = updater(s, e.dyn)
    while not e.dyn.terminate():
        e.dyn.step()
        up(e.dyn)
        if other is not None:
            other()
    return e


def rich(s, e):
    if e.dyn.it and e.dyn.N > 1:
        hit(s['dyn'])
        note('noise ' + s['noise'])


@P.facet('rebuild', _scen, quick=200,
         rule='two dynamics built from equal arguments agree bitwise whatever the global random state; non-trivial: a step with N > 1')
def rebuild(s):
    np.random.seed(1)
    a = loop(scen.build(s, sampler=False), s)
    np.random.seed(s['global'] % 2 ** 32)
    np.random.standard_normal(7)
    b = loop(scen.build(s, sampler=False), s)
    equal(state(a.dyn), state(b.dyn), 'the same optimisation twice')
    rich(s, a)


@P.facet('seeds', lambda: scen.scenario(dyns=scen.DYNS, noises=('isotropic', 'anisotropic', 'constant'), batch=False, steps=(1, 2),
                                        Ns=(3, 6), ds=(2, 4), kinds=('fine',)), quick=100,
         rule='dynamics that differ only in the seed get different noise; non-trivial: positive sigma and different particles')
def differ(s):
    if s['dyn'] == 'PolarCBO' and s['kernel'] == 'Constant':
        s = dict(s, kernel='Gaussian')
    # a small alpha: no particle has all the weight, so the covariance does not vanish
    s = dict(s, sigma=1.0, mirrormap='L2', alpha=1e-3 / s['f'].get('scale', 1.0), kappa=3.0)
    X = np.random.default_rng(s['ns']).standard_normal(s['x']['s'])
    if s['dyn'] == 'HyperSurfaceCBO':
        X /= np.linalg.norm(X, axis=-1, keepdims=True)
    outs = []
    for sd in (s['ns'], s['ns'] + 1, s['ns']):
        e = scen.build(s, x=X, sampler=False, seed=sd)
        for _ in range(s['steps']):
            e.dyn.step()
        outs.append(np.array(e.dyn.x))
    exact(outs[0], outs[2], 'positions for the same seed')
    if np.array_equal(outs[0], outs[1]):
        fail('positions are equal for different seeds')
    hit(s['dyn'])


@P.facet('optimize', _scen, quick=300,
         rule='optimize() against a loop of stopping test, step and scheduler update, bitwise; non-trivial: a step with N > 1')
def optimize(s):
    a = loop(scen.build(s, sampler=False), s)
    b = scen.build(s, sampler=False)
    r = b.dyn.optimize(sched=make_sched(s))
    equal(state(a.dyn), state(b.dyn), 'optimize() and its loop')
    if r is None:
        fail('optimize() returned None')
    exact(r, a.dyn.best_particle, 'the result of optimize()')
    if s['sched'] == 'default':
        c = scen.build(s, sampler=False)
        c.dyn.optimize()
        equal(state(a.dyn), state(c.dyn), 'optimize() without scheduler argument')
    rich(s, a)
    note('sched ' + (s['sched'] if isinstance(s['sched'], str) else 'list'))


@P.facet('observe', lambda: st.tuples(_scen(), st.fixed_dictionaries({
    'verbosity': pick(0, 1, 2, 3), 'print_int': pick(None, 1, 2, 7), 'save_int': pick(1, 2, 3),
    'names': st.lists(pick('x', 'energy', 'update_norm', 'consensus', 'drift', 'drift_mean', 'alpha'), unique=True, max_size=4),
    'read': st.booleans(), 'sce': st.booleans()})).map(lambda t: dict(t[0], obs=t[1])), quick=300,
    rule='verbosity, printing interval, tracking, saved evaluation points and reading the state change nothing, bitwise; non-trivial: a step with N > 1')
def observe(s):
    o = s['obs']
    a = loop(scen.build(s, sampler=False), s)
    b = scen.build(s, sampler=False, verbosity=o['verbosity'], track_args={'names': o['names'], 'save_int': o['save_int']},
                   **({'save_consensus_eval_points': True} if o['sce'] else {}))
    dyn = b.dyn
    if o['read']:
        orig = dyn.step

        def step():
            orig()
            repr(dyn)
            dyn.print_cur_state()
            np.array(dyn.x).sum(), dyn.best_particle, dyn.history, dyn.to_numpy(dyn.x)
        dyn.step = step
    if s['dyn'] == 'CBS':
        dyn.optimize(sched=make_sched(s))
    else:
        dyn.optimize(sched=make_sched(s), print_int=o['print_int'])
    equal(state(a.dyn), state(dyn), 'observed and unobserved optimisation')
    rich(s, a)
    note('verbosity %d' % o['verbosity'])


@P.facet('interleave', lambda: st.tuples(_scen(), _scen(), st.lists(ints(0, 1), max_size=16), st.booleans()).map(
    lambda t: {'a': t[0], 'b': t[1], 'order': t[2], 'twin': t[3]}), quick=250,
    rule='two dynamics advanced in a generated interleaving against each of them alone, bitwise; non-trivial: both made a step')
def interleave(c):
    s0, s1 = c['a'], c['b']
    if c['twin']:
        s1 = dict(s0, ns=s1['ns'])
    alone = [state(loop(scen.build(s, sampler=False), s).dyn) for s in (s0, s1)]
    es = [scen.build(s, sampler=False) for s in (s0, s1)]
    ups = [updater(s, e.dyn) for s, e in zip((s0, s1), es)]
    made = [0, 0]

    def one(i):
        if es[i].dyn.terminate():
            return False
        es[i].dyn.step()
        ups[i](es[i].dyn)
        made[i] += 1
        return True
    ended = [False, False]
    for i in c['order']:
        if not ended[i] and not one(i):
            ended[i] = True
    for i in (0, 1):
        while not ended[i]:
            ended[i] = not one(i)
    for i in (0, 1):
        equal(alone[i], state(es[i].dyn), 'dynamic %d alone and interleaved with another' % i)
    if all(made):
        hit('twins' if c['twin'] else 'different')


@P.facet('sizes', lambda: st.sampled_from(('long', 'large')).flatmap(lambda z: _scen(size=z)), quick=40,
         rule='as rebuild and optimize, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    rebuild(s)
    optimize(s)
