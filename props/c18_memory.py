"""C18: CBO with memory effects."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is, skip
from pbt.gen import dec, ints, pick, q
from props.c02_cbo_step import expected_noise

P = Prop('C18', assumptions=['standard post-processing (clipping at 1e8)', 'positions of the memory are exact up to rounding (the code moves '
                             'them by y + (x - y))', 'correction functions compare with stored energies; here only user-supplied corrections'])
NOISE = ('isotropic', 'anisotropic', 'constant')


class Memory:
    """Best position of each particle: earliest among the lowest values."""

    def __init__(self, x, v):
        self.y, self.e = np.array(x, copy=True), np.array(v, copy=True)
        self.improved = 0

    def see(self, m, idx, x, v):
        for k, i in enumerate(idx):
            if v[k] < self.e[m, i]:
                self.y[m, i], self.e[m, i] = x[k], v[k]
                self.improved += 1


def check_memory(e, mem, what):
    dyn = e.dyn
    exact(dyn.energy, mem.e, what + ': stored energies')
    y = np.asarray(dyn.y)
    shape_is(y, mem.y.shape, what + ': memory')
    sc = 1e-11 * (1 + np.abs(e.hi))
    same(y, mem.y, what + ': historical best positions', rtol=0, atol=sc)


def start(s, **over):
    e = scen.build(s, **over)
    X = scen.x0(s)
    e.hi = np.abs(X).max()
    mem = Memory(X, e.obj.value(X))
    pts = [c[0] for c in e.obj.calls]
    if len(pts) != 1 or pts[0].shape != X.shape or np.any(pts[0] != X):
        fail('construction evaluates %s, the ensemble is %s' % ([p.shape for p in pts], X.shape))
    check_memory(e, mem, 'after construction')
    return e, mem


def after(e, mem, pre, post):
    """Common part of a step: evaluated points, memory, ended runs."""
    act, mv = pre['active'], scen.moved_of(e.dyn)
    if sorted(mv) != act:
        fail('particles of runs %s were updated, active are %s' % (sorted(mv), act))
    if len(e.obj.calls) != 1:
        fail('%d calls of the objective in a step' % len(e.obj.calls))
    xs, vs = e.obj.calls[0]
    e.hi = max(e.hi, np.abs(xs).max())
    for i, m in enumerate(act):
        if np.abs(xs[i]).max() <= 1e8:
            exact(xs[i], post['x'][m][mv[m]], 'points evaluated for run %d' % m)
        mem.see(m, mv[m], xs[i], vs[i])
        rest = [k for k in range(e.dyn.N) if k not in mv[m]]
        exact(post['x'][m][rest], pre['x'][m][rest], 'particles of run %d outside the batch' % m)
        if rest:
            note('partial update')
    for m in range(e.dyn.M):
        if m not in act:
            note('some runs ended')
            for k in ('x', 'y', 'energy') + (('v',) if 'v' in pre else ()):
                exact(post[k][m], pre[k][m], '%s of the ended run %d' % (k, m))
    if np.any(post['energy'] > pre['energy']):
        fail('a stored energy increased')
    check_memory(e, mem, 'step %d' % post['it'])
    return act, mv


def consensus_of(e, pre, post, act):
    """{run: consensus}, checked against the memory."""
    b = scen.batch_of(e.dyn)
    al = np.broadcast_to(np.asarray(pre['alpha'], float).reshape(-1), (e.dyn.M,)) if np.size(pre['alpha']) == 1 \
        else np.asarray(pre['alpha'], float).reshape(-1)
    out = {}
    for i, m in enumerate(act):
        c = np.asarray(post['consensus'])[i]
        y, en = pre['y'][m][b[m]], pre['energy'][m][b[m]]
        if np.isfinite(en).any():
            k = 1e-10 + 1e-13 * al[m] * np.abs(en[np.isfinite(en)]).max()
            same(c[0], ref.consensus(en, y, al[m]), 'consensus of run %d of the historical best positions' % m, rtol=0,
                 atol=k * (1 + np.abs(y).max()))
        elif not np.all(np.isfinite(c)):
            skip('all energies infinite')
        out[m] = c
    return out


def put(full, idx, rows):
    """rows[k] moved to particle idx[k]; the last entry counts for a particle that is twice in a batch bridging two passes. -> rows"""
    full = np.array(full, copy=True)
    full[idx] = rows
    return full[idx]


def heated(s):
    """alpha * inf is not a number for alpha = 0: not covered."""
    a = s['alpha']
    return dict(s, alpha=[v or .1 for v in a] if isinstance(a, list) else a or .1)


def half(dyn, z):
    return .5 * z


RULE = 'random problems with mini-batches, ended runs and arrays as particles; '


def run(s, **over):
    e, mem = start(s, **over)
    h = .5 if over else 1.
    lm = s['lamda_memory']
    sm = s['sigma_memory'] if s['sigma_memory'] is not None else lm * s['sigma']
    k = 0
    for _ in range(s['steps']):
        if s.get('reset') == k:
            e.dyn.reset()
            note('reset')
        o = scen.step(e)
        if o is None:
            break
        k += 1
        pre, post = o
        c = consensus_of(e, pre, post, pre['active'])
        act, mv = after(e, mem, pre, post)
        n = len(mv[act[0]])
        d1 = {m: h * (pre['x'][m][mv[m]] - c[m]) for m in act}
        n1 = expected_noise(e, pre, d1, act, n, 0, 2)
        x1 = {m: put(pre['x'][m], mv[m], pre['x'][m][mv[m]] - s['lamda'] * s['dt'] * d1[m] + s['sigma'] * n1[m]) for m in act}
        d2 = {m: x1[m] - pre['y'][m][mv[m]] for m in act}
        n2 = expected_noise(e, pre, d2, act, n, 1, 2)
        for m in act:
            want = put(pre['x'][m], mv[m], np.clip(x1[m] - lm * s['dt'] * d2[m] + sm * n2[m], -1e8, 1e8))
            same(post['x'][m][mv[m]], want, 'positions of run %d after the step' % m, rtol=1e-8, atol=1e-8 * (1 + np.abs(want).max()))
    note('noise ' + s['noise'])
    if s.get('batch'):
        note('mini-batch, partial=%s' % s['batch']['partial'])
    if mem.improved and k and lm and s['sigma']:
        hit()
    return e, mem


def scenarios(**kw):
    return scen.scenario(dyns=('CBOMemory',), noises=NOISE, batch=True, multi=True, term=True, **kw)


@P.facet('step', lambda: scenarios(steps=(1, 6)), quick=500, rule=RULE + 'every step recomputed, memory compared with a running minimum; '
         'non-trivial: some particle improved, with memory drift and noise')
def step_(s):
    run(s)


@P.facet('feasible', lambda: scenarios(steps=(1, 8), inf=True, objs=('quad', 'abs', 'floor', 'const')).map(heated), quick=250,
         rule=RULE + 'objectives with +inf values and many ties (the earliest position is kept); non-trivial: as above')
def feasible(s):
    run(s)


@P.facet('corrected', lambda: scenarios(steps=(1, 4)), quick=120, rule=RULE + 'with a user-supplied drift correction; non-trivial: as above')
def corrected(s):
    run(s, correction=half)


@P.facet('defaults', lambda: scenarios(steps=(1, 3)), quick=120, rule='lamda_memory defaults to 0.4 and sigma_memory to lamda_memory*sigma, '
         'bitwise the same steps as with these values given; non-trivial: sigma is not zero')
def defaults(s):
    import cbx.dynamics as D
    X = scen.x0(s)
    out = []
    kw = dict(f_dim='3D', verbosity=0, dt=s['dt'], lamda=s['lamda'], noise=s['noise'], max_it=s['steps'], seed=s['ns'])
    for extra in ({}, {'lamda_memory': .4}, {'lamda_memory': .4, 'sigma_memory': .4 * s['sigma']}):
        dyn = D.CBOMemory(scen.Objective(s['f'], X.ndim - 2), x=X.copy(), sigma=s['sigma'], **kw, **extra)
        dyn.optimize()
        out.append(np.array(dyn.x))
    exact(out[0], out[1], 'positions with the default lamda_memory')
    exact(out[0], out[2], 'positions with the default sigma_memory')
    dyn = D.CBOMemory(scen.Objective(s['f'], X.ndim - 2), x=X.copy(), sigma=s['sigma'], lamda_memory=s['lamda_memory'], **kw)
    ref_ = D.CBOMemory(scen.Objective(s['f'], X.ndim - 2), x=X.copy(), sigma=s['sigma'], lamda_memory=s['lamda_memory'],
                       sigma_memory=s['lamda_memory'] * s['sigma'], **kw)
    exact(dyn.optimize(), ref_.optimize(), 'result with sigma_memory = lamda_memory*sigma')
    for cls in (D.CBOMemory, D.PSO):           # sigma has a default of its own
        a = cls(scen.Objective(s['f'], X.ndim - 2), x=X.copy(), **kw)
        b = cls(scen.Objective(s['f'], X.ndim - 2), x=X.copy(), sigma=a.sigma, lamda_memory=.4, sigma_memory=.4 * a.sigma, **kw)
        exact(a.optimize(), b.optimize(), 'result of %s with the default sigma and sigma_memory' % cls.__name__)
        exact(a.x, b.x, 'positions of %s with the default sigma and sigma_memory' % cls.__name__)
    if s['sigma'] and s['lamda_memory'] != .4:
        hit()


@P.facet('faults', lambda: st.tuples(scen.scenario(dyns=('CBOMemory', 'PSO'), noises=NOISE, batch=True, multi=True, steps=(2, 4), objs=('quad', 'abs', 'mix')),
                                     ints(0, 3), pick('inf', 'nan', 'huge')), quick=150,
         rule='infinite, undefined or huge random numbers in one step: the memory stays where the best value was found; non-trivial: the fault hit and sigma > 0')
def faults(t):
    s, at, kind = t
    bad = {'inf': np.inf, 'nan': np.nan, 'huge': 1e200}[kind]

    def wrap(v, x):                 # infeasible outside the region of interest
        far = ~(np.abs(x).reshape(x.shape[:2] + (-1,)).max(-1) < 1e6)
        return np.where(far, np.inf, v)
    X = scen.x0(s)
    e = scen.build(heated(s), obj=scen.Objective(s['f'], X.ndim - 2, wrap))
    mem = Memory(X, e.obj.value(X))
    for k in range(s['steps']):
        e.smp.scale = bad if k == at else 1.
        o = scen.step(e)
        if o is None:
            break
        xs, vs = e.obj.calls[0]
        mv = scen.moved_of(e.dyn)
        for i, m in enumerate(o[0]['active']):
            mem.see(m, mv[m], xs[i], vs[i])
        same(e.dyn.energy, mem.e, 'stored energies', rtol=1e-12, atol=0)
        same(e.dyn.y, mem.y, 'historical best positions', rtol=0, atol=1e-9)
        if k == at and not np.all(np.isfinite(np.concatenate([z.ravel() for z in e.smp.draws]))) and s['sigma'] > 0:
            hit(s['dyn'], kind)


@P.facet('scaled', lambda: scen.scaled(scenarios(steps=(1, 6))), quick=150, rule='as step, for objectives of very small and very large values')
def scaled(s):
    step_(s)


@P.facet('sizes', lambda: pick('long', 'large').flatmap(lambda z: scenarios(size=z)), quick=60,
         rule='as step, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    step_(s)


@P.facet('reset', lambda: scenarios(steps=(2, 6)).flatmap(lambda s: ints(1, s['steps'] - 1).map(lambda k: dict(s, reset=k))), quick=80,
         rule='as step, with a reset on the way: counters and history start again, the state of the particles stays; non-trivial: as step')
def reset(s):
    step_(s)
