"""C19: particle swarm optimisation."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is, skip
from pbt.gen import dec, ints, pick, q
from props import c18_memory as mem_
from props.c02_cbo_step import expected_noise

P = Prop('C19', assumptions=mem_.P.assumptions)
RULE = mem_.RULE


def run(s, **over):
    e, mem = mem_.start(s, **over)
    h = .5 if over else 1.
    lm = s['lamda_memory']
    sm = s['sigma_memory'] if s['sigma_memory'] is not None else lm * s['sigma']
    gam = s['gamma'] if s['gamma'] is not None else 1 - s['m']
    den = s['m'] + gam * s['dt']
    exact(e.dyn.v, np.zeros_like(e.x_init), 'initial velocities')
    k = 0
    for _ in range(s['steps']):
        if s.get('reset') == k:
            e.dyn.reset()
            note('reset')
        o = scen.step(e)
        if o is None:
            break
        k += 1
        pre, post = o
        c = mem_.consensus_of(e, pre, post, pre['active'])
        act, mv = mem_.after(e, mem, pre, post)
        n = len(mv[act[0]])
        d1 = {m: pre['x'][m][mv[m]] - c[m] for m in act}
        d2 = {m: pre['x'][m][mv[m]] - pre['y'][m][mv[m]] for m in act}
        n1, n2 = expected_noise(e, pre, d1, act, n, 0, 2), expected_noise(e, pre, d2, act, n, 1, 2)
        for m in act:
            v = mem_.put(pre['v'][m], mv[m], (s['m'] * pre['v'][m][mv[m]] - s['lamda'] * s['dt'] * h * d1[m] - lm * s['dt'] * d2[m] + s['sigma'] * n1[m] + sm * n2[m]) / den)
            same(post['v'][m][mv[m]], v, 'velocities of run %d after the step' % m, rtol=1e-8, atol=1e-8 * (1 + np.abs(v).max()))
            rest = [j for j in range(e.dyn.N) if j not in mv[m]]
            exact(post['v'][m][rest], pre['v'][m][rest], 'velocities of run %d outside the batch' % m)
            want = np.clip(pre['x'][m][mv[m]] + s['dt'] * v, -1e8, 1e8)
            same(post['x'][m][mv[m]], want, 'positions of run %d after the step' % m, rtol=1e-8, atol=1e-8 * (1 + np.abs(want).max()))
    note('noise ' + s['noise'], 'gamma ' + str(s['gamma']))
    if s.get('batch'):
        note('mini-batch, partial=%s' % s['batch']['partial'])
    if k > 1 and lm and s['sigma'] and mem.improved:
        hit()


def scenarios(**kw):
    return scen.scenario(dyns=('PSO',), noises=mem_.NOISE, batch=True, multi=True, term=True, **kw)


@P.facet('step', lambda: scenarios(steps=(1, 6)), quick=500, rule=RULE + 'every step recomputed, memory compared with a running minimum; '
         'non-trivial: two steps, some particle improved, with memory drift and noise')
def step_(s):
    run(s)


@P.facet('light', lambda: scenarios(steps=(1, 4)).map(
    lambda s: dict(s, m=(1e-5, 0., 2e-4)[s['ns'] % 3], dt=(2. ** -12, 2. ** -16)[s['ns'] % 2], sigma=s['sigma'] * 1e-2)), quick=80,
    rule='as step, with very small inertia and time step; non-trivial: as above')
def light(s):
    run(s)


@P.facet('feasible', lambda: scenarios(steps=(1, 8), inf=True, objs=('quad', 'abs', 'floor', 'const')).map(mem_.heated), quick=250,
         rule=RULE + 'objectives with +inf values and many ties (the earliest position is kept); non-trivial: as above')
def feasible(s):
    run(s)


@P.facet('corrected', lambda: scenarios(steps=(1, 4)), quick=120, rule=RULE + 'with a user-supplied drift correction; non-trivial: as above')
def corrected(s):
    run(s, correction=mem_.half)


@P.facet('defaults', lambda: scenarios(steps=(1, 3)), quick=120, rule='m, gamma, lamda_memory and sigma_memory have their documented defaults, '
         'bitwise the same steps as with these values given; non-trivial: sigma is not zero')
def defaults(s):
    import cbx.dynamics as D
    X = scen.x0(s)
    kw = dict(f_dim='3D', verbosity=0, dt=s['dt'], lamda=s['lamda'], noise=s['noise'], sigma=s['sigma'], max_it=s['steps'], seed=s['ns'])

    def go(**extra):
        dyn = D.PSO(scen.Objective(s['f'], X.ndim - 2), x=X.copy(), **kw, **extra)
        dyn.optimize()
        return np.concatenate([np.array(dyn.x).ravel(), np.array(dyn.v).ravel()])
    a = go(m=s['m'], lamda_memory=s['lamda_memory'])
    exact(a, go(m=s['m'], gamma=1 - s['m'], lamda_memory=s['lamda_memory']), 'state with the default gamma')
    exact(a, go(m=s['m'], lamda_memory=s['lamda_memory'], sigma_memory=s['lamda_memory'] * s['sigma']), 'state with the default sigma_memory')
    exact(go(m=s['m']), go(m=s['m'], lamda_memory=.4), 'state with the default lamda_memory')
    exact(go(), go(m=.001), 'state with the default inertia')
    if s['sigma']:
        hit()


@P.facet('pulled', lambda: scenarios(steps=(1, 1), Ms=(1, 3)).map(lambda s: dict(s, sigma=0., sigma_memory=0., m=.1, gamma=None)), quick=120,
         rule='first step without noise: every particle moves towards the consensus, by lamda*dt^2/(m+gamma*dt); non-trivial: N >= 2 and lamda > 0')
def pulled(s):
    e, mem = mem_.start(s)
    o = scen.step(e)
    if o is None:
        skip('no step')
    pre, post = o
    mem_.consensus_of(e, pre, post, pre['active'])
    act, mv = mem_.after(e, mem, pre, post)
    k = s['lamda'] * s['dt'] ** 2 / (.1 + .9 * s['dt'])
    for i, m in enumerate(act):
        c = np.asarray(post['consensus'])[i]
        want = (1 - k) * (pre['x'][m][mv[m]] - c)
        same(post['x'][m][mv[m]] - c, want, 'distance of run %d to the consensus' % m, rtol=1e-9, atol=1e-8)
    if e.dyn.N > 1 and s['lamda']:
        hit()


@P.facet('scaled', lambda: scen.scaled(scenarios(steps=(1, 6))), quick=150, rule='as step, for objectives of very small and very large values')
def scaled(s):
    step_(s)


@P.facet('sizes', lambda: pick('long', 'large').flatmap(lambda z: scenarios(size=z)), quick=60,
         rule='as step, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    step_(s)


@P.facet('reset', lambda: scenarios(steps=(2, 6)).flatmap(lambda s: ints(1, s['steps'] - 1).map(lambda k: dict(s, reset=k))), quick=80,
         rule='as step, with a reset on the way: counters and history start again, the state of the particles stays; non-trivial: as step')
def reset(s):
    step_(s)
