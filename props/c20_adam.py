"""C20: AdamCBO."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is, skip
from pbt.gen import dec, ints, pick, q
from props.c02_cbo_step import expected_noise

P = Prop('C20', assumptions=['standard post-processing (clipping at 1e8)', 'eps = 1e-8 unless given', 'bias correction with the number of the step '
                             '(also for particles that were not part of all mini-batches)'])
NOISE = ('isotropic', 'anisotropic', 'constant')
RULE = 'random problems with mini-batches, ended runs and arrays as particles; '


def run(s, e, eps=1e-8):
    b1, b2 = s.get('betas', (.9, .99))
    dyn = e.dyn
    mm, vv = np.zeros_like(e.x_init), np.zeros_like(e.x_init)       # model of the moments
    exact(dyn.m, mm, 'initial first moment')
    exact(dyn.v, vv, 'initial second moment')
    for k in range(1, s['steps'] + 1):
        o = scen.step(e)
        if o is None:
            break
        pre, post = o
        act, mv, b = pre['active'], scen.moved_of(dyn), scen.batch_of(dyn)
        if sorted(mv) != act:
            fail('particles of runs %s were updated, active are %s' % (sorted(mv), act))
        n = len(mv[act[0]])
        al = np.broadcast_to(np.asarray(pre['alpha'], float).reshape(-1), (dyn.M,)) if np.size(pre['alpha']) == 1 \
            else np.asarray(pre['alpha'], float).reshape(-1)
        c = {}
        for i, m in enumerate(act):
            c[m] = np.asarray(post['consensus'])[i]
            xb = pre['x'][m][b[m]]
            en = e.obj.value(xb[None])[0]
            same(c[m][0], ref.consensus(en, xb, al[m]), 'consensus of run %d' % m, rtol=0,
                 atol=(1e-9 + 1e-13 * al[m] * np.abs(en).max()) * (1 + np.abs(xb).max()))
        drift = {m: pre['x'][m][mv[m]] - c[m] for m in act}
        nz = expected_noise(e, pre, drift, act, n)
        for m in act:
            D = drift[m]
            mm[m][mv[m]] = b1 * mm[m][mv[m]] + (1 - b1) * D
            vv[m][mv[m]] = b2 * vv[m][mv[m]] + (1 - b2) * D ** 2
            mh, vh = mm[m][mv[m]] / (1 - b1 ** k), vv[m][mv[m]] / (1 - b2 ** k)
            want = pre['x'][m].copy()
            want[mv[m]] = np.clip(want[mv[m]] - s['lamda'] * mh / (np.sqrt(vh) + eps) + s['sigma'] * nz[m], -1e8, 1e8)
            # the quotient of the moments amplifies rounding where both vanish
            tol = np.full(want.shape, 1e-8 * (1 + np.abs(want).max()))
            amp = 1e-13 * (1 + np.abs(pre['x'][m]).max()) / (np.sqrt(vh) + eps)
            tol[mv[m]] += 10 * s['lamda'] * amp
            bad = ~(np.abs(post['x'][m] - want) <= tol)
            if np.any(bad):
                j = tuple(int(t) for t in np.argwhere(bad)[0])
                fail('step %d, run %d: position %r, expected %r at %s' % (k, m, float(post['x'][m][j]), float(want[j]), list(j)))
            if len(mv[m]) < dyn.N:
                note('partial update')
        sc = 1 + max(np.abs(mm).max(), 0)
        same(dyn.m, mm, 'first moment after step %d' % k, rtol=1e-9, atol=1e-10 * sc)
        same(dyn.v, vv, 'second moment after step %d' % k, rtol=1e-9, atol=1e-10 * sc ** 2)
        for m in range(dyn.M):
            if m not in act:
                note('some runs ended')
                exact(post['x'][m], pre['x'][m], 'positions of the ended run %d' % m)
        if k > 1 and dyn.N > 1 and s['sigma']:
            hit()
    note('noise ' + s['noise'])


def scenarios(**kw):
    return st.tuples(scen.scenario(dyns=('AdamCBO',), noises=NOISE, batch=True, multi=True, term=True, **kw), pick(1, 1, 1, 4)).map(
        lambda t: dict(t[0], dt=t[0]['dt'] * t[1]))


@P.facet('step', lambda: scenarios(steps=(1, 7)), quick=600, rule=RULE + 'moments and positions of every step recomputed; non-trivial: two steps with noise and two particles')
def step_(s):
    run(s, scen.build(s))


@P.facet('betas', lambda: st.tuples(scenarios(steps=(1, 5)), q(0, .999, 3), q(0, .999, 3), pick(1e-8, 1e-3, .1, 1.)), quick=250,
         rule=RULE + 'any betas and eps; non-trivial: as above')
def betas(c):
    s, b1, b2, eps = c
    s = dict(s, betas=[b1, b2])
    run(s, scen.build(s, eps=eps), eps)


@P.facet('defaults', lambda: scenarios(steps=(1, 4)), quick=100, rule='betas default to (0.9, 0.99), eps to 1e-8; non-trivial: two steps or more')
def defaults(s):
    import cbx.dynamics as D
    X = scen.x0(s)
    kw = dict(f_dim='3D', verbosity=0, dt=s['dt'], lamda=s['lamda'], noise=s['noise'], sigma=s['sigma'], max_it=s['steps'], seed=s['ns'])
    a = D.AdamCBO(scen.Objective(s['f'], X.ndim - 2), x=X.copy(), **kw)
    b = D.AdamCBO(scen.Objective(s['f'], X.ndim - 2), x=X.copy(), betas=(.9, .99), eps=1e-8, **kw)
    exact(a.optimize(), b.optimize(), 'result with default betas')
    exact(a.x, b.x, 'positions with default betas')
    if s['steps'] > 1:
        hit()


@P.facet('first', lambda: scenarios(steps=(1, 1)).map(lambda s: dict(s, sigma=0.)), quick=150,
         rule='first step without noise: every coordinate with non-zero drift moves by lamda towards the consensus; non-trivial: N >= 2')
def first(s):
    e = scen.build(s)
    o = scen.step(e)
    if o is None:
        skip('no step')
    pre, post = o
    mv = scen.moved_of(e.dyn)
    for i, m in enumerate(pre['active']):
        D = pre['x'][m][mv[m]] - np.asarray(post['consensus'])[i]
        mvd = post['x'][m][mv[m]] - pre['x'][m][mv[m]]
        big = np.abs(D) > 1e-4
        same(mvd[big], -s['lamda'] * np.sign(D)[big], 'movement of run %d' % m, rtol=2e-4, atol=1e-9)
        if np.any(np.abs(mvd) > s['lamda'] * (1 + 1e-9) + 1e-12):
            fail('a coordinate of run %d moved by more than lamda' % m)
        if len(mv[m]) > 1:
            hit()


@P.facet('sizes', lambda: pick('long', 'large').flatmap(lambda z: scenarios(size=z)), quick=60,
         rule='as step, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    step_(s)
