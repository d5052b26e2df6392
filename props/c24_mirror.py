"""C24: MirrorCBO."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds
from props.c02_cbo_step import expected_noise, heavi

P = Prop('C24', assumptions=['flat domains', 'the inverse mirror image is taken from a separate instance of the map, whose laws C23 checks'])

MAPS = (None, 'L2', {'name': 'L2', 'lamda': 2.5}, {'name': 'ProjectionBall', 'radius': 1.5}, {'name': 'ProjectionBall', 'radius': .5, 'center': 1.},
        {'name': 'ElasticNet', 'delta': 1., 'lamda': .5}, {'name': 'ElasticNet', 'delta': .3, 'lamda': 2.}, {'name': 'ProjectionHyperplane'},
        {'name': 'ProjectionHyperplane', 'b': 2.}, {'name': 'ProjectionSphere'}, {'name': 'ProjectionSphere', 'r': 2.}, {'name': 'ProjectionSquare', 'r': 1.},
        {'name': 'ProjectionSquare', 'r': .4}, 'LogBarrierBox', 'NonsmoothBarrier', 'Entropy', 'EntropySimplex')


def name_of(mm):
    return mm['name'] if isinstance(mm, dict) else (mm or 'L2')


def start(s):
    """Initial particles inside the domain of the map."""
    X = scen.x0(s)
    n = name_of(s['mirrormap'])
    if n in ('LogBarrierBox', 'NonsmoothBarrier'):
        return .95 * X / (1 + np.abs(X))
    if n in ('Entropy', 'EntropySimplex'):
        X = np.abs(X) + .05
        return X if n == 'Entropy' else X / X.sum(-1, keepdims=True)
    if n == 'ProjectionSphere':
        return np.where(np.abs(X) < .05, .3, X)
    return X


def mirrors(s):
    import cbx.dynamics.mirrorcbo as mc
    return mc.get_mirror_map(s['mirrormap'])


def feasible(s, x, what, y=None):
    """y: the dual particles, whose magnitude limits what rounding leaves of the constraint."""
    mm = s['mirrormap']
    p = mm if isinstance(mm, dict) else {}
    n = name_of(mm)
    if n == 'ProjectionBall':
        bad = np.linalg.norm(x - p.get('center', 0.), axis=-1) - p['radius']
    elif n == 'ProjectionSphere':
        bad = np.abs(np.linalg.norm(x, axis=-1) - p.get('r', 1.))
    elif n == 'ProjectionHyperplane':
        if np.abs(x).max() >= 1e8:       # clipped by the post-processing
            return False
        bad = np.abs(x.sum(-1) - p.get('b', 0)) / (1 + np.abs(x).max())
    elif n == 'ProjectionSquare':
        bad = np.abs(np.abs(x).max(-1) - p['r'])
    elif n == 'EntropySimplex':
        bad = np.maximum(np.abs(x.sum(-1) - 1), -x.min(-1))
    elif n in ('LogBarrierBox', 'NonsmoothBarrier'):
        bad = np.abs(x).max(-1) - 1
    else:
        return False
    if not np.all(bad <= 1e-8 + (0 if y is None else 1e-12 * np.abs(y).max())):
        fail('%s violate %s by %g' % (what, n, np.nanmax(bad)))
    return True


def check_step(e, s, pre, post):
    act, b, mv = pre['active'], scen.batch_of(e.dyn), scen.moved_of(e.dyn)
    if sorted(mv) != act:
        fail('particles of runs %s were updated, active are %s' % (sorted(mv), act))
    n = len(mv[act[0]])
    drift, en = {}, {}
    for i, m in enumerate(act):
        X = pre['x'][m][mv[m]]
        B = pre['x'][m][b[m]]
        fB = e.obj.value(B[None])[0]
        al = float(np.ravel(pre['alpha'])[m if np.size(pre['alpha']) > 1 else 0])
        c = ref.consensus(fB, B, al)
        same(np.asarray(post['consensus'])[i][0], c, 'consensus of run %d' % m, rtol=1e-7,
             atol=(1 + np.abs(B).max()) * (1e-9 + 1e-13 * al * np.abs(fB).max()))
        D = X - np.asarray(post['consensus'])[i]
        if s.get('corr') not in (None, 'no_correction'):
            h = heavi(s, e.obj.value(X[None])[0], e.obj.value(np.asarray(post['consensus'])[i][None])[0])
            und = np.isnan(h)
            if und.any():
                h[und] = np.any(np.asarray(e.dyn.drift)[i].reshape(len(X), -1) != 0, axis=1)[und]
            D = D * h[:, None]
            note('corrected drift')
        drift[m] = D
        en[m] = e.obj.value(X[None])[0]
    nz = expected_noise(e, pre, drift, act, n, energies=en)
    mir = mirrors(s)
    tol = 1e-8
    if s.get('corr') == 'heavi_side_reg':
        tol = 1e-6 / min(1.0, s['corr_eps'] * 10)
    for m in act:
        Y = pre['y'][m].copy()
        Y[mv[m]] = Y[mv[m]] - s['lamda'] * s['dt'] * drift[m] + s['sigma'] * nz[m]
        al = np.ravel(pre['alpha'])
        slack = ref.root_slack(s, pre['x'][m], float(al[m if al.size > 1 else 0]), en[m])
        same(post['y'][m], Y, 'dual particles of run %d' % m, rtol=tol, atol=tol * (1 + np.abs(Y).max()) + slack)
        # the primal particles belong to the dual particles of the code
        x = np.clip(np.nan_to_num(mir.grad_conj(post['y'][m][None])[0], nan=1e8), -1e8, 1e8)
        same(post['x'][m], x, 'primal particles of run %d' % m, rtol=1e-10, atol=1e-10 + 1e-14 * np.abs(post['y'][m]).max())
        if feasible(s, post['x'][m], 'particles of run %d' % m, post['y'][m]):
            note('constrained')
        if len(mv[m]) < e.dyn.N:
            note('partial update')
    for m in range(e.dyn.M):
        if m not in act:
            note('some runs ended')
            exact(post['x'][m], pre['x'][m], 'particles of the ended run %d' % m)
            exact(post['y'][m], pre['y'][m], 'dual particles of the ended run %d' % m)
    if s['lamda'] and s['sigma'] and e.dyn.N > 1:
        hit(name_of(s['mirrormap']))


def scenarios(**kw):
    k = dict(dyns=('MirrorCBO',), noises=('isotropic', 'anisotropic', 'constant', 'covariance', 'sampling'), batch=True, term=True, mirror=MAPS,
             corr=('no_correction', 'no_correction', 'heavi_side', 'heavi_side_reg'))
    k.update(kw)
    return scen.scenario(**k)


@P.facet('step', scenarios, quick=600, rule='every step of random problems recomputed in the dual variable from recorded random numbers, feasibility after each step; '
         'non-trivial: drift and noise are present')
def step_(s):
    X = start(s)
    if name_of(s['mirrormap']) == 'ProjectionSphere' and X.shape[-1] == 1:
        note('sphere of dimension zero')
    e = scen.build(s, x=X)
    mir = mirrors(s)
    exact(e.dyn.x, X, 'initial particles')
    same(e.dyn.y, mir.grad(X), 'initial dual particles', rtol=1e-12, atol=1e-12)
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        if not np.all(np.isfinite(o[1]['y'])):
            skip('dual overflow')
        check_step(e, s, *o)


@P.facet('as_cbo', lambda: scenarios(mirror=(None, 'L2', 'None', {'name': 'L2'}), multi=True, steps=(1, 6)), quick=250,
         rule='with the identity map the run equals CBO with the same random numbers; non-trivial: several steps with drift')
def as_cbo(s):
    a = scen.build(s)
    b = scen.build(dict(s, dyn='CBO'))
    # the matrix root amplifies rounding, the Heaviside function decides on it
    tol = 1e-4 if s['noise'] in ('covariance', 'sampling') else 1e-9
    for _ in range(s['steps']):
        p, r = scen.step(a), scen.step(b)
        if (p is None) != (r is None):
            fail('one of the dynamics ends earlier')
        if p is None:
            break
        for k in ('x', 'energy', 'best_energy', 'best_particle', 'num_f_eval'):
            same(p[1][k], r[1][k], k + ' of MirrorCBO against CBO', rtol=tol, atol=tol)
        same(p[1]['consensus'], r[1]['consensus'], 'consensus of MirrorCBO against CBO', rtol=tol, atol=tol)
    if s['steps'] > 1 and s['lamda']:
        hit()


@P.facet('long', lambda: scenarios(steps=(5, 25), Ms=(1, 2), Ns=(2, 5), corr=('no_correction',), mirror=tuple(
    m for m in MAPS if name_of(m) not in ('L2', 'ElasticNet', 'Entropy'))), quick=120,
         rule='longer runs stay feasible after every step, and the best particle of each run is feasible if the start is; non-trivial: five steps were made')
def long_(s):
    X = start(s)
    e = scen.build(s, x=X)
    try:
        feasible(s, X, 'initial particles')
        ok = True
    except Exception:
        ok = False
    n = 0
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        if not np.all(np.isfinite(o[1]['y'])) or np.abs(o[1]['y']).max() > 1e7:
            break
        act = o[0]['active']
        feasible(s, o[1]['x'][act], 'particles')
        if ok:
            feasible(s, e.dyn.best_particle[act], 'best particles')
        n += 1
    if n >= 5:
        hit(name_of(s['mirrormap']))


@P.facet('custom', lambda: scenarios(mirror=(None,), steps=(1, 3), corr=('no_correction',)), quick=80,
         rule='a user-defined map object is used for both directions, and the dual history holds the dual particles; non-trivial: always')
def custom(s):
    hit()

    class Shift:
        def grad(self, x):
            return 2 * x + 1

        def grad_conj(self, y):
            return (y - 1) / 2

    X = scen.x0(s)
    e = scen.build(s, mirrormap=Shift(), track_args={'names': ['x', 'y']})
    hist = []
    same(e.dyn.y, 2 * X + 1, 'initial dual particles')
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        for m in o[0]['active']:
            same(o[1]['x'][m], (o[1]['y'][m] - 1) / 2, 'primal particles', rtol=1e-12, atol=1e-12)
        hist.append(o[1]['y'])
    H = np.asarray(e.dyn.history['y'])
    if len(H) not in (len(hist), len(hist) + 1):
        fail('%d records of y after %d steps' % (len(H), len(hist)))
    for a, b in zip(H[len(H) - len(hist):], hist):
        exact(a, b, 'recorded dual particles')


@P.facet('sizes', lambda: pick('long', 'large').flatmap(lambda z: scenarios(size=z)), quick=60,
         rule='as step, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    step_(s)
