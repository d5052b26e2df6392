"""C02: the position update of CBO."""
import numpy as np
from hypothesis import strategies as st

from pbt import ref, scen
from pbt.core import Prop, exact, fail, hit, note, same

P = Prop('C02', assumptions=['standard post-processing (clipping at 1e8)'])


def expected_noise(e, pre, drift, act, n, k=0, total=1, energies=None):
    """{run: noise of the step} reconstructed from the recorded random numbers."""
    s = e.spec
    kind = s.get('noise') or 'isotropic'
    zs = scen.noise_rows(e, act, n, pre['x'].shape[2:], k, total)
    al = np.broadcast_to(np.asarray(pre['alpha'], float).reshape(-1, 1) if np.ndim(pre['alpha']) else
                         np.full((1, 1), float(pre['alpha'])), (e.dyn.M, 1))[:, 0]
    out = {}
    for m in act:
        w = ref.gibbs(energies[m], al[m]) if energies is not None else None
        out[m] = ref.noise(kind, drift[m], zs[m], s['dt'], alpha=al[m], w=w, mode=s.get('mode', 'sampling'))
    return out


def heavi(s, f_x, f_c):
    """Drift factor of the correction; nan where it is numerically undecidable."""
    z = f_x - f_c
    if s.get('corr') == 'heavi_side':
        return np.where(np.abs(z) < 1e-9 * (s.get('unit', 1.) + np.abs(f_c)), np.nan, (z > 0).astype(float))
    return 0.5 + 0.5 * np.tanh(z / s.get('corr_eps', 1e-3))


def check_step(e, pre, post):
    s = e.spec
    act = pre['active']
    b, mv = scen.batch_of(e.dyn), scen.moved_of(e.dyn)
    if sorted(mv) != act:
        fail('particles of runs %s were updated, active are %s' % (sorted(mv), act))
    n = len(mv[act[0]])
    bt = s.get('batch') or {}
    for m in act:
        want = b[m] if bt.get('partial', True) else range(e.dyn.N)
        if sorted(mv[m]) != sorted(want):
            fail('run %d: particles %s are updated, expected %s' % (m, sorted(mv[m]), sorted(want)))
    drift, en = {}, {}
    for i, m in enumerate(act):
        X = pre['x'][m][mv[m]]
        D = X - post['consensus'][i]
        if s.get('corr') not in (None, 'no_correction'):
            h = heavi(s, e.obj.value(X[None])[0], e.obj.value(post['consensus'][i][None])[0])
            und = np.isnan(h)
            if und.any():                   # at the jump: take the decision of the code
                h[und] = np.any(np.asarray(e.dyn.drift)[i].reshape(len(X), -1) != 0, axis=1)[und]
                note('some particles at the jump')
            D = D * h.reshape((-1,) + (1,) * (D.ndim - 1))
            note('corrected drift')
        drift[m] = D
        en[m] = e.obj.value(X[None])[0]
    nz = expected_noise(e, pre, drift, act, n, energies=en)
    for i, m in enumerate(act):
        want = pre['x'][m].copy()
        want[mv[m]] = want[mv[m]] - s['lamda'] * s['dt'] * drift[m] + s['sigma'] * nz[m]
        want = np.clip(want, -1e8, 1e8)
        tol = 1e-8
        if s.get('corr') == 'heavi_side_reg':
            tol = 1e-6 / min(1.0, s['corr_eps'] / s.get('unit', 1.) * 10)
        al = np.ravel(pre['alpha'])
        slack = ref.root_slack(s, pre['x'][m], float(al[m if al.size > 1 else 0]), en[m])
        same(post['x'][m], want, 'positions of run %d after the step' % m, rtol=tol, atol=tol * (1 + np.abs(want).max()) + slack)
        if len(mv[m]) < e.dyn.N:
            note('partial update')
    for m in range(e.dyn.M):
        if m not in act:
            exact(post['x'][m], pre['x'][m], 'positions of the ended run %d' % m)


RULE = ('every step of random CBO problems is recomputed from the pre-step state and the recorded random numbers; '
        'non-trivial: drift and noise are both present')


def _nontrivial(s, pre):
    if s['sigma'] != 0 and s['lamda'] != 0 and pre['x'].shape[1] > 1:
        hit()
    if len(pre['active']) < pre['x'].shape[0]:
        note('some runs ended')
    if pre['x'].ndim > 3:
        note('multi-dimensional domain')
    note('noise ' + str(s.get('noise')), 'corr ' + str(s.get('corr')))


@P.facet('formula', lambda: scen.scenario(
    noises=('isotropic', 'anisotropic', 'constant', 'covariance', 'sampling'), batch=True, multi=True, term=True),
    quick=450, rule=RULE)
def formula(s):
    e = scen.build(s)
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        check_step(e, *o)
        _nontrivial(s, o[0])


@P.facet('corrected', lambda: scen.scenario(corr=('heavi_side', 'heavi_side_reg'), batch=True, multi=True, term=True,
                                            steps=(1, 3)),
         quick=250, rule=RULE + '; for particles within rounding of the jump either decision is accepted')
def corrected(s):
    e = scen.build(s)
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        check_step(e, *o)
        _nontrivial(s, o[0])


@P.facet('noiseless', lambda: scen.scenario(batch=False, multi=True, steps=(1, 6), noises=('isotropic', 'anisotropic')
                                            ).map(lambda s: dict(s, sigma=0.0)),
         quick=100, rule='sigma = 0: every particle moves on the segment towards the consensus, exactly by the '
         'factor 1 - lamda*dt, and the ensemble spread never grows; non-trivial: N >= 2')
def noiseless(s):
    e = scen.build(s)
    k = 1 - s['lamda'] * s['dt']
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        pre, post = o
        c = post['consensus']
        same(post['x'] - c, k * (pre['x'] - c), 'distance to the consensus', rtol=1e-9, atol=1e-7)
        if -1 <= k <= 1:
            sp = np.ptp(post['x'], axis=1).max() - np.ptp(pre['x'], axis=1).max()
            if sp > 1e-7:
                fail('spread grew by %g without noise' % sp)
        if e.dyn.N > 1:
            hit()


@P.facet('clock', lambda: scen.scenario(dyns=scen.DYNS, steps=(1, 5), term=True, batch=True), quick=150,
         rule='the step counter advances by one and the time by dt in each step, also while some runs have ended; non-trivial: at least two steps')
def clock(s):
    e = scen.build(s)
    for i in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        if len(o[0]['active']) < e.dyn.M:
            note('some runs ended')
        if o[1]['it'] != i + 1:
            fail('iteration counter %r after %d steps' % (o[1]['it'], i + 1))
        same(o[1]['t'], (i + 1) * s['dt'], 'elapsed time')
        if i:
            hit()


@P.facet('plateau', lambda: scen.scenario(corr=('heavi_side', 'heavi_side_reg'), batch=True, multi=True, objs=('const',), inf=False, steps=(1, 3)),
         quick=80, rule='on a plateau of the objective no particle exceeds the value at the consensus: the Heaviside correction leaves every particle '
         'exactly in place, the regularised one halves the drift; non-trivial: two distinct particles')
def plateau(s):
    e = scen.build(s)
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        pre, post = o
        if s.get('corr') == 'heavi_side' and s['noise'] != 'constant':
            exact(post['x'], pre['x'], 'positions on a plateau')
        elif s.get('corr') in ('heavi_side', 'heavi_side_reg') and (s['noise'] == 'constant' or s['sigma'] == 0):
            check_step(e, pre, post)
        if np.ptp(pre['x'], axis=1).max() > 0:
            hit(str(s.get('corr')))


@P.facet('scaled', lambda: scen.scaled(scen.scenario(corr=('no_correction', 'heavi_side', 'heavi_side_reg'), batch=True, multi=True, term=True)),
         quick=150, rule='as corrected, for objectives of very small and very large values')
def scaled(s):
    corrected(s)


@P.facet('sizes', lambda: st.sampled_from(('long', 'large')).flatmap(lambda z: scen.scenario(
    noises=('isotropic', 'anisotropic', 'constant', 'covariance', 'sampling'), batch=True, multi=True, term=True, size=z)),
    quick=60, rule='as formula, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    formula(s)
