"""C01: the consensus point is the Gibbs-weighted mean of each run's (batch) particles."""
import numpy as np

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, same, skip
from pbt.gen import dec, ints, pick, q
from hypothesis import strategies as st

P = Prop('C01', assumptions=['finite or +inf objective values', 'at least one finite value per run and batch'])


def _alpha_row(al, M):
    a = np.broadcast_to(np.asarray(al, dtype=float).reshape(-1, 1) if np.ndim(al) else np.full((1, 1), float(al)),
                        (M, 1))
    return a[:, 0]


def _points(e, pre):
    """Positions and energies the consensus of the last step must be built from: {run: (x, f)}."""
    dyn = e.dyn
    b = scen.batch_of(dyn)
    if sorted(b) != pre['active']:
        fail('consensus computed for runs %s, active runs are %s' % (sorted(b), pre['active']))
    out = {}
    for m, idx in b.items():
        X = pre['y'][m][idx] if e.spec['dyn'] in ('CBOMemory', 'PSO') else pre['x'][m][idx]
        out[m] = (X, e.obj.value(X[None])[0])
    return out


def check_consensus(e, pre, post):
    pts = _points(e, pre)
    act = pre['active']
    al = _alpha_row(pre['alpha'], e.dyn.M)
    c = np.asarray(post['consensus'])
    if c.shape != (len(act), 1) + pre['x'].shape[2:]:
        fail('consensus shape %s' % (c.shape,))
    for i, m in enumerate(act):
        X, f = pts[m]
        if not np.isfinite(f).any():
            skip('all +inf')
        want = ref.consensus(f, X, al[m])
        big = float(np.max(np.where(np.isfinite(f), np.abs(f), 0)))
        tol = 1e-9 + 1e-14 * al[m] * big
        sc = 1 + np.abs(X).max()
        same(c[i, 0], want, 'consensus of run %d' % m, rtol=0, atol=sc * min(tol * 10, 1e-2))
        lo, hi = X.min(0), X.max(0)
        if np.any(c[i, 0] < lo - 1e-9 * sc) or np.any(c[i, 0] > hi + 1e-9 * sc):
            fail('consensus of run %d leaves the hull of its particles: %s' % (m, c[i, 0].tolist()))
        if len(X) > 1 and np.ptp(f[np.isfinite(f)]) > 0 and al[m] > 0:
            hit('weights differ')
        if len(X) < e.dyn.N:
            note('mini-batch')
    if len(act) > 1:
        note('several runs')
    if len(act) < e.dyn.M:
        note('some runs ended')


@P.facet('trajectory', lambda: scen.apart(scen.scenario(
    dyns=('CBO', 'CBO', 'AdamCBO', 'MirrorCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'CBS'),
    batch=True, multi=True, inf=False, term=True, constraints=('none', 'sphere'), sdf=('sphere', 'plane'))),
    quick=350, rule='random problems of every consensus dynamic, every step compared with a per-run '
    'reference mean; non-trivial: some run has at least two particles with different energies and alpha > 0')
def trajectory(s):
    e = scen.build(s)
    note(s['dyn'])
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        if not np.all(np.isfinite(o[0]['x'])):
            break
        check_consensus(e, *o)


@P.facet('historical_best', lambda: scen.apart(scen.scenario(
    dyns=('CBOMemory', 'PSO'), batch=True, multi=True, term=True)), quick=200,
    rule='memory dynamics: the mean runs over historical-best positions; non-trivial as in trajectory')
def historical_best(s):
    e = scen.build(s)
    note(s['dyn'])
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        check_consensus(e, *o)


@P.facet('infinite_energies', lambda: scen.scenario(
    dyns=('CBO', 'AdamCBO', 'MirrorCBO', 'HyperSurfaceCBO'), inf=True, batch=True, objs=('quad', 'abs', 'floor')),
    quick=150, rule='objectives that are +inf on a half space; non-trivial: weights differ among the rest')
def infinite_energies(s):
    e = scen.build(s)
    if s.get('alpha') == 0 or (isinstance(s['alpha'], list) and 0 in s['alpha']):
        skip('alpha 0 with infinite values is 0*inf')
    for _ in range(s['steps']):
        if e.dyn.terminate():
            break
        f = e.obj.value(e.dyn.x)
        if s.get('batch') and not np.all(np.isfinite(f)):
            # some batch could be entirely infeasible
            if not np.all(np.isfinite(f).sum(1) > e.dyn.N - s['batch']['size']):
                skip('a batch may be entirely infeasible')
        if not np.all(np.isfinite(f).any(1)):
            skip('a run is entirely infeasible')
        pre = scen.snap(e.dyn)
        e.dyn.step()
        if np.isinf(f).any():
            note('infeasible particles')
        check_consensus(e, pre, scen.snap(e.dyn))


@st.composite
def _extreme(draw):
    M, N, d = draw(ints(1, 3)), draw(ints(1, 6)), draw(ints(1, 3))
    return {'x': draw(gen.array([M, N, d])), 'e': draw(gen.array([M, N], ('fine', 'grid', 'wide'))),
            'es': draw(pick(1.0, 1e-6, 1e6, 1e12, 1e100, 1e-14)), 'off': draw(pick(0.0, 0., 1e3, -1e9, 1e15)),
            'alpha': draw(pick(0.0, 1e-8, 1.0, 30.0, 1e3, 1e5, 1e10, 1e15)), 'cls': draw(pick('CBO', 'HyperSurfaceCBO')),
            'per_run': draw(st.booleans()), 'check': draw(st.booleans()), 'offs': draw(pick(None, None, [0., -1e9], [0., 1e15, -1e15], [1e3, -1e17]))}


def _cons_with(case, energy, x):
    """Consensus of one step for prescribed energies (the objective looks them up by position)."""
    import cbx.dynamics as D
    M = x.shape[0]
    al = case['alpha']
    if case['per_run']:
        al = np.full((M, 1), float(al))
    # energies are prescribed whatever the positions are
    cls, kw = getattr(D, case['cls']), {}
    if case['check'] and case['cls'] == 'CBO':                      # the documented self-check of the coefficients never fires on finite energies
        kw['compute_consensus'] = D.pdyn.compute_consensus_default(check_coeffs=True)
    dyn = cls(lambda z: energy.copy(), f_dim='3D', x=x.copy(), alpha=al, verbosity=0, check_f_dims=False, max_it=1, **kw)
    dyn.terminate()
    dyn.step()
    return np.array(dyn.consensus)[:, 0]


@P.facet('extremes', _extreme, quick=300,
         rule='energies up to 1e100 with alpha up to 1e15 and large offsets: finite, inside the hull, and the '
         'limits alpha*spread -> infinity (best particle) and -> 0 (plain mean); non-trivial: N >= 2 and distinct energies')
def extremes(case):
    x, e0 = dec(case['x']), dec(case['e'])
    if case['cls'] == 'HyperSurfaceCBO':
        x = np.where(np.abs(x) < 0.05, 0.3, x)
        if x.shape[-1] < 2:
            skip('needs d >= 2')
    e = e0 * case['es'] + case['off']
    if case['offs']:                       # every run has its own level
        e = e0 * case['es'] + np.array([case['offs'][m % len(case['offs'])] for m in range(len(e0))])[:, None]
    c = _cons_with(case, e, x)
    M, N, d = x.shape
    sc = 1 + np.abs(x).max()
    if not np.all(np.isfinite(c)):
        fail('consensus not finite for finite energies')
    for m in range(M):
        lo, hi = x[m].min(0), x[m].max(0)
        if np.any(c[m] < lo - 1e-9 * sc) or np.any(c[m] > hi + 1e-9 * sc):
            fail('consensus outside the hull')
        gaps = case['alpha'] * (e[m] - e[m].min())
        srt = np.sort(gaps)
        # rounding of alpha*energy before the subtraction limits what can be resolved
        res = 1e-15 * case['alpha'] * np.abs(e[m]).max() * 8
        if N > 1 and srt[1] > 60 + res and res < 1e300:
            same(c[m], x[m][int(np.argmin(e[m]))], 'alpha -> infinity: best particle', rtol=0, atol=1e-9 * sc)
            hit('winner takes all')
        elif N > 1 and srt[-1] + res < 1e-11:
            same(c[m], x[m].mean(0), 'alpha -> 0: plain mean', rtol=0, atol=1e-8 * sc)
            hit('plain mean')
        elif N > 1:
            hit('between')
        if res < 1e-2:
            w = ref.gibbs(e[m], case['alpha'])
            same(c[m], ref.mean_w(w, x[m]), 'consensus of run %d' % m, rtol=0, atol=(1e-9 + 10 * res) * sc)


@P.facet('shift', lambda: st.tuples(scen.scenario(dyns=('CBO', 'AdamCBO', 'MirrorCBO', 'CBOMemory', 'PSO'),
                                                  steps=(1, 1), alphas=(0, 20), fscale=False), q(-200, 200, 1)
                                    ).map(lambda t: dict(t[0], shift=t[1])),
         quick=150, rule='adding a constant to the objective leaves the consensus unchanged; '
         'non-trivial: shift != 0 and N >= 2')
def shift(s):
    e1, e2 = scen.build(s), scen.build(dict(s, f=dict(s['f'], off=s['shift'])))
    for e in (e1, e2):
        e.dyn.terminate()
        e.dyn.step()
    same(e2.dyn.consensus, e1.dyn.consensus, 'consensus after shifting the objective', rtol=1e-7, atol=1e-7)
    if s['shift'] and e1.dyn.N > 1:
        hit()


@P.facet('minibatch_only', lambda: scen.scenario(dyns=('CBO', 'AdamCBO', 'MirrorCBO'), batch=True, Ns=(3, 8),
                                                 noises=('isotropic',), steps=(1, 3)),
         quick=120, rule='the objective is evaluated exactly on the batch positions, and nothing outside '
         'the batch can influence the consensus; non-trivial: a proper batch')
def minibatch_only(s):
    e = scen.build(s)
    for _ in range(s['steps']):
        o = scen.step(e)
        pre, post = o
        b = scen.batch_of(e.dyn)
        xs, vs = e.obj.calls[0]
        for i, m in enumerate(pre['active']):
            exact(xs[i], pre['x'][m][b[m]], 'points evaluated for run %d' % m)
            w = ref.consensus(vs[i], xs[i], _alpha_row(pre['alpha'], e.dyn.M)[m])
            same(post['consensus'][i, 0], w, 'consensus of the batch', rtol=1e-8, atol=1e-8)
        if s.get('batch'):
            hit()


@P.facet('evaluation_points', lambda: scen.scenario(
    dyns=('CBO', 'AdamCBO', 'PolarCBO', 'MirrorCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'CBS'), batch=True, multi=True, term=True,
    constraints=('none', 'sphere')), quick=200, rule='save_consensus_eval_points: after every step the record holds the initial ensemble with every '
    'evaluated particle replaced by its position at its last evaluation, and nothing is recorded unless asked for; non-trivial: a second step')
def evaluation_points(s):
    e = scen.build(s, save_consensus_eval_points=True)
    want = None
    for k in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        pre = o[0]
        if want is None:
            want = pre['x'].copy()
        for m, idx in scen.batch_of(e.dyn).items():
            want[m][idx] = pre['x'][m][idx]
        exact(e.dyn.consensus_eval_points, want, 'evaluation points after step %d' % (k + 1))
        if k:
            hit(s['dyn'])
    off = scen.build(s)
    scen.step(off)
    if hasattr(off.dyn, 'consensus_eval_points'):
        fail('evaluation points are recorded without being asked for')


@P.facet('scaled', lambda: scen.scaled(scen.scenario(
    dyns=('CBO', 'CBO', 'AdamCBO', 'MirrorCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'CBOMemory', 'PSO'), batch=True, multi=True, inf=False, term=True,
    constraints=('none', 'sphere'), sdf=('sphere', 'plane'))), quick=200, rule='as trajectory, for objectives of very small and very large values')
def scaled(s):
    trajectory(s)


@P.facet('sizes', lambda: st.sampled_from(('long', 'large')).flatmap(lambda z: scen.scenario(
    dyns=('CBO', 'CBO', 'AdamCBO', 'MirrorCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'CBS'),
    batch=True, multi=True, term=True, constraints=('none', 'sphere'), sdf=('sphere', 'plane'), size=z)),
    quick=60, rule='as trajectory, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    trajectory(s)
