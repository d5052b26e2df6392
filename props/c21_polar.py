"""C21: PolarCBO."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q

P = Prop('C21', assumptions=['flat domains, array-shaped ones for the Gaussian kernel (the others take the norm along the last axis); mini-batches with partial updates (the kernel pairs the particles of the batch)',
                             'the inverse quadratic kernel is 1/(1+(r/kappa)^2); the covariance of particle i is the kernel-weighted '
                             'covariance of the drifts', 'pairs at distance kappa are on the jump of the constant kernel: not generated',
                             'weights proportional to exp(-alpha*f) need finite values at alpha = 0'])
KERNELS = ('Gaussian', 'Laplace', 'InverseQuadratic', 'Constant')
NOISE = ('isotropic', 'anisotropic', 'constant', 'covariance', 'sampling')


def weights(s, X, f, al):
    """w[i, j] of one run, normalised over j."""
    n = len(X)
    fac = np.longdouble(al if s['kfm'] == 'alpha' else 1.0)
    L = np.zeros((n, n), dtype=np.longdouble)
    for i in range(n):
        for j in range(n):
            k = ref.neg_log(s['kernel'], s['kappa'], X[i], X[j])
            L[i, j] = (0 if k == 0 else -fac * np.longdouble(k)) - np.longdouble(al) * np.longdouble(f[j])
    L = L - L.max(1, keepdims=True)
    W = np.exp(L)
    return W / W.sum(1, keepdims=True)


def at_jump(s, X):
    if s['kernel'] != 'Constant':
        return False
    r = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
    return bool(np.any(np.abs(r - s['kappa']) < 1e-9 * (1 + s['kappa'])))


def alphas(pre, M):
    a = np.asarray(pre['alpha'], float).reshape(-1)
    return np.broadcast_to(a, (M,)) if a.size == 1 else a


def run(s, kw=None):
    e = scen.build(s, **(kw or {}))
    dyn = e.dyn
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        pre, post = o
        act, b, mv = pre['active'], scen.batch_of(dyn), scen.moved_of(dyn)
        if sorted(mv) != act or any(list(mv[m]) != list(b[m]) for m in act):
            fail('the moved particles are not those of the consensus')
        al = alphas(pre, dyn.M)
        n = len(mv[act[0]])
        shape_is(post['consensus'], (len(act), n) + pre['x'].shape[2:], 'consensus')
        flat = lambda v: np.asarray(v).reshape(v.shape[:2] + (-1,))
        before, after, cons = flat(pre['x']), flat(post['x']), flat(post['consensus'])
        zs = scen.noise_rows(e, act, n, pre['x'].shape[2:])
        for i, m in enumerate(act):
            X = before[m][mv[m]]
            f = e.obj.value(pre['x'][m][mv[m]][None])[0]
            if not np.isfinite(f).any():
                skip('all +inf')
            if not np.isfinite(f).all() and al[m] == 0:
                skip('0 * inf')
            if at_jump(s, X):
                skip('a pair at the jump of the constant kernel')
            W = weights(s, X, f, al[m])
            fin = f[np.isfinite(f)]
            res = 1e-9 + 1e-13 * (al[m] * np.abs(fin).max() + al[m] * np.abs(X).max() ** 2 / s['kappa'] ** 2)
            sc = 1 + np.abs(X).max()
            C = cons[i]
            far = ~(np.isfinite(f)[None] & np.isfinite(np.array([[ref.neg_log(s['kernel'], s['kappa'], p, r) for r in X] for p in X]))).any(1)
            if far.any():
                skip('no feasible particle within the radius')
            want = np.array([ref.mean_w(W[k], X) for k in range(n)])
            if not np.all(np.abs(C - want) <= min(res, 1e-3) * sc):
                k = int(np.argmax(np.abs(C - want).max(1)))
                fail('consensus of particle %d of run %d: %s, expected %s' % (mv[m][k], m, C[k].tolist(), want[k].tolist()))
            if np.any(C < X.min(0) - 1e-9 * sc) or np.any(C > X.max(0) + 1e-9 * sc):
                fail('a consensus of run %d leaves the hull of its particles' % m)
            D = X - C
            if s['noise'] in ('covariance', 'sampling'):
                fac = np.sqrt(2 * s['dt'] * (1 + al[m]))
                nz = np.array([fac * ref.cov_sqrt(D, np.asarray(W[k], float)) @ zs[m][k] for k in range(n)])
                tol = 1e-6 * (1 + np.abs(nz).max()) + 100 * np.sqrt(res) * sc * fac
            else:
                nz = ref.noise(s['noise'], D, np.asarray(zs[m]).reshape(D.shape), s['dt'])
                tol = 1e-8 * sc
            new = before[m].copy()
            new[mv[m]] = np.clip(X - s['lamda'] * s['dt'] * D + s['sigma'] * nz, -1e8, 1e8)
            same(after[m], new, 'positions of run %d after the step' % m, rtol=1e-8, atol=tol * (1 + s['sigma']) + 1e-8)
            exact(dyn.energy[m][mv[m]], f, 'energies of run %d' % m)
            if n > 1 and np.ptp(np.asarray(want, float), axis=0).max() > 1e-3:
                hit(s['kernel'])
        for m in range(dyn.M):
            if m not in act:
                note('some runs ended')
                exact(post['x'][m], pre['x'][m], 'positions of the ended run %d' % m)
    note('mode ' + s['kfm'], 'noise ' + s['noise'])


def scenarios(**kw):
    k = dict(dyns=('PolarCBO',), noises=NOISE, batch=True, term=True, steps=(1, 3))
    k.update(kw)
    return scen.scenario(**k).map(no_zero_times_inf)


def no_zero_times_inf(s):
    if s['kernel'] == 'Constant' and s['kfm'] == 'alpha':
        s = dict(s, alpha=[v or .1 for v in s['alpha']] if isinstance(s['alpha'], list) else s['alpha'] or .1)
    return s


RULE = 'random problems, all kernels and factor modes, mini-batches and ended runs; '


@P.facet('step', scenarios, quick=500, rule=RULE + 'consensus of every particle by a double loop and the step recomputed; non-trivial: different consensus points in a run')
def step_(s):
    run(s)


@P.facet('apart', lambda: scenarios(noises=('isotropic', 'anisotropic', 'constant'), Ms=(2, 4), Ns=(2, 6), steps=(1, 2)).flatmap(
    lambda s: st.lists(pick(1.0, 1.0, 1e3, 1e5), min_size=2, max_size=4).map(lambda g: dict(s, mag=g))), quick=150,
    rule=RULE + 'runs of very different magnitude; non-trivial: as above')
def apart(s):
    run(s)


@P.facet('feasible', lambda: scenarios(inf=True, noises=('isotropic', 'anisotropic', 'constant'), alphas=(1, 40)).map(
    lambda s: dict(s, alpha=[v or 1. for v in s['alpha']] if isinstance(s['alpha'], list) else s['alpha'] or 1.)), quick=200,
    rule=RULE + 'with +inf values; non-trivial: as above')
def feasible(s):
    run(s)


@P.facet('boxes', lambda: scenarios(multi=True, noises=('isotropic', 'anisotropic', 'constant'), Ms=(1, 4), Ns=(2, 6)).map(lambda s: dict(s, kernel='Gaussian')), quick=150,
         rule='as step for the Gaussian kernel and array-shaped domains; non-trivial: as above')
def boxes(s):
    run(s)
    if len(s['x']['s']) > 3:
        note('array domain')


@st.composite
def sharp_case(draw):
    s = draw(scenarios(noises=('isotropic', 'anisotropic', 'constant'), Ns=(2, 6), alphas=(1, 10), objs=('quad', 'abs', 'mix', 'ripple')))
    big = draw(pick(1e3, 1e4, 1e6))
    s['alpha'] = [big * (v + .5) for v in s['alpha']] if isinstance(s['alpha'], list) else big * (s['alpha'] + .5)
    s['f'] = dict(s['f'], scale=1 / big, off=0.0)       # the objective and the kernel both of the order of one in the exponent
    s['kappa'] = s['kappa'] * {'Gaussian': big ** .5, 'Laplace': big, 'Constant': 1., 'InverseQuadratic': big ** .5}[s['kernel']] * draw(pick(1., 1., .3))
    return s


@P.facet('sharp', sharp_case, quick=150, rule='as step for large alpha, with the objective scaled down and the kernel widened accordingly; non-trivial: as above')
def sharp(s):
    run(s)
    note('scale %g' % s['f']['scale'])


@st.composite
def limit_case(draw):
    s = draw(scenarios(noises=('isotropic',), steps=(1, 1), batch=False, term=False, Ns=(2, 6), objs=('quad', 'abs', 'mix'), alphas=(1, 10)))
    s['sigma'], s['lamda'], s['dt'], s['kappa'] = 0., 1., 1., 1.
    s['alpha'] = [v or 1. for v in s['alpha']] if isinstance(s['alpha'], list) else s['alpha'] or 1.
    s['side'] = draw(pick('wide', 'narrow', 'inf'))
    s['f'] = dict(s['f'], scale=1.0, off=0.0)
    return s


@P.facet('limits', limit_case, quick=250, rule='infinitely wide kernels give the ordinary consensus, infinitely narrow ones the particle itself; non-trivial: always')
def limits(s):
    X = scen.x0(s)
    M, N, d = X.shape
    hit(s['kernel'], s['side'])
    s = dict(s, kappa={'wide': 1e9, 'narrow': 1e-9, 'inf': np.inf}[s['side']])
    e = scen.build(s)
    pre, post = scen.step(e)
    C = np.asarray(post['consensus'])
    al = alphas(pre, M)
    for m in range(M):
        f = e.obj.value(X[m][None])[0]
        for i in range(N):
            if s['side'] == 'narrow':
                twins = ((X[m] - X[m][i]) ** 2).sum(-1) == 0        # particles at the same place share their point
                gap = np.sqrt(((X[m][~twins] - X[m][i]) ** 2).sum(-1)).min() if (~twins).any() else 1
                if s['kernel'] == 'InverseQuadratic':
                    fac = al[m] if s['kfm'] == 'alpha' else 1.
                    if 2 * fac * np.log(gap / 1e-9) < al[m] * np.ptp(f) + 25:
                        note('heavy tail')
                        continue
                elif (1 if s['kfm'] == 'const' else al[m]) * gap / 1e-9 < al[m] * np.ptp(f) + 40:
                    continue
                same(C[m, i], X[m, i], 'consensus of a particle for a narrow %s kernel' % s['kernel'], rtol=0, atol=1e-8 * (1 + np.abs(X[m]).max()))
            else:
                same(C[m, i], ref.consensus(f, X[m], al[m]), 'consensus for a wide %s kernel' % s['kernel'], rtol=0, atol=1e-6 * (1 + np.abs(X[m]).max()))


@st.composite
def kernel_case(draw):
    M, n, d = draw(ints(1, 3)), draw(ints(1, 6)), draw(ints(1, 4))
    return {'x': draw(gen.array([M, n, d], ('fine', 'fine', 'grid', 'wide', 'tiny'))), 'kernel': draw(pick(*KERNELS, 'Taz')),
            'kappa': draw(st.one_of(q(.1, 5, 2), pick(1., 1e-3, 1e6, 'inf'))), 'unit': draw(pick(0, 0, 0, -20, -40, 24))}


@P.facet('kernels', kernel_case, quick=500, rule='laws of the kernels on all pairs of random ensembles, in several units of length; non-trivial: three particles or more')
def kernels(c):
    import cbx.dynamics.polarcbo as pc
    kap = np.inf if c['kappa'] == 'inf' else c['kappa']
    u = 2. ** c['unit'] if c['kernel'] != 'Taz' else 1.
    kap = kap * u
    k = pc.PolarCBO.kernel_dict[c['kernel']](kappa=kap)
    X = dec(c['x']) * u
    M, n, d = X.shape
    a, b = X[:, None], X[:, :, None]
    if kap == 1.:   # the documented default width
        exact(pc.PolarCBO.kernel_dict[c['kernel']]().neg_log(a, b), k.neg_log(a, b), '%s kernel without width' % c['kernel'])
    K, L = np.asarray(k(a, b)), np.asarray(k.neg_log(a, b))
    shape_is(K, (M, n, n), 'kernel matrix')
    shape_is(L, (M, n, n), 'neg_log matrix')
    if np.any(np.isnan(K)) or np.any(np.isnan(L)):
        fail('the %s kernel is not a number' % c['kernel'])
    if np.any(K < 0) or np.any(K > 1 + 1e-12) or np.any(L < -1e-12):
        fail('%s kernel outside [0, 1]: %r' % (c['kernel'], K.tolist()))
    if c['kernel'] != 'Constant' and np.any((K == 0) & (L < 600)):
        fail('the %s kernel vanishes' % c['kernel'])
    same(K, np.exp(-L), '%s kernel and its negative logarithm' % c['kernel'], rtol=1e-9, atol=1e-14)
    exact(K, np.swapaxes(K, 1, 2), 'transposed kernel matrix')
    R = np.sqrt(((a - b) ** 2).sum(-1))
    for m in range(M):
        same(np.diag(K[m]), np.ones(n), 'kernel at distance zero', rtol=0, atol=1e-12)
        order = np.argsort(R[m].ravel(), kind='stable')
        r, v = R[m].ravel()[order], K[m].ravel()[order]
        # larger distances (beyond rounding) do not have larger values
        top = np.maximum.accumulate(v[::-1])[::-1]
        for i in range(len(r) - 1):
            later = np.searchsorted(r, r[i] * (1 + 1e-9) + 1e-12 * u)
            if later < len(r) and top[later] > v[i] + 1e-12:
                fail('%s kernel increases with the distance: %g at %g, then %g' % (c['kernel'], v[i], r[i], top[later]))
        if c['kernel'] != 'Taz':
            for i in range(n):
                for j in range(n):
                    if c['kernel'] == 'Constant' and abs(R[m, i, j] - kap) < 1e-9 * (u + R[m, i, j]):
                        continue
                    w = ref.neg_log(c['kernel'], kap, X[m, i], X[m, j])
                    same(L[m, i, j], w, 'negative logarithm of the %s kernel' % c['kernel'], rtol=1e-9, atol=1e-12)
        elif n > 1 and R[m].max() > 0 and np.isfinite(kap):
            same(L[m].max(), 1 / kap ** 2, 'Taz kernel at the diameter', rtol=1e-9, atol=1e-12)
    if n > 2:
        hit(c['kernel'])


@P.facet('gaussian', lambda: st.tuples(gen.array([2, 4, 2, 2], ('fine', 'grid')), pick(1., .5, 3.)), quick=60,
         rule='value and negative logarithm of the Gaussian kernel between matrices; non-trivial: always')
def gaussian(t):
    import cbx.dynamics.polarcbo as pc
    X, kap = dec(t[0]), t[1]
    hit()
    k = pc.PolarCBO.kernel_dict['Gaussian'](kappa=kap)
    a, b = X[:, None], X[:, :, None]
    L = ((a - b) ** 2).sum((-1, -2)) / 2 / kap ** 2
    same(k.neg_log(a, b), L, 'negative logarithm of the Gaussian kernel', rtol=1e-12, atol=1e-14)
    same(k(a, b), np.exp(-L), 'Gaussian kernel', rtol=1e-12, atol=1e-14)


@P.facet('choice', lambda: st.tuples(scenarios(Ms=(1, 3)), pick('gauss', 'Gauss', '', 'Inverse', 'taz'), pick('beta', '', 'Alpha')), quick=100,
         rule='kernel classes, custom kernels and unknown names; non-trivial: always')
def choice(t):
    s, bad, mode = t
    import cbx.dynamics as D
    hit(s['kernel'])
    X = scen.x0(s)

    class Custom:
        def neg_log(self, x, y):
            d2 = ((x - y) ** 2).sum(-1)
            return d2 / 2 / s['kappa'] ** 2

    s = dict(s, kernel='Gaussian')
    run(s, dict(kernel=Custom()))
    f = lambda x: (x ** 2).sum(-1)
    rejects(lambda: D.PolarCBO(f, f_dim='3D', x=X, verbosity=0, kernel=bad), (ValueError,), 'kernel %r' % bad)

    def go():
        d = D.PolarCBO(f, f_dim='3D', x=X, verbosity=0, kernel_factor_mode=mode)
        d.step()
    rejects(go, (NotImplementedError, ValueError), 'kernel factor mode %r' % mode)
    # defaults: Gaussian kernel of width one, scaled by alpha
    a = D.PolarCBO(f, f_dim='3D', x=X, verbosity=0, max_it=2, seed=1)
    b = D.PolarCBO(f, f_dim='3D', x=X, verbosity=0, max_it=2, seed=1, kernel='Gaussian', kappa=1.0, kernel_factor_mode='alpha')
    exact(a.optimize(), b.optimize(), 'result with default kernel')


@P.probe('batches_with_full_updates', rule='mini-batches of 2 of 4 particles with partial=False')
def batches_with_full_updates():
    import cbx.dynamics as D
    x = np.linspace(-1, 2, 2 * 4 * 2).reshape(2, 4, 2)
    dyn = D.PolarCBO(lambda x: (x ** 2).sum(-1), f_dim='3D', x=x, verbosity=0, max_it=2, batch_args={'size': 2, 'partial': False})
    dyn.step()
    shape_is(dyn.x, x.shape, 'particles')


@P.facet('sizes', lambda: pick('long', 'large').flatmap(lambda z: scenarios(size=z)), quick=60,
         rule='as step, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    step_(s)
