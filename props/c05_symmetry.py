"""C05: symmetries of the trajectories."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, fail, hit, note, skip
from pbt.gen import ints, pick, q, seeds

P = Prop('C05', assumptions=['no mini-batches (particles are selected by index)', 'moderate alpha * f'])
RULE = 'two simulations, the second with transformed particles, objective and random numbers; compared after every step '


class TObjective(scen.Objective):
    """f(T^-1 x)."""

    def __init__(self, spec, nd, inv, factor=1.0):
        super().__init__(spec, nd)
        self.inv, self.factor = inv, factor

    def value(self, x):
        return self.factor * super().value(self.inv(x))


class TSampler(scen.Sampler):
    """The same random numbers as the original run, transformed."""

    def __init__(self, seed, ids, tz):
        super().__init__(seed, ids)
        self.tz = tz

    def __call__(self, size=None):
        return self.tz(super().__call__(size))


def sim(s, x=None, obj=None, sampler=None, over=None):
    e = scen.build(s, x=x, obj=obj, **(over or {}))
    if sampler is not None:
        sampler.dyn = e.dyn
        e.smp = sampler
    return e


def transformed(s, tx, tinv, tz, factor=1.0, over=None, X=None):
    """Simulation of the transformed problem (the sampler has to be given at construction)."""
    X = scen.x0(s) if X is None else X
    M = X.shape[0]
    smp = TSampler(s['ns'], range(M), tz)
    e = scen.build(s, x=tx(X), obj=TObjective(s['f'], X.ndim - 2, tinv, factor), **dict(dict(sampler=smp), **(over or {})))
    smp.dyn = e.dyn
    e.smp = smp
    return e


def deviation(a, b, tx, steps, perm=None, per_step=None):
    """Largest deviation of the transformed trajectory b from the transformed image of trajectory a."""
    worst, where = 0.0, ''
    for k in range(steps):
        ta, tb = a.dyn.terminate(), b.dyn.terminate()
        if ta != tb:
            return np.inf, 'one of them ends after %d steps' % k
        if ta:
            break
        a.dyn.step()
        b.dyn.step()
        pairs = [('x', tx(np.array(a.dyn.x)), np.array(b.dyn.x))]
        if per_step:
            pairs += per_step(a, b)
        for n, u, v in pairs:
            if u.shape != v.shape:
                return np.inf, '%s: shapes %s and %s' % (n, u.shape, v.shape)
            with np.errstate(all='ignore'):
                d = np.where((u == v) | (np.isnan(u) & np.isnan(v)), 0, np.abs(u - v) / (1 + np.abs(u)))
            d = np.where(np.isnan(d), np.inf, d)
            if d.size and d.max() > worst:
                worst, where = float(d.max()), '%s after %d steps: %r instead of %r' % (
                    n, k + 1, v.reshape(-1)[d.argmax()].item(), u.reshape(-1)[d.argmax()].item())
    return worst, where


def compare(s, make_b, tx, what, per_step=None):
    X = scen.x0(s)
    if 'ProjectionSphere' in str(s.get('mirrormap')) and np.min(np.linalg.norm(X, axis=-1)) < 1e-3:
        skip('the centre of the sphere has no projection')
    dev, where = deviation(scen.build(s), make_b(None), tx, s['steps'], per_step=per_step)
    if dev > 1e-6:
        amp = 0.0
        for k in range(2):
            r = np.random.default_rng(k)
            Y = X + 1e-12 * (1 + np.abs(X)) * r.standard_normal(X.shape)
            amp = max(amp, deviation(scen.build(s), scen.build(s, x=Y), lambda z: z, s['steps'])[0])
        if dev <= 1e3 * amp:
            skip('amplifies rounding')
        fail('%s (%s): %s' % (what, s['dyn'], where))


def _best(a, b):
    return [('best_energy', np.array(a.dyn.best_energy), np.array(b.dyn.best_energy)),
            ('best_cur_energy', np.array(a.dyn.best_cur_energy), np.array(b.dyn.best_cur_energy))]


SMOOTH = ('quad', 'rastr', 'mix', 'lin', 'abs')
ALLDYN = ('CBO', 'CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'CBS', 'PolarCBO', 'MirrorCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO',
          'RegCombinationCBO')


@st.composite
def sym(draw, dyns, **kw):
    kw.setdefault('noises', ('isotropic', 'anisotropic', 'constant', 'covariance'))
    s = draw(scen.scenario(dyns=dyns, fscale=False, alphas=(0, 8), kinds=('fine', 'fine', 'grid'), objs=SMOOTH,
                           Ms=(1, 3), Ns=(2, 6), steps=(1, 3), **kw))
    if s['dyn'] == 'PolarCBO' and s['kernel'] == 'Constant':
        s['kernel'] = 'Gaussian'
    s['perm'] = draw(seeds)
    return s


@P.facet('renumber', lambda: sym(ALLDYN, multi=True, corr=('no_correction', 'heavi_side', 'heavi_side_reg'),
                                 sdf=('sphere', 'plane')), quick=300,
         rule=RULE + '(permutation of the particles within each run); non-trivial: a proper permutation')
def renumber(s):
    X = scen.x0(s)
    M, N = X.shape[:2]
    r = np.random.default_rng(s['perm'])
    perm = np.stack([r.permutation(N) for _ in range(M)])
    t = lambda z: np.stack([z[m][perm[m]] for m in range(M)])   # noqa: E731
    compare(s, lambda _: transformed(s, t, lambda x: x, t), t, 'renumbered particles', per_step=lambda a, b: _best(a, b) + [
        ('energy', t(np.array(a.dyn.energy)), np.array(b.dyn.energy))])
    if np.any(perm != np.arange(N)):
        hit(s['dyn'], str(s['noise']))


@P.facet('renumber_runs', lambda: sym(ALLDYN, multi=True), quick=100,
         rule=RULE + '(permutation of the runs); non-trivial: M > 1')
def renumber_runs(s):
    X = scen.x0(s)
    M = X.shape[0]
    p = np.random.default_rng(s['perm']).permutation(M)
    e2 = lambda _: scen.build(s, runs=list(p))   # noqa: E731
    compare(s, e2, lambda z: z[p], 'renumbered runs')
    if np.any(p != np.arange(M)):
        hit(s['dyn'])


@P.facet('translate', lambda: st.tuples(sym(('CBO', 'CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'CBS', 'PolarCBO'), multi=True,
                                            corr=('no_correction', 'heavi_side', 'heavi_side_reg')), q(-20, 20, 2), q(-1, 1, 2)
                                        ).map(lambda t: dict(t[0], tau=t[1], slope=t[2])),
         quick=250, rule=RULE + '(translation by a different amount per coordinate); non-trivial: non-zero shift')
def translate(s):
    X = scen.x0(s)
    tau = s['tau'] + s['slope'] * np.arange(int(np.prod(X.shape[2:]))).reshape(X.shape[2:])
    tx = lambda z: z + tau   # noqa: E731
    compare(s, lambda _: transformed(s, tx, lambda x: x - tau, lambda z: z), tx, 'translated problem', per_step=_best)
    if np.any(tau):
        hit(s['dyn'], str(s['noise']))


@P.facet('rescale', lambda: st.tuples(sym(('CBO', 'CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'PolarCBO', 'MirrorCBO', 'HyperSurfaceCBO',
                                           'DriftConstrainedCBO'),
                                          noises=('isotropic', 'anisotropic', 'constant'), multi=True,
                                          corr=('no_correction', 'heavi_side', 'heavi_side_reg')), pick(0.01, 0.5, 3.0, 100.0, 1e-14, 1e12, 1e-150, 1e150)
                                      ).map(lambda t: dict(t[0], s=t[1])),
         quick=200, rule=RULE + '(objective times s, alpha divided by s); non-trivial: alpha > 0')
def rescale(s):
    if s['dyn'] == 'PolarCBO':
        s = dict(s, kfm='const')
    k = s['s']
    X = scen.x0(s)
    al = scen.alpha_of(s, X.shape[0])
    s2 = dict(s, corr_eps=s.get('corr_eps', 1e-3) * k)
    ident = lambda z: z   # noqa: E731
    compare(s, lambda _: transformed(s2, ident, ident, ident, factor=k, over=dict(alpha=np.asarray(al) / k if np.ndim(al) else
                                                                               al / k)), ident, 'rescaled objective',
            per_step=lambda a, b: [('best energy', np.array(a.dyn.best_energy), np.array(b.dyn.best_energy) / k)])
    if np.any(al):
        hit(s['dyn'])


@P.facet('dilate', lambda: st.tuples(sym(('CBO', 'CBO', 'CBOMemory', 'PSO', 'CBS', 'PolarCBO', 'MirrorCBO'), noises=('isotropic', 'anisotropic', 'covariance', 'sampling'),
                                         mirror=(None, 'L2', {'name': 'ProjectionBall', 'radius': 1.5}, {'name': 'ElasticNet', 'delta': 1.0, 'lamda': 0.5}),
                                         multi=True, corr=('no_correction', 'heavi_side', 'heavi_side_reg')), ints(-60, 12)).map(lambda t: dict(t[0], s=t[1])),
         quick=250, rule=RULE + '(particles and minimiser scaled by powers of two, with the width of kernels and the size of constraint sets); non-trivial: noise or drift, and a proper factor')
def dilate(s):
    k = 2. ** s['s']
    s2 = dict(s)
    if s['dyn'] == 'PolarCBO':
        s = dict(s, kfm='const', kernel='Gaussian' if s['kernel'] == 'InverseQuadratic' else s['kernel'])
        s2 = dict(s, kappa=s['kappa'] * k)
    mm = s.get('mirrormap')
    if isinstance(mm, dict) and mm['name'] == 'ProjectionBall':
        s2['mirrormap'] = dict(mm, radius=mm['radius'] * k)
    elif isinstance(mm, dict) and mm['name'] == 'ElasticNet':
        s2['mirrormap'] = dict(mm, lamda=mm['lamda'] * k)
    tx = lambda z: z * k   # noqa: E731
    ident = lambda z: z   # noqa: E731
    compare(s, lambda _: transformed(s2, tx, lambda x: x / k, ident), tx, 'problem scaled by 2**%d' % s['s'],
            per_step=lambda a, b: [('x', np.array(a.dyn.x), np.array(b.dyn.x) / k), ('best particle', np.array(a.dyn.best_particle), np.array(b.dyn.best_particle) / k),
                                   ('update', np.array(a.dyn.update_diff), np.array(b.dyn.update_diff) / k)] + _best(a, b))
    if s['s'] and (s['sigma'] or s['lamda']):
        hit(s['dyn'], str(s['noise']))


def _orth(seed, d):
    r = np.random.default_rng(seed)
    Q, R = np.linalg.qr(r.standard_normal((d, d)))
    return Q * np.sign(np.diag(R))


@P.facet('rotate', lambda: sym(('CBO', 'CBO', 'CBOMemory', 'PSO', 'CBS', 'PolarCBO', 'MirrorCBO', 'HyperSurfaceCBO',
                                'DriftConstrainedCBO', 'RegCombinationCBO'), noises=('isotropic', 'constant', 'covariance'),
                               ds=(2, 4), corr=('no_correction', 'heavi_side', 'heavi_side_reg'),
                               constraints=('none', 'sphere'),
                               mirror=(None, 'L2', {'name': 'ProjectionBall', 'radius': 1.5}, {'name': 'ProjectionSphere'})),
         quick=250, rule=RULE + '(random orthogonal matrix); non-trivial: noise or drift present')
def rotate(s):
    X = scen.x0(s)
    Q = _orth(s['perm'], X.shape[-1])
    tx = lambda z: z @ Q.T   # noqa: E731
    compare(s, lambda _: transformed(s, tx, lambda x: x @ Q, tx), tx, 'rotated problem', per_step=_best)
    hit(s['dyn'], str(s['noise']))


@P.facet('flip', lambda: sym(ALLDYN, ds=(2, 4), constraints=('none', 'sphere'),
                             corr=('no_correction', 'heavi_side', 'heavi_side_reg'),
                             mirror=(None, 'L2', {'name': 'ProjectionBall', 'radius': 1.5}, 'ProjectionSphere',
                                     {'name': 'ElasticNet', 'delta': 1.0, 'lamda': 0.5})),
         quick=250, rule=RULE + '(signed permutation of the coordinates, every noise model); non-trivial: not the identity')
def flip(s):
    X = scen.x0(s)
    r = np.random.default_rng(s['perm'])
    d = X.shape[-1]
    p, sg = r.permutation(d), r.choice([-1.0, 1.0], d)
    tx = lambda z: (z * sg)[..., p]   # noqa: E731
    inv = np.argsort(p)
    # anisotropic noise multiplies the (flipped) drift coordinate by coordinate
    tz = (lambda z: z[..., p]) if s['noise'] == 'anisotropic' else tx   # noqa: E731
    compare(s, lambda _: transformed(s, tx, lambda x: x[..., inv] * sg, tz), tx, 'coordinates permuted and flipped', per_step=_best)
    if np.any(p != np.arange(d)) or np.any(sg < 0):
        hit(s['dyn'], str(s['noise']))
