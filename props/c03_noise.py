"""C03: the noise models."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C03')
KINDS = ('constant', 'isotropic', 'anisotropic', 'covariance', 'sampling')


@st.composite
def _case(draw):
    M, N = draw(ints(1, 4)), draw(ints(1, 6))
    kind = draw(pick(*KINDS))
    cov = kind in ('covariance', 'sampling')
    dims = [draw(ints(1, 5))] if cov or draw(pick(True, True, False)) else draw(pick([2, 2], [1, 3], [3, 1], [2, 1, 2]))
    return {'kind': kind, 'drift': draw(gen.array([M, N] + dims, ('fine', 'fine', 'grid', 'wide', 'tiny'))),
            'energy': draw(gen.array([M, N], ('fine', 'grid'))), 'scale': draw(pick(1.0, 1.0, 1e-6, 1e4, 0.0)),
            'dt': draw(pick(0.01, 0.1, 1.0, 0.37)), 'alpha': draw(st.lists(q(0, 30, 2), min_size=M, max_size=M)),
            'mode': draw(pick(None, None, 'optimization', 'sampling')), 'ns': draw(seeds),
            'act': draw(st.lists(st.booleans(), min_size=M, max_size=M))}


def _setup(c):
    import cbx.dynamics as D
    drift = dec(c['drift']) * c['scale']
    energy = dec(c['energy'])
    M, N = drift.shape[:2]
    smp = scen.Sampler(c['ns'], range(M))
    act = [m for m in range(M) if c['act'][m]] or [0]
    term = np.ones(M, dtype=bool)
    term[act] = False
    dyn = D.CBO(lambda x: energy[: x.shape[0]], f_dim='3D', x=np.zeros_like(drift), noise=c['kind'], dt=c['dt'],
                alpha=np.array(c['alpha'], float)[:, None], sampler=smp, verbosity=0, check_f_dims=False,
                term_criteria=[lambda d: term])
    dyn.terminate()
    smp.dyn = dyn
    dyn.set_batch_idx()
    dyn.energy = energy.copy()
    dyn.drift = drift[act].copy()
    if c['mode'] is not None and c['kind'] in ('covariance', 'sampling'):
        dyn.noise_callable.mode = c['mode']
    return dyn, smp, drift, energy, act


def _want(c, drift, energy, act, z):
    mode = c['mode'] or 'sampling'
    return np.stack([ref.noise(c['kind'], drift[m], z[i], c['dt'], alpha=c['alpha'][m],
                               w=ref.gibbs(energy[m], c['alpha'][m]), mode=mode) for i, m in enumerate(act)])


@P.facet('increments', _case, quick=600, rule='prescribed drifts, energies and random numbers; the returned increment is '
         'compared with the formula; non-trivial: some drift and N*d > 1')
def increments(c):
    dyn, smp, drift, energy, act = _setup(c)
    keep = dyn.drift.copy()
    n = dyn.noise()
    if len(smp.draws) < 1:
        fail('no random numbers drawn')
    z = np.concatenate([d.reshape(-1) for d in smp.draws])
    if z.size != keep.size:
        fail('%d random numbers for %d coordinates' % (z.size, keep.size))
    z = z.reshape(keep.shape)
    want = _want(c, drift, energy, act, z)
    sc = float(np.abs(drift).max())
    same(n, want, '%s noise' % c['kind'], rtol=1e-7, atol=1e-7 * sc + 1e-300)
    exact(dyn.drift, keep, 'the drift')
    if c['scale'] == 0.0 and c['kind'] != 'constant' and np.any(np.asarray(n) != 0):
        fail('noise without drift')
    note(c['kind'])
    if np.any(drift) and drift[0].size > 1:
        hit()
    if len(act) < len(c['act']):
        note('some runs ended')


@P.facet('scaling', _case, quick=150, rule='multiplying the drift by s multiplies the noise by |s| (isotropic, covariance) or s '
         '(anisotropic) and leaves constant noise alone; quartering dt halves it; non-trivial: some drift')
def scaling(c):
    if c['scale'] != 1.0:
        c = dict(c, scale=1.0)
    out = []
    for s, dt in ((1.0, c['dt']), (-3.0, c['dt']), (1.0, c['dt'] / 4)):
        dyn, smp, drift, energy, act = _setup(dict(c, dt=dt))
        dyn.drift = s * dyn.drift
        out.append(np.array(dyn.noise()))
    f = {'constant': 1.0, 'anisotropic': -3.0}.get(c['kind'], 3.0)
    sc = 1e-300 + np.abs(out[0]).max()
    same(out[1], f * out[0], 'noise of the drift times -3', rtol=1e-6, atol=1e-6 * sc)
    same(out[2], out[0] / 2, 'noise for dt/4', rtol=1e-9, atol=1e-9 * sc)
    if np.any(drift):
        hit(c['kind'])


@P.facet('in_dynamics', lambda: scen.scenario(
    dyns=('CBO', 'CBO', 'MirrorCBO', 'AdamCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'RegCombinationCBO', 'PolarCBO'),
    noises=('isotropic', 'anisotropic', 'constant', 'covariance'), batch=True, multi=True, term=True, constraints=('none',)),
    quick=250, rule='the increments produced during the steps of a dynamic (observed through its noise()) follow the formula for '
    'its current drift, one random number per moved coordinate; non-trivial: noise was computed')
def in_dynamics(s):
    e = scen.build(s)
    dyn = e.dyn
    log = []
    orig = dyn.noise

    def spy():
        k = len(e.smp.draws)
        d0 = np.array(dyn.drift, copy=True)
        n = orig()
        log.append((d0, np.array(n, copy=True), [z.copy() for z in e.smp.draws[k:]],
                    np.array(dyn.energy, copy=True), np.array(dyn.alpha, copy=True)))
        return n
    dyn.noise = spy
    for _ in range(s['steps']):
        log.clear()
        o = scen.step(e)
        if o is None:
            break
        act = o[0]['active']
        mv = scen.moved_of(dyn)
        for d0, n, zs, en, al in log:
            z = np.concatenate([a.reshape(-1) for a in zs]) if zs else np.zeros(0)
            if z.size != d0.size:
                fail('%d random numbers for %d coordinates' % (z.size, d0.size))
            z = z.reshape(d0.shape)
            if s['noise'] in ('covariance', 'sampling') and s['dyn'] == 'PolarCBO':
                note('polar covariance')
                continue
            sc = np.abs(d0).max() + 1e-300
            want = np.stack([ref.noise(s['noise'], d0[i], z[i], s['dt'], alpha=al[m, 0],
                                       w=ref.gibbs(en[m][mv[m]], al[m, 0])) for i, m in enumerate(act)])
            same(n, want, '%s noise of %s' % (s['noise'], s['dyn']), rtol=1e-6, atol=1e-6 * sc)
            if np.any(d0):
                hit(s['dyn'])


@P.facet('polar_covariance', lambda: scen.scenario(dyns=('PolarCBO',), noises=('covariance',), batch=True, term=True,
                                                   objs=('quad', 'rastr', 'mix')), quick=100,
         rule='covariance noise of PolarCBO uses, for each particle, the kernel-weighted covariance; non-trivial: N >= 2')
def polar_covariance(s):
    if s['kernel'] == 'Constant' and s['kfm'] == 'alpha' and (s['alpha'] == 0 or (isinstance(s['alpha'], list) and 0 in s['alpha'])):
        skip('0*inf: a vanishing kernel to the power 0')
    e = scen.build(s)
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        pre, post = o
        mv = scen.moved_of(e.dyn)
        act = pre['active']
        zs = scen.noise_rows(e, act, len(mv[act[0]]), pre['x'].shape[2:])
        for i, m in enumerate(act):
            X = pre['x'][m][mv[m]]
            f = e.obj.value(X[None])[0]
            al = float(pre['alpha'][m, 0])
            drift = X - post['consensus'][i]
            fac = al if s['kfm'] == 'alpha' else 1.0
            want = np.zeros_like(X)
            for j in range(len(X)):
                lw = -fac * np.array([ref.neg_log(s['kernel'], s['kappa'], X[j], X[k]) for k in range(len(X))]) - al * f
                if not np.isfinite(lw.max()):
                    skip('no finite weight')
                w = np.exp(lw - lw.max())
                w /= w.sum()
                want[j] = np.sqrt(2 * s['dt'] * (1 + al)) * ref.cov_sqrt(drift, w) @ zs[m][j]
            full = pre['x'][m].copy()            # a particle twice in a batch is written twice: the last one stays
            full[mv[m]] = np.clip(X - s['lamda'] * s['dt'] * drift + s['sigma'] * want, -1e8, 1e8)
            same(post['x'][m], full, 'positions of run %d' % m, rtol=1e-5, atol=1e-5 * (1 + np.abs(X).max()) * (1 + np.abs(zs[m]).max()))
            if len(X) > 1:
                hit()


@P.facet('sampler', lambda: st.fixed_dictionaries({'kind': pick(*KINDS), 'seed': ints(0, 10 ** 6), 'direct': st.booleans()}),
         quick=40, rule='moments of 40000 normalised increments of the default random source: mean 0, variance 1, no correlation '
         'between coordinates, particles and successive calls (loose 6-sigma bands); all cases count')
def sampler(c):
    import cbx.dynamics as D
    import cbx.noise as Nz
    M, N, d = 2, 400, 10
    dyn = D.CBO(lambda x: (x ** 2).sum(-1), f_dim='3D', x=np.zeros((M, N, d)), noise=c['kind'], dt=0.25, alpha=0.0,
                seed=c['seed'], verbosity=0, check_f_dims=False)
    dyn.terminate()
    dyn.set_batch_idx()
    # drift with identity covariance per run / unit norm / unit entries
    if c['kind'] in ('covariance', 'sampling'):
        dr = np.zeros((M, N, d))
        for i in range(N):
            dr[:, i, i % d] = np.sqrt(d)
        norm = np.sqrt(2 * 0.25)
    elif c['kind'] == 'isotropic':
        dr = np.zeros((M, N, d))
        dr[..., 0] = 1.0
        norm = 0.5
    else:
        dr = np.ones((M, N, d))
        norm = 0.5
    dyn.drift = dr
    dyn.energy = np.zeros((M, N))
    nz = dyn.noise
    if c['direct']:
        cls = {'constant': Nz.constant_noise, 'isotropic': Nz.isotropic_noise, 'anisotropic': Nz.anisotropic_noise}.get(
            c['kind'], Nz.covariance_noise)
        inst = cls()
        nz = lambda: inst(dyn)   # noqa: E731
    z = np.stack([np.array(nz()) / norm for _ in range(5)])       # (5, M, N, d)
    shape_is(z[0], (M, N, d), 'noise')
    n = z.size
    if abs(z.mean()) > 6 / np.sqrt(n):
        fail('mean of the normalised noise %g' % z.mean())
    if abs(z.var() - 1) > 6 * np.sqrt(2 / n):
        fail('variance of the normalised noise %g' % z.var())
    for ax in range(4):
        a, b = np.take(z, range(1, z.shape[ax]), ax), np.take(z, range(z.shape[ax] - 1), ax)
        r = (a * b).mean()
        if abs(r) > 6 / np.sqrt(a.size):
            fail('correlation %g along axis %d' % (r, ax))
    hit(c['kind'])


@P.facet('exponential_sampler', lambda: st.fixed_dictionaries({'seed': ints(0, 10 ** 6), 'M': ints(1, 3), 'N': ints(400, 900), 'd': ints(1, 3),
                                                               'use': pick('direct', 'direct', 'dynamic')}), quick=60,
         rule='double exponential random numbers: shape, mean 0, E|z| = 1, variance 2, fair signs independent of the modulus, '
         'P(|z| > 1) = 1/e, no correlation between entries and calls (7 standard errors); the step of a dynamic using them; all cases count')
def exponential_sampler(c):
    import cbx.dynamics as D
    from cbx.noise import exponential_sampler as es
    np.random.seed(c['seed'])
    shape = (c['M'], c['N'], c['d'])
    smp = es()
    if c['use'] == 'dynamic':
        x = np.ones(shape)
        dyn = D.CBO(lambda x: (x ** 2).sum(-1), f_dim='3D', x=x, noise='constant', sampler=smp, dt=.25, sigma=2., lamda=0., verbosity=0,
                    check_f_dims=False)
        dyn.step()
        z = dyn.x - x
    else:
        z = smp(size=shape)
    shape_is(z, shape, 'double exponential sample')
    z2 = smp(size=shape)
    n = z.size
    a = np.abs(z)
    for what, v, want, sd in (('mean', z.mean(), 0, np.sqrt(2)), ('mean modulus', a.mean(), 1, 1), ('variance', (z ** 2).mean(), 2, np.sqrt(20)),
                              ('share of positive signs', (z > 0).mean(), .5, .5), ('share above one', (a > 1).mean(), np.exp(-1), .5),
                              ('sign against modulus', (np.sign(z) * (a - 1)).mean(), 0, 1),
                              ('correlation of calls', (z * z2).mean(), 0, 2), ('correlation of moduli', ((a - 1) * (np.abs(z2) - 1)).mean(), 0, 1),
                              ('correlation of neighbours', (z.ravel()[1:] * z.ravel()[:-1]).mean(), 0, 2),
                              ('correlation of signs', (np.sign(z).ravel()[1:] * np.sign(z).ravel()[:-1]).mean(), 0, 1)):
        if abs(v - want) > 7 * sd / np.sqrt(n):
            fail('%s: %r, expected %r' % (what, v, want))
    for sz in (None, 3, (2,), (1, 2, 3)):
        shape_is(smp(size=sz), np.empty(sz if sz is not None else ()).shape, 'sample of size %r' % (sz,))
    hit(c['use'])


@P.facet('names', lambda: st.fixed_dictionaries({'name': st.one_of(st.text(max_size=12), pick(
    'Isotropic', 'iso', 'isotropic ', 'none', 'normal', 'cov', '')), 'bad': pick('str', 'int', 'list')}), quick=60,
    rule='names other than the documented ones are rejected and a callable is used as it is; every case counts')
def names(c):
    import cbx.dynamics as D
    if c['name'] in KINDS:
        skip('a valid name')
    x = np.ones((1, 2, 2))
    f = lambda z: (z ** 2).sum(-1)   # noqa: E731
    bad = {'str': c['name'], 'int': len(c['name']), 'list': [c['name']]}[c['bad']]
    rejects(lambda: D.CBO(f, f_dim='3D', x=x, noise=bad, verbosity=0), (NotImplementedError, ValueError, TypeError),
            'noise=%r' % (bad,))
    seen = []

    def custom(dyn):
        seen.append(dyn)
        return np.full_like(dyn.drift, 0.25)
    d1 = D.CBO(f, f_dim='3D', x=x, noise=custom, sigma=2.0, lamda=0.0, verbosity=0)
    d1.terminate()
    d1.step()
    if len(seen) != 1 or seen[0] is not d1:
        fail('custom noise called %d times' % len(seen))
    same(d1.x, x + 0.5, 'position after custom noise')
    hit(c['bad'])
