"""C35: the torch backend."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, arr, exact, fail, hit, note, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C35', torch=True, assumptions=['double precision on the CPU', 'CBO and MirrorCBO without mirror map, with isotropic, anisotropic or constant noise and without drift correction'])


class TorchObjective(scen.Objective):
    def __call__(self, x):
        import torch
        if not torch.is_tensor(x):
            fail('the objective was called with a %s' % type(x).__name__)
        return torch.from_numpy(np.ascontiguousarray(super().__call__(x.detach().numpy())))


class TorchSampler(scen.Sampler):
    def __call__(self, size=None):
        import torch
        return torch.from_numpy(np.ascontiguousarray(super().__call__(size=size)))


def build_torch(s, **over):
    import torch
    from cbx.utils.torch_utils import to_torch_dynamic
    X = scen.x0(s)
    M, nd = X.shape[0], X.ndim - 2
    e = scen.Env()
    e.x_init = X
    e.obj = TorchObjective(s['f'], nd)
    e.smp = TorchSampler(s['ns'], range(M))
    kw = scen.dyn_kwargs(s, M)
    if isinstance(kw['alpha'], np.ndarray):
        kw['alpha'] = torch.from_numpy(kw['alpha'].copy())
    kw.update(x=torch.from_numpy(X.copy()), f_dim='3D', verbosity=0, check_f_dims=s.get('check_f', False), max_it=s.get('max_it', 1000), sampler=e.smp)
    if s.get('term') is not None:
        kw['term_criteria'] = [scen.resolve_term(t, s, range(M)) for t in s['term']]
    if s.get('track') is not None:
        kw['track_args'] = {k: (list(v) if isinstance(v, list) else v) for k, v in s['track'].items()}
    kw.update(over)
    cls = scen.cbx_classes()[s['dyn']]
    T = to_torch_dynamic(cls)
    if not issubclass(T, cls):
        fail('the torch version of %s is not a subclass' % s['dyn'])
    e.dyn = T(e.obj, **kw)
    e.smp.dyn = e.dyn
    e.spec, e.ids = s, list(range(M))
    return e


FIELDS = ('x', 'consensus', 'energy', 'alpha', 'best_energy', 'best_particle', 'best_cur_energy', 'best_cur_particle', 'f_min', 'update_diff', 'num_f_eval', 't', 'it', 'drift')


def big(x):
    x = np.abs(arr(x).astype(float))
    return float(np.max(x[np.isfinite(x)], initial=0.))


def compare(e, t, when, rtol=1e-8):
    import torch
    for n in FIELDS:
        a, b = getattr(e.dyn, n, None), getattr(t.dyn, n, None)
        if a is None and b is None:
            continue
        if a is None or b is None:
            fail('%s %s: numpy has %s, torch has %s' % (n, when, type(a).__name__, type(b).__name__))
        if n in ('x', 'consensus', 'best_particle') and not torch.is_tensor(b):
            fail('%s %s is a %s' % (n, when, type(b).__name__))
        if n in ('x', 'consensus') and b.dtype != torch.float64:
            fail('%s %s has type %s' % (n, when, b.dtype))
        sc = big(e.dyn.x)
        same(arr(b), arr(a), '%s %s, torch against numpy' % (n, when), rtol=rtol, atol=rtol * (1 + sc))
    if [int(i) for i in t.dyn.active_runs_idx] != [int(i) for i in e.dyn.active_runs_idx]:
        fail('active runs %s: %s and %s' % (when, list(t.dyn.active_runs_idx), list(e.dyn.active_runs_idx)))
    if not same_points(e, t):
        fail('%s points evaluated by torch, %s by numpy %s' % (t.obj.points, e.obj.points, when))


def same_points(e, t):
    return e.obj.points == t.obj.points


@st.composite
def scenarios(draw, **kw):
    k = dict(dyns=('CBO', 'CBO', 'MirrorCBO'), batch=True, multi=True, term=True, Ms=(1, 4), Ns=(1, 7), ds=(1, 4), steps=(1, 6), inf=True, mirror=(None,))
    k.update(kw)
    s = draw(scen.scenario(**k))
    if draw(st.booleans()):
        names = draw(st.lists(pick('x', 'energy', 'update_norm', 'consensus', 'drift'), min_size=1, max_size=3, unique=True))
        s['track'] = {'names': names, 'save_int': draw(pick(1, 2))}
    if draw(pick(False, False, True)):
        s['term'].insert(0, {'name': 'max-eval', 'max_eval': draw(ints(1, 40))})
    s['check_f'] = draw(st.booleans())
    s['own'] = draw(pick(False, False, False, True))
    if s['f'].get('inf') is not None:
        a = s['alpha']
        s['alpha'] = [max(v, .01) for v in a] if isinstance(a, list) else max(a, .01)
    return s


@P.facet('steps', lambda: scen.apart(scenarios()), quick=500, rule='the same problem in both backends with the same random numbers, compared after every step; non-trivial: two particles, two steps or batches or ended runs')
def steps(s):
    e, t = scen.build(s), build_torch(s)
    if s['own']:                           # user-supplied norms
        import torch
        e = scen.build(s, norm=lambda x, axis=None: np.abs(x).max(axis=axis), copy=lambda x: np.array(x))
        t = build_torch(s, norm=lambda x, axis=None: x.abs().amax(dim=axis), copy=lambda x: torch.clone(x))
        note('own norm and copy')
    compare(e, t, 'at the start')
    k = 0
    while True:
        a, b = e.dyn.terminate(), t.dyn.terminate()
        if a != b:
            fail('after %d steps numpy %s, torch %s' % (k, 'ended' if a else 'goes on', 'ended' if b else 'goes on'))
        if a:
            break
        e.dyn.step()
        t.dyn.step()
        k += 1
        compare(e, t, 'after step %d' % k)
        act = [int(i) for i in e.dyn.active_runs_idx]
        if len(act) < e.dyn.M:
            note('ended runs')
        if e.dyn.N > 1 and (k > 1 or len(act) < e.dyn.M or s.get('batch')):
            hit(s['dyn'] + ' ' + s['noise'])
    for m, (p, r) in enumerate(zip(e.dyn.term_reason, t.dyn.term_reason)):
        if sorted(int(i) for i in p) != sorted(int(i) for i in r):
            fail('run %d ended because of %s in numpy and %s in torch' % (m, p, r))
    if set(e.dyn.history) != set(t.dyn.history):
        fail('histories of %s and %s' % (sorted(e.dyn.history), sorted(t.dyn.history)))
    for n in e.dyn.history:
        A, B = e.dyn.history[n], t.dyn.history[n]
        if len(A) != len(B):
            fail('%d and %d entries in the history of %s' % (len(A), len(B), n))
        if n != 'particle_idx':
            for i, (u, v) in enumerate(zip(A, B)):
                if u is not None:
                    same(arr(v), arr(u), 'entry %d of the history of %s' % (i, n), rtol=1e-8, atol=1e-8 * (1 + big(u)))


@st.composite
def opt_cases(draw):
    s = draw(scenarios(inf=False, alphas=(.1, 20)))
    return {'s': s, 'sched': draw(pick('default', 'none', 'mult', 'eff', 'eff'))}


class TorchKernel:
    def __init__(self, kappa):
        self.kappa = kappa

    def neg_log(self, x, y):
        return 1 / (2 * self.kappa ** 2) * ((x - y) ** 2).sum(-1)


@P.facet('polar', lambda: scenarios(dyns=('PolarCBO',), inf=False, multi=False), quick=200, rule='PolarCBO with a Gaussian kernel written for tensors and the torch version of the polar consensus against NumPy; '
         'non-trivial: as above')
def polar(s):
    from cbx.utils.torch_utils import compute_polar_consensus_torch
    s = dict(s, kernel='Gaussian', batch=None)
    s.pop('track', None)
    e, t = scen.build(s), build_torch(s, kernel=TorchKernel(s['kappa']), compute_consensus=compute_polar_consensus_torch)
    k = 0
    while not e.dyn.terminate():
        t.dyn.terminate()
        e.dyn.step()
        t.dyn.step()
        k += 1
        compare(e, t, 'after step %d' % k)
        if e.dyn.N > 1:
            hit(s['noise'])
    if not t.dyn.terminate():
        fail('torch goes on after %d steps' % k)


@P.facet('optimize', opt_cases, quick=250, rule='optimize() with each scheduler in both backends; non-trivial: a changing alpha and two steps')
def optimize(c):
    from cbx import scheduler as S
    from cbx.utils import torch_utils as T
    s = c['s']
    e, t = scen.build(s), build_torch(s)

    def sched(torch):
        if c['sched'] == 'default':
            return 'default'
        if c['sched'] == 'none':
            return None
        if c['sched'] == 'mult':
            return S.scheduler([S.multiply(name='alpha', factor=1.5, maximum=15.), S.multiply(name='sigma', factor=.9)])
        return S.scheduler([(T if torch else S).effective_sample_size(eta=.6)])
    r, v = e.dyn.optimize(sched=sched(False)), t.dyn.optimize(sched=sched(True))
    tol = 1e-6 if c['sched'] == 'eff' else 1e-8
    compare(e, t, 'after optimize', rtol=tol)
    same(arr(v), arr(r), 'returned particle', rtol=tol, atol=tol)
    if e.dyn.it > 1 and c['sched'] != 'none':
        hit(c['sched'])


@st.composite
def res_cases(draw):
    s = draw(scenarios(inf=False, batch=False))
    M = s['x']['s'][0]
    return {'s': s, 'script': draw(st.lists(st.lists(ints(0, M - 1), max_size=M), min_size=1, max_size=4)), 'track': draw(st.booleans()), 'stag': draw(st.booleans()), 'thresh': draw(pick(.1, 2.))}


@P.facet('resampling', res_cases, quick=150, rule='resampling as post processing in both backends: same positions, counts and best consensus; non-trivial: a resampling happened')
def resampling(c):
    from cbx.utils import resampling as R

    def hook():
        k = [0]

        def script(dyn):
            k[0] += 1
            seen.append(np.array(dyn.best_energy, copy=True))
            return np.array(c['script'][k[0] % len(c['script'])], dtype=int)
        rules = [script, R.loss_update_resampling(2)]
        if c['stag']:
            rules.append(R.consensus_stagnation(patience=2, update_thresh=c['thresh']))
        r = R.resampling(rules, track_best_consensus=c['track'], sigma_indep=.3)
        return r, (lambda dyn: r(dyn))
    seen = []
    (r1, h1), (r2, h2) = hook(), hook()
    e, t = scen.build(c['s'], post_process=h1), build_torch(c['s'], post_process=h2)
    e.dyn.optimize()
    half = len(seen)
    t.dyn.optimize()
    for part in (seen[:half], seen[half:]):
        for a, b in zip(part, part[1:]):
            gain = np.where(a == b, 0., a - b)
            if np.any((gain > 0) & (gain < 1e-9 * (1 + np.abs(b)))):
                skip('improvements of the size of rounding')
    compare(e, t, 'after optimize')
    if (r1.num_resampling is None) != (r2.num_resampling is None):
        fail('numbers of resamplings %s and %s' % (r1.num_resampling, r2.num_resampling))
    if r1.num_resampling is not None:
        same(arr(r2.num_resampling), arr(r1.num_resampling), 'numbers of resamplings', rtol=0, atol=0)
        if np.any(r1.num_resampling):
            hit('tracked' if c['track'] else 'plain')
            if c['track']:
                same(arr(r2.best_consensus_energy), arr(r1.best_consensus_energy), 'best consensus values', rtol=1e-8, atol=1e-8)
                same(arr(r2.best_consensus), arr(r1.best_consensus), 'best consensus', rtol=1e-8, atol=1e-8)


@st.composite
def helper_cases(draw):
    M, N = draw(ints(1, 3)), draw(ints(1, 6))
    dims = draw(pick([1], [2], [3], [2, 2], [3, 1]))
    c = {'x': draw(gen.array([M, N] + dims, ('fine', 'grid', 'wide'))), 'e': draw(gen.array([M, N], ('fine', 'grid', 'wide'))), 'alpha': draw(gen.array([M, 1], ('pos',))), 'big': draw(pick(1., 1., 1e4)),
         'off': draw(pick(0., 0., 1e3)), 'offs': draw(pick(None, [0., 1e5], [-1e5, 2e4, 0.])), 'inf': draw(pick(None, None, 1.)), 'nl': draw(gen.array([M, N, N], ('pos', 'unit'))), 'kf': draw(pick(1., .5, 7.)), 'eta': draw(pick(.5, .3, .9)), 'lim': draw(pick(None, (1e-3, 1e5), (1e-5, 20.), (.5, 8.), (1., 1e7))), 'its': draw(pick(None, 5, 25, 40)),
         'ord': draw(pick(None, 1, 2, float('inf'))), 'bad': draw(st.lists(st.tuples(ints(0, 99), pick('nan', 'inf', '-inf', '1e9', '-1e9', '1e300')), max_size=3)), 'thresh': draw(pick(None, 5., 1e3))}
    return c


class Dyn:
    pass


@P.facet('helpers', helper_cases, quick=500, rule='norm, consensus, polar consensus, post-processing, effective sample size and samplers against their NumPy counterparts; non-trivial: two particles')
def helpers(c):
    import torch
    from cbx import scheduler as S
    from cbx.dynamics.pdyn import compute_consensus_default, post_process_default
    from cbx.dynamics.polarcbo import compute_polar_consensus
    from cbx.utils import torch_utils as T
    x, E, al = dec(c['x']), dec(c['e']) + c['off'], dec(c['alpha']) * c['big']
    if c['offs'] is not None and c['big'] == 1.:      # the runs are far apart
        E = E + np.array([c['offs'][m % len(c['offs'])] for m in range(len(E))])[:, None]
        note('runs far apart')
    if c['inf'] is not None:
        bad = dec(c['e']) > c['inf']
        bad[np.arange(len(E)), E.argmin(1)] = False
        E = np.where(bad, np.inf, E)
    M, N = E.shape
    t = lambda a: torch.from_numpy(np.array(a, dtype=float, copy=True))
    tx, tE, ta = t(x), t(E), t(al)
    for ax in range(-x.ndim, x.ndim):
        kw = {} if c['ord'] is None else {'ord': c['ord']}
        same(arr(T.norm_torch(tx, ax, **kw)), np.linalg.norm(x, axis=ax, **kw), 'norm along axis %d' % ax, rtol=1e-12, atol=1e-12)
    a, ae = compute_consensus_default()(E.copy(), x.copy(), al)
    b, be = T.compute_consensus_torch(tE, tx, ta)
    same(arr(b), a, 'consensus', rtol=1e-9, atol=1e-9)
    exact(be, ae, 'energies returned with the consensus')
    if torch.is_tensor(be):
        fail('the energies returned with the consensus are a tensor')
    if c['inf'] is None:
        nl = dec(c['nl'])
        a, ae = compute_polar_consensus(E.copy(), x.copy(), nl, alpha=al[:, None] if False else float(al[0, 0]), kernel_factor=c['kf'])
        b, be = T.compute_polar_consensus_torch(tE, tx, t(nl), alpha=float(al[0, 0]), kernel_factor=c['kf'])
        same(arr(b), a, 'polar consensus', rtol=1e-9, atol=1e-9)
        exact(be, ae, 'energies returned with the polar consensus')
    exact(arr(tx), x, 'the particles')
    exact(arr(tE), E, 'the energies')
    y = x.copy()
    for i, v in c['bad']:
        y.reshape(-1)[i % y.size] = float(v)
    kw = {} if c['thresh'] is None else {'max_thresh': c['thresh']}
    dn, dt = Dyn(), Dyn()
    dn.x, dt.x = y.copy(), t(y)
    post_process_default(**kw)(dn)
    T.post_process_default_torch(**kw)(dt)
    exact(arr(dt.x), dn.x, 'post-processed particles')
    th = 1e8 if c['thresh'] is None else c['thresh']
    exact(dn.x, np.clip(np.where(np.isnan(y), th, y), -th, th), 'particles post-processed by numpy')
    for d in (dn, dt):
        d.M, d.N, d.energy = M, N, E.copy()
    dn.alpha, dt.alpha, dt.x = al.copy(), ta, tx
    S.effective_sample_size(eta=c['eta']).update(dn)
    T.effective_sample_size(eta=c['eta']).update(dt)
    if not torch.is_tensor(dt.alpha) or dt.alpha.dtype != torch.float64:
        fail('alpha after the effective sample size update: %r' % (dt.alpha,))
    same(arr(dt.alpha), dn.alpha, 'alpha of the effective sample size', rtol=1e-9, atol=1e-9)
    kw = {} if c['its'] is None else {'solve_max_it': c['its']}
    lo, hi = c['lim'] or (1e-5, 1e5)
    if c['lim'] is not None:
        kw.update(minimum=lo, maximum=hi)
    dt.alpha = t(al)
    T.effective_sample_size(eta=c['eta'], **kw).update(dt)
    want = S.bisection_solve(S.eff_sample_size_gap(E.copy(), c['eta']), lo * np.ones(M), hi * np.ones(M), max_it=c['its'] or 15, thresh=1e-2)
    same(arr(dt.alpha), want[:, None], 'alpha of the effective sample size between %g and %g' % (lo, hi), rtol=1e-9, atol=1e-9)
    for f, nm in ((T.standard_normal_torch('cpu'), 'normal'), (T.exponential_torch('cpu'), 'exponential')):
        z = f(size=(3,) + x.shape)
        shape_is(z, (3,) + x.shape, nm + ' sample')
        if not torch.is_tensor(z) or not bool(torch.isfinite(z).all()):
            fail('%s sample: %r' % (nm, z))
    if N > 1:
        hit('infinite' if c['inf'] is not None else 'finite')


@P.facet('samplers', lambda: st.fixed_dictionaries({'n': ints(2000, 4000), 'shape': pick('flat', 'rows', 'columns', 'runs'), 'seed': ints(0, 10 ** 6)}), quick=25, rule='loose moments of the samplers (8 standard errors) and of default torch particles; non-trivial: all')
def samplers(c):
    import torch
    import cbx.dynamics as D
    from cbx.utils import torch_utils as T
    torch.manual_seed(c['seed'])
    n = c['n']
    shp = {'flat': (n,), 'rows': (4, n // 8, 2), 'columns': (2, 3, n // 6), 'runs': (n // 4, 2, 2)}[c['shape']]
    zz, z2 = arr(T.standard_normal_torch('cpu')(size=shp)).astype(float), arr(T.standard_normal_torch('cpu')(size=shp)).astype(float)
    ee, e2 = arr(T.exponential_torch('cpu')(size=shp)).astype(float), arr(T.exponential_torch('cpu')(size=shp)).astype(float)
    for nm, u, w in (('normal', zz, z2), ('double exponential', ee, e2)):
        shape_is(u, shp, nm + ' sample')
        pairs = [('calls', u, w)] + [('neighbours along axis %d' % k, np.delete(u, 0, k), np.delete(u, -1, k)) for k in range(u.ndim)]
        for what, a, b in pairs:
            for f, g in ((a, b), (np.sign(a), np.sign(b)), (np.abs(a) - np.abs(a).mean(), np.abs(b) - np.abs(b).mean())):
                if abs((f * g).mean()) > 16 / np.sqrt(f.size):
                    fail('correlation of %s of the %s numbers: %r' % (what, nm, (f * g).mean()))
    z, e = zz.ravel(), ee.ravel()
    n = z.size
    r = 8 / np.sqrt(n)
    for v, want, sd, what in ((z.mean(), 0, 1, 'normal mean'), ((z ** 2).mean(), 1, 1.5, 'normal variance'), (e.mean(), 0, 1.5, 'double exponential mean'), (np.abs(e).mean(), 1, 1, 'double exponential modulus'),
                              ((e > 0).mean(), .5, .5, 'sign')):
        if abs(v - want) > r * sd:
            fail('%s: %r, expected %r' % (what, v, want))
    n = c['n']
    r = 8 / np.sqrt(n)
    dyn = T.to_torch_dynamic(D.CBO)(lambda x: (x ** 2).sum(-1), f_dim='3D', M=2, N=n // 4, d=2, verbosity=0, check_f_dims=True)
    shape_is(dyn.x, (2, n // 4, 2), 'default particles')
    x = arr(dyn.x).astype(float)
    if x.min() < -1 or x.max() > 1 or abs(x.mean()) > r or abs((x ** 2).mean() - 1 / 3) > r:
        fail('default particles: range [%g, %g], mean %g, second moment %g' % (x.min(), x.max(), x.mean(), (x ** 2).mean()))
    hit()


@P.facet('sizes', lambda: st.sampled_from(('long', 'large')).flatmap(lambda z: scenarios(size=z)), quick=40,
         rule='as steps, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    steps(s)
