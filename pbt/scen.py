"""Scenarios: a JSON spec of one optimisation problem -> a live dynamic plus recording stand-ins."""
import numpy as np
from hypothesis import strategies as st

from . import gen
from .core import Violation, skip
from .gen import dec, ints, pick, q, seeds

DYNS = ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'CBS', 'PolarCBO', 'MirrorCBO',
        'DriftConstrainedCBO', 'HyperSurfaceCBO', 'RegCombinationCBO')
CALL_LIMIT = 5000


class Budget(Violation):
    pass


class Objective:
    """f_dim='3D' objective that records every evaluated point and value."""

    def __init__(self, spec, nd=1, wrap=None):
        self.spec, self.nd, self.wrap = spec, nd, wrap
        self.calls = []
        self.n = 0

    def value(self, x):
        v = gen.obj_value(self.spec, x, self.nd)
        return self.wrap(v, x) if self.wrap else v

    def __call__(self, x):
        self.n += 1
        if self.n > CALL_LIMIT:
            raise Budget('objective called more than %d times: the loop does not end' % CALL_LIMIT)
        x = np.array(x, dtype=float, copy=True)
        v = self.value(x)
        self.calls.append((x, v.copy()))
        return v

    @property
    def points(self):
        return int(sum(v.size for _, v in self.calls))

    def clear(self):
        self.calls = []


class Sampler:
    """sampler(size): one independent stream per run id, so a run sees the same noise whether it
    is simulated alone or together with others."""

    def __init__(self, seed, run_ids, scale=1.0):
        self.rngs = [np.random.default_rng([seed, int(r)]) for r in run_ids]
        self.scale = scale
        self.dyn = None
        self.draws = []
        self.n = 0

    def __call__(self, size=None):
        self.n += 1
        if self.n > CALL_LIMIT:
            raise Budget('sampler called more than %d times: the loop does not end' % CALL_LIMIT)
        size = tuple(int(s) for s in size)
        runs = list(range(len(self.rngs)))
        if self.dyn is not None and hasattr(self.dyn, 'active_runs_idx'):
            act = [int(i) for i in self.dyn.active_runs_idx]
            if size[0] == len(act):
                runs = act
        if size[0] != len(runs):          # not one row per run: take everything from the first stream
            z = self.rngs[0].standard_normal(size)
        else:
            z = np.stack([self.rngs[r].standard_normal(size[1:]) for r in runs]) if runs else np.zeros(size)
        z = self.scale * z
        self.draws.append(z.copy())
        return z

    def clear(self):
        self.draws = []


class Env:
    pass


def cbx_classes():
    import cbx.dynamics as D
    return {n: getattr(D, n) for n in DYNS}


def x0(spec):
    x = dec(spec['x'])
    if spec.get('near') is not None:       # a tight cloud around one point
        x = spec['near'] + 0.05 * x
    if spec.get('mag'):                    # runs of very different magnitude
        x = x * np.array([spec['mag'][m % len(spec['mag'])] for m in range(len(x))]).reshape((-1,) + (1,) * (x.ndim - 1))
    if spec['dyn'] == 'HyperSurfaceCBO':
        x = np.where(np.abs(x) < 0.05, 0.3, x)
        sdf = spec.get('sdf')
        if sdf is None or sdf['name'] == 'sphere':
            x = x / np.linalg.norm(x, axis=-1, keepdims=True)
    return x


def alpha_of(spec, M):
    a = spec['alpha']
    if isinstance(a, list):
        return np.array([a[i % len(a)] for i in range(M)], dtype=float)[:, None]
    return a


def np_const(c):
    if c is None:
        return None
    out = []
    for k in c:
        k = dict(k)
        for n in ('a', 'A', 'b'):
            if isinstance(k.get(n), dict):
                k[n] = dec(k[n])
        out.append(k)
    return out


def dyn_kwargs(spec, M):
    """Keyword arguments of the dynamic described by `spec`, for all its M runs."""
    d = spec['dyn']
    kw = dict(dt=spec['dt'], alpha=alpha_of(spec, M), sigma=spec['sigma'], lamda=spec['lamda'])
    if spec.get('noise') is not None:
        kw['noise'] = spec['noise']
    if spec.get('corr') is not None:
        kw['correction'] = spec['corr']
        kw['correction_eps'] = spec.get('corr_eps', 1e-3)
    if spec.get('batch') is not None:
        kw['batch_args'] = dict(spec['batch'])
    if d in ('CBOMemory', 'PSO'):
        kw['lamda_memory'] = spec.get('lamda_memory', 0.4)
        if spec.get('sigma_memory') is not None:
            kw['sigma_memory'] = spec['sigma_memory']
    if d == 'PSO':
        kw['m'] = spec.get('m', 0.1)
        if spec.get('gamma') is not None:
            kw['gamma'] = spec['gamma']
    if d == 'AdamCBO':
        kw['betas'] = tuple(spec.get('betas', (0.9, 0.99)))
    if d == 'CBS':
        kw['mode'] = spec.get('mode', 'sampling')
        kw.pop('sigma')
    if d == 'PolarCBO':
        kw['kernel'] = spec.get('kernel', 'Gaussian')
        kw['kappa'] = spec.get('kappa', 1.0)
        kw['kernel_factor_mode'] = spec.get('kfm', 'alpha')
    if d == 'MirrorCBO':
        kw['mirrormap'] = spec.get('mirrormap')
    if d in ('DriftConstrainedCBO', 'RegCombinationCBO'):
        kw['constraints'] = np_const(spec.get('constraints'))
        kw['eps'] = spec.get('eps', 0.5)
    if d == 'DriftConstrainedCBO' and spec.get('sigma_indep'):
        kw['sigma_indep'] = spec['sigma_indep']
        kw['eps_indep'] = spec.get('eps_indep', 1e-3)
    if d == 'RegCombinationCBO':
        kw['nu'] = spec.get('nu', 1.0)
    if d == 'HyperSurfaceCBO':
        s = spec.get('sdf')
        if s is not None:
            s = dict(s)
            if isinstance(s.get('a'), dict):
                s['a'] = dec(s['a'])
            if 'nk' in s:
                s['nk'] = tuple(s['nk'])
        kw['sdf'] = s
    return kw


class Script:
    """Stops run m after at[m] iterations."""

    def __init__(self, at):
        self.at = np.array(at)

    def __call__(self, dyn):
        return dyn.it >= self.at


def resolve_term(t, spec, ids):
    t = dict(t)
    if t['name'] == 'script':
        return Script([t['at'][i % len(t['at'])] for i in ids])
    if 'rel' in t:                       # a threshold inside the range of the initial best energies of the runs
        X = x0(spec)
        E = gen.obj_value(spec['f'], X, X.ndim - 2).min(1)
        E = E[np.isfinite(E)]
        lo, hi = (float(E.min()), float(E.max())) if E.size else (0.0, 1.0)
        w = (hi - lo) + 1e-3 * (spec.get('unit', 1.) + abs(hi))
        t['energy_tol'] = lo + (1.3 * t.pop('rel') - 0.5) * w
    return t


def build(spec, runs=None, x=None, obj=None, sampler=True, **over):
    """-> Env with .dyn, .obj (recording objective), .smp (recording sampler)."""
    e = Env()
    X = x0(spec) if x is None else x
    Mall = X.shape[0]
    ids = list(range(Mall)) if runs is None else list(runs)
    e.x_init = X[ids].copy()
    nd = X.ndim - 2
    e.obj = obj if obj is not None else Objective(spec['f'], nd)
    e.smp = sampler if callable(sampler) else Sampler(spec['ns'], ids)
    kw = dyn_kwargs(spec, Mall)
    if isinstance(kw['alpha'], np.ndarray):
        kw['alpha'] = kw['alpha'][ids].copy()
    kw.update(x=X[ids].copy(), f_dim='3D', verbosity=0, check_f_dims=spec.get('check_f', False),
              max_it=spec.get('max_it', 1000))
    if sampler:
        kw['sampler'] = e.smp
    else:
        kw['seed'] = spec['ns']
    if spec.get('term') is not None:
        kw['term_criteria'] = [resolve_term(t, spec, ids) for t in spec['term']]
    if spec.get('track') is not None:
        kw['track_args'] = {k: (list(v) if isinstance(v, list) else v) for k, v in spec['track'].items()}
    kw.update(over)
    if kw.get('f_dim') == 'objective':
        kw.pop('f_dim')
    e.dyn = cbx_classes()[spec['dyn']](e.obj, **kw)
    e.smp.dyn = e.dyn
    e.spec = spec
    e.ids = ids
    return e


# ---- observing -------------------------------------------------------------------------------

def grid(dyn):
    return np.arange(dyn.M * dyn.N).reshape(dyn.M, dyn.N)


def batch_of(dyn):
    """Particles used for the consensus in the last step: {run: sorted-as-used particle indices}."""
    G = grid(dyn)[dyn.consensus_idx].reshape(-1)
    return _by_run(dyn, G)


def moved_of(dyn):
    G = grid(dyn)[dyn.particle_idx].reshape(-1)
    return _by_run(dyn, G)


def _by_run(dyn, G):
    out = {}
    for g in G:
        out.setdefault(int(g) // dyn.N, []).append(int(g) % dyn.N)
    return out


def snap(dyn):
    s = {}
    for n in ('x', 'y', 'v', 'm', 'energy', 'consensus', 'alpha', 'best_energy', 'best_particle', 'num_f_eval',
              'best_cur_energy', 'best_cur_particle', 'f_min', 'update_diff', 'it', 't'):
        if hasattr(dyn, n):
            a = getattr(dyn, n)
            s[n] = np.array(a, copy=True) if isinstance(a, np.ndarray) else a
    s['active'] = [int(i) for i in dyn.active_runs_idx]
    return s


def step(e):
    """One step exactly as optimize() would make it. -> (pre, post) or None if all runs ended."""
    if e.dyn.terminate():
        return None
    pre = snap(e.dyn)
    e.obj.clear()
    e.smp.clear()
    e.dyn.step()
    return pre, snap(e.dyn)


def noise_rows(e, act, n, dshape, k=0, total=1):
    """The k-th of `total` equally shaped noise realisations of the last step, as {run: (n, *d)}.
    The code has to have drawn exactly that many numbers."""
    want = len(act) * n * int(np.prod(dshape))
    flat = np.concatenate([z.reshape(-1) for z in e.smp.draws]) if e.smp.draws else np.zeros(0)
    if flat.size != total * want:
        raise Violation('a step drew %d random numbers, the noise of %d runs x %d particles x %s needs %d'
                        % (flat.size, len(act), n, tuple(dshape), total * want))
    z = flat[k * want:(k + 1) * want].reshape((len(act), n) + tuple(dshape))
    return {m: z[i] for i, m in enumerate(act)}


# ---- strategies ------------------------------------------------------------------------------

@st.composite
def batches(draw, N, partial=(True, False)):
    if N < 2:
        return None
    return {'size': draw(ints(1, N - 1)), 'partial': draw(pick(*partial)), 'seed': draw(ints(0, 99)),
            'var': draw(pick('resample', 'concat'))}


@st.composite
def terms(draw, steps, M=1):
    """Termination criteria; runs usually end at different times."""
    out = []
    k = draw(pick('script', 'script', 'energy', 'energy', 'none'))
    if k == 'script':
        out.append({'name': 'script', 'at': draw(st.lists(ints(0, steps), min_size=M, max_size=M))})
    elif k == 'energy':
        out.append({'name': 'energy-tol', 'rel': draw(q(0, 1, 2))})
    if draw(pick(False, False, True)):
        out.append({'name': 'diff-tol', 'diff_tol': draw(pick(0.013, 0.057, 0.21, 1.03))})
    out.append({'name': 'max-it', 'max_it': steps})
    return out


@st.composite
def scenario(draw, dyns=('CBO',), noises=('isotropic', 'anisotropic', 'constant'), corr=('no_correction',),
             batch=False, partial=(True, False), multi=False, Ms=(1, 4), Ns=(1, 7), ds=(1, 4), steps=(1, 4),
             per_run_alpha=True, inf=False, term=False, objs=gen.OBJ_KINDS, alphas=(0, 40), kinds=None,
             constraints=('none', 'sphere', 'plane', 'quadric'), sdf=('sphere',), mirror=None, fscale=True,
             indep=False, size=None):
    if size == 'long':                  # many steps of a small problem
        Ms, Ns, ds, steps = (1, 3), (2, 5), (max(ds[0], 1), 3), (30, 90)
    elif size == 'large':               # a few steps of a large one
        Ms, Ns, ds, steps = (6, 16), (30, 80), (max(ds[0], 1), 24), (1, 3)
    d = draw(pick(*dyns))
    s = {'dyn': d}
    M, N = draw(ints(*Ms)), draw(ints(*Ns))
    if Ms == (1, 4) and Ns == (1, 7) and draw(ints(0, 9)) == 9:      # now and then a larger problem
        M, N = draw(ints(1, 9)), draw(ints(8, 24))
        ds = (ds[0], max(ds[1], 9))
    flat_only = d in ('CBS', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'RegCombinationCBO', 'PolarCBO', 'MirrorCBO')
    if multi and not flat_only and draw(pick(False, False, True)):
        dims = draw(pick([2, 2], [1, 3], [3, 1], [2, 1, 2]))
    else:
        lo, hi = ds
        dims = [draw(ints(max(lo, 2) if d == 'HyperSurfaceCBO' else lo, hi))]
    nz = list(noises)
    if len(dims) > 1:
        nz = [n for n in nz if n not in ('covariance', 'sampling')] or ['isotropic']
    if d == 'HyperSurfaceCBO':
        nz = [n for n in nz if n in ('isotropic', 'anisotropic')] or ['isotropic']
    if d == 'CBS':
        s['noise'] = draw(pick('covariance', 'sampling'))
        s['mode'] = draw(pick('sampling', 'optimization'))
    else:
        s['noise'] = draw(st.sampled_from(nz))
    s['x'] = draw(gen.large_array([M, N] + dims) if size == 'large' else gen.array([M, N] + dims, kinds or ('fine', 'fine', 'grid', 'wide')))
    s['f'] = draw(gen.objective(kinds=objs, inf=inf, scale=fscale))
    s['dt'] = draw(pick(0.01, 0.1, 0.25, 0.5, 1.0))
    s['lamda'] = draw(pick(1.0, 0.5, 2.0, 0.0))
    s['sigma'] = draw(pick(1.0, 0.0, 0.3, 5.1))
    a = draw(pick('s', 'l')) if per_run_alpha else 's'
    al = st.one_of(q(alphas[0], 2, 2), q(0, alphas[1], 1))
    s['alpha'] = draw(al) if a == 's' else draw(st.lists(al, min_size=M, max_size=M))
    s['ns'] = draw(seeds)
    s['steps'] = draw(ints(*steps))
    if len(corr) > 1 and d in ('CBO', 'MirrorCBO'):
        s['corr'] = draw(pick(*corr))
        s['corr_eps'] = draw(pick(1e-3, 0.1, 1.0, 15.0))
    if batch and d != 'CBS' and draw(pick(True, True, False)):
        pp = (True,) if d == 'PolarCBO' or s['noise'] in ('covariance', 'sampling') \
            or s.get('corr') not in (None, 'no_correction') else partial
        s['batch'] = draw(batches(N, pp))
    if term:
        s['term'] = draw(terms(s['steps'], M))
    else:
        s['max_it'] = s['steps']
    if d in ('CBOMemory', 'PSO'):
        s['lamda_memory'] = draw(pick(0.4, 0.0, 1.0, 2.0))
        s['sigma_memory'] = draw(pick(None, 0.0, 0.5))
    if d == 'PSO':
        s['m'] = draw(pick(0.001, 0.1, 0.5, 1.0))
        s['gamma'] = draw(pick(None, 0.5, 2.0))
    if d == 'AdamCBO':
        s['betas'] = draw(pick([0.9, 0.99], [0.5, 0.8], [0.0, 0.5]))
        s['lamda'] = draw(pick(1.0, 0.1))
    if d == 'PolarCBO':
        s['kernel'] = draw(pick('Gaussian', 'Laplace', 'InverseQuadratic', 'Constant'))
        s['kappa'] = draw(pick(1.0, 0.3, 3.0, 10.0))
        s['kfm'] = draw(pick('alpha', 'const'))
    if d == 'MirrorCBO':
        s['mirrormap'] = draw(st.sampled_from(mirror or (None, 'L2', {'name': 'ProjectionBall', 'radius': 1.5},
                                                         {'name': 'ElasticNet', 'delta': 1.0, 'lamda': 0.5})))
    if d in ('DriftConstrainedCBO', 'RegCombinationCBO'):
        c = draw(st.sampled_from(constraints))
        s['constraints'] = draw(constraint_list(c, dims[0]))
        s['eps'] = draw(pick(0.5317, 0.0519, 5.131))   # off the grid: no exactly singular systems
        if d == 'RegCombinationCBO':
            s['nu'] = draw(pick(1.0, 0.1, 10.0))
    if d == 'HyperSurfaceCBO':
        nm = draw(st.sampled_from(sdf))
        if nm == 'plane':
            s['sdf'] = {'name': 'plane', 'a': draw(gen.array([dims[0]], ('pos',))), 'b': draw(q(-1, 1, 2))}
        elif nm == 'sphere':
            s['sdf'] = draw(pick(None, {'name': 'sphere'}))
    return s


@st.composite
def constraint_list(draw, kind, d):
    if kind == 'none':
        return draw(pick(None, []))
    if kind == 'sphere':
        return [{'name': 'sphere', 'r': draw(pick(1.0, 0.5, 2.0))}]
    if kind == 'plane':
        return [{'name': 'plane', 'a': draw(gen.array([d], ('pos',))), 'b': draw(q(-1, 1, 2))}]
    if kind == 'quadric':
        return [{'name': 'quadric', 'A': draw(gen.array([d, d], ('grid', 'fine'))),
                 'b': draw(gen.array([d], ('grid', 'fine'))), 'c': draw(q(-2, 2, 1))}]
    if kind == 'several':
        return [k for c in draw(st.lists(pick('sphere', 'plane', 'quadric'), min_size=2, max_size=5)) for k in draw(constraint_list(c, d))]
    return draw(constraint_list('sphere', d)) + draw(constraint_list('plane', d))   # 'two'


def apart(strategy):
    """In a quarter of the cases the runs get very different magnitudes."""
    m = st.lists(pick(1.0, 1e3, 1e5), min_size=2, max_size=4)
    return st.tuples(strategy, pick(False, False, False, True), m).map(lambda t: dict(t[0], mag=t[2]) if t[1] else t[0])


UNITS = (1e-14, 1e-9, 1e-150, 1e12, 1e150)


def in_units(s, u):
    """The same problem with the objective measured in units of 1/u."""
    f = dict(s['f'], scale=s['f'].get('scale', 1.) * u, off=s['f'].get('off', 0.) * u)
    if f['kind'] == 'const':               # the constant itself stays
        f['kind'] = 'floor'
    s = dict(s, f=f, unit=u, alpha=[a / u for a in s['alpha']] if isinstance(s['alpha'], list) else s['alpha'] / u)
    if s.get('corr_eps'):
        s['corr_eps'] = s['corr_eps'] * u
    return s


def scaled(strategy, units=UNITS):
    return st.tuples(strategy, pick(*units)).map(lambda t: in_units(*t))


def need(cond, why):
    if not cond:
        skip(why)
