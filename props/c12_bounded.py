"""C12: positions stay finite and bounded."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, same, skip
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C12')
BAD = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'huge': 1e300, '-huge': -1e300, 'big': 1e30, '1e9': 1e9}


@st.composite
def fault(draw, kinds=tuple(BAD), steps=4):
    """Which call delivers bad numbers, where, and which."""
    return {'call': draw(ints(0, steps)), 'every': draw(st.booleans()), 'frac': draw(pick(0.05, 0.3, 1.0)), 'v': draw(pick(*kinds)),
            'seed': draw(ints(0, 999))}


class Injector:
    def __init__(self, f):
        self.f = f
        self.n = 0
        self.hits = 0

    def __call__(self, v):
        k, self.n = self.n, self.n + 1
        f = self.f
        if f is None or not (k == f['call'] or (f['every'] and k >= f['call'])):
            return v
        rng = np.random.default_rng([f['seed'], k])
        m = rng.random(v.shape) < f['frac']
        if v.size and not m.any():
            m.reshape(-1)[rng.integers(v.size)] = True
        self.hits += int(m.sum())
        return np.where(m, BAD[f['v']], v)


@st.composite
def _scen(draw):
    s = draw(scen.scenario(dyns=scen.DYNS + ('CBO',), noises=('isotropic', 'anisotropic', 'constant', 'covariance'), batch=True, multi=True,
                           steps=(1, 15), corr=('no_correction', 'no_correction', 'heavi_side', 'heavi_side_reg'), sdf=('sphere', 'plane'),
                           mirror=(None, 'L2', {'name': 'ProjectionBall', 'radius': 1.5}, {'name': 'ElasticNet', 'delta': 1.0, 'lamda': 0.5},
                                   'ProjectionHyperplane', 'ProjectionSphere', 'ProjectionSquare', 'LogBarrierBox', 'NonsmoothBarrier')))
    w = draw(pick('f', 'f', 'z', 'z', 'both'))
    s['ff'] = draw(fault(('nan', 'inf', '-inf', 'huge', '-huge'))) if w in ('f', 'both') else None
    s['zf'] = draw(fault()) if w in ('z', 'both') else None
    s['thresh'] = draw(pick(None, None, 1e8, 10.0, 0.75, 1e3))
    s['copy'] = draw(st.booleans())
    if s['dyn'] == 'PolarCBO':
        s['corr'] = None
        if s['kernel'] == 'Constant':     # 0 * inf for alpha = 0
            s['alpha'] = [max(a, .5) for a in s['alpha']] if isinstance(s['alpha'], list) else max(s['alpha'], .5)
    return s


@P.facet('faults', _scen, quick=600,
         rule='NaN, infinite and huge objective values or random numbers are injected; positions checked after each step; non-trivial: at least '
              'one injected value')
def faults(s):
    from cbx.dynamics.pdyn import post_process_default
    fi, zi = Injector(s['ff']), Injector(s['zf'])
    X = scen.x0(s)
    obj = scen.Objective(s['f'], X.ndim - 2, wrap=lambda v, x: fi(v))
    smp = scen.Sampler(s['ns'], range(X.shape[0]))
    over = {}
    th = 1e8
    if s['thresh'] is not None:
        th = s['thresh']
        over['post_process'] = post_process_default(max_thresh=th, copy_nan_to_num=s['copy'])
        note('threshold %g' % th)

    def sampler(size=None):
        return zi(smp(size))
    e = scen.build(s, obj=obj, sampler=sampler, **over)
    smp.dyn = e.dyn
    for k in range(s['steps']):
        if e.dyn.terminate():
            break
        try:
            e.dyn.step()
        except np.linalg.LinAlgError as ex:
            if fi.hits or zi.hits:
                skip('a decomposition of non-finite numbers is rejected by NumPy: %s' % ex)
            raise
        x = np.array(e.dyn.x)
        if not np.isfinite(x).all():
            fail('after step %d there are %d non-finite coordinates' % (k + 1, int((~np.isfinite(x)).sum())))
        if np.abs(x).max() > th:
            fail('after step %d a coordinate is %r, the threshold is %r' % (k + 1, float(np.abs(x).max()), th))
        if fi.hits:
            hit(s['dyn'], 'objective ' + s['ff']['v'])
        if zi.hits:
            hit(s['dyn'], 'noise ' + s['zf']['v'])
        if np.abs(x).max() == th:
            note('clipped')


@st.composite
def values(draw):
    shape = [draw(ints(1, 3)), draw(ints(1, 4))] + draw(pick([1], [2], [3], [2, 2]))
    n = int(np.prod(shape))
    v = draw(st.lists(st.one_of(st.floats(allow_nan=True, allow_infinity=True), q(-20, 20, 3),
                                pick(1e8, -1e8, np.nextafter(1e8, np.inf), np.nextafter(1e8, 0), -0.0, 0.0)), min_size=n, max_size=n))
    return {'s': shape, 'v': [repr(float(t)) for t in v], 'thresh': draw(pick(None, 1e8, 10.0, 0.75, 5e-324, 1e300)),
            'copy': draw(pick(None, True, False)), 'cls': draw(pick('CBO', 'PSO', 'RegCombinationCBO', 'MirrorCBO', 'CBS'))}


@P.facet('pointwise', values, quick=250,
         rule='the post-processing of arbitrary positions: NaN becomes the threshold, others are clipped, positions inside keep their bits; '
              'non-trivial: some position inside and some not')
def pointwise(c):
    import cbx.dynamics as D
    from cbx.dynamics.pdyn import post_process_default
    x = np.array([float(t) for t in c['v']]).reshape(c['s'])
    if x.ndim > 3 and c['cls'] in ('CBS', 'RegCombinationCBO', 'MirrorCBO'):
        x = x.reshape(x.shape[:2] + (-1,))
    kw = {}
    th = 1e8
    if c['thresh'] is not None or c['copy'] is not None:
        a = {}
        if c['thresh'] is not None:
            a['max_thresh'] = th = c['thresh']
        if c['copy'] is not None:
            a['copy_nan_to_num'] = c['copy']
        kw['post_process'] = post_process_default(**a)
    dyn = getattr(D, c['cls'])(lambda y: (y ** 2).reshape(y.shape[:2] + (-1,)).sum(-1), f_dim='3D', x=np.zeros(x.shape), verbosity=0,
                               check_f_dims=False, **kw)
    given = x.copy()
    dyn.x = given
    dyn.post_process(dyn)
    want = np.where(np.isnan(x), th, np.clip(np.where(np.isnan(x), 0, x), -th, th))
    exact(dyn.x, want, 'post-processed positions')
    if c['copy'] is True:
        exact(given, x, 'positions given to the copying variant')
    inside = np.abs(x) <= th
    if inside.any() and not inside.all():
        hit(c['cls'])


@P.facet('custom', lambda: scen.scenario(dyns=scen.DYNS, noises=('isotropic', 'constant'), batch=True, term=True, multi=True, steps=(1, 5)), quick=120,
         rule='a user-supplied post-processing is called once per step with the dynamic, replaces the default one, and decides the final '
              'positions; non-trivial: at least one step')
def custom(s):
    if s['dyn'] == 'PolarCBO' and s['kernel'] == 'Constant':
        s = dict(s, kernel='Gaussian')
    calls = []

    def post(dyn):
        calls.append((dyn, dyn.it))
        dyn.x = np.where(np.abs(dyn.x) > 0.5, 3e9, dyn.x)
    e = scen.build(s, post_process=post)
    k = 0
    while k < s['steps'] and not e.dyn.terminate():
        e.dyn.step()
        k += 1
        if len(calls) != k:
            fail('post-processing called %d times in %d steps' % (len(calls), k))
        if calls[-1][0] is not e.dyn:
            fail('post-processing called with %r' % (calls[-1][0],))
        x = np.array(e.dyn.x)
        if ((np.abs(x) > 0.5) & (x != 3e9)).any():
            fail('positions %r are not those of the post-processing' % x[(np.abs(x) > 0.5) & (x != 3e9)][:3])
        hit(s['dyn'])
        if not np.isfinite(x).all():
            break
