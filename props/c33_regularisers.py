"""C33: regularisers, regularised objectives and their parameter rule."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C33', assumptions=['coordinates between 1e-9 and 1e-7 in modulus are outside the oracle of L0', 'quadric regularisers have a matrix, plane regularisers a non-zero normal',
                             'the parameter rule is applied while all runs are active', 'means within rounding of 1/sqrt(theta) may be decided either way'])
LEAD = ([], [1], [4], [2, 3], [1, 5], [3, 1], [2, 2, 2])


@st.composite
def regs(draw, d):
    k = draw(pick('L0', 'L1', 'Plane', 'Sphere', 'Quadric'))
    r = {'name': k}
    if k in ('L0', 'L1') and draw(st.booleans()):
        r['lamda'] = draw(pick(.5, 2., 0.))
    if k == 'Plane':
        w = draw(pick('vec', 'vec', 'scalar', 'none'))
        if w == 'vec':
            r['a'] = draw(gen.array([d], ('grid', 'fine')))
        elif w == 'scalar':
            r['a'] = draw(pick(2., -1., .5, 1))
        if draw(st.booleans()):
            r['b'] = draw(q(-3, 3, 1))
    if k == 'Sphere' and draw(st.booleans()):
        r['r'] = draw(pick(.5, 2., 3.))
    if k == 'Quadric':
        r['A'] = draw(gen.array([d, d], ('grid', 'fine')))
        if draw(st.booleans()):
            r['b'] = draw(gen.array([d], ('grid', 'fine')))
        if draw(st.booleans()):
            r['c'] = draw(q(-3, 3, 1))
    return r


def reg_spec(r):
    o = {k: (dec(v) if isinstance(v, dict) else v) for k, v in r.items()}
    if o['name'] == 'Plane' and not np.any(o.get('a', 1)):
        skip('no normal')
    return o


def value(o, p):
    """The regulariser at one point, coordinate by coordinate."""
    k, d = o['name'], len(p)
    if k == 'L0':
        return o.get('lamda', 1.) * sum(1 for v in p if abs(v) > 1e-8)
    if k == 'L1':
        return o.get('lamda', 1.) * math.fsum(abs(v) for v in p)
    if k == 'Plane':
        a = np.broadcast_to(o.get('a', 1.), (d,))
        return abs(math.fsum(a[i] * p[i] for i in range(d)) - o.get('b', 0)) / math.sqrt(math.fsum(v * v for v in a))
    if k == 'Sphere':
        return abs(math.sqrt(math.fsum(v * v for v in p)) - o.get('r', 1.))
    b = o.get('b', np.zeros(d))
    return abs(math.fsum(o['A'][i][j] * p[i] * p[j] for i in range(d) for j in range(d)) + math.fsum(b[i] * p[i] for i in range(d)) + o.get('c', 0))


def values(o, x):
    f = x.reshape(-1, x.shape[-1])
    return np.array([value(o, p) for p in f]).reshape(x.shape[:-1])


@st.composite
def cases(draw):
    d = draw(ints(1, 4))
    return {'r': draw(regs(d)), 'x': draw(gen.array(draw(pick(*LEAD)) + [d], ('fine', 'grid', 'grid', 'wide'))), 'zero': draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            'how': draw(pick('dict', 'class', 'callable', 'str'))}


def points(c):
    x = dec(c['x'])
    x[..., np.array(c['zero'][:x.shape[-1]])] = 0.
    x[(np.abs(x) < 1e-7) & (np.abs(x) > 1e-9)] = 0.
    return x


def make(o, how):
    from cbx import regularizers as R
    cl = {'L0': R.L0, 'L1': R.L1, 'Plane': R.HyperplaneDistance, 'Sphere': R.SphereDistance, 'Quadric': R.QuadricDistance}
    kw = {k: v for k, v in o.items() if k != 'name'}
    if how == 'dict':
        d = dict(o)
        g = R.select_reg_func(d)
        if set(d) != set(o):
            fail('the specification %s was changed to %s' % (sorted(o), sorted(d)))
        return g
    if how == 'str' and not kw:
        return R.select_reg_func(o['name'])
    g = cl[o['name']](**kw)
    if how == 'callable' and R.select_reg_func(g) is not g:
        fail('a callable regulariser was replaced')
    return g


@P.facet('values', cases, quick=700, rule='each regulariser, chosen by name, dictionary or class, against a loop over coordinates for every leading shape; non-trivial: two points with different values')
def values_(c):
    o = reg_spec(c['r'])
    x = points(c)
    g = make(o, c['how'])
    keep = x.copy()
    v = np.asarray(g(x))
    exact(x, keep, 'the argument')
    shape_is(v, x.shape[:-1], 'values of ' + o['name'])
    want = values(o, x)
    sc = (1 + np.abs(x).max() ** 2) * (1 + max([np.abs(o[k]).max() for k in ('a', 'A', 'b', 'c') if k in o] + [0])) * x.shape[-1] ** 2
    if o['name'] == 'Plane':
        sc /= min(1., np.linalg.norm(np.broadcast_to(o.get('a', 1.), (x.shape[-1],))))
    same(v, want, 'values of ' + o['name'], rtol=1e-11, atol=1e-13 * sc)
    if len(set(np.ravel(want))) > 1:
        hit(o['name'])
    note(o['name'])


@P.facet('unknown', lambda: st.fixed_dictionaries({'n': pick('L2', 'plane', 'l1', '', 'sphere'), 'how': st.booleans()}), quick=20, rule='unknown names are rejected; non-trivial: all')
def unknown(c):
    from cbx.regularizers import select_reg_func
    rejects(lambda: select_reg_func({'name': c['n']} if c['how'] else c['n']), (KeyError, ValueError), 'regulariser ' + repr(c['n']))
    hit()


@st.composite
def obj_cases(draw):
    d = draw(ints(1, 3))
    M, N = draw(ints(1, 4)), draw(ints(1, 5))
    return {'r': draw(regs(d)), 'x': draw(gen.array([M, N, d], ('fine', 'grid'))), 'f': draw(gen.objective()), 'lamda': draw(pick(None, 0., .5, 3., 'runs', 'runs')), 'l': draw(gen.array([M, 1], ('pos',))),
            'p': draw(pick(None, 1, 2, .5, 3, 5, 7)), 'count': draw(st.booleans())}


@P.facet('objective', obj_cases, quick=500, rule='f + lamda R^p at ensembles, single runs, single points and consensus-shaped arguments, with one lamda or one per run; non-trivial: the penalty is not constant')
def objective(c):
    from cbx.regularizers import regularize_objective
    from cbx.utils.objective_handling import cbx_objective_fh
    o = reg_spec(c['r'])
    x = dec(c['x'])
    x[(np.abs(x) < 1e-7) & (np.abs(x) > 1e-9)] = 0.
    M, N, d = x.shape
    kw = {}
    lam, p = 1., 1 if c['p'] is None else c['p']
    if c['p'] is not None:
        kw['p'] = p
    if c['lamda'] == 'runs':
        lam = dec(c['l'])
        kw['lamda'] = lam.copy()
    elif c['lamda'] is not None:
        lam = kw['lamda'] = c['lamda']
    f = cbx_objective_fh(lambda z: gen.obj_value(c['f'], z))
    g = regularize_objective(f, dict(o), **kw)
    n = 0
    R = values(o, x)
    want = gen.obj_value(c['f'], x) + lam * R ** p
    amp = lambda w: 1e-9 * (1 + np.abs(w).max()) * 50 if p >= 1 else 1e-5 * (1 + np.abs(w).max())
    shapes = [x, x[:, :1]]
    if c['lamda'] != 'runs':
        shapes += [x[:1], x[0], x.reshape(-1, d), x[M - 1:, N - 1:], x[:, None]]
    for z in shapes:
        wz = gen.obj_value(c['f'], z) + lam * values(o, z) ** p
        k = z.copy()
        got = np.asarray(g(z))
        n += int(np.prod(z.shape[:-1]))
        exact(z, k, 'the argument')
        same(got, wz, 'regularised objective for points of shape %s' % (z.shape,), rtol=1e-9, atol=amp(wz))
    if g.num_eval != n or f.num_eval != n:
        fail('%d evaluations counted, %d points' % (g.num_eval, n))
    same(np.asarray(g.lamda), np.asarray(lam), 'lamda after evaluations', rtol=0, atol=0)
    if np.ptp(R) > 0 and np.any(np.asarray(lam)):
        hit('per run' if c['lamda'] == 'runs' else 'scalar')
    del want


@st.composite
def rule_cases(draw):
    s = draw(scen.scenario(dyns=('CBO', 'CBO', 'RegCombinationCBO', 'CBOMemory'), noises=('isotropic', 'anisotropic'), batch=False, term=False, Ms=(1, 4), Ns=(2, 5), ds=(1, 3), steps=(1, 12), alphas=(.01, 30),
                           fscale=draw(st.booleans()), constraints=('sphere', 'plane', 'quadric')))
    d = s['x']['s'][-1]
    return {'s': s, 'r': draw(regs(d)), 'p': draw(pick(1, 2)), 'lamda': draw(pick(1., .1, 10., 1e14)), 'rule': draw(pick(None, 'weighted', 'simple', 'mean')), 'theta': draw(pick(None, .1, 1., 50.)),
            'tmax': draw(pick(None, None, 3., 60.)), 'ft': draw(pick(None, 2., 1.3)), 'fl': draw(pick(None, 3., 1.5)), 'lmax': draw(pick(None, None, 20., 5.)), 'k': draw(pick(1, 1, 2)), 'mult': draw(st.booleans()),
            'scale': draw(pick(1., 1., .05)), 'l': draw(gen.array([s['x']['s'][0], 1], ('pos',))), 'each': draw(pick(False, False, True))}


@P.facet('rule', rule_cases, quick=350, rule='optimize() with the parameter rule on regularised objectives: lamda and theta of every run after every update against a model; non-trivial: some update raises lamda and another does not')
def rule(c):
    from cbx.regularizers import regularization_paramter_scheduler, regularize_objective
    from cbx.scheduler import multiply, scheduler
    s = c['s']
    o = reg_spec(c['r'])
    e = scen.build(s)
    X = e.x_init * c['scale']
    if s['dyn'] == 'RegCombinationCBO':
        e = scen.build(s, x=X)
        lam0 = 1 / s.get('nu', 1.)
        cs = scen.np_const(s.get('constraints')) or []
        R = lambda x: sum((ref.con_value(k, x) ** 2 for k in cs), np.zeros(x.shape[:-1]))
        p = 1
        if not cs:
            skip('no constraint')
    else:
        inner = scen.Objective(s['f'])
        lam0, p = c['lamda'], c['p']
        if c['each']:                        # one lamda per run from the start
            lam0 = c['lamda'] * (.1 + dec(c['l']))
        g = regularize_objective(inner, dict(o), lamda=np.copy(lam0) if c['each'] else lam0, p=c['p'])
        e = scen.build(s, x=X, obj=g)
        lam0 = np.reshape(lam0, -1)
        R = lambda x: values(o, x)
    dyn = e.dyn
    obj = lambda x: gen.obj_value(s['f'], x)
    kw = {}
    for k, n in (('rule', 'rule_mean'), ('theta', 'theta'), ('tmax', 'theta_max'), ('ft', 'factor_theta'), ('fl', 'factor_lamda'), ('lmax', 'lamda_max')):
        if c[k] is not None:
            kw[n] = c[k]
    th = np.ones(dyn.M) * (1. if c['theta'] is None else c['theta'])
    tmax = 1e5 if c['tmax'] is None else c['tmax']
    ft, fl = 1.1 if c['ft'] is None else c['ft'], 1.1 if c['fl'] is None else c['fl']
    lmax = 1e15 if c['lmax'] is None else c['lmax']
    rs = regularization_paramter_scheduler(**kw)
    lam = np.ones(dyn.M) * lam0
    kinds = set()
    first = [True]

    class Both:
        def update(self, d):
            if d is not dyn:
                fail('updated another dynamic')
            x = d.x.copy()
            Rx = R(x)
            f = obj(x) + lam[:, None] * Rx ** p
            al = np.asarray(d.alpha, dtype=float).reshape(-1)
            cur_l = np.broadcast_to(np.asarray(d.f.lamda, dtype=float).reshape(-1), (d.M,)).copy()
            same(cur_l, lam, 'lamda before the update', rtol=1e-9, atol=0)
            keep = {n: np.array(getattr(d, n), copy=True) for n in ('x', 'energy', 'alpha', 'best_energy')}
            rs.update(d)
            for n, v in keep.items():
                exact(getattr(d, n), v, n + ' across the update')
            newl = np.asarray(d.f.lamda, dtype=float)
            shape_is(newl, (d.M, 1), 'lamda')
            newt = np.asarray(rs.theta, dtype=float)
            shape_is(newt, (d.M,), 'theta')
            for m in range(d.M):
                if c['rule'] in (None, 'weighted'):
                    w = ref.gibbs(f[m], al[m if al.size > 1 else 0])
                    mean = float((w * Rx[m]).sum())
                else:
                    mean = float(Rx[m].mean())
                ok = mean <= 1 / np.sqrt(th[m])
                unclear = abs(mean - 1 / np.sqrt(th[m])) < 1e-7 * (1 + 1 / np.sqrt(th[m]) + np.abs(Rx[m]).max())
                opts = []
                for good in ((ok, not ok) if unclear else (ok,)):
                    opts.append((min(tmax, th[m] * ft if good else th[m] / ft), min(lmax, lam[m] if good else lam[m] * fl), good))
                for t_, l_, good in opts:
                    if np.isclose(newt[m], t_, rtol=1e-9, atol=0) and np.isclose(newl[m, 0], l_, rtol=1e-9, atol=0):
                        break
                else:
                    fail('run %d: theta %r, lamda %r after the update, expected %s (mean violation %r, theta %r, lamda %r)' % (m, newt[m], newl[m, 0], opts, mean, th[m], lam[m]))
                kinds.add(good)
                th[m], lam[m] = t_, l_
    parts = [Both() for _ in range(c['k'])]
    if c['mult']:
        parts.append(multiply(factor=1.1))
    dyn.optimize(sched=scheduler(parts))
    if kinds == {True, False}:
        hit(s['dyn'] + ' ' + str(c['rule']))
    del first


@st.composite
def boundary_cases(draw):
    M = draw(ints(1, 4))
    return {'M': M, 'N': draw(pick(1, 2, 4)), 'd': draw(ints(1, 3)), 'k': draw(st.lists(pick(-1, 0, 1), min_size=M, max_size=M)), 'j': draw(pick(0, 1, -1, -8)), 'rule': draw(pick('weighted', 'simple')),
            'lamda': draw(pick(1., .5, 3.3e14, 5e14)), 'f': draw(pick('zero', 'lin'))}


@P.facet('boundary', boundary_cases, quick=150, rule='mean violations that are exactly the threshold 1/sqrt(theta), or twice or half of it (exactly representable): lamda is raised only above the threshold; non-trivial: a run exactly at it')
def boundary(c):
    import cbx.dynamics as D
    from cbx.regularizers import SphereDistance, regularization_paramter_scheduler, regularize_objective
    from cbx.utils.objective_handling import cbx_objective_fh
    M, N, d = c['M'], c['N'], c['d']
    t = 2. ** c['j']                       # 1/sqrt(theta)
    x = np.zeros((M, N, d))
    x[..., 0] = 4. + t * 2. ** np.array(c['k'])[:, None]
    x[:, 1::2, 0] *= -1
    f = regularize_objective(cbx_objective_fh(lambda z: 0. * z.sum(-1) if c['f'] == 'zero' else z[..., 0]), SphereDistance(r=4.), lamda=c['lamda'])
    dyn = D.CBO(f, f_dim='3D', x=x, verbosity=0, check_f_dims=False, sigma=0.)
    rs = regularization_paramter_scheduler(theta=t ** -2., rule_mean=c['rule'], factor_theta=2., factor_lamda=3.)
    rs.update(dyn)
    up = np.array(c['k']) > 0
    if c['rule'] == 'weighted' and c['f'] == 'lin' and N > 1:
        up_sure = up | (np.array(c['k']) < 0)     # the weights are only normalised up to rounding
    else:
        up_sure = np.ones(M, bool)
    lam, th = np.asarray(dyn.f.lamda).reshape(-1), np.asarray(rs.theta).reshape(-1)
    for m in range(M):
        if not up_sure[m]:
            continue
        same(lam[m], min(1e15, c['lamda'] * (3. if up[m] else 1.)), 'lamda of run %d, mean violation 2^%d times the threshold' % (m, c['k'][m]), rtol=1e-12, atol=0)
        same(th[m], min(1e5, t ** -2. * (.5 if up[m] else 2.)), 'theta of run %d' % m, rtol=1e-12, atol=0)
        if c['k'][m] == 0:
            hit()


@P.probe('scheduler_after_a_run_ended', rule='the parameter rule with one of two runs ended')
def scheduler_after_a_run_ended():
    import cbx.dynamics as D
    from cbx.regularizers import regularization_paramter_scheduler, regularize_objective
    f = regularize_objective(cbx_objective(), 'L1', lamda=.5)
    x = np.linspace(-1, 2, 2 * 3 * 2).reshape(2, 3, 2)
    dyn = D.CBO(f, f_dim='3D', x=x, sigma=0., verbosity=0, max_it=4, term_criteria=[lambda d: np.array([d.it >= 1, d.it >= 4])])
    dyn.optimize(sched=regularization_paramter_scheduler())
    if dyn.it != 4:
        fail('%d steps' % dyn.it)


def cbx_objective():
    from cbx.utils.objective_handling import cbx_objective_fh
    return cbx_objective_fh(lambda x: (x ** 2).sum(-1))
