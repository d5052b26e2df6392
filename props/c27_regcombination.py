"""C27: RegCombinationCBO."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds
from props.c02_cbo_step import expected_noise

P = Prop('C27', assumptions=['flat domains', 'systems with condition number above 1e6 are outside the oracle'])


def penalised(e, cs, nu, x):
    v = e.obj.value(x)
    for k in cs:
        v = v + ref.con_value(k, x) ** 2 / nu
    return v


def run(s):
    e = scen.build(s)
    dyn = e.dyn
    cs = scen.np_const(s.get('constraints')) or []
    nu = s.get('nu', 1.0)
    best = np.full(dyn.M, np.inf)
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        pre, post = o
        act, mv, b = pre['active'], scen.moved_of(dyn), scen.batch_of(dyn)
        if sorted(mv) != act:
            fail('particles of runs %s were updated, active are %s' % (sorted(mv), act))
        n, d = len(mv[act[0]]), pre['x'].shape[-1]
        al = np.asarray(pre['alpha'], float).reshape(-1)
        drift, en = {}, {}
        for i, m in enumerate(act):
            X, a = pre['x'][m][mv[m]], al[m if al.size > 1 else 0]
            en[m] = penalised(e, cs, nu, X[None])[0]
            fB = penalised(e, cs, nu, pre['x'][m][b[m]][None])[0]
            C = np.asarray(post['consensus'])[i]
            same(C[0], ref.consensus(fB, pre['x'][m][b[m]], a), 'consensus of run %d' % m, rtol=1e-7,
                 atol=(1 + np.abs(X).max()) * (1e-8 + 1e-12 * a * np.abs(fB).max()))
            drift[m] = X - C
            same(dyn.energy[m][b[m]], fB, 'energies of run %d' % m, rtol=1e-10, atol=1e-10)
            for j, v in zip(b[m], fB):
                best[m] = min(best[m], v)
            same(dyn.best_energy[m], best[m], 'best energy of run %d' % m, rtol=1e-9, atol=1e-9)
            bp = np.asarray(dyn.best_particle)[m]
            same(penalised(e, cs, nu, bp[None, None])[0, 0], best[m], 'penalised objective at the best particle of run %d' % m, rtol=1e-9, atol=1e-9)
        nz = expected_noise(e, pre, drift, act, n, energies=en)
        t = s['dt'] / s['eps']
        for m in act:
            X = pre['x'][m][mv[m]]
            xt = X - s['lamda'] * s['dt'] * drift[m] + s['sigma'] * nz[m]
            Z = post['x'][m][mv[m]]
            # a particle twice in a batch is written twice: the last one stays
            lastpos = {j: k for k, j in enumerate(mv[m])}
            tol0 = 1e-9 * (1 + s['sigma']) + ref.root_slack(s, pre['x'][m], al[m if al.size > 1 else 0], en[m])
            for j, k in lastpos.items():
                z, w, p = Z[k], xt[k], X[k]
                if np.abs(z).max() >= 1e8:
                    note('clipped')
                    continue
                if not cs or s['eps'] >= 1e15:
                    same(z, w, 'position of particle %d of run %d' % (j, m), rtol=1e-8, atol=tol0 * (1 + np.abs(w).max()))
                    continue
                g = ref.con_value(cs[0], p)
                A = np.eye(d) + 2 * t * g * ref.con_hess(cs[0], p)
                if not np.linalg.cond(A) < 1e6:
                    note('nearly singular')
                    continue
                r = z + 2 * t * g * ref.con_grad(cs[0], z)
                size = 1 + np.abs(w).max() + np.abs(A).max() * np.abs(z).max() + np.abs(2 * t * g * ref.con_grad(cs[0], 0 * z)).max()
                same(r, w, 'implicit equation of particle %d of run %d' % (j, m), rtol=0, atol=tol0 * size)
                if t * abs(g) > 1e-3:
                    hit(cs[0]['name'])
            other = [j for j in range(dyn.N) if j not in lastpos]
            if other:
                note('partial update')
                exact(post['x'][m][other], pre['x'][m][other], 'particles outside the mini-batch of run %d' % m)
        for m in range(dyn.M):
            if m not in act:
                note('some runs ended')
                exact(post['x'][m], pre['x'][m], 'particles of the ended run %d' % m)


def scenarios(**kw):
    k = dict(dyns=('RegCombinationCBO',), noises=('isotropic', 'anisotropic', 'constant', 'covariance', 'sampling'), batch=True, term=True,
             constraints=('sphere', 'plane', 'quadric', 'none'), steps=(1, 4))
    k.update(kw)
    return scen.scenario(**k)


@P.facet('step', scenarios, quick=600, rule='the implicit equation of every particle in every step, consensus and reported energies of the penalised objective; non-trivial: a particle off the constraint')
def step_(s):
    run(s)


@P.facet('explicit', lambda: scenarios(steps=(1, 3)).map(lambda s: dict(s, eps=(1e15, 1e16, 1e300)[s['ns'] % 3])), quick=100,
         rule='with an infinite eps only the penalty remains; non-trivial: a constraint')
def explicit(s):
    run(s)
    if s.get('constraints'):
        hit()


@P.facet('stiff', lambda: scenarios(steps=(1, 3), constraints=('sphere', 'quadric', 'plane')).map(lambda s: dict(s, eps=(1.7e4, 3.1e5, 2.3e-3, 7.7e3)[s['ns'] % 4])), quick=150,
         rule='as step for very small and large eps; non-trivial: as above')
def stiff(s):
    run(s)
    if s['eps'] > 1 and s.get('constraints'):
        hit('large')


@P.facet('as_cbo', lambda: scenarios(constraints=('none',), steps=(1, 6)), quick=200,
         rule='without constraints the run equals CBO with the same random numbers; non-trivial: several steps')
def as_cbo(s):
    a = scen.build(s)
    b = scen.build({k: v for k, v in dict(s, dyn='CBO').items() if k not in ('constraints', 'eps', 'nu')})
    # the matrix root amplifies rounding
    tol = 1e-4 if s['noise'] in ('covariance', 'sampling') else 1e-8
    for _ in range(s['steps']):
        p, r = scen.step(a), scen.step(b)
        if (p is None) != (r is None):
            fail('one of the dynamics ends earlier')
        if p is None:
            break
        for k in ('x', 'energy', 'best_energy', 'best_particle', 'num_f_eval', 'consensus'):
            same(p[1][k], r[1][k], k + ' without constraints against CBO', rtol=tol, atol=tol)
    if s['steps'] > 1 and s['lamda']:
        hit()


@P.facet('penalty', lambda: st.tuples(scenarios(constraints=('sphere', 'plane', 'quadric')), gen.array([2, 3, 4], ('fine', 'grid'))), quick=200,
         rule='the objective of the dynamic is f plus the squared constraint over nu, for f given as 1D, 2D or 3D function, and several constraints are rejected; non-trivial: always')
def penalty(t):
    import cbx.dynamics as D
    s, pts = t
    s = dict(s, nu=s['nu'] * (1., 1., 1e-4, 1e5)[s['ns'] % 4])
    hit(s['constraints'][0]['name'])
    cs = scen.np_const(s['constraints'])
    X = scen.x0(s)
    d = X.shape[-1]
    Z = dec(pts)[..., :1] * np.ones(d) + .3 * np.arange(d)
    f3 = lambda x: gen.obj_value(s['f'], x)
    want = f3(Z) + ref.con_value(cs[0], Z) ** 2 / s['nu']
    for fd in ('1D', '2D', '3D'):
        dyn = D.RegCombinationCBO(f3, f_dim=fd, x=X, verbosity=0, check_f_dims=False, constraints=scen.np_const(s['constraints']), nu=s['nu'], eps=s['eps'])
        same(dyn.f(Z), want, 'objective of the dynamic', rtol=1e-10, atol=1e-9 * (1 + np.abs(want).max()))
    two = scen.np_const(s['constraints']) + [{'name': 'sphere', 'r': 1.}]

    def go():
        d2 = D.RegCombinationCBO(f3, f_dim='3D', x=X, verbosity=0, check_f_dims=False, constraints=two, nu=s['nu'], eps=s['eps'])
        d2.step()
    rejects(go, (ValueError, NotImplementedError), 'two constraints')


@P.facet('sizes', lambda: pick('long', 'large').flatmap(lambda z: scenarios(size=z)), quick=60,
         rule='as step, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    step_(s)
