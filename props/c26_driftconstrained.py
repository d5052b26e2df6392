"""C26: DriftConstrainedCBO."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds
from props.c02_cbo_step import expected_noise

P = Prop('C26', assumptions=['flat domains', 'systems with condition number above 1e6 are outside the oracle',
                             'independent noise: mean over particles of |x-c|^2/d with the last consensus point of the run'])


def with_noise(s):
    """Add independent noise that ends after a moderate number of rounds."""
    k = s['ns'] % 7
    sig = (.5, 2., .1)[s['ns'] % 3]
    s = dict(s, sigma_indep=sig, eps_indep=(.1, 1., 4., 15., .5, 2., 1.)[k] * sig ** 2 * s['dt'])
    if s['ns'] % 19 == 0:
        s['eps_indep'] = 0.                    # never below
    if s['ns'] % 2:
        s['near'] = 1.25                       # a tight cloud: below the threshold early
    if (s['ns'] // 2) % 2:
        s['sigma'] = 0.
    return s


def indep(e, s, pre, runs_of_consensus, consensus):
    """Positions after the independent noise and the number of random numbers it took."""
    x = pre['x'].copy()
    used = 0
    if not s.get('sigma_indep') or consensus is None:
        return x, 0, set()
    flat = np.concatenate([z.reshape(-1) for z in e.smp.draws]) if e.smp.draws else np.zeros(0)
    runs = [m for m in runs_of_consensus if m in pre['active']]
    c = {m: consensus[i] for i, m in enumerate(runs_of_consensus)}
    d = x.shape[-1]
    hitruns = set()
    while True:
        low = []
        for m in runs:
            v = np.mean([((p - c[m][0]) ** 2).sum() for p in x[m]]) / d
            if abs(v - s['eps_indep']) < 1e-9 * s['eps_indep']:
                skip('at the threshold')
            if v < s['eps_indep']:
                low.append(m)
        if not low:
            return x, used, hitruns
        n = len(low) * x[0].size
        if used + n > flat.size:
            fail('runs %s are below the threshold %g but got no independent noise' % (low, s['eps_indep']))
        z = flat[used:used + n].reshape((len(low),) + x.shape[1:])
        used += n
        for i, m in enumerate(low):
            x[m] += s['sigma_indep'] * np.sqrt(s['dt']) * z[i]
            hitruns.add(m)


def run(s, indep_facet=False):
    e = scen.build(s)
    dyn = e.dyn
    cs = scen.np_const(s.get('constraints')) or []
    last_runs, last_c = [], None
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        pre, post = o
        act, mv, b = pre['active'], scen.moved_of(dyn), scen.batch_of(dyn)
        if sorted(mv) != act:
            fail('particles of runs %s were updated, active are %s' % (sorted(mv), act))
        x0, used, who = indep(e, s, pre, last_runs, last_c)
        n = len(mv[act[0]])
        d = x0.shape[-1]
        # the remaining numbers are the noise of the step
        if used:
            flat = np.concatenate([z.reshape(-1) for z in e.smp.draws])[used:]
            e.smp.draws = [flat]
            note('independent noise')
            if indep_facet:
                hit('all active' if len(who) == len(act) else 'some runs')
        drift, en = {}, {}
        al = np.asarray(pre['alpha'], float).reshape(-1)
        for i, m in enumerate(act):
            X = x0[m][mv[m]]
            en[m] = e.obj.value(X[None])[0]
            a = al[m if al.size > 1 else 0]
            fB = e.obj.value(x0[m][b[m]][None])[0]
            C = np.asarray(post['consensus'])[i]
            same(C[0], ref.consensus(fB, x0[m][b[m]], a), 'consensus of run %d' % m, rtol=1e-7,
                 atol=(1 + np.abs(X).max()) * (1e-9 + 1e-13 * a * np.abs(fB).max()))
            drift[m] = X - C
        nz = expected_noise(e, dict(pre, x=x0), drift, act, n, energies=en)
        t = s['dt'] / s['eps']
        for m in act:
            want = x0[m].copy()
            X = want[mv[m]]
            rhs = s['lamda'] * s['dt'] * drift[m] + t * ref.sq_grad(cs, X) + s['sigma'] * nz[m]
            H = ref.sq_hess(cs, X)
            slack = ref.root_slack(s, x0[m], al[m if al.size > 1 else 0], en[m])
            tol = slack
            for j in range(n):
                A = np.eye(d) + t * H[j]
                k = np.linalg.cond(A)
                if not k < 1e6:
                    skip('nearly singular')
                z = np.linalg.solve(A, rhs[j])
                tol = max(tol, (slack + 1e-12 * k * (1 + np.abs(rhs[j]).max() + np.abs(X[j]).max())) * max(1, 1 / max(np.linalg.norm(A, -2), 1e-12)))
                X[j] = X[j] - z
            want[mv[m]] = X
            want = np.clip(want, -1e8, 1e8)
            same(post['x'][m], want, 'positions of run %d' % m, rtol=1e-8, atol=tol + 1e-9 * (1 + np.abs(want).max()) * (1 + s['sigma']))
            exact(dyn.energy[m][b[m]], e.obj.value(x0[m][b[m]][None])[0], 'energies of run %d' % m)
            if len(mv[m]) < dyn.N:
                note('partial update')
            elif len(b[m]) < dyn.N:
                note('mini-batch, full update')
        for m in range(dyn.M):
            if m not in act:
                note('some runs ended')
                exact(post['x'][m], pre['x'][m], 'particles of the ended run %d' % m)
        last_runs, last_c = list(act), np.asarray(post['consensus']).copy()
        if not indep_facet:
            if (cs or s['ns'] % 8 == 0) and s['dt'] and dyn.N > 1:
                hit('+'.join(k['name'] for k in cs) or 'no constraint')


def scenarios(**kw):
    k = dict(dyns=('DriftConstrainedCBO',), noises=('isotropic', 'anisotropic', 'constant', 'covariance', 'sampling'), batch=True, term=True,
             constraints=('none', 'sphere', 'plane', 'quadric', 'two', 'several'), steps=(1, 4))
    k.update(kw)
    return scen.scenario(**k)


@P.facet('step', scenarios, quick=600, rule='every step of random problems recomputed with reference derivatives and a plain solve per particle; non-trivial: a constraint and several particles')
def step_(s):
    run(s)


@P.facet('indep', lambda: scenarios(constraints=('none', 'sphere', 'plane'), steps=(2, 6), noises=('isotropic', 'anisotropic', 'constant'),
                                    kinds=('fine', 'grid', 'tiny')).map(with_noise), quick=500,
         rule='as above with independent noise below a threshold; non-trivial: some run got independent noise')
def indep_(s):
    run(s, True)


@P.facet('as_cbo', lambda: scenarios(constraints=('none',), steps=(1, 6)), quick=200,
         rule='without constraints the run equals CBO with the negated random numbers; non-trivial: several steps')
def as_cbo(s):
    a = scen.build(s)
    b = scen.build({k: v for k, v in dict(s, dyn='CBO').items() if k not in ('constraints', 'eps')},
                   sampler=scen.Sampler(s['ns'], range(a.dyn.M), -1.))       # the noise enters with a minus sign here
    # the matrix root amplifies rounding
    tol = 1e-4 if s['noise'] in ('covariance', 'sampling') else 1e-8
    for _ in range(s['steps']):
        p, r = scen.step(a), scen.step(b)
        if (p is None) != (r is None):
            fail('one of the dynamics ends earlier')
        if p is None:
            break
        for k in ('x', 'energy', 'best_energy', 'best_particle', 'num_f_eval', 'consensus'):
            same(p[1][k], r[1][k], k + ' without constraints against CBO', rtol=tol, atol=tol)
    if s['steps'] > 1 and s['lamda']:
        hit()


@P.facet('random_source', lambda: scenarios(constraints=('none', 'sphere'), steps=(2, 5), noises=('isotropic', 'constant'),
                                            kinds=('fine', 'tiny')).map(with_noise), quick=100,
         rule='with a seed, two dynamics with independent noise agree whatever the state of the global random generator; non-trivial: always')
def random_source(s):
    out = []
    for g in (1, 2):
        np.random.seed(g)
        e = scen.build(s, sampler=None)
        for _ in range(s['steps']):
            if e.dyn.terminate():
                break
            e.dyn.step()
        out.append(e.dyn.x.copy())
    exact(out[0], out[1], 'positions with the same seed')
    hit()


@P.facet('optimize', lambda: scenarios(constraints=('sphere', 'plane'), steps=(1, 6), per_run_alpha=False).map(
    lambda s: with_noise(s) if s['ns'] % 3 == 0 else s), quick=100, rule='optimize makes the same steps as stepping by hand; non-trivial: several steps')
def optimize(s):
    a, b = scen.build(s), scen.build(s)
    while not a.dyn.terminate():
        a.dyn.step()
    b.dyn.optimize(sched=None)
    exact(a.dyn.x, b.dyn.x, 'positions after optimize')
    if a.dyn.it > 1:
        hit()


@P.facet('sizes', lambda: pick('long', 'large').flatmap(lambda z: scenarios(size=z)), quick=60,
         rule='as step, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    step_(s)
