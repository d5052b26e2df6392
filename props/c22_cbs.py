"""C22: consensus-based sampling and the matrix square root."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds
from props.c02_cbo_step import expected_noise

P = Prop('C22', assumptions=['flat domains', 'the square root of an indefinite symmetric matrix is that of its positive part'])


@st.composite
def matrices(draw):
    d = draw(ints(1, 6))
    lead = draw(pick([], [1], [3], [2, 3]))
    kind = draw(pick('any', 'psd', 'low rank', 'repeated', 'diagonal', 'zero'))
    return {'kind': kind, 'd': d, 'lead': lead, 'scale': draw(pick(1., 1., 1e-12, 1e-5, 1e6, 1e12)),
            'a': draw(gen.array(lead + [d, d], ('fine', 'grid', 'wide'))), 'rank': draw(ints(0, d)), 'v': draw(q(0, 9, 2))}


def matrix(c):
    a, d, k = dec(c['a']), c['d'], c['kind']
    if k == 'any':
        A = a + np.swapaxes(a, -1, -2)
    elif k == 'psd':
        A = a @ np.swapaxes(a, -1, -2)
    elif k == 'low rank':
        a = a.copy()
        a[..., c['rank']:] = 0
        A = a @ np.swapaxes(a, -1, -2)
    elif k == 'repeated':
        u = a[..., 0]
        n = (u ** 2).sum(-1)[..., None, None]
        A = c['v'] * np.eye(d) + (u[..., :, None] * u[..., None, :]) / np.where(n == 0, 1, n)
    elif k == 'diagonal':
        A = a * np.eye(d)
    else:
        A = 0 * a
    A = (A + np.swapaxes(A, -1, -2)) / 2
    return A * c['scale']


def psd(A, tol):
    return np.linalg.eigvalsh((A + np.swapaxes(A, -1, -2)) / 2).min() >= -tol


@P.facet('sqrt', matrices, quick=800, rule='stacks of symmetric matrices: the root R is symmetric positive semi-definite, Q=R*R dominates A and Q*(Q-A)=0 '
         '(so Q is the positive part of A, and A itself if that has no negative directions); non-trivial: at least 2x2 and not zero')
def sqrt_(c):
    from cbx.dynamics.pdyn import compute_mat_sqrt
    A = matrix(c)
    keep = A.copy()
    R = np.asarray(compute_mat_sqrt(A))
    exact(A, keep, 'the argument')
    shape_is(R, A.shape, 'matrix square root')
    if not np.all(np.isfinite(R)):
        fail('the matrix square root is not finite')
    sc = np.abs(A).max() + 1e-300
    d = c['d']
    same(R, np.swapaxes(R, -1, -2), 'transposed root', rtol=0, atol=1e-10 * np.sqrt(sc) * d)
    if not psd(R, 1e-7 * np.sqrt(sc) * d):
        fail('the root is not positive semi-definite')
    Q = R @ R
    if c['kind'] in ('psd', 'low rank', 'repeated', 'zero'):
        same(Q, A, 'square of the root', rtol=0, atol=1e-10 * sc * d)
    else:
        if not psd(Q - A, 1e-9 * sc * d):
            fail('the square of the root does not dominate the matrix')
        same(Q @ (Q - A), 0 * A, 'complementarity of the positive part', rtol=0, atol=1e-9 * sc * sc * d * d)
    if d > 1 and np.any(A):
        hit(c['kind'])


def al_of(pre, m):
    a = np.asarray(pre['alpha'], float).reshape(-1)
    return float(a[m] if a.size > 1 else a[0])


def cov_ref(e, pre, m, idx):
    """Gibbs-weighted covariance about the weighted mean, by loops."""
    X = pre['x'][m][idx].astype(np.longdouble)
    w = ref.gibbs(e.obj.value(pre['x'][m][idx][None])[0], al_of(pre, m))
    mean = sum(w[j] * X[j] for j in range(len(X)))
    C = np.zeros((X.shape[1],) * 2, dtype=np.longdouble)
    for j in range(len(X)):
        C += w[j] * np.outer(X[j] - mean, X[j] - mean)
    return np.asarray(C, float)


def check_cov(e, pre, act, mv):
    C = np.asarray(e.dyn.Cov_sqrt)
    d = pre['x'].shape[-1]
    shape_is(C, (len(act), d, d), 'Cov_sqrt')
    for i, m in enumerate(act):
        want = cov_ref(e, pre, m, mv[m])
        sc = 1 + np.abs(pre['x'][m]).max() ** 2
        f = np.abs(e.obj.value(pre['x'][m][None])[0]).max()
        tol = sc * (1e-9 + 1e-12 * al_of(pre, m) * f)
        same(C[i] @ C[i], want, 'covariance of run %d' % m, rtol=0, atol=tol)
        same(C[i], C[i].T, 'transposed root of run %d' % m, rtol=0, atol=1e-9 * np.sqrt(sc))
        if np.linalg.eigvalsh(want).max() > 1e-3 * sc / 100 and d > 1:
            hit('covariance')


@P.facet('covariance', lambda: scen.scenario(dyns=('CBS', 'CBO', 'CBO', 'MirrorCBO'), noises=('covariance', 'sampling'), batch=True, term=True,
                                             mirror=(None,)),
         quick=300, rule='the covariance after every step of random problems against a loop over particles; non-trivial: more than one dimension and spread')
def covariance(s):
    e = scen.build(s)
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        check_cov(e, o[0], o[0]['active'], scen.moved_of(e.dyn))


@P.facet('step', lambda: scen.scenario(dyns=('CBS',), term=True, Ns=(1, 8)), quick=400,
         rule='every CBS step recomputed from the state before it and the recorded random numbers; non-trivial: N >= 2 and dt > 0')
def step_(s):
    e = scen.build(s)
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        pre, post = o
        act, mv = pre['active'], scen.moved_of(e.dyn)
        N = e.dyn.N
        zs = scen.noise_rows(e, act, N, pre['x'].shape[2:])
        for i, m in enumerate(act):
            if list(mv[m]) != list(range(N)):
                fail('particles %s of run %d moved' % (mv[m], m))
            X = pre['x'][m]
            al = al_of(pre, m)
            f = e.obj.value(X[None])[0]
            c = ref.consensus(f, X, al)
            lam = 1 / (1 + al) if s['mode'] == 'sampling' else 1.
            C = cov_ref(e, pre, m, mv[m])
            ev, V = np.linalg.eigh(C)
            R = (V * np.sqrt(np.maximum(ev, 0))) @ V.T
            want = X - s['lamda'] * s['dt'] * (X - c) + np.sqrt(2 * s['dt'] / lam) * zs[m] @ R.T
            sc = 1 + np.abs(X).max()
            # the root amplifies rounding of the covariance
            tol = sc * 1e-6 * (1 + np.sqrt(1e-3 * al * np.abs(f).max())) * (1 + np.abs(zs[m]).max() * np.sqrt(2 * s['dt'] / lam))
            same(post['x'][m], np.clip(want, -1e8, 1e8), 'positions of run %d after the CBS step' % m, rtol=1e-8, atol=tol)
            same(post['consensus'][i][0], c, 'consensus of run %d' % m, rtol=1e-8, atol=tol)
            exact(e.dyn.energy[m], f, 'energies of run %d' % m)
            if N > 1 and np.ptp(X):
                hit(s['mode'])
        for m in range(e.dyn.M):
            if m not in act:
                note('some runs ended')
                exact(post['x'][m], pre['x'][m], 'positions of the ended run %d' % m)


@P.facet('degenerate', lambda: scen.scenario(dyns=('CBS',), steps=(1, 3), Ns=(2, 6)), quick=100,
         rule='identical particles have no covariance and stay where they are, collinear particles stay on their line; non-trivial: always')
def degenerate(s):
    X = scen.x0(s)
    hit(s['mode'])
    s = dict(s, f=dict(s['f'], scale=1., off=0.))
    one = np.broadcast_to(X[:, :1], X.shape).copy()
    e = scen.build(s, x=one)
    for _ in range(s['steps']):
        if scen.step(e) is None:
            break
    same(e.dyn.x, one, 'identical particles', rtol=1e-9, atol=1e-6)
    u = X[:, :1] + 1.5
    t = np.linspace(-1, 1, X.shape[1])[None, :, None]
    e = scen.build(s, x=t * u)
    big = 1.
    for _ in range(s['steps']):
        if scen.step(e) is None:
            break
        big = max(big, np.abs(e.dyn.x).max())
    n2 = (u ** 2).sum(-1, keepdims=True)
    off = e.dyn.x - (e.dyn.x * u).sum(-1, keepdims=True) / np.where(n2 == 0, 1, n2) * u
    ok = n2[:, 0, 0] > 1e-3
    if big < 1e6 and np.abs(off[ok]).max(initial=0) > 1e-5 * (1 + np.abs(e.dyn.x).max()) * (1 + max(np.ravel(s['alpha']))):
        fail('collinear particles leave their line by %g' % np.abs(off[ok]).max())


@P.facet('sigma', lambda: st.tuples(scen.scenario(dyns=('CBS',), steps=(1, 4)), pick(0., .2, .9, 3.)), quick=60,
         rule='the noise of consensus-based sampling is scaled by the covariance alone: bitwise the same trajectory for every value of sigma; non-trivial: two particles')
def sigma(c):
    s, sg = c
    a, b = scen.build(s), scen.build(s, sigma=sg)
    for _ in range(s['steps']):
        scen.step(a)
        scen.step(b)
        exact(b.dyn.x, a.dyn.x, 'positions with sigma=%g' % sg)
    if a.dyn.N > 1:
        hit()


@P.facet('run', lambda: scen.scenario(dyns=('CBS',), steps=(1, 6)), quick=100,
         rule='optimize and run make the same steps as stepping by hand, keep alpha without a scheduler and return the best particles; non-trivial: several steps')
def run_(s):
    a, b, c = scen.build(s), scen.build(s), scen.build(s)
    al = np.array(a.dyn.alpha, copy=True)
    while scen.step(a) is not None:
        pass
    r = b.dyn.optimize()
    c.dyn.run(sched=None)
    exact(b.dyn.x, a.dyn.x, 'positions after optimize')
    exact(c.dyn.x, a.dyn.x, 'positions after run')
    exact(r, a.dyn.best_particle, 'returned particles')
    exact(b.dyn.alpha, al, 'alpha after optimize')
    e = scen.build(s)
    from cbx.scheduler import multiply, scheduler
    e.dyn.optimize(sched=scheduler([multiply(name='alpha', factor=1.25)]))
    want = np.array(al, dtype=float)
    for _ in range(int(a.dyn.it)):
        want = want * 1.25
    if e.dyn.it != a.dyn.it:
        fail('%d steps with a scheduler, %d without' % (e.dyn.it, a.dyn.it))
    same(np.asarray(e.dyn.alpha), np.minimum(want, 1e5), 'alpha after optimize with a scheduler', rtol=1e-12, atol=0)
    if b.dyn.it != s['steps']:
        fail('%d steps instead of %d' % (b.dyn.it, s['steps']))
    if s['steps'] > 1:
        hit()
    rejects(lambda: scen.build(s).dyn.run(sched='unknown'), (RuntimeError, ValueError, TypeError), 'scheduler by unknown name')


@P.facet('rejected', lambda: scen.scenario(dyns=('CBS',), Ns=(2, 6)), quick=60,
         rule='mini-batches and array-shaped domains are rejected; non-trivial: always')
def rejected(s):
    hit()
    X = scen.x0(s)
    N = X.shape[1]
    for b in ({}, {'partial': False}, {'partial': True, 'var': 'concat'}):
        rejects(lambda: scen.build(s, batch_args={'size': 1 + s['ns'] % (N - 1), **b}), (NotImplementedError,), 'CBS with mini-batches')
    # a batch of all particles is none
    scen.build(s, batch_args={'size': N + s['ns'] % 2}).dyn.step()
    rejects(lambda: scen.build(s, x=X[..., None]), (NotImplementedError,), 'CBS with an array-shaped domain')


@P.facet('sizes', lambda: pick('long', 'large').flatmap(lambda z: scen.scenario(dyns=('CBS',), term=True, size=z)), quick=60,
         rule='as step, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    step_(s)
