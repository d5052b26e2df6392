"""C28: HyperSurfaceCBO."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds
from props.c02_cbo_step import expected_noise

P = Prop('C28', assumptions=['isotropic noise on all surfaces; anisotropic noise on the sphere (on the other surfaces only feasibility is checked, the documented '
                             'correction is that of the sphere)', 'steps that land within 1e-3 of a singular point of the projection '
                             'are compared with a correspondingly larger tolerance', 'the Stiefel constant (2n-k-1)/2 is taken from the papers'])


def surface(draw, d):
    k = draw(pick('sphere', 'sphere', 'plane', 'Stiefel'))
    if k == 'plane':
        a = draw(gen.array([d], ('pos', 'fine')))
        if not np.any(dec(a)):
            return None
        return {'name': 'plane', 'a': a, 'b': draw(q(-2, 2, 2))}
    if k == 'Stiefel':
        nk = [(n, d // n) for n in range(1, d + 1) if d % n == 0 and n >= d // n]
        n, k = nk[draw(ints(0, len(nk) - 1))]
        return {'name': 'Stiefel', 'nk': [n, k]}
    return draw(pick(None, {'name': 'sphere'}))


@st.composite
def scenarios(draw, **kw):
    k = dict(dyns=('HyperSurfaceCBO',), noises=('isotropic', 'isotropic', 'anisotropic'), batch=True, term=True, steps=(1, 4), ds=(2, 6))
    k.update(kw)
    s = draw(scen.scenario(**k))
    s['sdf'] = surface(draw, s['x']['s'][-1])
    s['sigma'] = draw(pick(.3, 1., .1, 0., 2.))
    s['on'] = draw(pick(True, True, False))
    return s


def kind(s):
    return 'sphere' if s['sdf'] is None else s['sdf']['name']


def project(s, x):
    """Nearest points of the surface, independent of the code; x of shape (..., d)."""
    k = kind(s)
    if k == 'sphere':
        return x / np.sqrt((x ** 2).sum(-1, keepdims=True))
    if k == 'plane':
        a = dec(s['sdf']['a'])
        return x - ((x @ a - s['sdf']['b']) / (a @ a))[..., None] * a
    out = np.empty_like(x)
    for i in np.ndindex(x.shape[:-1]):
        Y = x[i].reshape(s['sdf']['nk'])
        w, V = np.linalg.eigh(Y.T @ Y)                       # polar factor Y (Y^T Y)^(-1/2)
        out[i] = (Y @ (V / np.sqrt(np.maximum(w, 1e-300))) @ V.T).reshape(-1)
    return out


def tangent(s, x, z):
    """Orthogonal projection of z onto the tangent space at the point x of the surface (one point)."""
    k = kind(s)
    if k == 'sphere':
        g = x / np.linalg.norm(x)
        return z - g * (g @ z)
    if k == 'plane':
        a = dec(s['sdf']['a'])
        return z - a * (a @ z) / (a @ a)
    X, Z = x.reshape(s['sdf']['nk']), z.reshape(s['sdf']['nk'])
    S = X.T @ Z
    return (Z - X @ (S + S.T) / 2).reshape(-1)


def off(s, x):
    """Distance from feasibility."""
    k = kind(s)
    if k == 'sphere':
        return np.abs(np.sqrt((x ** 2).sum(-1)) - 1)
    if k == 'plane':
        a = dec(s['sdf']['a'])
        return np.abs(x @ a - s['sdf']['b']) / np.linalg.norm(a) / (1 + np.abs(x).max())
    n, k = s['sdf']['nk']
    X = x.reshape(x.shape[:-1] + (n, k))
    return np.abs(np.swapaxes(X, -1, -2) @ X - np.eye(k)).max((-1, -2))


def start(s):
    X = scen.x0(dict(s, sdf={'name': 'none'}))
    if s['on'] or kind(s) == 'Stiefel':
        if kind(s) == 'Stiefel':
            n, k = s['sdf']['nk']
            X = X + 3 * np.eye(n, k).reshape(-1)
            sv = np.linalg.svd(X.reshape(X.shape[:2] + (n, k)), compute_uv=False)
            if sv.min() < 1e-3:
                skip('start near a singular matrix')
        X = project(s, X)
    return X


def run(s):
    X0 = start(s)
    e = scen.build(s, x=X0)
    dyn = e.dyn
    surf = kind(s)
    full = not (s['noise'] == 'anisotropic' and surf != 'sphere')
    for _ in range(s['steps']):
        o = scen.step(e)
        if o is None:
            break
        pre, post = o
        act, mv, b = pre['active'], scen.moved_of(dyn), scen.batch_of(dyn)
        if sorted(mv) != act:
            fail('particles of runs %s were updated, active are %s' % (sorted(mv), act))
        n, d = len(mv[act[0]]), X0.shape[-1]
        drift = {m: pre['x'][m][mv[m]] - np.asarray(post['consensus'])[i] for i, m in enumerate(act)}
        nz = expected_noise(e, pre, drift, act, n)
        for i, m in enumerate(act):
            X, c = pre['x'][m][mv[m]], np.asarray(post['consensus'])[i][0]
            al = np.ravel(pre['alpha'])
            al = float(al[m if al.size > 1 else 0])
            B = pre['x'][m][b[m]]
            f = e.obj.value(B[None])[0]
            same(c, ref.consensus(f, B, al), 'consensus of run %d' % m, rtol=1e-7, atol=(1 + np.abs(X).max()) * (1e-9 + 1e-13 * al * np.abs(f).max()))
            T = np.empty_like(X)
            for j in range(n):
                x, dr = X[j], drift[m][j]
                r2 = (dr ** 2).sum()
                if surf == 'plane':
                    ito = 0 * x
                elif surf == 'sphere' and s['noise'] == 'anisotropic':
                    ito = s['dt'] * s['sigma'] ** 2 / 2 * (r2 + dr ** 2 - 2 * ((dr * x) ** 2).sum()) * x
                elif surf == 'sphere':
                    nx = np.linalg.norm(x)
                    ito = s['dt'] * s['sigma'] ** 2 / 2 * (d - 1) / nx * r2 * x / nx
                else:
                    nn, k = s['sdf']['nk']
                    ito = s['dt'] * s['sigma'] ** 2 / 2 * (2 * nn - k - 1) / 2 * r2 * x
                T[j] = x + tangent(s, x, s['lamda'] * s['dt'] * c + s['sigma'] * nz[m][j]) - ito
            last = {j: k for k, j in enumerate(mv[m])}          # a particle twice in a batch is written twice: the last one stays
            T = T[list(last.values())]
            Z = post['x'][m][list(last)]
            if np.abs(Z).max() >= 1e7:
                skip('clipped at 1e8')
            if surf == 'sphere':
                room = np.sqrt((T ** 2).sum(-1)).min()
            elif surf == 'Stiefel':
                room = np.linalg.svd(T.reshape((len(T),) + tuple(s['sdf']['nk'])), compute_uv=False).min()
            else:
                room = 1.
            if full and room > 1e-6:
                w = project(s, T)
                sc = 1 + np.abs(T).max()
                same(Z, w, 'positions of run %d' % m, rtol=1e-8, atol=1e-9 * sc * max(1, 1 / room))
            if room > 1e-6 or not full:
                bad = off(s, Z)
                if not np.all(bad < 1e-7):
                    fail('particle %d of run %d is off the %s by %g' % (list(last)[int(np.argmax(bad))], m, surf, bad.max()))
            if s['sigma'] and n > 1:
                hit(surf, s['noise'])
            rest = [j for j in range(dyn.N) if j not in mv[m]]
            if rest:
                note('partial update')
                exact(post['x'][m][rest], pre['x'][m][rest], 'particles outside the mini-batch of run %d' % m)
        for m in range(dyn.M):
            if m not in act:
                note('some runs ended')
                exact(post['x'][m], pre['x'][m], 'particles of the ended run %d' % m)


@P.facet('step', scenarios, quick=700, rule='every step of random problems on the surfaces recomputed, feasibility of the updated particles; non-trivial: noise and several particles')
def step_(s):
    run(s)


@P.facet('stay', lambda: scenarios(steps=(5, 30), Ms=(1, 2), Ns=(1, 5)), quick=150,
         rule='in longer runs (also with optimize and the default scheduler) all updated particles and the consensus-based best particle stay on the surface; non-trivial: five steps')
def stay(s):
    X0 = start(dict(s, on=True))
    e = scen.build(s, x=X0)
    n = 0
    if s['ns'] % 3 == 0:
        e.dyn.optimize()
        n = e.dyn.it
    else:
        for _ in range(s['steps']):
            if scen.step(e) is None:
                break
            n += 1
    if np.abs(e.dyn.x).max() > 1e6:
        skip('far away')
    for what, x in (('particles', e.dyn.x), ('best particles', e.dyn.best_particle)):
        if n == 0 and what == 'best particles':
            continue
        bad = off(s, np.asarray(x))
        if not np.all(bad < 1e-6):
            fail('%s off the %s by %g after %d steps' % (what, kind(s), np.nanmax(bad), n))
    if n >= 5:
        hit(kind(s))


@st.composite
def geometry_case(draw):
    d = draw(ints(2, 6))
    lead = draw(pick([1, 1], [2, 3], [1, 4], [3, 1]))
    return {'sdf': surface(draw, d), 'x': draw(gen.array(lead + [d], ('fine', 'grid', 'wide'))), 'z': draw(gen.array(lead + [d], ('fine', 'grid', 'wide'))),
            'y': draw(gen.array(lead + [d], ('fine', 'grid')))}


@P.facet('geometry', geometry_case, quick=500, rule='projections are feasible, idempotent and nearest; tangent projections idempotent, symmetric, orthogonal and tangential; '
         'the Laplacian of the sphere is the divergence of its unit normal; non-trivial: always')
def geometry(c):
    from cbx.dynamics.hypersurfacecbo import get_sdf
    sdf = dict(c['sdf']) if c['sdf'] is not None else None
    if sdf and 'nk' in sdf:
        sdf['nk'] = tuple(sdf['nk'])
    if sdf and 'a' in sdf:
        sdf['a'] = dec(sdf['a'])
    S = get_sdf(sdf)
    Y, Z, W = dec(c['x']), dec(c['z']), dec(c['y'])
    k, d = kind(c), Y.shape[-1]
    if k == 'sphere' and np.sqrt((Y ** 2).sum(-1)).min() < 1e-3:
        skip('the origin')
    if k == 'Stiefel':
        Y = Y + 3 * np.eye(*sdf['nk']).reshape(-1)
        sv = np.linalg.svd(Y.reshape(Y.shape[:-1] + sdf['nk']), compute_uv=False)
        if sv.min() < 1e-2:
            skip('a singular matrix')
    hit(k)
    keep = Y.copy()
    X = np.asarray(S.proj(Y))
    exact(Y, keep, 'the argument')
    shape_is(X, Y.shape, 'projection')
    sc = 1 + np.abs(Y).max()
    if np.any(off(c, X) > 1e-9):
        fail('projection off the %s by %g' % (k, off(c, X).max()))
    same(X, project(c, Y), 'projection', rtol=1e-8, atol=1e-9 * sc * (1 if k == 'plane' else 100))
    same(S.proj(X), X, 'projection of the projection', rtol=1e-9, atol=1e-9 * sc)
    T = np.asarray(S.proj_tangent_space(X, Z))
    shape_is(T, Z.shape, 'tangent projection')
    tol = 1e-9 * (1 + np.abs(Z).max()) * (1 + np.abs(W).max())
    same(S.proj_tangent_space(X, T), T, 'tangent projection of the tangent projection', rtol=1e-9, atol=tol)
    U = np.asarray(S.proj_tangent_space(X, W))
    same((T * W).sum(-1), (Z * U).sum(-1), 'symmetry of the tangent projection', rtol=1e-9, atol=10 * d * tol)
    same(((Z - T) * U).sum(-1), np.zeros(Z.shape[:-1]), 'product of the normal part with tangent vectors', rtol=0, atol=10 * d * tol)
    for i in np.ndindex(Z.shape[:-1]):
        same(T[i], tangent(c, X[i], Z[i]), 'tangent projection', rtol=1e-9, atol=tol)
    if k != 'Stiefel':
        # tangential: moving along T leaves the surface only to second order
        g = np.asarray(S.grad(X))
        same((g ** 2).sum(-1), np.ones(g.shape[:-1]), 'length of the unit normal', rtol=1e-9, atol=1e-9)
        same((g * T).sum(-1), np.zeros(g.shape[:-1]), 'product of the normal with tangent vectors', rtol=0, atol=10 * d * tol)
        Pm = np.asarray(S.get_proj_matrix(X))
        same(np.einsum('...ij,...j->...i', Pm, Z), T, 'projection matrix', rtol=1e-9, atol=10 * d * tol)
        h = 1e-4
        div = 0
        for j in range(d):
            s_ = h * (np.arange(d) == j)
            div = div + (np.asarray(S.grad(X + s_))[..., j] - np.asarray(S.grad(X - s_))[..., j]) / (2 * h)
        L = np.broadcast_to(np.asarray(S.Laplacian(X), float), X.shape[:-1] + (1,))[..., 0]
        same(L, div, 'Laplacian of the distance', rtol=1e-5, atol=1e-5)
    else:
        n, kk = sdf['nk']
        A = np.swapaxes(X.reshape(X.shape[:-1] + (n, kk)), -1, -2) @ T.reshape(T.shape[:-1] + (n, kk))
        same(A, -np.swapaxes(A, -1, -2), 'tangent condition of the Stiefel manifold', rtol=0, atol=10 * d * tol)
        same(np.broadcast_to(np.asarray(S.Laplacian(X), float), (1,))[0], (2 * n - kk - 1) / 2, 'Stiefel constant')


@P.facet('sizes', lambda: pick('long', 'large').flatmap(lambda z: scenarios(size=z)), quick=60,
         rule='as step, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    step_(s)
