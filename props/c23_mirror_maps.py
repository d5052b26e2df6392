"""C23: mirror maps."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C23', assumptions=['weighted_L2.grad_conj is declared not implemented by the library and excluded',
                             'Entropy is concave by its own convention: only gradient and inverse laws',
                             'Hessians take arrays of shape (n, d)', 'the hyperplane with the default normal takes (M, N, d) arrays'])

DIFF = ('L2', 'LogBarrierBox', 'NonsmoothBarrier', 'ElasticNet', 'Entropy', 'EntropySimplex', 'ProjectionBall')
LEAD = ([], [1], [4], [2, 3], [1, 5], [3, 1], [2, 2, 2])


@st.composite
def smooth_case(draw, maps=DIFF):
    nm = draw(pick(*maps))
    lead = draw(pick(*LEAD))
    d = draw(ints(1, 5))
    if nm == 'ProjectionBall' and not lead:
        lead = [3]
    c = {'name': nm, 'x': draw(gen.array(lead + [d], ('unit', 'grid'))), 'y': draw(gen.array(lead + [d], ('unit',))),
         'sgn': draw(gen.array(lead + [d], ('fine',))), 'range': draw(pick(1., 1., 50., 1e-3, 2e3)), 'edge': draw(pick(1e-2, 1e-5, .5, 1e-8, 1e-12, 1e-12)), 'par': {}}
    if nm == 'L2':
        c['par'] = {'lamda': draw(pick(1., .25, 7.))}
    if nm == 'ElasticNet':
        c['par'] = {'delta': draw(pick(1., .25, 3.)), 'lamda': draw(pick(1., 0., .3, 5.))}
    if nm == 'ProjectionBall':
        c['par'] = {'radius': draw(pick(1., .3, 4.)), 'center': draw(pick(0., 0., .7, -2.))}
    return c


def get(c):
    import cbx.dynamics.mirrorcbo as mc
    p = dict(c['par'])
    for k in ('center', 'a'):
        if isinstance(p.get(k), dict):
            p[k] = dec(p[k])
    if 'nk' in p:
        p['nk'] = tuple(p['nk'])
    if c['name'] == 'ProjectionStiefel':
        return mc.ProjectionStiefel(**p)
    return mc.get_mirror_map(dict(name=c['name'], **p))


def point(c, key='x'):
    """A point of the domain of the map."""
    u = dec(c[key])
    if c['x']['k'] == 'grid' and key == 'x':
        u = np.abs(u) / 6
    s = np.sign(dec(c['sgn'])) if key == 'x' else np.where(dec(c['sgn']) > 3, -1., 1.)
    n = c['name']
    if n in ('LogBarrierBox', 'NonsmoothBarrier'):
        return np.clip(4 * u if c['x']['k'] == 'grid' and key == 'x' else u, 0, 1 - c['edge']) * s      # the grid reaches the edge
    if n == 'Entropy':
        return np.maximum(u, 1e-3) * (c['range'] if c['range'] > 1 else 1)
    if n == 'EntropySimplex':
        u = np.maximum(u, c['edge'] * 1e-3)
        return u / u.sum(-1, keepdims=True)
    if n == 'ProjectionBall':
        v = u * s
        r = c['par']['radius']
        return c['par']['center'] + r * v / max(1., np.sqrt(v.shape[-1]))
    return u * s * c['range']


@P.facet('inverse', smooth_case, quick=600, rule='grad_conj(grad(x)) = x on the domain of every map; non-trivial: a point off zero')
def inverse(c):
    m = get(c)
    x = point(c)
    keep = x.copy()
    y = m.grad(x)
    shape_is(y, x.shape, 'gradient of %s' % c['name'])
    z = m.grad_conj(y)
    exact(x, keep, 'the argument')
    if c['name'] == 'LogBarrierBox':
        # the derivative of the value, also where central differences cannot follow it
        gap = (1 - np.abs(x)).min()
        same(y, 2 * x / ((1 - x) * (1 + x)), 'gradient of LogBarrierBox', rtol=1e-9 + 1e-14 / gap, atol=1e-12)
    eps = 1.3e-7 if c['name'] == 'Entropy' else 0
    same(z, x, 'inverse mirror image of the mirror image (%s)' % c['name'], rtol=1e-9, atol=1e-9 + eps)
    # and the other way round, where the gradient is onto
    if c['name'] in ('L2', 'LogBarrierBox'):
        w = 20 * (dec(c['y']) - .5) * c['range']
        if c['name'] == 'LogBarrierBox':
            same(m.grad_conj(w), w / (1 + np.sqrt(1 + w ** 2)), 'inverse mirror image (LogBarrierBox)', rtol=1e-12, atol=1e-14)
        same(m.grad(m.grad_conj(w)), w, 'mirror image of the inverse mirror image (%s)' % c['name'], rtol=1e-6, atol=1e-8)
    if np.any(x):
        hit(c['name'])


@P.facet('derivatives', smooth_case, quick=600, rule='central differences of the value against the gradient, and of the gradient against the Hessian; '
         'non-trivial: differentiable point')
def derivatives(c):
    m = get(c)
    n = c['name']
    if n == 'EntropySimplex':
        c = dict(c, name='EntropySimplex')
    x = point(dict(c, edge=max(c['edge'], 1e-4)))
    d = x.shape[-1]
    if n in ('ElasticNet', 'NonsmoothBarrier'):
        x = np.where(np.abs(x) < 1e-2, .1 * (1 + 0 * x), x)       # not at the kink
    if n == 'ProjectionBall':
        x = c['par']['center'] + .9 * (x - c['par']['center'])
    h = 1e-5 * (1 - np.abs(x) if n in ('LogBarrierBox', 'NonsmoothBarrier') else np.maximum(np.abs(x), 1e-2))
    if n != 'EntropySimplex':
        v = np.asarray(m(x))
        shape_is(v, x.shape[:-1], 'value of %s' % n)
        g = np.asarray(m.grad(x))
        for k in range(d):
            e = h * (np.arange(d) == k)
            fd = (np.asarray(m(x + e)) - np.asarray(m(x - e))) / (2 * h[..., k])
            same(g[..., k], fd, 'component %d of the gradient of %s' % (k, n), rtol=1e-5,
                 atol=1e-4 if n == 'Entropy' else 1e-6 + 1e-14 * np.abs(v).max() / h.min())
        hit(n)
    if n in ('L2', 'LogBarrierBox', 'NonsmoothBarrier'):
        X = x.reshape(-1, d)
        hh = h.reshape(-1, d)
        H = np.asarray(m.hessian(X))
        shape_is(H, X.shape + (d,), 'Hessian of %s' % n)
        for k in range(d):
            e = hh * (np.arange(d) == k)
            A, B = m.grad(X + e), m.grad(X - e)
            fd = (A - B) / (2 * hh[:, k:k + 1])
            same(H[..., k], fd, 'column %d of the Hessian of %s' % (k, n), rtol=1e-4, atol=1e-5 + 1e-13 * np.abs(A).max() / hh.min())


@P.facet('bregman', lambda: smooth_case(('L2', 'LogBarrierBox', 'NonsmoothBarrier', 'ElasticNet', 'ProjectionBall')), quick=400,
         rule='Bregman distances of convex maps are non-negative, zero at equality and equal F(p)-F(q)-<grad F(q),p-q>; non-trivial: p differs from q')
def bregman(c):
    m = get(c)
    a, b = point(c), point(c, 'y')
    D = np.asarray(m.Bregman_distance(a, b))
    shape_is(D, a.shape[:-1], 'Bregman distance')
    g = np.asarray(m.grad(b))
    F = np.abs(np.asarray(m(a))).max() + np.abs(np.asarray(m(b))).max() + (np.abs(g) * np.abs(a - b)).sum(-1).max()
    if np.any(D < -1e-11 * (1 + F)):
        fail('Bregman distance of %s: %r' % (c['name'], D.min()))
    same(D, m(a) - m(b) - (g * (a - b)).sum(-1), 'Bregman distance of %s' % c['name'], rtol=1e-9, atol=1e-11 * (1 + F))
    same(m.Bregman_distance(a, a), np.zeros(a.shape[:-1]), 'Bregman distance of a point to itself', rtol=0, atol=1e-12 * (1 + F))
    if c['name'] == 'L2':
        same(D, .5 * c['par']['lamda'] * ((a - b) ** 2).sum(-1), 'Bregman distance of L2', rtol=1e-7, atol=1e-11 * (1 + F))
    if np.any(a != b):
        hit(c['name'])


# ---- projections -----------------------------------------------------------------------------

@st.composite
def proj_case(draw):
    nm = draw(pick('ProjectionBall', 'ProjectionHyperplane', 'ProjectionSphere', 'ProjectionSquare', 'ProjectionStiefel', 'EntropySimplex'))
    lead = draw(pick(*LEAD))
    d = draw(ints(1, 5))
    c = {'name': nm, 'par': {}, 'scale': draw(pick(1., 1., 1e-3, 1e5, 1e-9, 1e-120))}
    if nm == 'ProjectionBall':
        c['par'] = {'radius': draw(pick(1., .3, 4.)), 'center': draw(st.one_of(pick(0., .5), gen.array([d], ('fine',))))}
    if nm == 'ProjectionHyperplane':
        if draw(pick(True, True, False)):
            c['par'] = {'a': draw(gen.array([d], ('pos', 'fine'))), 'b': draw(q(-3, 3, 2))}
        else:
            lead = [2, 3]
            c['par'] = draw(pick({}, {'b': 1.5}))
    if nm == 'ProjectionSphere':
        c['par'] = draw(pick({}, {'r': 2.}, {'r': .3}))
    if nm == 'ProjectionSquare':
        c['par'] = draw(pick({}, {'r': 2.}, {'r': .3}))
    if nm == 'ProjectionStiefel':
        n = draw(ints(1, 3))
        k = draw(ints(1, n))
        c['par'] = {'nk': [n, k]}
        d = n * k
    c['y'] = draw(gen.array(lead + [d], ('fine', 'fine', 'grid', 'wide')))
    c['s'] = draw(gen.array([6, d], ('fine', 'grid')))
    return c


def in_set(c, p, sc):
    n, par = c['name'], c['par']
    if n == 'ProjectionBall':
        ctr = dec(par['center']) if isinstance(par['center'], dict) else par['center']
        return np.linalg.norm(p - ctr) <= par['radius'] + 1e-12 * sc
    if n == 'ProjectionHyperplane':
        a, b = plane(c, p.size)
        return abs(a @ p - b) <= 1e-11 * np.linalg.norm(a) * (sc + abs(b) / np.linalg.norm(a))
    if n == 'ProjectionSphere':
        return abs(np.linalg.norm(p) - par.get('r', 1.)) <= 1e-9
    if n == 'ProjectionSquare':
        return abs(np.abs(p).max() - par.get('r', 1.)) <= 1e-12
    if n == 'ProjectionStiefel':
        Q = p.reshape(par['nk'])
        return np.abs(Q.T @ Q - np.eye(Q.shape[1])).max() < 1e-9
    return np.all(p >= 0) and abs(p.sum() - 1) < 1e-12


def plane(c, d):
    a = dec(c['par']['a']) if 'a' in c['par'] else np.ones(d)
    return a, c['par'].get('b', 0)


def member(c, v):
    """A point of the set made from any vector, by an independent construction."""
    n, par = c['name'], c['par']
    if n == 'ProjectionBall':
        ctr = dec(par['center']) if isinstance(par['center'], dict) else par['center']
        r = np.linalg.norm(v)
        return ctr + v * (par['radius'] / r if r > par['radius'] else 1.)
    if n == 'ProjectionHyperplane':
        a, b = plane(c, v.size)
        k = int(np.argmax(np.abs(a)))
        v = v.copy()
        v[k] = (b - a @ v + a[k] * v[k]) / a[k]
        return v
    if n == 'ProjectionSphere':
        return par.get('r', 1.) * v / np.linalg.norm(v) if np.any(v) else None
    if n == 'ProjectionSquare':
        r = par.get('r', 1.)
        v = np.clip(v / 4, -r, r)
        v[int(abs(v.sum() * 64)) % v.size] = r if v.sum() >= 0 else -r
        return v
    if n == 'ProjectionStiefel':
        V = v.reshape(par['nk'])
        if np.linalg.matrix_rank(V) < V.shape[1]:
            return None
        return np.linalg.qr(V)[0].reshape(-1)
    return None


def exact_proj(c, y):
    n, par = c['name'], c['par']
    if n == 'ProjectionBall':
        ctr = dec(par['center']) if isinstance(par['center'], dict) else np.full(y.shape, float(par['center']))
        r = np.sqrt(((y - ctr) ** 2).sum())
        return y if r <= par['radius'] else ctr + (y - ctr) * par['radius'] / r
    if n == 'ProjectionHyperplane':
        a, b = plane(c, y.size)
        return y + (b - a @ y) / (a @ a) * a
    if n == 'ProjectionSphere':
        return par.get('r', 1.) * y / np.sqrt((y ** 2).sum())
    return None


@P.facet('projections', proj_case, quick=800, rule='every projected point lies in the set, no generated point of the set (nor any face of the square) is nearer, and '
         'points of the set stay fixed; non-trivial: the point is outside the set')
def projections(c):
    m = get(c)
    Y = dec(c['y']) * c['scale']
    d = Y.shape[-1]
    if c['name'] == 'ProjectionSphere' and np.any((Y ** 2).sum(-1) == 0):
        skip('the origin has no projection to the sphere')
    if c['name'] == 'ProjectionHyperplane' and not np.any(plane(c, d)[0]):
        skip('no normal')
    keep = Y.copy()
    Z = np.asarray(m.grad_conj(Y))
    exact(Y, keep, 'the argument')
    shape_is(Z, Y.shape, 'projection')
    if not np.all(np.isfinite(Z)):
        fail('the projection is not finite')
    if c['name'] != 'EntropySimplex':
        exact(m.grad(Y), Y, 'mirror image')
    for y, z in zip(Y.reshape(-1, d), Z.reshape(-1, d)):
        sc = 1 + np.abs(y).max()
        if not in_set(c, z, sc):
            fail('%s of %s gives %s outside the set' % (c['name'], y.tolist(), z.tolist()))
        dist = np.linalg.norm(y - z)
        w = exact_proj(c, y)
        if w is not None:
            same(z, w, c['name'], rtol=1e-9, atol=1e-10 * sc)
        if c['name'] == 'ProjectionSquare':
            r = c['par'].get('r', 1.)
            for k in range(d):
                for s in (-r, r):
                    t = np.clip(y, -r, r)
                    t[k] = s
                    if np.linalg.norm(y - t) < dist - 1e-10 * sc:
                        fail('%s: %s is nearer to %s than %s' % (c['name'], t.tolist(), y.tolist(), z.tolist()))
        if c['name'] == 'ProjectionStiefel':
            S = z.reshape(c['par']['nk']).T @ y.reshape(c['par']['nk'])
            if np.abs(S - S.T).max() > 1e-9 * sc or np.linalg.eigvalsh((S + S.T) / 2).min() < -1e-9 * sc:
                fail('ProjectionStiefel: %s is not the polar factor' % z.tolist())
        for v in dec(c['s']):
            p = member(c, v)
            if p is None:
                continue
            if np.linalg.norm(y - p) < dist - 1e-9 * sc - 1e-9:
                fail('%s: %s is nearer to %s than %s' % (c['name'], p.tolist(), y.tolist(), z.tolist()))
        if c['name'] != 'EntropySimplex' and dist > 1e-6 * sc:
            hit(c['name'])
        if c['name'] == 'EntropySimplex' and d > 1:
            hit(c['name'])
            o = np.argsort(y)                              # larger dual values never get smaller weights
            if np.any(np.diff(z[o]) < -1e-15):
                fail('EntropySimplex does not keep the order')
            L = y - y.max()
            w = np.exp(L.astype(np.longdouble))
            same(z, np.asarray(w / w.sum(), float), 'softmax', rtol=1e-9 * sc, atol=1e-12)
    fixed = [p for p in (member(c, v) for v in dec(c['s'])) if p is not None]
    if fixed:
        F = np.array(fixed)
        lead = (1, len(F)) if Y.ndim == 3 else (len(F),)
        if c['name'] == 'ProjectionHyperplane' and 'a' not in c['par']:
            lead = (1, len(F))
        F = F.reshape(lead + (d,))
        same(m.grad_conj(F), F, 'points of the set under %s' % c['name'], rtol=1e-9, atol=1e-9)
    if c['name'] != 'EntropySimplex':
        same(m.grad_conj(Z), Z, 'projection of the projection', rtol=1e-9, atol=1e-10 * (1 + np.abs(Y).max()) if c['name'] == 'ProjectionHyperplane' else 1e-9)


@P.facet('pointwise', lambda: st.one_of(proj_case(), smooth_case()), quick=300,
         rule='gradient and inverse of a stack of points equal those of each point alone; non-trivial: two points or more')
def pointwise(c):
    m = get(c)
    if 'scale' in c:
        Y = dec(c['y']) * c['scale']
    else:
        Y = np.asarray(m.grad(point(c)))
    d = Y.shape[-1]
    if c['name'] == 'ProjectionSphere' and np.any((Y ** 2).sum(-1) == 0):
        skip('the origin has no projection to the sphere')
    if c['name'] == 'ProjectionHyperplane' and not np.any(plane(c, d)[0]):
        skip('no normal')
    Z = np.asarray(m.grad_conj(Y)).reshape(-1, d)
    flat = Y.reshape(-1, d)
    one = (1, 1, d)
    for i in range(len(flat)):
        same(np.asarray(m.grad_conj(flat[i].reshape(one))).reshape(-1), Z[i], 'inverse mirror image of one point (%s)' % c['name'], rtol=1e-9, atol=1e-9)
    if len(flat) > 1:
        hit(c['name'])


@st.composite
def weighted_case(draw):
    d = draw(ints(1, 4))
    return {'A': draw(gen.array([d, d], ('fine', 'grid'))), 'x': draw(gen.array([draw(ints(1, 4)), d], ('fine', 'grid')))}


@P.facet('weighted', weighted_case, quick=100, rule='value, gradient and Hessian of weighted_L2 are consistent; non-trivial: non-zero matrix')
def weighted(c):
    import cbx.dynamics.mirrorcbo as mc
    A, X = dec(c['A']), dec(c['x'])
    m = mc.get_mirror_map({'name': 'weighted_L2', 'A': A})
    G = np.asarray(m.grad(X))
    shape_is(G, X.shape, 'gradient')
    for i, x in enumerate(X):
        same(m(x), .5 * x @ A @ x, 'value of weighted_L2', rtol=1e-9, atol=1e-9)
        same(G[i], .5 * (A + A.T) @ x, 'gradient of weighted_L2', rtol=1e-9, atol=1e-9)
    H = np.asarray(m.hessian(X))
    shape_is(H, X.shape + (X.shape[1],), 'Hessian')
    same(H, np.broadcast_to(.5 * (A + A.T), H.shape), 'Hessian of weighted_L2', rtol=1e-9, atol=1e-9)
    if np.any(A):
        hit()


@P.facet('lookup', lambda: st.fixed_dictionaries({'bad': pick('l2', 'Ball', '', 'Projection', 'none'), 'name': pick('ElasticNet', 'L2', 'ProjectionBall', 'LogBarrierBox'),
                                                  'x': gen.array([2, 3, 2], ('fine', 'wide')), 'r': q(.1, 3, 2)}), quick=80,
         rule='names, dictionaries and objects select the documented map, unknown names are rejected, and a map turned into a post-process applies its inverse; non-trivial: always')
def lookup(c):
    import cbx.dynamics.mirrorcbo as mc
    hit(c['name'])
    X = dec(c['x'])
    rejects(lambda: mc.get_mirror_map(c['bad']), (ValueError, KeyError), 'mirror map %r' % c['bad'])
    rejects(lambda: mc.get_mirror_map({'name': c['bad']}), (ValueError, KeyError), 'mirror map %r' % c['bad'])
    for k in (None, 'None', 'L2', {'name': 'L2'}):
        m = mc.get_mirror_map(k)
        exact(m.grad(X), X, 'mirror image of the default map')
        exact(m.grad_conj(X), X, 'inverse mirror image of the default map')
    same(mc.get_mirror_map({'name': 'L2', 'lamda': c['r']}).grad(X), c['r'] * X, 'scaled L2')
    m = mc.get_mirror_map(c['name'])
    same(m.grad_conj(X), mc.get_mirror_map({'name': c['name']}).grad_conj(X), 'map by name and by dictionary')
    obj = mc.ElasticNet(delta=2., lamda=c['r'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if mc.get_mirror_map(obj) is not obj:
            fail('a mirror map object is not used as it is')
    B = mc.MirrorMaptoPostProcessProx(mc.ProjectionBall)(radius=c['r'])

    class Dyn:
        x = X.copy()
    B(Dyn)
    same(Dyn.x, mc.ProjectionBall(radius=c['r']).grad_conj(X), 'post-processed particles')
    base = mc.MirrorMap()
    for f in (base.grad, base.grad_conj, base.hessian, base):
        rejects(lambda: f(X), (NotImplementedError,), 'abstract mirror map')
