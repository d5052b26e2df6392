"""C25: constraints and their implicit solvers."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C25', assumptions=['a Hessian that does not depend on the point may be returned without the leading shape',
                             'systems with condition number above 1e7 are outside the oracle',
                             'points where the norm of the sphere constraint is taken are arbitrary, including the origin'])
LEAD = ([], [1], [4], [2, 3], [1, 5], [3, 1], [2, 2, 2])


@st.composite
def cases(draw, lo=0, hi=3, lead=LEAD):
    d = draw(ints(1, 4))
    ld = draw(pick(*lead))
    cs = []
    for _ in range(draw(ints(lo, hi))):
        k = draw(pick('sphere', 'plane', 'quadric', 'quadric'))
        cs += draw(scen.constraint_list(k, d))
        if k == 'quadric' and draw(pick(False, False, True)):
            del cs[-1]['b']
        if k == 'quadric' and draw(pick(False, False, True)):
            del cs[-1]['c']
        if k == 'sphere' and draw(pick(False, False, True)):
            del cs[-1]['r']
        if k == 'plane' and draw(pick(False, True)):
            cs[-1]['a'] = draw(gen.array([d], ('fine', 'grid')))
    return {'cs': cs, 'x': draw(gen.array(ld + [d], ('fine', 'fine', 'grid', 'tiny'))), 'w': draw(gen.array(ld + [d], ('fine', 'grid'))),
            'factor': draw(pick(.1337, .01, 1.0177, 20.31, .5, 0.)), 'holes': draw(st.booleans()),
            'twin': draw(pick(False, False, True, 'spec'))}


def specs(c):
    out = scen.np_const(c['cs'])
    for k in out:
        k.pop('_', None)
        if k['name'] == 'plane' and not np.any(k['a']):
            skip('no normal')
    full = []
    for k in out:                                   # the same with defaults filled in, for the reference
        k = dict(k)
        if k['name'] == 'quadric':
            k.setdefault('b', np.zeros(len(k['A'])))
            k.setdefault('c', 0)
        if k['name'] == 'sphere':
            k.setdefault('r', 1.)
        full.append(k)
    return out, full


def build(c):
    from cbx.constraints import MultiConstraint, get_constraints
    cs, full = specs(c)
    given = [dict(k) for k in cs]
    if c['holes']:
        given = [None] + given
    if c.get('twin') == 'spec' and cs:        # the same dictionary once more
        given, cs, full = given + given[-1:], cs + cs[-1:], full + full[-1:]
    L = get_constraints(given if given or c['holes'] else None)
    if len(L) != len(cs):
        fail('%d constraints from a list of %d' % (len(L), len(cs)))
    if c.get('twin') is True and c['cs']:            # the same object once more: it counts twice
        L, full = L + L[:1], full + full[:1]
    return MultiConstraint(L), L, full


def full_hess(H, x, what):
    try:
        return np.broadcast_to(np.asarray(H), x.shape + (x.shape[-1],))
    except ValueError:
        fail('%s: shape %s for points %s' % (what, np.shape(H), x.shape))


def diff(f, x, h=1e-3):
    """Central differences along the last axis: the new last axis is the direction."""
    d = x.shape[-1]
    return np.stack([(np.asarray(f(x + h * (np.arange(d) == k))) - np.asarray(f(x - h * (np.arange(d) == k)))) / (2 * h) for k in range(d)], -1)


@P.facet('derivatives', lambda: cases(1, 1), quick=600, rule='value, gradient and Hessian of each constraint against the formula and against central differences (exact for quadratics), '
         'pointwise for any leading shape; non-trivial: a curved constraint or two coordinates')
def derivatives(c):
    _, L, full = build(dict(c, twin=False))
    x = dec(c['x'])
    g, k = L[0], full[0]
    nm = k['name']
    keep = x.copy()
    v, dv = np.asarray(g(x)), np.asarray(g.grad(x))
    H = full_hess(g.hessian(x), x, 'Hessian of ' + nm)
    exact(x, keep, 'the argument')
    shape_is(v, x.shape[:-1], 'value of ' + nm)
    shape_is(dv, x.shape, 'gradient of ' + nm)
    sc = (1 + np.abs(x).max() ** 2) * (1 + max([np.abs(k[a]).max() for a in ('A', 'b', 'c') if a in k] + [0])) * x.shape[-1]
    if nm == 'plane':
        sc += abs(k['b']) / np.linalg.norm(k['a'])
    same(v, ref.con_value(k, x), 'value of ' + nm, rtol=1e-11, atol=1e-12 * sc)
    same(dv, ref.con_grad(k, x), 'gradient of ' + nm, rtol=1e-11, atol=1e-12 * sc)
    same(H, ref.con_hess(k, x), 'Hessian of ' + nm, rtol=1e-11, atol=1e-12 * sc)
    same(dv, diff(g, x), 'gradient of %s against differences' % nm, rtol=1e-7, atol=1e-10 * sc)
    same(H, diff(g.grad, x), 'Hessian of %s against differences' % nm, rtol=1e-7, atol=1e-10 * sc)
    same(g.squared(x), v ** 2, 'squared value of ' + nm, rtol=1e-12, atol=0)
    same(g.grad_squared(x), 2 * v[..., None] * dv, 'gradient of the squared value of ' + nm, rtol=1e-11, atol=1e-12 * sc * sc)
    same(full_hess(g.hessian_squared(x), x, 'squared Hessian'), ref.sq_hess([k], x), 'Hessian of the squared value of ' + nm, rtol=1e-10, atol=1e-11 * sc * sc)
    h = 1e-4
    same(g.grad_squared(x), diff(g.squared, x, h), 'gradient of the squared value of %s against differences' % nm, rtol=1e-5, atol=1e-6 * sc * sc)
    same(full_hess(g.hessian_squared(x), x, 'squared Hessian'), diff(g.grad_squared, x, h), 'Hessian of the squared value of %s against differences' % nm, rtol=1e-5, atol=1e-6 * sc * sc)
    same(full_hess(g.call_times_hessian(x), x, 'value times Hessian'), v[..., None, None] * H, 'value times Hessian', rtol=1e-11, atol=1e-12 * sc * sc)
    d = x.shape[-1]
    for i, (p, vi) in enumerate(zip(x.reshape(-1, d), v.reshape(-1))):
        same(np.asarray(g(p[None]))[0], vi, 'value of %s at one point' % nm, rtol=1e-11, atol=1e-12 * sc)
        same(np.asarray(g.grad(p[None]))[0], dv.reshape(-1, d)[i], 'gradient of %s at one point' % nm, rtol=1e-11, atol=1e-12 * sc)
    if nm != 'plane' or d > 1:
        hit(nm)
    if x.ndim == 1:
        note('single point')


@P.facet('sums', lambda: cases(0, 6), quick=400, rule='lists of constraints: values, squares, gradients and Hessians are the sums of the parts; non-trivial: two constraints or more')
def sums(c):
    G, L, full = build(c)
    x = dec(c['x'])
    z, zh = np.zeros(x.shape[:-1]), np.zeros(x.shape + (x.shape[-1],))
    sc = (1 + np.abs(x).max() ** 4) * 1e4

    def cmp(got, want, what):
        if not L:
            got = np.broadcast_to(np.asarray(got, float), np.shape(want))     # a plain zero is fine without constraints
        same(np.broadcast_to(got, np.shape(want)), want, what, rtol=1e-10, atol=1e-13 * sc)
    cmp(G(x), sum((ref.con_value(k, x) for k in full), z), 'sum of the constraints')
    cmp(G.squared(x), sum((ref.con_value(k, x) ** 2 for k in full), z), 'sum of the squared constraints')
    cmp(G.grad_squared_sum(x), ref.sq_grad(full, x), 'gradient of the sum of squares')
    cmp(G.hessian_squared_sum(x), ref.sq_hess(full, x), 'Hessian of the sum of squares')
    cmp(G.hessian_sum(x), sum((ref.con_hess(k, x) for k in full), zh), 'sum of the Hessians')
    cmp(G.call_times_hessian_sum(x), sum((ref.con_value(k, x)[..., None, None] * ref.con_hess(k, x) for k in full), zh), 'sum of value times Hessian')
    if len(L) > 1:
        hit(*sorted(k['name'] for k in full))


def systems(full, p, t):
    d = len(p)
    return (np.eye(d) + t * ref.sq_hess(full, p),
            np.eye(d) + t * sum((ref.con_value(k, p) * ref.con_hess(k, p) for k in full), np.zeros((d, d))),
            np.eye(d) + 2 * t * sum((ref.con_value(k, p) * ref.con_hess(k, p) for k in full), np.zeros((d, d))))


@P.facet('solvers', lambda: cases(0, 5, LEAD[1:]), quick=800, rule='residuals of the three implicit systems, pointwise; non-trivial: a constraint with non-zero factor')
def solvers(c):
    G, L, full = build(c)
    x, w = dec(c['x']), dec(c['w'])
    t, d = c['factor'], x.shape[-1]
    keep = x.copy(), w.copy()
    for p in x.reshape(-1, d):
        for A in systems(full, p, t):
            if np.linalg.cond(A) > 1e12:
                skip('a singular system')
    sq = np.asarray(G.solve_Id_hessian_squared_sum(x, w, factor=t))
    ch = np.asarray(G.solve_Id_call_times_hessian(x, w, factor=t))
    if len(L) > 1:
        rejects(lambda: G.solve_Id_plus_call_grad(x, w, factor=t), (ValueError, NotImplementedError), 'implicit gradient step for several constraints')
        pg = None
    else:
        pg = np.asarray(G.solve_Id_plus_call_grad(x, w, factor=t))
    exact(x, keep[0], 'the points')
    exact(w, keep[1], 'the right-hand sides')
    for nm, z in (('squared Hessian', sq), ('value times Hessian', ch), ('implicit gradient', pg)):
        if z is None:
            continue
        shape_is(z, w.shape, 'solution of the %s system' % nm)
        if not L or t == 0:
            same(z, w, 'solution of the %s system without constraint' % nm, rtol=1e-14, atol=1e-14)
    if L and t:
        hit(*sorted(k['name'] for k in full))
    for i in np.ndindex(x.shape[:-1]):
        p, r = x[i], w[i]
        A1, A2, A3 = systems(full, p, t)
        for nm, A, z in (('squared Hessian', A1, sq[i]), ('value times Hessian', A2, ch[i])):
            if np.linalg.cond(A) > 1e7:
                note('nearly singular')
                continue
            same(A @ z, r, 'residual of the %s system' % nm, rtol=0, atol=1e-9 * (1 + np.abs(A).max() * np.abs(z).max()))
        if pg is not None and L:
            k, z = full[0], pg[i]
            v = ref.con_value(k, p)
            if np.linalg.cond(A3) > 1e7:
                note('nearly singular')
                continue
            same(z + 2 * t * v * ref.con_grad(k, z), r, 'residual of the implicit gradient system', rtol=0,
                 atol=1e-9 * (1 + np.abs(A3).max() * np.abs(z).max() + np.abs(2 * t * v * ref.con_grad(k, 0 * z)).max()))


@P.facet('none', lambda: st.fixed_dictionaries({'x': gen.array([2, 3, 2], ('fine',)), 'bad': pick('Sphere', '', 'ball', 'planes'), 'factor': q(0, 3, 2)}), quick=60,
         rule='the empty constraint is zero with zero derivatives, unknown names are rejected; non-trivial: always')
def none(c):
    import cbx.constraints as cc
    hit()
    x = dec(c['x'])
    n = cc.NoConstraint()
    exact(n(x), np.zeros(x.shape[:-1]), 'value without constraint')
    exact(n.grad(x), 0 * x, 'gradient without constraint')
    exact(n.hessian(x), np.zeros(x.shape + (2,)), 'Hessian without constraint')
    exact(n.hessian_squared(x), np.zeros(x.shape + (2,)), 'squared Hessian without constraint')
    same(n.solve_Id_hessian_squared(x, x, factor=c['factor']), x, 'solution without constraint', rtol=1e-14)
    same(n.solve_Id_call_times_hessian(x, x, factor=c['factor']), x, 'solution without constraint', rtol=1e-14)
    for e in (None, [], [None], [None, None]):
        if cc.get_constraints(e) != []:
            fail('constraints from %r' % (e,))
    rejects(lambda: cc.get_constraints([{'name': c['bad']}]), (KeyError, ValueError), 'constraint %r' % c['bad'])
