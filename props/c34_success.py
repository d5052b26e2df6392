"""C34: success evaluation."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C34', assumptions=['runs within rounding of a tolerance or threshold may be decided either way, unless distance and tolerance are exactly representable'])


@st.composite
def crits(draw, dims):
    out = []
    for _ in range(draw(pick(1, 1, 2, 2, 3, 3, 6, 0))):
        if draw(st.booleans()):
            out.append({'k': 'dist', 'x': draw(gen.array(dims, ('grid', 'grid', 'fine'))), 'tol': draw(pick(None, .5, 1.5, 2.0, 4.1, 0.)), 'p': draw(pick(None, 'inf', 1, 2, .5, 3, '-inf', 0))})
        else:
            out.append({'k': 'value', 'thresh': draw(pick(None, .5, 2., 8., -1., 1003.)), 'at': draw(pick(None, None, 0, 1, 2))})
    return out


@st.composite
def cases(draw):
    M, N = draw(ints(1, 5)), draw(ints(1, 4))
    dims = draw(pick([1], [2], [3], [2, 2], [3, 1], [1, 3], [1, 1]))
    return {'x': draw(gen.array([M, N] + dims, ('grid', 'fine'))), 'f': draw(gen.objective(kinds=('quad', 'abs', 'floor', 'const'), inf=True)), 'crits': draw(crits(dims)), 'verb': draw(pick(None, 0, 1, 2)),
            'steps': draw(ints(0, 2)), 'cls': draw(pick('CBO', 'CBOMemory', 'PSO')), 'near': draw(pick(1., 1., .25, 0.)), 'sign': draw(pick(1., 1., 1., -1.))}


def norm(v, p):
    v = [abs(t) for t in v]
    if p in (None, 'inf'):
        return max(v)
    if p == '-inf':
        return min(v)
    if p == 0:
        return float(sum(t != 0 for t in v))
    if p in (.5, 3):
        return math.fsum(t ** p for t in v) ** (1 / p)
    return math.fsum(v) if p == 1 else math.sqrt(math.fsum(t * t for t in v))


def members(c, k, bp, f):
    """-> (certain, possible) runs meeting a criterion, in the order of the runs."""
    sure, maybe, dist = [], [], []
    for m in range(len(bp)):
        if k['k'] == 'dist':
            v = norm((bp[m] - dec(k['x'])).reshape(-1), k['p'])
            t = .25 if k['tol'] is None else k['tol']
            dist.append(v)
        else:
            v = f.value(bp[:, None])[m, 0]
            t = .1 if k['thresh'] is None else k['thresh']
            if k.get('at') is not None:    # exactly the value of one of the runs, which is not below it
                if v < k['thresh']:
                    sure.append(m)
                    maybe.append(m)
                continue
        u = 1e-12 * (1 + abs(t)) if k['k'] == 'value' or k['p'] in (.5, 2, 3) else 0.
        if v < t - u:
            sure.append(m)
        if v < t + u:
            maybe.append(m)
    return sure, maybe, dist


def check_result(r, sure, maybe, M, what):
    idx = [int(i) for i in np.asarray(r['idx']).reshape(-1)]
    if not set(sure) <= set(idx) <= set(maybe) or idx != sorted(set(idx)):
        fail('%s: runs %s, expected %s' % (what, idx, sure))
    if r['num'] != len(idx) or abs(r['rate'] - len(idx) / M) > 1e-12:
        fail('%s: %d of %d runs, reported number %r and rate %r' % (what, len(idx), M, r['num'], r['rate']))
    return idx


@P.facet('criteria', cases, quick=700, rule='dynamics with any number of runs and any domain shape, zero to two steps after the start, against a loop over the runs; non-trivial: some but not all runs succeed')
def criteria(c):
    import cbx.dynamics as D
    from cbx.utils import success as S
    x = dec(c['x'])
    M = x.shape[0]
    x = x * c['near']
    f = scen.Objective(c['f'], x.ndim - 2, wrap=(lambda v, p: -v) if c['sign'] < 0 else None)
    dyn = getattr(D, c['cls'])(f, x=x.copy(), f_dim='3D', verbosity=0, check_f_dims=False, seed=3, sigma=.5, max_it=5)
    for _ in range((c['steps'] or 1) if c['sign'] > 0 else 0):       # there is no consensus of infinitely good particles
        dyn.step()
    if c['steps'] == 0 or c['sign'] < 0:                    # exactly representable best particles
        dyn.best_particle = x[:, 0].copy()
    bp = np.array(dyn.best_particle, copy=True)
    keep = {n: np.array(getattr(dyn, n), copy=True) for n in ('x', 'best_particle', 'best_energy', 'num_f_eval', 'energy', 'it', 't')}
    objs, sure_all, maybe_all = [], set(range(M)), set(range(M))
    for k in c['crits']:
        kw = {}
        if k.get('at') is not None:
            k = dict(k, thresh=float(f.value(bp[:, None])[k['at'] % M, 0]))
            note('threshold met exactly')
        if k['k'] == 'dist':
            if k['tol'] is not None:
                kw['tol'] = k['tol']
            if k['p'] is not None:
                kw['p'] = float(k['p']) if isinstance(k['p'], str) else k['p']
            xt = dec(k['x'])
            o = S.dist_to_min(xt, **kw)
            alt = lambda: S.dist_to_min_success(bp.copy(), xt, **kw)
        else:
            if k['thresh'] is not None:
                kw['thresh'] = k['thresh']
            o = S.value_thresh(**kw)
            alt = lambda: S.value_success(bp[:, None].copy(), f, **kw)
        sure, maybe, dist = members(c, k, bp, f)
        for fn, what in ((lambda: o(dyn), 'criterion'), (alt, 'function')):
            r = fn()
            check_result(r, sure, maybe, M, '%s %s' % (k['k'], what))
            if k['k'] == 'dist':
                same(np.asarray(r['normdiff']), np.array(dist), 'distances', rtol=1e-12, atol=1e-13)
        objs.append(o)
        sure_all &= set(sure)
        maybe_all &= set(maybe)
    kw = {} if c['verb'] is None else {'verbosity': c['verb']}
    ev = S.evaluation(objs, **kw)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = ev(dyn)
    idx = check_result(r, sorted(sure_all), sorted(maybe_all), M, 'evaluation')
    text = out.getvalue()
    if (c['verb'] != 0) != bool(text):
        fail('verbosity %r printed %r' % (c['verb'], text))
    if text:
        for s in (str(len(idx) / M), str(len(idx)), str(np.array(idx, dtype=int))):
            if s not in text:
                fail('%r is missing in the printed report %r' % (s, text))
    for n, v in keep.items():
        exact(np.asarray(getattr(dyn, n)), v, n + ' across the evaluation')
    if 0 < len(idx) < M:
        hit('%d criteria' % len(objs))
    note('%d runs' % M)


@P.facet('tolerance', lambda: st.fixed_dictionaries({'x': st.tuples(ints(1, 6), ints(1, 4)).flatmap(lambda t: gen.array(list(t), ('grid', 'fine'))), 'p': pick('inf', 1, 2), 'tols': st.lists(q(0, 5, 2), min_size=2, max_size=4)}),
         quick=200, rule='larger tolerances select more runs, larger p gives smaller distances, and the minimiser itself is at distance zero; non-trivial: the sets differ')
def tolerance(c):
    from cbx.utils.success import dist_to_min_success
    x = dec(c['x'])
    p = float('inf') if c['p'] == 'inf' else c['p']
    xt = x[0].copy()
    prev = None
    for t in sorted(c['tols']):
        r = dist_to_min_success(x, xt, tol=t, p=p)
        s = set(int(i) for i in r['idx'])
        if (0 in s) != (t > 0):
            fail('the minimiser itself with tolerance %r: %s' % (t, s))
        if prev is not None and not prev <= s:
            fail('tolerance %r selects %s, a smaller one %s' % (t, s, prev))
        if prev is not None and prev != s:
            hit()
        prev = s
    a = [np.asarray(dist_to_min_success(x, xt, p=v)['normdiff']) for v in (1, 2, float('inf'))]
    if np.any(a[0] < a[1] - 1e-12 * (1 + a[0])) or np.any(a[1] < a[2] - 1e-12 * (1 + a[1])):
        fail('distances in the norms 1, 2, inf: %s' % a)
