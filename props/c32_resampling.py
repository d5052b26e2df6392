"""C32: resampling."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C32', assumptions=['a run that has ended does not become active again', 'movements within rounding of a threshold may be decided either way'])


class Dyn:
    to_numpy = staticmethod(lambda x: x)
    norm = staticmethod(np.linalg.norm)
    copy = staticmethod(np.copy)


@st.composite
def hist_cases(draw):
    M, K = draw(ints(1, 4)), draw(ints(1, 14))
    d = draw(pick([1], [2], [3], [2, 2], [3, 1]))
    return {'M': M, 'vals': draw(st.lists(st.lists(ints(0, 3), min_size=M, max_size=M), min_size=K, max_size=K)), 'dims': d, 'c': draw(gen.array([K, M] + d, ('grid', 'tiny', 'fine'))),
            'ends': draw(st.lists(ints(0, 20), min_size=M, max_size=M)), 'wait': draw(pick(1, 2, 3, 5)), 'patience': draw(pick(1, 2, 3, 5)), 'thresh': draw(pick(1.013e-3, .5013, 1.417, .0101)),
            'inf': draw(st.booleans()), 'inplace': draw(st.booleans()), 'unit': draw(pick(1., 1., 1e-14, 1e-150, 1e150)), 'still': draw(st.lists(ints(0, 4), min_size=K, max_size=K))}


def ints_of(a, what, M):
    a = np.asarray(a)
    if a.ndim != 1 or (a.size and not np.issubdtype(a.dtype, np.integer)):
        fail('%s: %r is not a one-dimensional array of indices' % (what, a))
    return sorted(int(i) for i in a)


@P.facet('loss', hist_cases, quick=500, rule='histories of best energies: a run is selected exactly when its best energy did not improve in the last calls; non-trivial: a selection and an improvement after it')
def loss(c):
    from cbx.utils.resampling import loss_update_resampling
    M, W = c['M'], c['wait']
    r = loss_update_resampling(W) if W != 5 else loss_update_resampling()
    d = Dyn()
    d.M = M
    best = np.full(M, np.inf)
    ref_best, wait = [float('inf')] * M, [0] * M
    sel = imp = False
    for row in c['vals']:
        v = c['unit'] * np.array([3. - x for x in row])
        if not c['inf']:
            best = np.minimum(best, v)
        else:
            best = np.minimum(best, np.where(v == 3. * c['unit'], np.inf, v))
        if c['inplace'] and hasattr(d, 'best_energy'):
            d.best_energy[:] = best        # dynamics update their best energies in place
        else:
            d.best_energy = best.copy()
        got = ints_of(r(d), 'loss rule', M)
        exact(d.best_energy, best, 'the best energies')
        want = []
        for m in range(M):
            if best[m] < ref_best[m]:
                ref_best[m], wait[m] = best[m], 0
                imp |= sel
            else:
                wait[m] += 1
            if wait[m] >= W:
                want.append(m)
                wait[m] = 0
                sel = True
        if got != want:
            fail('selected %s, expected %s after best energies %s' % (got, want, best))
    if imp:
        hit('wait %d' % W)


@P.facet('norm', hist_cases, quick=150, rule='mean updates around the threshold; non-trivial: one run below and one above')
def norm(c):
    from cbx.utils.resampling import ensemble_update_resampling
    r = ensemble_update_resampling(c['thresh'])
    d = Dyn()
    d.M = c['M']
    for row in c['vals']:
        d.update_diff = np.array([c['thresh'] * (x - 1) if x != 3 else np.inf for x in row])     # equal to the threshold at 2
        got = ints_of(r(d), 'update rule', c['M'])
        want = [m for m in range(c['M']) if d.update_diff[m] < c['thresh']]
        if got != want:
            fail('selected %s for updates %s, threshold %r' % (got, d.update_diff, c['thresh']))
        if 0 < len(want) < c['M']:
            hit()


@P.facet('stagnation', hist_cases, quick=600, rule='histories of consensus points with runs ending on the way: selected are the active runs whose consensus moved less than the threshold in each '
         'of the last patience steps; non-trivial: a selection in one of two runs')
def stagnation(c):
    from cbx.utils.resampling import consensus_stagnation
    M, pat, th = c['M'], c['patience'], c['thresh']
    r = consensus_stagnation(patience=pat, update_thresh=th)
    C = dec(c['c'])
    for k in range(1, len(C)):
        if c['still'][k]:
            C[k] = C[k - 1] + .25 * th * np.sign(C[k]) / np.sqrt(C[k, 0].size)
    d = Dyn()
    d.M, d.x, d.it = M, np.zeros([M, 2] + c['dims']), 0
    d.x[:, 1] = 1.
    moves = []
    for k in range(len(C)):
        act = [m for m in range(M) if c['ends'][m] > k]
        if not act:
            break
        d.active_runs_idx, d.num_active_runs = np.array(act), len(act)
        d.consensus = C[k][act][:, None].copy()
        got = ints_of(r(d), 'stagnation rule', M)
        exact(d.consensus, C[k][act][:, None], 'the consensus')
        if k:
            moves.append(np.sqrt(((C[k] - C[k - 1]) ** 2).reshape(M, -1).sum(-1)))
        want, maybe = [], []
        for m in act:
            rec = [v[m] for v in moves[-pat:]]
            if rec and max(rec) < th * (1 - 1e-9):
                want.append(m)
            elif rec and max(rec) < th * (1 + 1e-9):
                maybe.append(m)
        if set(got) - set(maybe) != set(want):
            fail('selected %s, expected %s in call %d: movements %s, threshold %r, active %s' % (got, want, k, [list(v) for v in moves[-pat:]], th, act))
        if 0 < len(want) < M and len(moves) > 1:
            hit('ended run' if len(act) < M else 'all active')


@st.composite
def run_cases(draw):
    s = draw(scen.scenario(dyns=('CBO', 'CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO'), noises=('isotropic', 'anisotropic'), multi=True, term=True, batch=draw(st.booleans()), Ms=(1, 4), Ns=(1, 5),
                           ds=(1, 3), steps=(1, 7)))
    M = s['x']['s'][0]
    rules = draw(st.lists(pick('script', 'script', 'update', 'loss', 'stag', 'none'), min_size=1, max_size=draw(pick(3, 3, 7))))
    return {'s': s, 'rules': rules, 'script': draw(st.lists(st.lists(ints(0, M - 1), max_size=M + 1), min_size=1, max_size=5)), 'sig': draw(pick(None, .5, 0., 2.)),
            'track': draw(st.booleans()), 'apply': draw(pick('default', 'default', 'default', 'user')), 'thresh': draw(pick(.05, .3, 3.)), 'verb': draw(pick(0, 0, 1)),
            'var': draw(pick('x', 'x', 'x', 'y')), 'where': draw(pick('post', 'between')), 'scale': draw(pick(1., 0.))}


@P.facet('applied', run_cases, quick=500, rule='one to three overlapping rules inside runs of several dynamics: exactly the selected active runs are perturbed, once, by recorded random numbers, counted, '
         'and the tracked consensus is the best one at a resampling of that run; non-trivial: two resamplings, one of them of a subset of the runs')
def applied(c):
    from cbx.utils import resampling as R
    s = c['s']
    var = c['var'] if s['dyn'] in ('CBOMemory', 'PSO') or c['var'] == 'x' else 'x'
    said, applied_to = [], []
    t = [0]

    def wrap(rule):
        def f(dyn):
            out = rule(dyn)
            said.append([int(i) for i in out])
            return out
        return f

    def script(dyn):
        t[0] += 1
        L = c['script'][t[0] % len(c['script'])]
        return np.array(L, dtype=int) if t[0] % 2 else list(L)

    def user(dyn, idx):
        applied_to.append([int(i) for i in idx])
        dyn.x[idx] += 1.
    mk = {'script': lambda: script, 'none': lambda: (lambda dyn: []), 'update': lambda: R.ensemble_update_resampling(c['thresh']), 'loss': lambda: R.loss_update_resampling(2),
          'stag': lambda: R.consensus_stagnation(patience=2, update_thresh=c['thresh'])}
    kw = {} if c['sig'] is None else {'sigma_indep': c['sig']}
    if c['apply'] == 'user':
        kw['apply'] = user
        var = 'x'
    if var != 'x':
        kw['var_name'] = var
    if c['track']:
        kw['track_best_consensus'] = True
    rs = R.resampling([wrap(mk[k]()) for k in c['rules']], **kw)
    sig = .1 if c['sig'] is None else c['sig']
    log = []
    count = None
    best = {}
    subset = total = 0

    def hook(dyn):
        nonlocal count, subset, total
        if count is None:
            count = np.zeros(dyn.M)
        names = [n for n in ('x', 'y', 'v', 'energy', 'best_energy', 'best_particle', 'consensus', 'alpha') if hasattr(dyn, n)]
        before = {n: np.array(getattr(dyn, n), copy=True) for n in names}
        nf, nd = np.array(dyn.num_f_eval, copy=True), len(e.smp.draws)
        del said[:]
        del applied_to[:]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            rs(dyn)
        if len(said) != len(c['rules']):
            fail('%d rules asked, there are %d' % (len(said), len(c['rules'])))
        act = [int(i) for i in dyn.active_runs_idx]
        sel = sorted(set(i for L in said for i in L) & set(act))
        after = {n: np.array(getattr(dyn, n), copy=True) for n in names}
        want = dict(before)
        if c['apply'] == 'user':
            if applied_to != ([sel] if sel else []):
                fail('the user-supplied resampling was applied to %s, selected %s' % (applied_to, sel))
            if sel:
                w = before['x'].copy()
                w[sel] += 1.
                want['x'] = w
            if len(e.smp.draws) != nd:
                fail('random numbers were drawn')
        else:
            z = e.smp.draws[nd:]
            tot = sum(a.size for a in z)
            per = int(np.prod(before[var].shape[1:]))
            if tot != len(sel) * per:
                fail('%d random numbers for %d selected runs of size %d' % (tot, len(sel), per))
            if sel:
                zz = np.concatenate([a.reshape(-1) for a in z]).reshape((len(sel),) + before[var].shape[1:])
                w = before[var].copy()
                w[sel] = w[sel] + sig * np.sqrt(s['dt']) * zz
                want[var] = w
        for n in names:
            if n == var:
                same(after[n], want[n], '%s after resampling runs %s' % (n, sel), rtol=1e-12, atol=1e-12)
                for m in range(dyn.M):
                    if m not in sel:
                        exact(after[n][m], before[n][m], '%s of run %d, which is not resampled' % (n, m))
            else:
                exact(after[n], want[n], n + ' across a resampling')
        count[sel] += 1
        same(np.asarray(rs.num_resampling), count, 'numbers of resamplings', rtol=0, atol=0)
        if (dyn.verbosity > 0 and len(sel) > 0) != bool(out.getvalue()):
            fail('printed %r' % out.getvalue())
        charge = np.zeros(dyn.M, dtype=int)
        if c['track'] and sel:
            charge[sel] = 1
            for m in sel:
                p = before['consensus'][act.index(m)]
                v = float(e.obj.value(p[None])[0, 0])
                if m not in best or v < best[m][0]:
                    best[m] = (v, p[0])
            for m in best:
                same(np.asarray(rs.best_consensus_energy)[m].reshape(()), best[m][0], 'best consensus value of run %d' % m, rtol=1e-9, atol=1e-9 * s.get('unit', 1.))
                if np.isfinite(best[m][0]):
                    got = np.asarray(rs.best_consensus)[m]
                    same(e.obj.value(got[None])[0, 0], best[m][0], 'value at the best consensus of run %d' % m, rtol=1e-9, atol=1e-9 * s.get('unit', 1.))
            for m in range(dyn.M):
                if m not in best and np.isfinite(np.asarray(rs.best_consensus_energy)[m]).any():
                    fail('run %d has a best consensus value although it was never resampled' % m)
        exact(np.asarray(dyn.num_f_eval) - nf, charge, 'evaluations charged by the resampling')
        log.append(sel)
        total += bool(sel)
        subset += 0 < len(sel) < dyn.M
    over = {'verbosity': c['verb']}
    if c['where'] == 'post':
        over['post_process'] = hook
    e = scen.build(s, **over)
    while scen.step(e) is not None:
        if c['where'] == 'between':
            hook(e.dyn)
    if c['where'] == 'post' and len(log) != e.dyn.it:
        fail('%d calls of the post processing in %d steps' % (len(log), e.dyn.it))
    if total > 1 and subset:
        hit(s['dyn'])
    for k in c['rules']:
        note(k)


@P.facet('scaled', lambda: st.tuples(run_cases(), pick(*scen.UNITS)).map(lambda t: dict(t[0], s=scen.in_units(t[0]['s'], t[1]), track=True, apply='default')), quick=200,
         rule='as applied with tracking of the best consensus, for objectives of very small and very large values')
def scaled(c):
    applied(c)
