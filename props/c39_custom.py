"""C39: user-defined dynamics and hooks."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, scen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C39', assumptions=['a user-defined inner_step evaluates the objective at the positions before it moves them, for the active runs, like the built-in ones',
                             'user callables return arrays of the documented shapes'])


def make(base, hooks, c):
    """A user's dynamic: every particle takes an affine step plus noise from the dynamic's sampler."""

    class Mine(base):
        def pre_step(self):
            hooks.append('pre')
            super().pre_step()

        def inner_step(self):
            hooks.append('inner')
            act = self.active_runs_idx
            hooks.append(('x', np.array(self.x, copy=True), [int(i) for i in act]))
            self.energy[act] = self.f(self.x[act])
            self.num_f_eval[act] += self.N
            self.z = self.sampler(size=self.x[act].shape)
            self.x[act] = c['a'] * self.x[act] + c['b'] + c['s'] * self.z
            hooks.append(('z', np.array(self.z, copy=True)))

        def post_step(self):
            hooks.append('post')
            super().post_step()

        def print_cur_state(self):
            hooks.append(('print', self.it))

        def print_post_opt(self):
            hooks.append('end')

        def default_sched(self):
            hooks.append('sched')
            return Sched(hooks)
    return Mine


class Sched:
    def __init__(self, hooks):
        self.hooks = hooks

    def update(self, dyn):
        self.hooks.append(('update', dyn.it))


@st.composite
def custom_case(draw):
    M, N = draw(ints(1, 4)), draw(ints(1, 6))
    dims = draw(pick([1], [2], [3], [2, 2], [3, 1]))
    steps = draw(ints(1, 6))
    return {'base': draw(pick('ParticleDynamic', 'CBXDynamic')), 'x': draw(gen.array([M, N] + dims)), 'f': draw(gen.objective(inf=True)),
            'a': draw(pick(1., .5, -1., 0.)), 'b': draw(q(-1, 1, 2)), 's': draw(pick(0., 1., .3)), 'at': draw(st.lists(ints(0, steps), min_size=M, max_size=M)),
            'steps': steps, 'ns': draw(seeds), 'save_int': draw(pick(1, 2, 3)), 'dt': draw(pick(.01, .5, 1.)), 'clip': draw(pick(None, 1., 3.)),
            'loop': draw(pick('default', 'none', 'given')), 'print_int': draw(pick(None, 1, 2, 5)), 'verbosity': draw(pick(0, 1, 2))}


def start(c, hooks, over=None):
    import cbx.dynamics as D
    X = dec(c['x'])
    obj = scen.Objective(c['f'], X.ndim - 2)
    smp = scen.Sampler(c['ns'], list(range(X.shape[0])))
    posts = []

    def post(dyn):
        posts.append(dyn)
        hooks.append('process')
        if c['clip']:
            dyn.x = np.clip(dyn.x, -c['clip'], c['clip'])
    kw = dict(x=X.copy(), f_dim='3D', check_f_dims=False, verbosity=c['verbosity'], sampler=smp, post_process=post, term_criteria=[scen.Script(c['at']), 'max-it'],
              track_args={'names': ['x', 'energy', 'update_norm'], 'save_int': c['save_int']})
    kw['term_criteria'][1] = {'name': 'max-it', 'max_it': c['steps']}
    if c['base'] == 'CBXDynamic':
        kw['dt'] = c['dt']
    kw.update(over or {})
    dyn = make(getattr(D, c['base']), hooks, c)(obj, **kw)
    smp.dyn = dyn
    return dyn, obj, X


RULE = 'random affine user-defined dynamics on both base classes, runs end at scripted times; '


@P.facet('steps', custom_case, quick=400, rule=RULE + 'order of the hooks, moved particles, counters, update norm, best and current best particle and energy, history after every step; '
         'non-trivial: two steps and two particles')
def steps_(c):
    hooks = []
    dyn, obj, X = start(c, hooks)
    M, N = X.shape[:2]
    x = X.copy()
    best, bestp = np.full(M, np.inf), X[:, 0].copy()
    energy = np.full((M, N), np.inf)
    cur = None
    cnt = np.zeros(M, int)
    rec = {'x': [X.copy()], 'energy': [], 'update_norm': []}
    k = 0
    if hooks:
        fail('hooks %s called by the constructor' % hooks)
    while True:
        act = [m for m in range(M) if k < min(c['at'][m], c['steps'])]
        if dyn.terminate() != (not act):
            fail('the optimisation %s, runs %s should be active' % ('ends' if act else 'goes on', act))
        if not act:
            break
        del hooks[:]
        dyn.step()
        names = [h if isinstance(h, str) else h[0] for h in hooks]
        if [n for n in names if n in ('pre', 'inner', 'post')] != ['pre', 'inner', 'post'] or names.count('process') != 1 or names.index('process') < names.index('post'):
            fail('hooks of one step: %s' % names)
        seen, active = next(h[1:] for h in hooks if h[0] == 'x')
        z = next(h[1] for h in hooks if h[0] == 'z')
        exact(seen, x, 'positions inner_step finds')
        if active != act:
            fail('inner_step finds active runs %s, expected %s' % (active, act))
        fx = obj.value(x)
        energy[act] = fx[act]
        cnt[act] += N
        moved = x.copy()
        moved[act] = c['a'] * x[act] + c['b'] + c['s'] * z
        new = np.clip(moved, -c['clip'], c['clip']) if c['clip'] else moved
        exact(dyn.x, new, 'positions after step %d' % k)
        fm = energy.min(1)
        exact(dyn.f_min, fm, 'smallest energies')
        exact(dyn.best_cur_energy, fm, 'current best energies')
        p = np.array(dyn.best_cur_particle)
        shape_is(p, X[:, 0].shape, 'current best particles')
        if cur is None:
            cur = np.full(p.shape, np.nan)
        for m in act:
            i = int(np.argmin(energy[m]))
            cur[m] = x[m, i]
            exact(p[m], x[m, i], 'current best particle of run %d' % m)
            if fm[m] < best[m]:
                best[m], bestp[m] = fm[m], x[m, i]
        if k:
            for m in range(M):
                if m not in act and np.isfinite(energy[m]).any():
                    exact(p[m], cur[m], 'current best particle of the ended run %d' % m)
        exact(dyn.best_energy, best, 'best energies')
        exact(dyn.best_particle, bestp, 'best particles')
        exact(dyn.num_f_eval, cnt, 'evaluation counts')
        # the change is measured before post-processing by ParticleDynamic and after it by CBXDynamic
        ref_x = new if c['base'] == 'CBXDynamic' else moved
        ud = np.sqrt(((ref_x - x).reshape(M, -1) ** 2).sum(-1)) / N
        same(dyn.update_diff, ud, 'update difference', rtol=1e-12, atol=1e-14)
        if k % c['save_int'] == 0:
            rec['x'].append(ref_x.copy())
            rec['energy'].append(energy.copy())
            rec['update_norm'].append(ud)
        for n, v in rec.items():
            h = dyn.history[n]
            if len(h) != len(v):
                fail('history of %s has %d entries, expected %d' % (n, len(h), len(v)))
            if v:
                same(h[-1], v[-1], 'history of ' + n, rtol=1e-12, atol=1e-14)
        k += 1
        if dyn.it != k:
            fail('iteration counter %r after %d steps' % (dyn.it, k))
        if c['base'] == 'CBXDynamic':
            same(dyn.t, k * c['dt'], 'time', rtol=1e-12, atol=1e-12)
        x = new
    if k > 1 and N > 1:
        hit(c['base'])
    if len(set(c['at'])) > 1:
        note('runs end at different times')


@P.facet('loop', custom_case, quick=300, rule=RULE + 'optimize makes the same steps as stepping by hand, updates the scheduler exactly once after every step, prints the state every print_int '
         '(default: save_int) steps, reports once at the end and returns the best particles; non-trivial: two steps')
def loop(c):
    ha, hb = [], []
    a, _, X = start(c, ha)
    b, _, _ = start(c, hb)
    k = 0
    while not a.terminate():
        a.step()
        k += 1
    kw = {}
    if c['loop'] == 'none':
        kw['sched'] = None
    elif c['loop'] == 'given':
        kw['sched'] = Sched(hb)
    if c['print_int'] is not None:
        kw['print_int'] = c['print_int']
    with contextlib.redirect_stdout(io.StringIO()):
        r = b.optimize(**kw)
    for n in ('x', 'energy', 'best_energy', 'best_particle', 'num_f_eval', 'it', 'update_diff'):
        exact(getattr(b, n), getattr(a, n), '%s after optimize' % n)
    exact(r, a.best_particle, 'returned particles')
    seq = [h if isinstance(h, str) else h[0] for h in hb]
    want = ['sched'] if c['loop'] == 'default' else []
    if seq.count('sched') != len(want):
        fail('the default scheduler was made %d times' % seq.count('sched'))
    seq = [s for s in seq if s in ('inner', 'update', 'end') or s == 'print']
    pi = c['print_int'] or c['save_int']
    exp = []
    for i in range(k):
        exp += ['inner'] + (['update'] if c['loop'] != 'none' else []) + (['print'] if i % pi == 0 else [])
    exp.append('end')
    if seq != exp:
        fail('the loop calls %s, expected %s' % (seq, exp))
    if k > 1:
        hit(c['loop'])


@st.composite
def hook_case(draw):
    s = draw(scen.scenario(dyns=('CBO', 'CBO', 'MirrorCBO'), noises=('isotropic',), batch=True, multi=True, term=True, steps=(1, 4), Ms=(1, 3), Ns=(1, 6), ds=(1, 3),
                           mirror=(None,)))
    return {'s': s, 'noise': draw(pick('own', 'sup')), 'k': draw(q(-1, 1, 2)), 'copy': draw(st.booleans())}


@P.facet('hooks', hook_case, quick=400, rule='steps with a user-supplied noise model, or with a user-supplied norm (the supremum norm) for isotropic noise and update differences, with user-supplied '
         'copy function and extra tracks, recomputed; non-trivial: two particles and sigma not zero')
def hooks_(c):
    s = c['s']
    seen, tr = [], []

    def noise(dyn):
        seen.append(dyn)
        return c['k'] * np.ones_like(dyn.drift) + .25 * dyn.drift

    def sup(x, axis=None):
        return np.abs(x).max(axis=axis)

    class Track:
        @staticmethod
        def init_history(dyn):
            dyn.history['mine'] = []

        @staticmethod
        def update(dyn):
            tr.append(dyn.it)
            dyn.history['mine'].append(float(np.sum(dyn.x)))
    over = {'noise': noise} if c['noise'] == 'own' else {'norm': sup}
    if c['copy']:
        over['copy'] = lambda x: np.array(x)
    e = scen.build(s, track_args={'names': [], 'extra_tracks': [Track if s['ns'] % 2 else Track()]}, **over)
    dyn = e.dyn
    k = 0
    for _ in range(s['steps']):
        del seen[:]
        o = scen.step(e)
        if o is None:
            break
        pre, post = o
        act, mv = pre['active'], scen.moved_of(dyn)
        n = len(mv[act[0]])
        if c['noise'] == 'own' and (len(seen) != 1 or seen[0] is not dyn):
            fail('the noise callable was called %d times in a step' % len(seen))
        zs = scen.noise_rows(e, act, n, pre['x'].shape[2:]) if c['noise'] == 'sup' else None
        for i, m in enumerate(act):
            D = pre['x'][m][mv[m]] - np.asarray(post['consensus'])[i]
            if c['noise'] == 'own':
                nz = c['k'] + .25 * D
            else:
                nz = np.sqrt(s['dt']) * np.abs(D).reshape(n, -1).max(1).reshape((n,) + (1,) * (D.ndim - 1)) * zs[m]
            want = pre['x'][m].copy()
            want[mv[m]] = np.clip(want[mv[m]] - s['lamda'] * s['dt'] * D + s['sigma'] * nz, -1e8, 1e8)
            same(post['x'][m], want, 'positions of run %d' % m, rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max()))
            if n > 1 and s['sigma'] and np.any(D):
                hit(c['noise'])
        dx = (post['x'] - pre['x']).reshape(dyn.M, -1)
        ud = np.abs(dx).max(1) if c['noise'] == 'sup' else np.sqrt((dx ** 2).sum(1))
        same(post['update_diff'], ud / dyn.N, 'update difference', rtol=1e-10, atol=1e-12)
        if tr != list(range(k + 1)) or len(dyn.history['mine']) != k + 1 or dyn.history['mine'][-1] != float(np.sum(post['x'])):
            fail('the extra track was updated in iterations %s, history %s' % (tr, dyn.history['mine']))
        k += 1


@P.facet('base', lambda: st.tuples(custom_case(), pick(None, 1, 3)), quick=150, rule='the base classes themselves leave the ensemble where it is and only advance their counters; non-trivial: all')
def base(t):
    import cbx.dynamics as D
    c, extra = t
    X = dec(c['x'])
    obj = scen.Objective(c['f'], X.ndim - 2)
    kw = {'dt': c['dt']} if c['base'] == 'CBXDynamic' else {}
    dyn = getattr(D, c['base'])(obj, x=X.copy(), f_dim='3D', check_f_dims=False, verbosity=0, max_it=c['steps'], **kw)
    r = dyn.optimize()
    hit(c['base'])
    if dyn.it != c['steps']:
        fail('%r iterations, expected %d' % (dyn.it, c['steps']))
    exact(dyn.x, X, 'particles')
    exact(r, X[:, 0], 'returned particles')
    exact(dyn.update_diff, np.zeros(len(X)), 'update difference')
    exact(dyn.num_f_eval, np.zeros(len(X)), 'evaluation counts')
    if obj.points:
        fail('%d points evaluated' % obj.points)
    if not np.all(np.isinf(dyn.best_energy)):
        fail('best energies %s without an evaluation' % dyn.best_energy)
    # resetting starts the count and the history again, the particles stay
    dyn.reset()
    if dyn.it != 0 or any(len(v) for v in dyn.history.values()):
        fail('after reset: iteration %r, history %s' % (dyn.it, {k: len(v) for k, v in dyn.history.items()}))
    if c['base'] == 'CBXDynamic' and dyn.t != 0:
        fail('time %r after reset' % dyn.t)
    dyn.optimize()
    exact(dyn.x, X, 'particles after reset')
    if dyn.it != c['steps'] or len(dyn.history['energy']) != c['steps']:
        fail('%r iterations and %d records after reset' % (dyn.it, len(dyn.history['energy'])))
