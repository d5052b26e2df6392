"""C11: the tracked history."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, same, shape_is, skip
from pbt.gen import ints, pick, q

P = Prop('C11', assumptions=['counters of the loop itself (it, t) are not used as generic tracked names'])
KNOWN = ('x', 'energy', 'update_norm', 'consensus', 'drift', 'drift_mean')
ATTR = ('best_energy', 'best_particle', 'num_f_eval', 'alpha', 'best_cur_energy', 'f_min', 'y', 'v', 'm')


@st.composite
def _scen(draw, dyns=scen.DYNS, **kw):
    kw = dict(dict(noises=('isotropic', 'anisotropic', 'constant'), batch=True, multi=True, term=True, steps=(1, 9)), **kw)
    s = draw(scen.scenario(dyns=dyns, corr=('no_correction', 'heavi_side'), **kw))
    if s['dyn'] == 'PolarCBO':
        s['corr'] = None
        if s['kernel'] == 'Constant':
            s['kernel'] = 'Gaussian'
    s['names'] = draw(st.lists(pick(*(KNOWN + KNOWN + ATTR + ('no_such',))), max_size=6, unique=True))
    s['save_int'] = draw(pick(1, 1, 2, 3, 5, 12, 30, 150)) if kw.get('size') else draw(pick(1, 1, 2, 3, 5))
    s['default'] = draw(pick(None, None, None, 'none', 'empty', 'only_int', 'only_names'))
    return s


class Extra:
    """A user-defined tracker."""

    def __init__(self, name):
        self.name = name
        self.inits = self.updates = 0

    def init_history(self, dyn):
        self.inits += 1
        dyn.history[self.name] = []

    def update(self, dyn):
        self.updates += 1
        dyn.history[self.name].append(np.array(dyn.x, copy=True).sum())


def args(s, extra=()):
    d = s['default']
    if d == 'none':
        return None, [] if s['dyn'] == 'CBS' else ['update_norm', 'energy'], 1
    if d == 'empty':
        return {}, ['update_norm', 'energy'], 1
    if d == 'only_int':
        return {'save_int': s['save_int'], 'extra_tracks': list(extra)}, ['update_norm', 'energy'], s['save_int']
    if d == 'only_names':
        return {'names': list(s['names']), 'extra_tracks': list(extra)}, list(s['names']), 1
    return {'names': list(s['names']), 'save_int': s['save_int'], 'extra_tracks': list(extra)}, list(s['names']), s['save_int']


def value(dyn, n):
    if n == 'update_norm':
        return np.array(dyn.update_diff, copy=True)
    if n == 'drift_mean':
        d = np.abs(np.array(dyn.drift))
        return d.reshape(len(d), -1).mean(-1)
    if n == 'particle_idx':
        return scen.grid(dyn)[dyn.particle_idx].copy()
    return np.array(getattr(dyn, n), copy=True)


def expected_start(dyn, names, extra):
    rec = {}
    for n in names:
        if n == 'no_such':
            continue
        rec[n] = [np.array(dyn.x, copy=True)] if n == 'x' else []
        if n == 'drift':
            rec['particle_idx'] = []
    for t in extra:
        rec[t.name] = []
    return rec


def record(rec, dyn, extra):
    for n in rec:
        if n in [t.name for t in extra]:
            rec[n].append(np.array(dyn.x, copy=True).sum())
        elif n == 'x' or n not in ('x',):
            if n in KNOWN or n == 'particle_idx' or hasattr(dyn, n):
                rec[n].append(value(dyn, n))


def compare(rec, dyn, names, when):
    H = dyn.history
    for n, want in rec.items():
        if n not in H:
            fail('%s: %r is not in the history %s' % (when, n, list(H)))
        if len(H[n]) != len(want):
            fail('%s: %d entries of %r, expected %d' % (when, len(H[n]), n, len(want)))
        for i, (a, b) in enumerate(zip(H[n], want)):
            if n == 'particle_idx':
                a = scen.grid(dyn)[a]
            if n == 'drift_mean':
                same(a, b, '%s: entry %d of drift_mean' % (when, i), rtol=1e-12, atol=1e-300)
            else:
                exact(a, b, '%s: entry %d of %r' % (when, i, n))
    for n in H:
        if n not in rec and not (n == 'no_such' or n in names) and len(H[n]):
            fail('%s: %r is recorded without being tracked' % (when, n))
    if 'no_such' in H and len(H['no_such']):
        fail('%s: entries for a missing attribute' % when)


def simulate(e, s, names, save, extra, rec, k0=0):
    dyn = e.dyn
    k = 0
    while k < s['steps'] and not dyn.terminate():
        dyn.step()
        if k % save == 0:
            record(rec, dyn, extra)
        k += 1
    return k


@P.facet('record', _scen, quick=500,
         rule='every tracked quantity is snapshot after each step and compared at the end, again after overwriting the live state, and after reset '
              'and further steps; non-trivial: two entries of some quantity')
def recorded(s):
    extra = [Extra('my_sum')] if s['save_int'] % 2 else []
    ta, names, save = args(s, extra)
    if ta is None or not ta:
        extra = []
    e = scen.build(s, **({} if ta is None else {'track_args': ta}))
    dyn = e.dyn
    names = [n for n in names if n in KNOWN or n == 'no_such' or hasattr(dyn, n) or n in ('best_cur_energy', 'y', 'v')]
    names = [n for n in names if not (n in ('y', 'v', 'm') and not hasattr(dyn, n))]
    rec = expected_start(dyn, names, extra)
    compare(rec, dyn, args(s)[1], 'before the first step')
    k = simulate(e, s, names, save, extra, rec)
    compare(rec, dyn, args(s)[1], 'after %d steps' % k)
    if extra and (extra[0].inits != 1 or extra[0].updates != -(-k // save)):
        fail('the extra tracker was initialised %d times and updated %d times in %d steps' % (extra[0].inits, extra[0].updates, k))
    if ta and 'extra_tracks' in ta and ta['extra_tracks'] != extra:
        fail('the list of extra trackers was changed')
    if k > save:
        hit(*names)
        note('save_int %d' % save)
    # overwrite the live state
    keep = {n: np.array(getattr(dyn, n), copy=True) for n in ('x', 'energy', 'consensus', 'drift', 'update_diff', 'best_energy', 'best_particle',
                                                              'num_f_eval', 'y', 'v', 'alpha') if isinstance(getattr(dyn, n, None), np.ndarray)}
    for n in keep:
        if getattr(dyn, n).flags.writeable:
            getattr(dyn, n)[...] = 77
    compare({n: v for n, v in rec.items()}, dyn, args(s)[1], 'after overwriting the live state')
    for n, v in keep.items():
        if getattr(dyn, n).flags.writeable:
            getattr(dyn, n)[...] = v
    # overwrite the record
    for n in rec:
        for a in dyn.history[n]:
            if isinstance(a, np.ndarray) and a.flags.writeable and n != 'particle_idx':
                a[...] = -1
    for n, v in keep.items():
        exact(getattr(dyn, n), v, '%s after overwriting the history' % n)
    # a fresh record
    old = dyn.history
    dyn.reset()
    if dyn.it != 0 or dyn.t != 0:
        fail('reset leaves it=%r t=%r' % (dyn.it, dyn.t))
    if dyn.history is old:
        fail('reset keeps the history')
    rec = expected_start(dyn, names, extra)
    compare(rec, dyn, args(s)[1], 'after reset')
    k2 = simulate(e, s, names, save, extra, rec)
    compare(rec, dyn, args(s)[1], 'after reset and %d steps' % k2)


@P.facet('independent', _scen, quick=250,
         rule='the same optimisation with different tracking gives bitwise the same result, and two dynamics built from one tracking dictionary do '
              'not share their records; non-trivial: at least two steps and a non-empty record')
def independent(s):
    extra = [Extra('my_sum')]
    ta, names, save = args(s, extra)
    ta = ta or {}
    before = {k: list(v) if isinstance(v, list) else v for k, v in ta.items()}
    a = scen.build(s, track_args=ta)
    b = scen.build(s, track_args={'names': []})
    c = scen.build(dict(s, ns=s['ns'] + 1), track_args=ta)
    for e in (a, b):
        r = e.dyn.optimize(sched=None)
        e.res = np.array(r, copy=True)
    for n in ('x', 'energy', 'best_energy', 'best_particle', 'num_f_eval', 'update_diff'):
        exact(getattr(a.dyn, n), getattr(b.dyn, n), '%s with and without tracking' % n)
    exact(a.res, b.res, 'result with and without tracking')
    if ta != before:
        fail('the tracking dictionary changed from %r to %r' % (before, ta))
    if a.dyn.history is c.dyn.history:
        fail('two dynamics share their history')
    for n, v in c.dyn.history.items():
        if v is a.dyn.history.get(n):
            fail('two dynamics share the record of %r' % n)
        if len(v) != (1 if n == 'x' else 0):
            fail('the record of %r of a dynamic that made no step has %d entries' % (n, len(v)))
    if any(b.dyn.history.values()):
        fail('names=[] records %s' % list(b.dyn.history))
    k = a.dyn.it
    for n, v in a.dyn.history.items():
        if n == 'no_such' or (n in ATTR and not hasattr(a.dyn, n)):
            continue
        want = -(-k // save) + (n == 'x')
        if len(v) != want:
            fail('%d entries of %r after %d steps with save_int %d, expected %d' % (len(v), n, k, save, want))
        if k > 1:
            hit(s['dyn'])


@P.facet('unknown', lambda: st.fixed_dictionaries({'steps': ints(1, 5), 'name': pick('no_such', 'zz', 'X', 'loss'), 'late': st.booleans(),
                                                   'cls': pick('CBO', 'PSO', 'CBOMemory', 'CBS')}), quick=40,
         rule='names that are no attributes warn and record nothing, the others go on; non-trivial: always')
def unknown(c):
    import cbx.dynamics as D
    hit()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        dyn = getattr(D, c['cls'])(lambda x: (x ** 2).sum(-1), f_dim='3D', x=np.linspace(-1, 1, 24).reshape(2, 4, 3), verbosity=0,
                                   max_it=c['steps'], track_args={'names': [c['name'], 'energy', 'x']})
        if not w:
            fail('an unknown tracking key does not warn')
        n0 = len(w)
        dyn.terminate()
        dyn.step()
        if c['late']:                      # announced as not tracked, so it stays out even if it appears later
            setattr(dyn, c['name'], 1.)
        dyn.optimize()
        if len(w) == n0:
            fail('tracking a missing attribute does not warn')
    if len(dyn.history.get(c['name'], [])):
        fail('entries for the missing attribute %r' % c['name'])
    if len(dyn.history['energy']) != c['steps'] or len(dyn.history['x']) != c['steps'] + 1:
        fail('a missing attribute disturbs the other records')


@P.facet('very_long', lambda: st.fixed_dictionaries({'M': ints(1, 2), 'save_int': pick(1, 7, 99, 128, 150, 256, 300, 999), 'steps': ints(150, 1100), 'seed': ints(0, 2 ** 32 - 1),
                                                     'cls': pick('CBO', 'CBO', 'PSO', 'AdamCBO')}), quick=24,
         rule='tiny ensembles over up to 1100 steps: number and values of all records; non-trivial: two saved steps')
def very_long(c):
    import cbx.dynamics as D
    dyn = getattr(D, c['cls'])(lambda x: (x ** 2).sum(-1), f_dim='3D', x=np.linspace(-1, 1, c['M'] * 2).reshape(c['M'], 2, 1), verbosity=0, max_it=c['steps'], seed=c['seed'], sigma=.5,
                               track_args={'names': ['x', 'energy', 'update_norm', 'consensus'], 'save_int': c['save_int']})
    want = {'x': [np.array(dyn.x)], 'energy': [], 'update_norm': [], 'consensus': []}
    k = 0
    while not dyn.terminate():
        dyn.step()
        if k % c['save_int'] == 0:
            for n, v in (('x', dyn.x), ('energy', dyn.energy), ('update_norm', dyn.update_diff), ('consensus', dyn.consensus)):
                want[n].append(np.array(v, copy=True))
        k += 1
    if k != c['steps'] or dyn.it != k:
        fail('%d steps, counter %r, requested %d' % (k, dyn.it, c['steps']))
    for n, v in want.items():
        exact(np.array(dyn.history[n]), np.array(v), 'record of %r over %d steps with save_int %d' % (n, k, c['save_int']))
    if k > c['save_int']:
        hit(c['cls'])


@P.facet('sizes', lambda: st.sampled_from(('long', 'large')).flatmap(lambda z: _scen(size=z)), quick=40,
         rule='as record, for up to ninety steps and for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    recorded(s)
