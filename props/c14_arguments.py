"""C14: the caller's arguments are not modified."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, skip
from pbt.gen import dec, ints, pick, q, seeds

from props.c13_repro import _scen as base_scen
from props.c13_repro import equal, make_sched, state

P = Prop('C14', assumptions=['alpha arrays and constraint matrices may be used without copying; only that they are not modified is claimed for them'])


def deep_equal(a, b, path):
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=True):
            fail('%s was modified' % path)
        return
    if type(a) is not type(b):
        fail('%s was modified' % path)
    if isinstance(a, dict):
        if list(a) != list(b):
            fail('%s has the keys %s, had %s' % (path, list(b), list(a)))
        for k in a:
            deep_equal(a[k], b[k], '%s[%r]' % (path, k))
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            fail('%s has %d entries, had %d' % (path, len(b), len(a)))
        for i, (x, y) in enumerate(zip(a, b)):
            deep_equal(x, y, '%s[%d]' % (path, i))
    elif isinstance(a, (str, int, float, bool, type(None))):
        if a != b and not (a != a and b != b):
            fail('%s is %r, was %r' % (path, b, a))


@st.composite
def _scen(draw):
    s = draw(base_scen())
    s['form'] = draw(pick('3', '3', '2', '1'))
    s['term2'] = draw(st.lists(pick('energy-tol', 'max_it', {'name': 'energy-stagnation', 'patience': 2}, {'name': 'max-eval', 'max_eval': 50},
                                    {'name': 'diff-tol', 'diff_tol': 0.05}, {'name': 'energy-stagnation', 'patience': 3, 'std_thresh': 1e-7}, {'name': 'max_time'}), max_size=3)) + [{'name': 'max-it', 'max_it': s['steps']}]
    s['obj_attr'] = draw(st.booleans())
    s['tracked'] = draw(st.lists(pick('names', 'save_int', 'extra_tracks'), unique=True, max_size=2))       # left out
    if draw(ints(0, 3)) == 0:
        s['batch'] = draw(pick({'size': None}, {'size': None, 'partial': False}, {'partial': True}, {'size': 99}))
    return s


def arguments(s):
    """All mutable arguments of the dynamic, in one dictionary."""
    X = scen.x0(s)
    kw = scen.dyn_kwargs(s, X.shape[0])
    if s['form'] == '2':
        X = X[0]
    elif s['form'] == '1':
        X = X[0, 0]
    M = 1 if s['form'] in '12' else X.shape[0]
    if isinstance(kw['alpha'], np.ndarray):
        kw['alpha'] = kw['alpha'][:M].copy()
    kw.update(x=X.copy(), term_criteria=copy.deepcopy(s['term2']), max_it=s['steps'],
              track_args={'names': ['x', 'energy', 'update_norm'], 'save_int': 2, 'extra_tracks': []})
    for k in s.get('tracked', ()):
        del kw['track_args'][k]
    return kw, M


class Buffered:
    """Objective that hands out the same buffer for every call of one shape."""

    def __init__(self, s, nd, mode):
        self.s, self.nd, self.mode = s, nd, mode
        self.buf = {}
        self.out = []
        self.n = 0

    def __call__(self, x):
        self.n += 1
        if self.n > scen.CALL_LIMIT:
            raise scen.Budget('the loop does not end')
        v = gen.obj_value(self.s['f'], x, self.nd)
        if self.mode == 'buffer':
            b = self.buf.setdefault(v.shape, np.empty(v.shape))
            b[...] = v
            return b
        if self.mode == 'readonly':
            v.flags.writeable = False
        if self.mode == 'keep':
            self.out.append((v, v.copy()))
        return v


def make(s, kw, mode='plain'):
    f = Buffered(s, 1 if s['form'] != '3' else len(s['x']['s']) - 2, mode)
    cls = scen.cbx_classes()[s['dyn']]
    dyn = cls(f, f_dim='3D', verbosity=0, seed=s['ns'], check_f_dims=s['check_f'], **kw)
    return dyn, f


def ok(s):
    if s['form'] != '3':
        s = dict(s, x=dict(s['x']))
        if len(s['x']['s']) != 3:
            skip('flat domains only')
        n = 1 if s['form'] == '1' else s['x']['s'][1]
        if s.get('batch') and n < 2:
            s = dict(s, batch=None)
    return s


@P.facet('unchanged', _scen, quick=300,
         rule='deep comparison of all arguments and of every array the objective returned, before and after construction, optimisation, reset and '
              'optimisation; non-trivial: at least one step')
def unchanged(s):
    s = ok(s)
    kw, M = arguments(s)
    before = copy.deepcopy(kw)
    dyn, f = make(s, kw, 'keep')
    deep_equal(before, kw, 'after construction: argument')
    sch = make_sched(s)
    vp = list(sch.var_params) if hasattr(sch, 'var_params') else None
    dyn.optimize(sched=sch)
    deep_equal(before, kw, 'after optimize(): argument')
    if vp is not None and (len(vp) != len(sch.var_params) or any(a is not b for a, b in zip(vp, sch.var_params))):
        fail('the scheduler was modified')
    n = dyn.it
    dyn.reset()
    dyn.optimize(sched=sch)
    deep_equal(before, kw, 'after reset() and optimize(): argument')
    for i, (v, c) in enumerate(f.out):
        exact(v, c, 'the array returned by call %d of the objective' % (i + 1))
    if vp is not None and sch.var_params != vp:
        fail('the scheduler was modified')
    if n:
        hit(s['dyn'])
        note('form ' + s['form'])
        if isinstance(kw['alpha'], np.ndarray):
            note('alpha array')


@P.facet('detached', _scen, quick=250,
         rule='overwriting the given particles and dictionaries after construction, and reusing or freezing the arrays the objective returns, gives '
              'bitwise the same optimisation; non-trivial: at least one step')
def detached(s):
    s = ok(s)
    res = []
    for mode in ('plain', 'overwrite', 'buffer', 'readonly'):
        kw, M = arguments(s)
        dyn, f = make(s, kw, 'plain' if mode == 'overwrite' else mode)
        if mode == 'overwrite':
            kw['x'][...] = 99.0
            for k in ('batch_args', 'track_args'):
                if isinstance(kw.get(k), dict):
                    kw[k].update({'size': 1, 'names': ['drift'], 'save_int': 1, 'seed': 5})
            for t in kw['term_criteria']:
                if isinstance(t, dict):
                    t.update({'max_it': 0, 'name': 'max-it'})
            del kw['term_criteria'][:]
        dyn.optimize(sched=make_sched(s))
        res.append((mode, state(dyn), {k: len(v) for k, v in dyn.history.items()}))
        if dyn.it:
            hit(s['dyn'])
    for mode, stt, h in res[1:]:
        equal(res[0][1], stt, 'plain and "%s"' % mode)
        if h != res[0][2]:
            fail('history of plain and "%s": %s and %s entries' % (mode, res[0][2], h))


@P.facet('second', lambda: st.tuples(_scen(), ints(0, 3)).map(lambda t: dict(t[0], twice=t[1])), quick=120,
         rule='one set of argument objects used for two dynamics gives the same result twice; non-trivial: at least one step')
def second(s):
    s = ok(s)
    kw, M = arguments(s)
    a, _ = make(s, kw)
    a.optimize(sched=make_sched(s))
    sa = state(a)
    b, _ = make(s, kw)
    b.optimize(sched=make_sched(s))
    equal(sa, state(b), 'first and second dynamic from the same argument objects')
    equal(sa, state(a), 'first dynamic before and after running the second one')
    if a.it:
        hit(s['dyn'])
