"""C29: schedulers."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, same
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C29', assumptions=['a scheduler is any object with an update(dynamic) method, as the documentation of the composed scheduler says'])
SHAPES = (None, [3, 1], [2], [2, 1, 1], [1, 1])
NAMES = ('alpha', 'sigma', 'dt', 'lamda', 'my_param')


class Holder:
    pass


def val_of(v):
    return v if not isinstance(v, dict) else dec(v)


def want_mult(v, factor, maximum):
    return np.minimum(maximum, factor * np.asarray(v))


@st.composite
def params(draw):
    out = []
    for n in draw(st.lists(pick(*NAMES), min_size=1, max_size=3, unique=True)):
        s = draw(pick(*SHAPES))
        out.append([n, draw(q(0, 30, 2)) if s is None else draw(gen.array(s, ('pos', 'unit')))])
    return out


@st.composite
def mult_cases(draw):
    ps = draw(params())
    parts = [{'name': draw(st.sampled_from([p[0] for p in ps])), 'factor': draw(pick(1.05, 2., .5, 1., 10., .9, 0., None)),
              'maximum': draw(pick(None, 1e5, 7.5, 1.0, 40., .3))} for _ in range(draw(ints(1, 4)))]
    return {'params': ps, 'parts': parts, 'k': draw(ints(1, 6)), 'composed': draw(st.booleans()),
            'again': draw(pick(None, None, 0))}


def build_mult(p):
    from cbx.scheduler import multiply
    kw = {} if p['maximum'] is None else {'maximum': p['maximum']}
    if p['name'] != 'alpha':
        kw['name'] = p['name']
    if p['factor'] is not None:
        kw['factor'] = p['factor']
    return multiply(**kw)


@P.facet('multiply', mult_cases, quick=800, rule='one to four multiplying updates, alone or composed, applied to attributes of every shape; '
         'non-trivial: some entry reaches the maximum and some does not, or two parts touch the same parameter')
def multiply(c):
    from cbx.scheduler import scheduler
    h = Holder()
    cur, given = {}, {}
    for n, v in c['params']:
        v = val_of(v)
        given[n] = v
        cur[n] = np.array(v, dtype=float)
        setattr(h, n, v if np.ndim(v) == 0 else v.copy())
    keep = {n: getattr(h, n) for n in cur}
    h.other = 3.25
    parts, ps = [build_mult(p) for p in c['parts']], list(c['parts'])
    if c['again'] is not None:               # the same object once more: it is applied twice
        parts, ps = parts + parts[:1], ps + ps[:1]
    sched = scheduler(parts)
    capped = free = False
    for _ in range(c['k']):
        if c['composed']:
            sched.update(h)
        for o, p in zip(parts, ps):
            if not c['composed']:
                o.update(h)
            mx = 1e5 if p['maximum'] is None else p['maximum']
            raw = (1. if p['factor'] is None else p['factor']) * cur[p['name']]
            capped |= bool(np.any(raw > mx))
            free |= bool(np.any(raw < mx))
            cur[p['name']] = np.minimum(mx, raw)
        for n in cur:
            same(np.asarray(getattr(h, n), dtype=float), cur[n], 'parameter %s' % n, rtol=1e-13, atol=0)
        if h.other != 3.25 or set(vars(h)) != set(cur) | {'other'}:
            fail('a scheduler touched other attributes')
    for n in cur:
        if np.ndim(keep[n]):
            exact(keep[n], given[n], 'the array the parameter %s was given as' % n)
    ns = [p['name'] for p in ps]
    if (capped and free) or len(set(ns)) < len(ns):
        hit('capped' if capped else 'twice')


class Rec:
    def __init__(self, log, i, name=None, factor=1., add=0.):
        self.log, self.i, self.name, self.factor, self.add = log, i, name, factor, add

    def update(self, dyn):
        self.log.append((self.i, dyn.it))
        if self.name is not None:
            setattr(dyn, self.name, getattr(dyn, self.name) * self.factor + self.add)


class Watch:
    """A termination criterion that records the parameters before every step and never stops a run."""

    def __init__(self, names):
        self.names, self.rows = names, []

    def __call__(self, dyn):
        self.rows.append({n: np.array(getattr(dyn, n), dtype=float, copy=True) for n in self.names if hasattr(dyn, n)})
        return np.zeros(dyn.M, dtype=bool)


@st.composite
def run_cases(draw):
    s = draw(scen.scenario(dyns=scen.DYNS, Ms=(1, 3), Ns=(2, 6), ds=(1, 3), steps=(1, 6), term=True, alphas=(.1, 20), batch=draw(st.booleans())))
    kind = draw(pick('default', 'none', 'list', 'list', 'args'))
    c = {'s': s, 'kind': kind}
    if kind == 'list':
        names = ['alpha', 'alpha', 'lamda', 'sigma', 'dt']
        if s['dyn'] == 'CBS':
            names = ['alpha', 'lamda']
        c['parts'] = [{'name': draw(st.sampled_from(names)), 'factor': draw(pick(1.5, .7, 1.05, 2.)), 'maximum': draw(pick(1e5, 3., 30.))} for _ in range(draw(ints(1, 3)))]
        c['add'] = draw(pick(0., .25))
    return c


NM = ('alpha', 'lamda', 'sigma', 'dt')


@P.facet('runs', run_cases, quick=350, rule='optimize() of every dynamic with the default scheduler, none, or a list, against a loop that performs the same steps and sets the '
         'parameters by hand; non-trivial: two steps or more with a changing parameter')
def runs(c):
    from cbx.scheduler import scheduler
    s = c['s']
    e, r = scen.build(s), scen.build(s)
    w = Watch(NM)
    e.dyn.term_criteria = [w] + list(e.dyn.term_criteria)
    log = []
    parts = None
    if c['kind'] == 'default':
        ret = e.dyn.optimize(sched='default')
    elif c['kind'] == 'args':
        ret = e.dyn.optimize()
    elif c['kind'] == 'none':
        ret = e.dyn.optimize(sched=None)
    else:
        parts = [build_mult(p) for p in c['parts']]
        L = []
        for i, o in enumerate(parts):
            L += [o, Rec(log, i)]
        L.append(Rec(log, len(parts), 'alpha', 1., c['add']))
        ret = e.dyn.optimize(sched=scheduler(L))
    steps = 0
    cur = {n: np.array(getattr(r.dyn, n), dtype=float, copy=True) for n in NM}
    changed = False
    while True:
        if steps >= len(w.rows):
            fail('the run ended after %d steps' % (steps - 1))
        for n in NM:
            same(w.rows[steps][n], cur[n], '%s before step %d' % (n, steps), rtol=1e-12, atol=0)
        if scen.step(r) is None:
            break
        steps += 1
        old = {n: cur[n] for n in NM}
        if c['kind'] in ('default', 'args') and s['dyn'] != 'CBS':
            cur['alpha'] = np.minimum(1e5, 1.05 * cur['alpha'])
        elif parts is not None:
            for p in c['parts']:
                cur[p['name']] = np.minimum(p['maximum'], p['factor'] * cur[p['name']])
            cur['alpha'] = cur['alpha'] + c['add']
        for n in NM:
            changed |= bool(np.any(cur[n] != old[n]))
            v = cur[n]
            setattr(r.dyn, n, float(v) if v.ndim == 0 else v.copy())
    if len(w.rows) != steps + 1:
        fail('%d checks of the termination criteria for %d steps' % (len(w.rows), steps))
    if parts is not None:
        want = [(i, t) for t in range(1, steps + 1) for i in range(len(parts) + 1)]
        if log != want:
            fail('the parts of the scheduler ran as %s, expected %s' % (log[:12], want[:12]))
    for n in ('x', 'energy', 'best_energy', 'best_particle', 'num_f_eval'):
        same(getattr(e.dyn, n), getattr(r.dyn, n), '%s after the run' % n, rtol=1e-6, atol=1e-7)
    same(ret, r.dyn.best_particle, 'returned best particle', rtol=1e-6, atol=1e-7)
    if steps > 1 and changed:
        hit(s['dyn'])
