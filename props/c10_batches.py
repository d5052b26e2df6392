"""C10: mini-batches."""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, same, skip
from pbt.gen import ints, pick, q, seeds

P = Prop('C10', assumptions=['fairness and independence between runs are statistical: a loose bound on the usage of each particle over several '
                             'hundred passes, and different batches of different runs for ensembles of ten or more particles'])
DYN = ('CBO', 'CBO', 'CBOMemory', 'PSO', 'MirrorCBO', 'AdamCBO', 'PolarCBO')
EVAL_AFTER = ('CBOMemory', 'PSO')


@st.composite
def case(draw, Ns=(2, 9), Ms=(1, 4), steps=(4, 14), dyns=DYN, partial=(True, False)):
    M, N = draw(ints(*Ms)), draw(ints(*Ns))
    d = draw(pick(*dyns))
    size = draw(ints(1, N - 1)) if draw(ints(0, 9)) < 8 else draw(pick(N, N + 3, None))
    s = {'dyn': d, 'x': {'s': [M, N, draw(ints(1, 3))]}, 'xs': draw(seeds),
         'f': {'kind': 'quad', 'c': 0.5, 'w': 0.3}, 'dt': 0.1, 'lamda': 1.0, 'sigma': 1.0, 'alpha': 1.0,
         'noise': 'constant', 'ns': draw(seeds), 'steps': draw(ints(*steps)),
         'batch': {'size': size, 'partial': True if d == 'PolarCBO' else draw(pick(*partial)), 'seed': draw(ints(0, 10 ** 6)),
                   'var': draw(pick('resample', 'concat'))}}
    if M > 1 and draw(pick(False, False, True)):
        s['term'] = [{'name': 'script', 'at': draw(st.lists(st.one_of(ints(1, s['steps']), st.just(99)), min_size=M, max_size=M))},
                     {'name': 'max-it', 'max_it': s['steps']}]
    else:
        s['term'] = [{'name': 'max-it', 'max_it': s['steps']}]
    for k in draw(st.lists(pick('partial', 'seed', 'var', 'size'), max_size=1)):   # default values
        del s['batch'][k]
    return s


def build(s, **over):
    X = np.random.default_rng(s['xs']).standard_normal(s['x']['s'])
    return scen.build(s, x=X, **over)


def index(x, rows, what):
    """Particles of one run that the evaluated rows belong to."""
    out = []
    for r in rows:
        i = np.where((x == r).all(-1))[0]
        if len(i) != 1:
            fail('%s: an evaluated point is %d of the particles' % (what, len(i)))
        out.append(int(i[0]))
    return out


def run(e, s, on_step):
    """Steps; on_step(k, {run: batch}, {run: moved})."""
    dyn = e.dyn
    for k in range(s['steps']):
        if dyn.terminate():
            break
        act = [int(i) for i in dyn.active_runs_idx]
        x0 = np.array(dyn.x, copy=True)
        e.obj.clear()
        dyn.step()
        x1 = np.array(dyn.x, copy=True)
        if len(e.obj.calls) != 1:
            fail('%d calls of the objective in a step' % len(e.obj.calls))
        pts = e.obj.calls[0][0]
        if pts.shape[0] != len(act):
            fail('objective evaluated for %d of %d active runs' % (pts.shape[0], len(act)))
        ref = x1 if s['dyn'] in EVAL_AFTER else x0
        batch = {m: index(ref[m], pts[i], 'run %d step %d' % (m, k + 1)) for i, m in enumerate(act)}
        moved = {m: set(int(j) for j in np.where((x1[m] != x0[m]).any(-1))[0]) for m in range(dyn.M)}
        on_step(k, act, batch, moved)


@P.facet('passes', case, quick=500,
         rule='batches read off the evaluated points, movements off the positions; non-trivial: batch smaller than N and at least two batches')
def passes(s):
    e = build(s)
    M, N, _ = s['x']['s']
    b = s['batch'].get('size', N)
    b = N if b is None else min(b, N)
    concat = s['batch'].get('var') == 'concat'
    part = s['batch'].get('partial', True)
    used = [[] for _ in range(M)]                 # what the current pass used so far
    count = [0]

    def on_step(k, act, batch, moved):
        count[0] += 1
        for m in range(M):
            if m not in act:
                if moved[m]:
                    fail('particles %s of an ended run moved' % sorted(moved[m]))
                continue
            B = batch[m]
            if s['dyn'] in EVAL_AFTER and not part:
                if sorted(B) != list(range(N)):
                    fail('full updates evaluate %s' % B)
                if moved[m] != set(range(N)):
                    fail('with partial=False only %s of %d particles moved' % (sorted(moved[m]), N))
                continue
            if len(B) != b:
                fail('batch of run %d has %d particles, %d requested' % (m, len(B), b))
            want = set(B) if part else set(range(N))
            if moved[m] != want:
                fail('step %d: particles %s of run %d moved, expected %s (batch %s)' % (k + 1, sorted(moved[m]), m, sorted(want), B))
            if b == N:
                if sorted(B) != list(range(N)):
                    fail('full batch %s' % B)
                continue
            c = Counter(B)
            if concat and len(used[m]) + b > N:   # bridges two passes
                rest = [j for j in range(N) if j not in used[m]]
                new = c - Counter(rest)
                if sum((Counter(rest) - c).values()):
                    fail('step %d: batch %s of run %d leaves out %s of the old pass' % (k + 1, B, m, rest))
                if max(new.values(), default=0) > 1:
                    fail('step %d: batch %s of run %d repeats particles of the new pass' % (k + 1, B, m))
                used[m] = list(new)
                note('bridging batch')
                continue
            if not concat and len(used[m]) + b > N:
                used[m] = []                      # the rest of the old pass is dropped
            if max(c.values()) > 1:
                fail('step %d: batch %s of run %d contains a particle twice' % (k + 1, B, m))
            again = set(used[m]) & set(B)
            if again:
                fail('step %d: batch %s of run %d uses %s again within one pass (%s)' % (k + 1, B, m, sorted(again), used[m]))
            used[m] += B
            if concat and len(used[m]) == N:
                used[m] = []
    run(e, s, on_step)
    if b < N and count[0] > 1:
        hit(s['dyn'], 'concat' if concat else 'resample', 'partial' if part else 'full update')


@P.facet('seeded', lambda: case(Ns=(10, 14), Ms=(2, 10), steps=(3, 8), dyns=('CBO', 'MirrorCBO'), partial=(True,)), quick=120,
         rule='batches are equal for equal batch seeds (whatever the noise and objective), differ for different seeds and between runs, and '
              'do not depend on runs having ended; non-trivial: one full pass observed')
def seeded(s):
    M, N, _ = s['x']['s']
    s = dict(s, batch=dict(s['batch']), term=[{'name': 'max-it', 'max_it': 99}])
    s['batch'].setdefault('seed', 42)
    b = s['batch'].get('size') or 3
    s['batch']['size'] = b = min(b, N // 2)
    per = N // b if s['batch'].get('var') != 'concat' else -(-N // b)
    s['steps'] = 4 * per + 1

    def batches(**over):
        t = dict(s, **over)
        e = build(t)
        out = []
        run(e, t, lambda k, act, batch, moved: out.append(batch))
        return out
    A = batches()
    B = batches(ns=s['ns'] + 1, alpha=3.0, f={'kind': 'abs', 'c': 0.0, 'w': 0.0}, xs=s['xs'] + 1)
    if A != B:
        fail('batches depend on more than the batch seed')
    C = batches(batch=dict(s['batch'], seed=s['batch']['seed'] + 1))
    if A == C:
        fail('batches do not depend on the batch seed')
    if batches(batch=dict(s['batch'], seed=0)) in [A, C] and s['batch']['seed'] not in (0, -1):
        fail('batches for the batch seed 0 are those of another seed')
    if {k: 0 for k in s['batch'] if k == 'seed'} and A != batches(batch={k: v for k, v in s['batch'].items() if k != 'seed'}) and s['batch']['seed'] == 42:
        fail('the default batch seed is not 42')
    seq = [sum((a[m] for a in A), []) for m in range(M)]
    for m in range(1, M):
        if seq[m] == seq[0]:
            fail('runs 0 and %d use the same batches %s' % (m, seq[0]))
    for p in range(4):
        if M > 2 and all(a[m] == a[0] for a in A[p * per:(p + 1) * per] for m in range(1, M)):
            fail('all runs use the same batches in pass %d' % p)
    for m in range(M):                 # nor in later passes: at least eight particles each, so coincidences do not count twice
        for k in range(m):
            eq = [p for p in range(4) if all(a[m] == a[k] for a in A[p * per:(p + 1) * per])]
            if len(eq) > 1:
                fail('runs %d and %d use the same batches in passes %s' % (k, m, eq))
        eq = [p for p in range(3) if [a[m] for a in A[p * per:(p + 1) * per]] == [a[m] for a in A[(p + 1) * per:(p + 2) * per]]]
        if len(eq) > 1:
            fail('run %d repeats its batches in passes %s' % (m, eq))
    D = batches(term=[{'name': 'script', 'at': [1] + [99] * (M - 1)}, {'name': 'max-it', 'max_it': 99}])
    for a, d in zip(A, D):
        for m in d:
            if a[m] != d[m]:
                fail('batches of run %d change when run 0 ends' % m)
    hit('%s' % s['batch'].get('var', 'resample'))


@P.facet('fair', lambda: st.fixed_dictionaries({'N': ints(2, 7), 'b': ints(1, 6), 'seed': ints(0, 10 ** 6), 'var': pick('resample', 'concat')}),
         quick=24, rule='usage of each particle over 120 passes and 4 runs, seven standard deviations; non-trivial: b < N')
def fair(c):
    N, b = c['N'], min(c['b'], c['N'] - 1)
    M = 4
    s = {'dyn': 'CBO', 'x': {'s': [M, N, 1]}, 'xs': 5, 'f': {'kind': 'quad', 'c': 0.5, 'w': 0.3}, 'dt': 0.1, 'lamda': 1.0, 'sigma': 1.0,
         'alpha': 1.0, 'noise': 'constant', 'ns': 1, 'steps': 120 * (N // b),
         'batch': {'size': b, 'seed': c['seed'], 'var': c['var']}, 'term': [{'name': 'max-it', 'max_it': None}]}
    e = build(s)
    use = np.zeros(N)
    first = np.zeros(N)

    def on_step(k, act, batch, moved):
        for m in act:
            np.add.at(use, batch[m], 1)
            first[batch[m][0]] += 1
    run(e, s, on_step)
    n = use.sum()
    sd = np.sqrt(n / N)
    if np.abs(use - n / N).max() > 7 * sd:
        fail('usage of the particles %s, %d expected for each' % (use.astype(int).tolist(), n // N))
    n1 = first.sum()
    sd = np.sqrt(n1 / N)
    if np.abs(first - n1 / N).max() > 7 * sd:
        fail('first particles of the batches %s, %d expected for each' % (first.astype(int).tolist(), n1 // N))
    hit(c['var'])


@P.facet('sizes', lambda: case(Ns=(20, 90), Ms=(1, 6), steps=(10, 60)), quick=60,
         rule='as passes, for up to ninety particles and sixty steps')
def sizes(s):
    passes(s)
