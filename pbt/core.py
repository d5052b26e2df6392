"""Facets, the runner, shrinking, replay files and evidence."""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

import numpy as np

from . import env

SHRINK_SECONDS = 15.0
FACET_SECONDS = {'quick': 420.0, 'thorough': 3000.0}
SOFT_SECONDS = {'quick': 240.0, 'thorough': 2600.0}    # no new cases after this much time
QUICK_FACTOR = float(os.environ.get('PBT_FACTOR', '4'))


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """This case lies outside what the oracle can decide (counted, never silently dropped)."""


def fail(msg):
    raise Violation(msg)


def skip(why='skipped'):
    raise Skip(why)


class _Rec:
    def __init__(self):
        self.labels = {}
        self.nontrivial = False
        self.cur = set()

    def note(self, *labels):
        for lab in labels:
            self.cur.add(str(lab))

    def hit(self, *labels):
        self.nontrivial = True
        self.note(*labels)


REC = _Rec()
note = REC.note
hit = REC.hit


# ---------------------------------------------------------------------------------------------
class Facet:
    def __init__(self, name, strategy, check, quick, thorough, rule, seeds):
        self.name = name
        self.strategy = strategy      # zero-argument callable returning a Hypothesis strategy
        self.check = check
        self.n = {'quick': quick, 'thorough': thorough if thorough is not None else quick * 25}
        self.n['quick'] = max(1, int(quick * QUICK_FACTOR))
        self.rule = rule
        self.seeds = seeds            # explicit regression cases (plain dicts), run first
        self.probe = False


class Prop:
    """One property: facets registered with @prop.facet(...)."""

    def __init__(self, pid, torch=False, assumptions=()):
        self.id = pid
        self.torch = torch
        self.facets = []
        self.assumptions = list(assumptions)

    def facet(self, name, strategy, quick=150, thorough=None, rule='', seeds=()):
        def deco(fn):
            self.facets.append(Facet(name, strategy, fn, quick, thorough, rule, list(seeds)))
            return fn
        return deco

    def probe(self, name, rule=''):
        """One fixed input on which the current code is known to break the property (known_findings.json
        names it): its failure is reported as KNOWN-FINDING, or as a violation once it is not listed."""
        def deco(fn):
            from hypothesis import strategies as st
            f = Facet(name, lambda: st.just({'probe': name}), lambda case: fn(), 1, 1, rule, [])
            f.probe = True
            f.n['quick'] = 1
            self.facets.append(f)
            return fn
        return deco


# ---------------------------------------------------------------------------------------------
# comparing

def arr(x):
    if hasattr(x, 'detach'):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


def same(a, b, what, rtol=1e-9, atol=1e-9):
    """Shapes equal and values equal up to tolerance; equal infinities and NaNs match."""
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        fail('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    if a.dtype == object or b.dtype == object:
        fail('%s: object array' % what)
    with np.errstate(all='ignore'):
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        i = tuple(int(k) for k in np.argwhere(~ok)[0]) if a.ndim else ()
        fail('%s: got %r, expected %r at index %s' % (what, a[i].item(), b[i].item(), list(i)))


def exact(a, b, what):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        fail('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    ok = (a == b) | ((a != a) & (b != b))
    if not np.all(ok):
        i = tuple(int(k) for k in np.argwhere(~ok)[0]) if a.ndim else ()
        fail('%s: got %r, expected %r at index %s' % (what, a[i].item(), b[i].item(), list(i)))


def shape_is(a, shape, what):
    if tuple(np.shape(a)) != tuple(shape):
        fail('%s: shape %s, expected %s' % (what, np.shape(a), tuple(shape)))


def rejects(fn, kinds, what):
    """fn() must raise one of `kinds` (the documented rejection)."""
    try:
        fn()
    except kinds:
        return
    except Violation:
        raise
    except Exception as e:
        fail('%s: raised %s instead of a clean rejection (%s)' % (what, type(e).__name__, e))
    fail('%s: accepted' % what)


# ---------------------------------------------------------------------------------------------
# running one case

def _frames_in_repo(e):
    root = os.path.realpath(env.REPO) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def _of_repo(o):
    """Something the code under test made: its attributes are what a user would look at."""
    t = o if isinstance(o, type) else type(o)
    return o is None or isinstance(o, np.ndarray) or t.__module__.split('.')[0] == 'cbx'


def run_case(facet, case):
    """Run one case; returns normally, or raises Violation / Skip / a harness error."""
    REC.cur = set()
    REC.nontrivial = False
    np.random.seed(12345)
    random.seed(12345)
    if 'torch' in sys.modules:
        sys.modules['torch'].manual_seed(12345)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), \
                np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            facet.check(case)
    except (Violation, Skip):
        raise
    except Exception as e:
        if not _frames_in_repo(e) and (isinstance(e, (ValueError, IndexError, TypeError, KeyError, FloatingPointError)) or
                                       isinstance(e, AttributeError) and _of_repo(e.obj)):
            # on the unchanged tree no oracle stumbles; if it does, the code handed it something malformed
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('malformed output (the oracle fails with %s: %s, %s:%d)' % (
                type(e).__name__, str(e)[:300], os.path.basename(last.filename), last.lineno)) from e
        if _frames_in_repo(e):
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('unexpected %s: %s (%s:%s)' % (
                type(e).__name__, str(e)[:300], os.path.basename(last.filename), last.name)) from e
        raise


def _canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def _short(o, n=24):
    """Cut long lists and strings so that samples in the evidence stay readable."""
    if isinstance(o, dict):
        return {k: _short(v, n) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        r = [_short(v, n) for v in o[:n]]
        if len(o) > n:
            r.append('... %d more' % (len(o) - n))
        return r
    if isinstance(o, str) and len(o) > 160:
        return o[:160] + '...'
    return o


def _facet_child(prop_id, facet, tier, seed, shard, nshards, conn, t_start):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    out = dict(facet=facet.name, shard=shard, evaluations=0, skipped=0, labels={}, samples=[],
               violation=None, error=None, hashes=[])
    hashes = set()
    state = dict(best=None, msg=None, t0=None)

    def account(case):
        out['evaluations'] += 1
        for lab in REC.cur:
            out['labels'][lab] = out['labels'].get(lab, 0) + 1
        if REC.nontrivial:
            h = hashlib.blake2b(_canon(case).encode(), digest_size=8).hexdigest()
            if h not in hashes:
                hashes.add(h)
                if len(out['samples']) < 2 or (len(hashes) in (40, 160) and len(out['samples']) < 4):
                    out['samples'].append(_short(case))

    def body(case):
        if state['t0'] is not None and time.monotonic() - state['t0'] > SHRINK_SECONDS \
                and _canon(case) != state['best_key']:
            return
        if state['t0'] is None and time.monotonic() - t_start > SOFT_SECONDS[tier]:
            out['labels']['not run: out of time'] = 1
            return
        try:
            run_case(facet, case)
        except Skip:
            out['evaluations'] += 1
            out['skipped'] += 1
            return
        except Violation as v:
            if state['t0'] is None:
                state['t0'] = time.monotonic()
                state['tb'] = traceback.format_exc(limit=-6)
            state['best'], state['msg'], state['best_key'] = case, str(v), _canon(case)
            raise
        except Exception as e:
            # a problem of the harness (or a renamed attribute): remember it, keep looking for violations
            out['evaluations'] += 1
            if out['error'] is None:
                out['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
            return
        account(case)

    n = facet.n[tier]
    if nshards > 1 and not facet.probe:
        n = -(-n // nshards)
    try:
        if shard == 0:
            for case in facet.seeds:
                body(case)
        d = hashlib.sha256(('%s/%s/%s/%d' % (prop_id, facet.name, seed, shard)).encode()).digest()
        s = int.from_bytes(d[:6], 'big')

        @hypothesis.seed(s)
        @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                  report_multiple_bugs=False, verbosity=Verbosity.quiet,
                  suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink))
        @given(facet.strategy())
        def t(case):
            body(case)
        if n > 0:
            t()
    except Exception as e:
        if state['best'] is not None:
            out['violation'] = dict(case=state['best'], message=state['msg'], trace=state.get('tb'))
        else:
            out['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
    out['hashes'] = sorted(hashes)
    conn.send(out)
    conn.close()


# ---------------------------------------------------------------------------------------------

def known_findings(pid):
    p = os.path.join(env.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh).get('findings', []) if k['property'] == pid]


def run_prop(prop, tier, seed, jobs=8, only=None, quiet=False):
    t0 = time.time()
    facets = [f for f in prop.facets if only is None or f.name in only]
    ctx = mp.get_context('fork')
    t0m = time.monotonic()

    def shards(f):
        if f.probe:
            return 1
        return 8 if tier != 'quick' else max(1, min(8, f.n['quick'] // 25))
    todo = [(f, s) for f in facets for s in range(shards(f))]
    if tier == 'quick':
        todo.sort(key=lambda fs: -fs[0].n['quick'] / shards(fs[0]))
    else:
        todo.sort(key=lambda fs: fs[1])
    running, results, errors = [], [], []
    while todo or running:
        while todo and len(running) < jobs:
            f, s = todo.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_facet_child, args=(prop.id, f, tier, seed, s, shards(f), w, t0m))
            p.start()
            w.close()
            running.append((p, r, f, s, time.monotonic()))
        mp.connection.wait([x[1] for x in running], timeout=1.0)
        still = []
        for p, r, f, s, st in running:
            if r.poll():
                try:
                    results.append(r.recv())
                except EOFError:
                    errors.append('facet %s ended without a result (exit code %s)' % (f.name, p.exitcode))
                p.join()
            elif time.monotonic() - st > FACET_SECONDS[tier]:
                p.kill()
                p.join()
                errors.append('facet %s: no answer within its time budget (inconclusive)' % f.name)
            else:
                still.append((p, r, f, s, st))
        running = still
    order = {f.name: i for i, f in enumerate(facets)}
    results.sort(key=lambda o: (order[o['facet']], o['shard']))

    known = known_findings(prop.id)
    violations = []
    for o in results:
        if o['error']:
            errors.append('facet %s: %s' % (o['facet'], o['error']))
        if o['violation']:
            k = [k for k in known if k['probe'] == o['facet']]
            if k and k[0]['message'] in o['violation']['message']:
                print('KNOWN-FINDING: property=%s %s' % (prop.id, k[0]['what']))
            else:
                violations.append(o)

    per = {}
    for o in results:
        e = per.setdefault(o['facet'], dict(evaluations=0, outside_oracle=0, labels={}, _h=set(), samples=[]))
        e['evaluations'] += o['evaluations']
        e['outside_oracle'] += o['skipped']
        for k, v in o['labels'].items():
            e['labels'][k] = e['labels'].get(k, 0) + v
        e['_h'].update(o['hashes'])
        if len(e['samples']) < 2:
            e['samples'] += o['samples'][:2]
    total = sum(e['evaluations'] for e in per.values())
    nontriv = sum(len(e['_h']) for e in per.values())
    samples = [dict(facet=k, case=c) for k, e in per.items() for c in e['samples'][:2]]
    rules = '; '.join('%s: %s' % (f.name, f.rule) for f in facets)
    cov = dict(evaluations=total, distinct_nontrivial=nontriv, rule=rules, samples=samples[:12] or ['none'],
               facets={k: dict(evaluations=e['evaluations'], outside_oracle=e['outside_oracle'],
                               distinct_nontrivial=len(e['_h']),
                               classes=dict(sorted(e['labels'].items(), key=lambda t: -t[1])[:24]))
                       for k, e in per.items()})
    ev = dict(property=prop.id, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=prop.assumptions, wall_s=round(time.time() - t0, 3), violations=len(violations))
    if only is None:
        os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(env.VERIF, 'evidence', prop.id + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write('\n')
    for e in errors:
        print('HARNESS-ERROR property=%s %s' % (prop.id, e), file=sys.stderr)
    if violations:
        os.makedirs(os.path.join(env.VERIF, 'replays'), exist_ok=True)
        seen = set()
        for o in violations:
            if o['facet'] in seen:
                continue
            seen.add(o['facet'])
            v = o['violation']
            path = os.path.join(env.VERIF, 'replays', '%s-%s.json' % (prop.id, o['facet'].replace(' ', '_')))
            with open(path, 'w') as fh:
                json.dump(dict(property=prop.id, facet=o['facet'], message=v['message'], case=v['case'],
                               trace=v['trace']), fh, indent=1)
            print('# %s/%s: %s' % (prop.id, o['facet'], v['message']))
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    if errors:
        return 2
    if not quiet:
        print('%s ok: %d cases, %d distinct non-trivial, %.1f s' % (prop.id, total, nontriv, time.time() - t0))
        starving = [k for k, e in per.items() if not e['_h'] and k not in {f.name for f in facets if f.probe}]
        if starving:
            print('# facets without a non-trivial case: %s' % starving)
    return 0


def replay(prop, path):
    with open(path) as fh:
        r = json.load(fh)
    for f in prop.facets:
        if f.name == r['facet']:
            try:
                run_case(f, r['case'])
            except Violation as v:
                print('# %s/%s: %s' % (prop.id, f.name, v))
                print('VIOLATION property=%s replay=%s' % (prop.id, path))
                return 1
            except Skip as s:
                print('outside the oracle: %s' % s)
            print('replay passes')
            return 0
    print('no facet %s' % r['facet'], file=sys.stderr)
    return 2
