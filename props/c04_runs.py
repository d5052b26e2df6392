"""C04: runs simulated together do not influence each other."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, Violation, fail, hit, note, same, skip
from pbt.gen import ints, pick, q

P = Prop('C04', assumptions=['the objective treats points separately', 'no mini-batches (their permutations come from one '
                             'generator shared by the runs)'])
ARR = ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'best_cur_energy', 'best_cur_particle', 'num_f_eval',
       'f_min', 'alpha')


def make_sched(c):
    import cbx.scheduler as S
    if c is None:
        return None
    parts = []
    for k in c:
        if k['name'] == 'multiply':
            parts.append(S.multiply(name=k['par'], factor=k['factor'], maximum=k['maximum']))
        else:
            parts.append(S.effective_sample_size(eta=k['eta'], maximum=k['maximum']))
    return S.scheduler(parts)


scheds = st.one_of(
    st.none(), st.lists(st.one_of(
        st.fixed_dictionaries({'name': st.just('multiply'), 'par': pick('alpha', 'sigma', 'lamda'),
                               'factor': pick(1.05, 0.5, 2.0), 'maximum': pick(1e5, 5.0)}),
        st.fixed_dictionaries({'name': st.just('ess'), 'eta': pick(0.5, 0.2, 0.9), 'maximum': pick(1e5, 20.0)})), min_size=1, max_size=2))


@st.composite
def terms(draw, steps, M):
    out = draw(scen.terms(steps, M))
    if draw(pick(True, False, False)):
        out.insert(0, {'name': 'energy-stagnation', 'patience': draw(ints(1, 3)), 'std_thresh': draw(pick(1e-3, 0.1, 2.0))})
    return out


@st.composite
def joint(draw, dyns, **kw):
    kw.setdefault('objs', ('quad', 'rastr', 'abs', 'lin', 'mix'))
    s = draw(scen.scenario(dyns=dyns, Ms=(2, 4), multi=True, fscale=False, alphas=(0, 10),
                           kinds=('fine', 'fine', 'grid'), steps=(1, 5), **kw))
    s['term'] = draw(terms(s['steps'], s['x']['s'][0]))
    s['sched'] = draw(scheds)
    if draw(pick(False, False, False, True)):       # runs of very different magnitude
        s['mag'] = draw(st.lists(pick(1.0, 1e3, 1e5), min_size=2, max_size=4))
    return s


def run(s, runs=None, x=None, limit=40):
    e = scen.build(s, runs=runs, x=x)
    sch = make_sched(s['sched'])
    e.alpha = np.array(e.dyn.alpha, copy=True)      # alpha of the last step of each run
    k = 0
    while not e.dyn.terminate() and k < limit:
        note_alpha(e)
        e.dyn.step()
        if sch is not None:
            sch.update(e.dyn)
        k += 1
    return e


def note_alpha(e):
    for m in e.dyn.active_runs_idx:
        e.alpha[m] = e.dyn.alpha[m]


def difference(a, b, m, s):
    """Largest relative difference between run m of a and the single run b (inf on structural mismatch)."""
    worst, where = 0.0, ''
    for n in ARR:
        if not all(isinstance(getattr(z.dyn, n, None), np.ndarray) for z in (a, b)):
            continue
        u, v = (np.asarray(z.alpha if n == 'alpha' else getattr(z.dyn, n)) for z in (a, b))
        u, v = u[m].astype(float), v[0].astype(float)
        if u.shape != v.shape:
            return np.inf, '%s has shape %s, alone %s' % (n, u.shape, v.shape)
        ok = (u == v) | (np.isnan(u) & np.isnan(v))
        with np.errstate(all='ignore'):
            dlt = np.where(ok, 0, np.abs(u - v) / (1 + np.abs(v)))
        dlt = np.where(np.isnan(dlt), np.inf, dlt)
        if dlt.size and dlt.max() > worst:
            worst, where = float(dlt.max()), '%s: %r, alone %r' % (n, u.reshape(-1)[dlt.argmax()], v.reshape(-1)[dlt.argmax()])
    ra, rb = a.dyn.term_reason[m], b.dyn.term_reason[0]
    if (ra is None) != (rb is None):
        return np.inf, 'reason of termination %s, alone %s' % (ra, rb)
    return worst, where


def check(s):
    ej = run(s)
    M = ej.dyn.M
    if s.get('mag'):
        note('runs of different magnitude')
    for m in range(M):
        es = run(s, runs=[m])
        if es.dyn.term_reason[0] is not None and es.dyn.it > ej.dyn.it:
            fail('run %d alone takes %d steps, together %d' % (m, es.dyn.it, ej.dyn.it))
        d, where = difference(ej, es, m, s)
        if d > 1e-6:
            # chaotic amplification of rounding? compare with the effect of tiny perturbations
            X = scen.x0(s)
            amp = 0.0
            for k in range(2):
                r = np.random.default_rng(k)
                Y = X + 1e-12 * (1 + np.abs(X)) * r.standard_normal(X.shape)
                amp = max(amp, difference(es, run(s, runs=[m], x=Y), 0, s)[0])
            if d <= 1e3 * amp:
                skip('amplifies rounding')
            fail('run %d depends on the other runs: %s' % (m, where))
    if M > 1 and ej.dyn.it > 0:
        hit(s['dyn'], 'noise ' + str(s['noise']))
        its = {len(r) if r is not None else 0 for r in ej.dyn.term_reason}
        note('reasons %s' % sorted(its))


RULE = 'M runs together and each alone with its own random stream, compared state by state at the end; '


@P.facet('consensus', lambda: joint(('CBO',), noises=('isotropic', 'anisotropic', 'constant', 'covariance'),
                                    corr=('no_correction', 'heavi_side', 'heavi_side_reg')), quick=250,
         rule=RULE + 'non-trivial: M > 1 and at least one step')
def consensus(s):
    check(s)


@P.facet('memory', lambda: joint(('CBOMemory', 'PSO', 'AdamCBO'), noises=('isotropic', 'anisotropic', 'covariance')), quick=220,
         rule=RULE + 'memory and momentum dynamics; non-trivial as above')
def memory(s):
    check(s)


@P.facet('kernels', lambda: joint(('PolarCBO', 'PolarCBO', 'CBS'), noises=('isotropic', 'covariance', 'anisotropic')),
         quick=220, rule=RULE + 'polar kernels (with Taz) and consensus-based sampling; non-trivial as above')
def kernels(s):
    if s['dyn'] == 'PolarCBO':
        if s['ns'] % 4 == 0:
            s = dict(s, kernel='Taz')
        al = s['alpha'] if isinstance(s['alpha'], list) else [s['alpha']]
        if s['kernel'] == 'Constant' and (0 in al or s['sched']):
            skip('0 * inf')
    check(s)


@P.facet('constrained', lambda: joint(('MirrorCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'RegCombinationCBO'),
                                      sdf=('sphere', 'plane')), quick=220,
         rule=RULE + 'constrained dynamics; non-trivial as above')
def constrained(s):
    check(s)


@P.facet('resampling', lambda: joint(('CBO', 'CBOMemory', 'PolarCBO'), noises=('isotropic', 'anisotropic')).flatmap(
    lambda s: st.tuples(pick('update', 'loss', 'consensus'), pick(0.02, 0.1, 0.5), ints(1, 3), ints(2, 6)).map(
        lambda t: dict(s, rule=t[0], thresh=t[1], wait=t[2], steps=t[3], term=s['term'][:-1] + [{'name': 'max-it', 'max_it': t[3]}]))),
    quick=150, rule='which runs are resampled and when, and everything before, is the same for a run alone; resampling adds a '
    'deterministic bump; non-trivial: some run was resampled')
def resampling(s):
    from cbx.utils import resampling as R
    if s['dyn'] == 'PolarCBO' and s['rule'] == 'consensus':
        s = dict(s, rule='loss')
    if s['dyn'] == 'PolarCBO' and s['kernel'] == 'Constant':
        s = dict(s, kernel='Gaussian')

    def go(runs, x=None):
        e = scen.build(s, runs=runs, x=x)
        sch = make_sched(s['sched'])
        rule = {'update': lambda: R.ensemble_update_resampling(s['thresh']), 'loss': lambda: R.loss_update_resampling(s['wait']),
                'consensus': lambda: R.consensus_stagnation(patience=s['wait'], update_thresh=s['thresh'])}[s['rule']]()

        def apply(dyn, idx, **kw):
            dyn.x[idx, ...] += 0.125
        rs = R.resampling([rule], apply=apply)
        k = 0
        e.alpha = np.array(e.dyn.alpha, copy=True)
        while not e.dyn.terminate() and k < 40:
            note_alpha(e)
            e.dyn.step()
            rs(e.dyn)
            if sch is not None:
                sch.update(e.dyn)
            k += 1
        e.num = np.zeros(e.dyn.M) if rs.num_resampling is None else np.array(rs.num_resampling)
        return e
    ej = go(None)
    for m in range(ej.dyn.M):
        es = go([m])
        d, where = difference(ej, es, m, s)
        if ej.num[m] != es.num[0]:
            d, where = np.inf, 'resampled %d times, alone %d times' % (ej.num[m], es.num[0])
        if d > 1e-6:
            X = scen.x0(s)
            amp = 0.0
            for k in range(2):
                r = np.random.default_rng(k)
                ep = go([m], x=X + 1e-12 * (1 + np.abs(X)) * r.standard_normal(X.shape))
                amp = max(amp, difference(es, ep, 0, s)[0])
                if ep.num[0] != es.num[0]:
                    amp = np.inf
            if d <= 1e3 * amp:
                skip('amplifies rounding')
            fail('run %d depends on the other runs: %s' % (m, where))
    if ej.num.any():
        hit(s['rule'])


@P.facet('sizes', lambda: st.sampled_from(scen.DYNS).flatmap(lambda d: joint((d,), noises=('isotropic', 'anisotropic', 'constant'), size='large')), quick=60,
         rule=RULE + 'as above, for ensembles of up to 16 x 80 particles in up to 24 dimensions')
def sizes(s):
    if s['dyn'] == 'PolarCBO':
        s = dict(s, kernel='Gaussian')
    check(s)
