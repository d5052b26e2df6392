"""C37: plots."""
import contextlib
import glob
import os
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, scen
from pbt.core import Prop, exact, fail, hit, note, rejects, same, shape_is, skip
from pbt.gen import dec, ints, pick, q, seeds

P = Prop('C37', assumptions=['the Agg backend of matplotlib', 'consensus and drift of a run are looked up while all runs are active, as histories keep one row per active run', 'a history with consensus or drift is saved in every step'])


def pyplot():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    return plt


@contextlib.contextmanager
def recording():
    """Records what is handed to the axes, whoever calls them."""
    from matplotlib.axes import Axes
    log = {'contourf': [], 'plot': []}
    old = {n: getattr(Axes, n) for n in log}

    def mk(n):
        def f(self, *a, **k):
            log[n].append((self, [np.array(z, dtype=float, copy=True) for z in a[:3] if not isinstance(z, (int, str))], dict(k)))
            return old[n](self, *a, **k)
        return f
    for n in log:
        setattr(Axes, n, mk(n))
    try:
        yield log
    finally:
        for n in log:
            setattr(Axes, n, old[n])


@contextlib.contextmanager
def saving():
    from matplotlib.figure import Figure
    figs, old = [], Figure.savefig

    def f(self, *a, **k):
        figs.append(self)
        return old(self, *a, **k)
    Figure.savefig = f
    try:
        yield figs
    finally:
        Figure.savefig = old


@st.composite
def surf_cases(draw):
    d = draw(ints(2, 4))
    dims = draw(st.permutations(range(d)))[:2]
    c = {'d': d, 'dims': draw(pick(None, dims)) if d > 1 else None, 'n': draw(pick(None, 2, 3, 7)), 'f': draw(gen.objective(kinds=('quad', 'rastr', 'abs', 'lin', 'mix'))), 'kind': draw(pick('contour', 'contour', 'line')),
         'given': draw(st.booleans())}
    lo = draw(q(-3, 2, 1))
    c['x'] = draw(pick(None, [lo, lo + draw(q(.1, 4, 1))]))
    lo = draw(q(-3, 2, 1))
    hi = lo + draw(q(.1, 4, 1))
    c['y'] = draw(pick(None, [lo, hi], [0., hi if hi > 0 else 1.], [lo if lo < 0 else -1., 0.], [lo, None], [None, hi]))
    return c


@P.facet('objective', surf_cases, quick=120, rule='points at which curves and contours evaluate the objective and the values handed to matplotlib; non-trivial: a contour in selected dimensions of more than two, or a rectangle')
def objective(c):
    plt = pyplot()
    from cbx.plotting import contour_2D, plot_1D
    f = scen.Objective(c['f'])
    fig, ax = plt.subplots()
    try:
        kw = {}
        lo, hi = (-1., 1.) if c['x'] is None else c['x']
        if c['x'] is not None:
            kw.update(x_min=lo, x_max=hi)
        if c['n'] is not None:
            kw['num_pts'] = c['n']
        if c['given']:
            kw['ax'] = ax
            plt.subplots()                 # another axis is the current one
        with recording() as log:
            if c['kind'] == 'line':
                n = c['n'] or 200
                plot_1D(f, **kw)
                if len(log['plot']) != 1 or log['plot'][0][0] is not ax:
                    fail('%d curves drawn' % len(log['plot']))
                X, Y = log['plot'][0][1]
                g = np.linspace(lo, hi, n)
                same(X, g, 'abscissae', rtol=1e-12, atol=1e-12)
                same(Y, gen.obj_value(c['f'], g[:, None]), 'curve', rtol=1e-9, atol=1e-9)
                L = ax.lines[-1]
                same(np.asarray(L.get_ydata()).reshape(-1), gen.obj_value(c['f'], g[:, None]), 'drawn curve', rtol=1e-9, atol=1e-9)
                hit('line')
                return
            n, d = c['n'] or 50, c['d']
            ylo, yhi = lo, hi
            if c['y'] is not None:
                if c['y'][0] is not None:
                    ylo = kw['y_min'] = c['y'][0]
                if c['y'][1] is not None:
                    yhi = kw['y_max'] = c['y'][1]
            if d != 2:
                kw['d'] = d
            if c['dims'] is not None:
                kw['dims'] = list(c['dims'])
            dims = c['dims'] or [0, 1]
            r = contour_2D(f, **kw)
        if len(log['contourf']) != 1 or log['contourf'][0][0] is not ax or r is None:
            fail('%d contours drawn' % len(log['contourf']))
        X, Y, Z = log['contourf'][0][1]
        gx, gy = np.linspace(lo, hi, n), np.linspace(ylo, yhi, n)
        if X.ndim == 1:
            X, Y = np.meshgrid(X, Y)
        shape_is(Z, (n, n), 'contour values')
        same(X, np.broadcast_to(gx, (n, n)), 'abscissae', rtol=1e-12, atol=1e-12)
        same(Y, np.broadcast_to(gy[:, None], (n, n)), 'ordinates', rtol=1e-12, atol=1e-12)
        pts = np.zeros((n, n, d))
        pts[..., dims[0]], pts[..., dims[1]] = X, Y
        want = gen.obj_value(c['f'], pts)
        same(Z, want, 'contour values', rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max()))
        ev = np.concatenate([p.reshape(-1, d) for p, _ in f.calls])
        rest = [i for i in range(d) if i not in dims]
        if np.any(ev[:, rest] != 0):
            fail('the objective was evaluated off the plane of the plot')
        if d > 2 or c['y'] is not None:
            hit('contour')
    finally:
        plt.close('all')


@st.composite
def dyn_cases(draw):
    s = draw(scen.scenario(dyns=('CBO', 'CBO', 'CBOMemory', 'PSO'), noises=('isotropic', 'anisotropic'), batch=True, term=False, Ms=(1, 3), Ns=(1, 6), ds=(1, 4), steps=(1, 5)))
    M, d = s['x']['s'][0], s['x']['s'][-1]
    s['track'] = {'names': draw(pick(['x', 'consensus', 'drift'], ['x', 'consensus', 'drift'], ['x', 'energy'], ['x', 'consensus'], ['energy'])), 'save_int': 1}
    if not {'consensus', 'drift'} & set(s['track']['names']):     # which consensus belongs to a particle entry is only clear if every step is saved
        s['track']['save_int'] = draw(pick(1, 2, 3))
    return {'s': s, 'run': draw(ints(0, M - 1)), 'dims': list(draw(st.permutations(range(d)))[:2]) if d > 1 and draw(st.booleans()) else None, 'cons': draw(st.booleans()), 'drift': draw(st.booleans()),
            'e1': draw(pick(None, True, False)), 'start': draw(ints(0, 2)), 'at': draw(st.lists(ints(0, 4), min_size=1, max_size=3)), 'freq': draw(pick(None, 1, 2)), 'save': draw(pick(False, False, True)),
            'lim': draw(pick(None, [-2., 3.], [0., .05], [-400., 900.], [-3., None], [None, 7.])), 'own': draw(st.booleans()), 'parts': draw(pick(None, None, 'same', 'fewer', 'more'))}


def offs(o):
    return np.asarray(np.ma.filled(o.get_offsets(), np.nan), dtype=float).reshape(-1, 2)


def expected_x(c, x, f):
    x = x[c['run']]
    if x.shape[-1] == 1:
        y = gen.obj_value(f, x) if c['e1'] in (None, True) else np.zeros(len(x))
        return np.stack([x[:, 0], y], -1)
    return x[:, c['dims'] or [0, 1]]


def expected_c(c, con):
    con = con[c['run']]
    if con.shape[-1] == 1:
        return np.stack([con[:, 0], 0 * con[:, 0]], -1)
    return con[:, c['dims'] or [0, 1]]


def cmp_offs(o, want, what):
    same(offs(o), want, what, rtol=1e-6, atol=1e-6)


def check_drift(c, p, x, dr, idx):
    """The arrows: one per moved particle of the run, from its position, along the negative drift."""
    dims = c['dims'] or [0, 1]
    if len([a for a in p.ax.collections if type(a).__name__ == 'Quiver']) != 1:
        fail('%d sets of arrows' % len([a for a in p.ax.collections if type(a).__name__ == 'Quiver']))
    X = x[c['run']][idx][:, dims]
    same(offs(p.quiver), X, 'feet of the drift arrows', rtol=1e-9, atol=1e-9)
    UV = np.stack([np.ma.filled(p.quiver.U, np.nan).reshape(-1), np.ma.filled(p.quiver.V, np.nan).reshape(-1)], -1)
    same(UV, -dr[c['run']][:, dims], 'drift arrows', rtol=1e-9, atol=1e-9)


def plot_kwargs(c, ax):
    kw = dict(num_run=c['run'], plot_consensus=c['cons'], plot_drift=c['drift'])
    if c['dims'] is not None:
        kw['dims'] = list(c['dims'])
    if c['e1'] is not None:
        kw['eval_energy_1d'] = c['e1']
    oa = {'num_pts': 4}
    if c['lim'] is not None:
        oa.update({k: v for k, v in zip(('x_min', 'x_max'), c['lim']) if v is not None})
    kw['objective_args'] = oa
    if c['own']:
        kw['ax'] = ax
    return kw


def check_axes(c, p, log, f, d):
    lo, hi = (w if v is None else v for v, w in zip(c['lim'] or [None, None], [-1., 1.]))
    same(np.array(p.ax.get_xlim()), np.array([lo, hi]), 'window of the plot', rtol=1e-12, atol=1e-12)
    if d > 1:
        same(np.array(p.ax.get_ylim()), np.array([lo, hi]), 'window of the plot', rtol=1e-12, atol=1e-12)
    if d > 1:
        calls = [a for a in log['contourf'] if a[0] is p.ax]
        if len(calls) != 1:
            fail('%d contours of the objective' % len(calls))
        X, Y, Z = calls[0][1]
        dims = c['dims'] or [0, 1]
        pts = np.zeros(X.shape + (d,))
        pts[..., dims[0]], pts[..., dims[1]] = X, Y
        w = gen.obj_value(f, pts)
        same(Z, w, 'contour of the objective', rtol=1e-9, atol=1e-9 * (1 + np.abs(w).max()))
        g = np.linspace(lo, hi, 4)
        same(X[0], g, 'abscissae of the contour', rtol=1e-9, atol=1e-9)
        same(Y[:, 0], g, 'ordinates of the contour', rtol=1e-9, atol=1e-9)
    else:
        calls = [a for a in log['plot'] if a[0] is p.ax]
        if len(calls) != 1:
            fail('%d curves of the objective' % len(calls))
        g = np.linspace(lo, hi, 4)
        same(calls[0][1][0], g, 'abscissae of the curve', rtol=1e-9, atol=1e-9)
        same(calls[0][1][1], gen.obj_value(f, g[:, None]), 'curve of the objective', rtol=1e-9, atol=1e-9)


def flat(s):
    return len(s['x']['s']) == 3


@P.facet('dynamic', dyn_cases, quick=90, rule='a live dynamic plotted at the start and after every further step; non-trivial: a run, dimensions or batches other than the first, with consensus or drift')
def dynamic(c):
    plt = pyplot()
    from cbx.plotting import PlotDynamic
    s = c['s']
    e = scen.build(s)
    d = e.x_init.shape[-1]
    for _ in range(min(c['start'], s['steps'] - 1)):
        scen.step(e)
    fig, ax = plt.subplots()
    if c['own']:
        plt.subplots()                     # another axis is the current one
    try:
        with recording() as log, warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            p = PlotDynamic(e.dyn, **plot_kwargs(c, ax))
            p.init_plot()
        if c['own'] and p.ax is not ax:
            fail('another axis was used')
        check_axes(c, p, log, s['f'], d)
        cmp_offs(p.scx, expected_x(c, e.dyn.x, s['f']), 'particles at the start')
        con = e.dyn.x if e.dyn.consensus is None else e.dyn.consensus
        if c['cons']:
            cmp_offs(p.scc, expected_c(c, con), 'consensus at the start')
        warned = any('rift' in str(w.message) for w in ws)
        if c['drift'] and d == 1 and not warned:
            fail('no warning about drifts in one dimension')
        if c['drift'] and d > 1 and getattr(e.dyn, 'drift', None) is not None:
            check_drift(c, p, e.dyn.x, np.asarray(e.dyn.drift), scen.moved_of(e.dyn)[c['run']])
        quiver0 = c['drift'] and d > 1
        while True:
            o = scen.step(e)
            if o is None:
                break
            # without a drift at the start there is one arrow per particle, later one per moved particle
            if quiver0 and len(scen.moved_of(e.dyn)[c['run']]) != len(offs(p.quiver)):
                note('number of arrows changes')
            p.update(wait=1e-9)
            cmp_offs(p.scx, expected_x(c, o[0]['x'], s['f']), 'particles at step %d' % o[0]['it'])
            if c['cons']:
                cmp_offs(p.scc, expected_c(c, o[1]['consensus']), 'consensus at step %d' % o[0]['it'])
            if quiver0:
                check_drift(c, p, o[0]['x'], np.asarray(e.dyn.drift), scen.moved_of(e.dyn)[c['run']])
                note('drift')
            if (c['cons'] or quiver0) and (c['run'] or c['dims'] not in (None, [0, 1]) or s.get('batch')):
                hit('%d dimensions' % d)
    finally:
        plt.close('all')


@P.facet('history', dyn_cases, quick=90, rule='histories plotted at several iterations, in any order, and by run_plots with saved images; missing histories; non-trivial: as above and two iterations')
def history(c):
    plt = pyplot()
    from cbx.plotting import PlotDynamicHistory
    s = c['s']
    e = scen.build(s)
    d = e.x_init.shape[-1]
    ref = {'x': [e.x_init.copy()], 'consensus': [], 'drift': [], 'idx': []}
    while True:
        o = scen.step(e)
        if o is None:
            break
        if o[0]['it'] % s['track']['save_int']:
            continue
        ref['x'].append(o[1]['x'].copy())
        ref['consensus'].append(np.array(o[1]['consensus'], copy=True))
        ref['drift'].append(np.array(e.dyn.drift, copy=True))
        ref['idx'].append(scen.moved_of(e.dyn)[c['run']])
    names = s['track']['names']
    fig, ax = plt.subplots()
    if c['own']:
        plt.subplots()                     # another figure is the current one
    tmp = None
    try:
        kw = plot_kwargs(c, ax)
        if 'x' not in names:
            rejects(lambda: PlotDynamicHistory(e.dyn, **kw), (RuntimeError,), 'a history without particles')
            note('rejected')
            return
        if c['parts']:
            ref['x'] = [x + 1. for x in ref['x']]
            free = not (c['cons'] and 'consensus' in names) and not (c['drift'] and 'drift' in names)
            if c['parts'] == 'fewer' and free and len(ref['x']) > 2:
                del ref['x'][2:]
                note('fewer')
            elif c['parts'] == 'more' and free:
                ref['x'] += [x + k for k in (2., 3., 4.) for x in ref['x']]
                note('more')
            kw['particles'] = ref['x']
        with recording() as log, warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            p = PlotDynamicHistory(e.dyn, **kw)
        check_axes(c, p, log, s['f'], d)
        text = ' '.join(str(w.message) for w in ws)
        cons, drift = c['cons'] and 'consensus' in names, c['drift'] and 'drift' in names
        if c['cons'] and not cons and 'consensus' not in text:
            fail('no warning about the missing history of the consensus')
        if c['drift'] and not drift and 'drift' not in text:
            fail('no warning about the missing history of the drift')
        drift = drift and d > 1
        K = len(ref['x']) - 1

        def check(i, what):
            cmp_offs(p.scx, expected_x(c, ref['x'][i], s['f']), 'particles %s' % what)
            if cons:
                cmp_offs(p.scc, expected_c(c, ref['consensus'][i]), 'consensus %s' % what)
            if drift:
                check_drift(c, p, ref['x'][i], ref['drift'][i], ref['idx'][i])
                note('drift')
        check(0, 'at the start')
        for i in c['at']:
            i %= K
            p.plot_at_ind(i)
            p.decorate_at_ind(i)
            check(i, 'at iteration %d' % i)
            if str(i) not in p.ax.get_title():
                fail('title %r at iteration %d' % (p.ax.get_title(), i))
        if not cons and not drift:
            p.plot_at_ind(K)
            cmp_offs(p.scx, expected_x(c, ref['x'][K], s['f']), 'particles at the end')
        kw2 = {} if c['freq'] is None else {'freq': c['freq']}
        freq = c['freq'] or 5
        if c['save']:
            tmp = tempfile.mkdtemp(prefix='cbxplots')
            kw2['save_args'] = {'fname': os.path.join(tmp, 'im'), 'dpi': 10}
        with saving() as figs:
            p.run_plots(wait=1e-9, **kw2)
        shown = [i for i in range(K) if i % freq == 0]
        check(shown[-1], 'after run_plots')
        if c['save']:
            got = sorted(os.path.basename(g) for g in glob.glob(os.path.join(tmp, '*')))
            if got != sorted('im%d.png' % i for i in shown):
                fail('saved images %s, expected iterations %s' % (got, shown))
            if any(g is not p.ax.get_figure() for g in figs):
                fail('the saved images do not show the plot')
        if (cons or drift) and K > 1 and (c['run'] or c['dims'] not in (None, [0, 1]) or s.get('batch')):
            hit('%d dimensions' % d)
    finally:
        plt.close('all')
        if tmp:
            shutil.rmtree(tmp)


@P.facet('domains', lambda: st.fixed_dictionaries({'dims': pick([2, 2], [1, 3], [2, 1]), 'h': st.booleans()}), quick=8, rule='multi-dimensional domains are rejected; non-trivial: all')
def domains(c):
    plt = pyplot()
    from cbx.plotting import PlotDynamic, PlotDynamicHistory
    import cbx.dynamics as D
    dyn = D.CBO(lambda x: x.sum(axis=(-2, -1)), x=np.ones([1, 3] + c['dims']), f_dim='3D', verbosity=0, track_args={'names': ['x']})
    try:
        rejects(lambda: (PlotDynamicHistory if c['h'] else PlotDynamic)(dyn), (ValueError,), 'a domain of shape %s' % (c['dims'],))
    finally:
        plt.close('all')
    hit()


def _ended_run():
    import cbx.dynamics as D
    x = np.linspace(-1, 2, 2 * 3 * 2).reshape(2, 3, 2)
    dyn = D.CBO(lambda x: (x ** 2).sum(-1), f_dim='3D', x=x, sigma=0., verbosity=0, max_it=3, track_args={'names': ['x', 'consensus', 'drift']},
                term_criteria=[lambda d: np.array([d.it >= 1, d.it >= 3])])
    dyn.optimize(sched=None)
    return dyn


@P.probe('live_plot_after_a_run_ended', rule='consensus of run 1 of 2, after run 0 ended')
def live_plot_after_a_run_ended():
    from cbx.plotting import PlotDynamic
    plt = pyplot()
    dyn = _ended_run()
    try:
        p = PlotDynamic(dyn, num_run=1, plot_consensus=True)
        p.init_plot()
        exact(p.scc.get_offsets(), dyn.consensus[0], 'consensus plotted for run 1')
    finally:
        plt.close('all')


@P.probe('history_plot_after_a_run_ended', rule='history of the consensus of run 1 of 2, with run 0 ended after the first step')
def history_plot_after_a_run_ended():
    from cbx.plotting import PlotDynamicHistory
    plt = pyplot()
    dyn = _ended_run()
    try:
        p = PlotDynamicHistory(dyn, num_run=1, plot_consensus=True)
        p.init_plot()
        p.plot_at_ind(2)
        exact(p.scc.get_offsets(), dyn.consensus[0], 'consensus plotted for run 1')
    finally:
        plt.close('all')
