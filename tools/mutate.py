#!/usr/bin/env python3
"""Sensitivity campaign: mutate /repo in scratch copies, see which mutants no check notices.

mutate.py OUTDIR [--every K] [--offset O] [--workers W] [--files REGEX]
A mutant that every relevant check passes is then given to the unit tests; survivors of both are
listed in OUTDIR/survivors.txt for inspection (equivalent mutant, or a gap). Nothing here is used
by a check.
"""
import argparse
import ast
import difflib
import os
import queue
import re
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'cbx/dynamics/'
ALLP = ['C02', 'C08', 'C06', 'C04', 'C01', 'C10', 'C07', 'C11', 'C13', 'C14', 'C12', 'C09', 'C15', 'C38', 'C22', 'C03', 'C31', 'C05', 'C18', 'C19', 'C35', 'C32', 'C37', 'C39']
RELEVANT = {
    'cbx/constraints.py': ['C25', 'C26', 'C27'], 'cbx/correction.py': ['C31', 'C02', 'C07', 'C35'], 'cbx/noise.py': ['C03', 'C02', 'C22', 'C21', 'C35'],
    'cbx/objectives.py': ['C16', 'C17'], 'cbx/plotting.py': ['C37'], 'cbx/regularizers.py': ['C33', 'C27'], 'cbx/scheduler.py': ['C29', 'C30', 'C04', 'C35'],
    D + 'adamcbo.py': ['C20', 'C04', 'C08'], D + 'cbo.py': ['C02', 'C35', 'C24', 'C07'], D + 'cbo_memory.py': ['C18', 'C06', 'C07', 'C01', 'C08', 'C14', 'C38'],
    D + 'cbs.py': ['C22', 'C06', 'C13', 'C38'], D + 'driftconstrainedcbo.py': ['C26', 'C08', 'C13'], D + 'hypersurfacecbo.py': ['C28', 'C01'],
    D + 'mirrorcbo.py': ['C23', 'C24', 'C08', 'C35'], D + 'pdyn.py': ALLP, D + 'polarcbo.py': ['C21', 'C04', 'C08', 'C35'],
    D + 'pso.py': ['C19', 'C06', 'C07', 'C01', 'C08', 'C14', 'C38'], D + 'regcombinationcbo.py': ['C27', 'C06', 'C12'],
    'cbx/utils/history.py': ['C11', 'C13', 'C37', 'C35'], 'cbx/utils/objective_handling.py': ['C15', 'C16', 'C07', 'C38'],
    'cbx/utils/particle_init.py': ['C38'], 'cbx/utils/resampling.py': ['C32', 'C35'], 'cbx/utils/success.py': ['C34'],
    'cbx/utils/termination.py': ['C09', 'C08', 'C07', 'C35'], 'cbx/utils/torch_utils.py': ['C35', 'C36'],
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*'], ast.MatMult: ['*'], ast.Mod: ['*']}
NAMES = {'minimum': ['maximum'], 'maximum': ['minimum'], 'min': ['max', 'mean'], 'max': ['min'], 'argmin': ['argmax'], 'argmax': ['argmin'], 'sum': ['mean'],
         'mean': ['sum'], 'x_old': ['x'], 'particle_idx': ['consensus_idx'], 'consensus_idx': ['particle_idx'], 'num_active_runs': ['M'], 'batch_size': ['N'],
         'zeros': ['ones'], 'ones': ['zeros'], 'sin': ['cos'], 'cos': ['sin'], 'exp': ['expm1'], 'abs': ['square'], 'sigma_memory': ['sigma'], 'lamda_memory': ['lamda'],
         'best_energy': ['best_cur_energy'], 'best_cur_energy': ['best_energy'], 'f_min': ['best_energy'], 'energy_new': ['energy_old'], 'energy_old': ['energy_new']}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    b = src.encode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new, what):
        s, e = pos(n)
        return (n.lineno, what, (b[:s] + new.encode() + b[e:]).decode())

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()

    def between(a, c, pat, new, what, n):
        s, e = pos(a)[1], pos(c)[0]
        mid = b[s:e].decode()
        if mid.count(pat) != 1:
            return None
        return (n.lineno, what, (b[:s].decode() + mid.replace(pat, new) + b[e:].decode()))
    SYM = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.MatMult: '@', ast.Mod: '%'}
    CS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not'}
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for new in BIN[type(n.op)]:
                out.append(between(n.left, n.right, SYM[type(n.op)], new, 'op', n))
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                out.append(rep(n, text(n.left), 'left only'))
            if isinstance(n.op, ast.Mult):
                out.append(rep(n, text(n.right), 'right only'))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for new in CMP[type(n.ops[0])]:
                out.append(between(n.left, n.comparators[0], CS[type(n.ops[0])], new, 'cmp', n))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                out.append(rep(n, str(not n.value), 'bool'))
            elif isinstance(n.value, int):
                out.append(rep(n, '(%d)' % (n.value + 1), 'int'))
                if n.value > 0:
                    out.append(rep(n, '(%d)' % (n.value - 1), 'int'))
            elif isinstance(n.value, float) and np_finite(n.value):
                out.append(rep(n, '(%r)' % (n.value * 1.1 if n.value else 0.1), 'float'))
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                out.append(rep(n, text(n.operand), 'minus'))
            if isinstance(n.op, (ast.Not, ast.Invert)):
                out.append(rep(n, text(n.operand), 'not'))
        elif isinstance(n, (ast.Attribute, ast.Name)):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id
            if isinstance(getattr(n, 'ctx', None), ast.Load):
                for new in NAMES.get(nm, []):
                    t = text(n)
                    if t.endswith(nm):
                        out.append(rep(n, t[:-len(nm)] + new, 'name'))
        elif isinstance(n, ast.Call):
            f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if f in ('copy', 'sqrt', 'abs', 'array', 'clip', 'nan_to_num', 'exp', 'log', 'norm', 'tanh', 'correction') and n.args:
                out.append(rep(n, '(%s)' % text(n.args[0]), 'call'))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                s1, e1 = pos(n.args[0])
                s2, e2 = pos(n.args[1])
                out.append((n.lineno, 'swap', (b[:s1] + b[s2:e2] + b[e1:s2] + b[s1:e1] + b[e2:]).decode()))
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    s, e = pos(k)
                    tail = b[e:]
                    m = re.match(rb'\s*,\s*', tail)
                    if m:
                        out.append((n.lineno, 'drop kw ' + k.arg, (b[:s] + tail[m.end():]).decode()))
                    else:
                        m = re.search(rb',\s*$', b[:s])
                        if m:
                            out.append((n.lineno, 'drop kw ' + k.arg, (b[:m.start()] + tail).decode()))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and id(n) not in docs:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            out.append(rep(n, 'pass', 'drop stmt'))
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                o = SYM[type(n.op)] + '='
                new = {'+=': ['-=', '='], '-=': ['+='], '*=': ['/='], '/=': ['*=']}[o]
                for z in new:
                    out.append(between(n.target, n.value, o, z, 'aug', n))
        elif isinstance(n, ast.If):
            out.append(rep(n.test, 'not (%s)' % text(n.test), 'if not'))
            out.append(rep(n.test, 'False', 'if False'))
        elif isinstance(n, ast.IfExp):
            out.append(rep(n.test, 'not (%s)' % text(n.test), 'ifexp'))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Attribute) and n.slice.attr in ('active_runs_idx', 'particle_idx', 'consensus_idx'):
            out.append(rep(n.slice, '...', 'all runs'))
        elif isinstance(n, ast.BoolOp):
            out.append(rep(n, text(n.values[0]), 'bool first'))
    seen, res = {src}, []
    for m in out:
        if m is None or m[2] in seen:
            continue
        try:
            ast.parse(m[2])
        except SyntaxError:
            continue
        seen.add(m[2])
        res.append(m)
    return res


def np_finite(v):
    return v == v and abs(v) < 1e300


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--every', type=int, default=5)
    ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--files', default='.')
    ap.add_argument('--jobs', type=int, default=2)
    a = ap.parse_args()
    os.makedirs(a.out, exist_ok=True)
    todo = []
    for f in sorted(RELEVANT):
        if not re.search(a.files, f):
            continue
        src = open('/repo/' + f).read()
        ms = mutants(src)
        for i, m in enumerate(ms):
            if i % a.every == a.offset:
                todo.append((f, m))
    print(len(todo), 'mutants', flush=True)
    import random
    random.Random(1).shuffle(todo)
    q = queue.Queue()
    for i, t in enumerate(todo):
        q.put((i, t))
    lock = threading.Lock()

    def work(w):
        wt, vc = '%s/w%d' % (a.out, w), '%s/v%d' % (a.out, w)
        for p in (wt, vc):
            shutil.rmtree(p, ignore_errors=True)
        shutil.copytree('/repo', wt, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        shutil.copytree(HERE, vc, ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'replays', 'evidence'))
        os.makedirs(vc + '/replays')
        while True:
            try:
                i, (f, (ln, what, new)) = q.get_nowait()
            except queue.Empty:
                break
            old = open('/repo/' + f).read()
            p = os.path.join(wt, f)
            open(p, 'w').write(new)
            diff = [d for d in difflib.unified_diff(old.split('\n'), new.split('\n'), lineterm='', n=0) if d[0] in '+-' and d[:3] not in ('+++', '---')]
            env = dict(os.environ, CBX_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1')
            got, errs = None, []
            for c in RELEVANT[f]:
                try:
                    r = subprocess.run(['python3', vc + '/run.py', c, '--jobs', str(a.jobs)], cwd=vc, env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    errs.append(c + ':timeout')
                    continue
                if r.returncode == 1:
                    got = c
                    break
                if r.returncode != 0:
                    errs.append('%s:%d %s' % (c, r.returncode, r.stderr.strip()[-150:]))
                    if 'Import' in r.stderr[-3000:] or 'SyntaxError' in r.stderr[-3000:]:
                        got = 'import'
                        break
            res = 'caught by ' + got if got else None
            if not got:
                e = dict(env, PYTHONPATH=wt + ':/opt/vp/plugins', OMP_NUM_THREADS='1')
                try:
                    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'cbx_fixed_seed', '--timeout=60'],
                                       cwd=wt, env=e, capture_output=True, text=True, timeout=400)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                res = 'tests fail' if rc else 'SURVIVES'
            open(p, 'w').write(old)
            with lock:
                with open(a.out + '/all.txt', 'a') as fh:
                    fh.write('%d %s:%d [%s] %s %s\n' % (i, f, ln, what, res, errs if errs else ''))
                if not got:
                    with open(a.out + '/survivors.txt', 'a') as fh:
                        fh.write('== %d %s:%d [%s] %s %s\n%s\n' % (i, f, ln, what, res, errs, '\n'.join(diff)))
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(vc, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print('done', flush=True)


if __name__ == '__main__':
    sys.exit(main())
