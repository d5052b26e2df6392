#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/catalogue.py and the checks in props/."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from catalogue import ROWS  # noqa: E402

props, checks, na = [], [], []
for r in ROWS:
    assert len(r['title']) <= 80, (r['pid'], len(r['title']))
    props.append(dict(id=r['pid'], title=r['title'], statement=r['statement'],
                      quantifier=dict(over=r['over'], text=r['qtext']), why_tests_cant=r['why'],
                      anchors=dict(files=r['files'], state=r['state'],
                                   mechanism=[dict(name=a, where=b) for a, b in r['mech']],
                                   observe_at=r['observe'], hook_needed=None)))
    if glob.glob(os.path.join(HERE, 'props', r['pid'].lower() + '_*.py')):
        cmd = 'python3 run.py %s' % r['pid']
        checks.append(dict(property=r['pid'], quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough',
                           evidence_file='evidence/%s.json' % r['pid'],
                           technique='property-based testing (Hypothesis): generated inputs and histories against '
                                     'an explicit oracle, with shrinking to a replay file',
                           level='exploration', level_note=r['note']))
    else:
        na.append(dict(property=r['pid'], reason='no check yet'))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in props:
        fh.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='python3 tools/setup_check.py', checks=checks, not_applicable=na,
         notes='All checks: run.py <id>; no hooks in /repo are needed. Replays: run.py <id> --replay FILE.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks,', len(na), 'without')


# ---- DESIGN.md -------------------------------------------------------------------------------
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
import ast  # noqa: E402


def facets(path):
    tree = ast.parse(open(path).read())
    consts = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Constant, ast.BinOp)) and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass

    def txt(v):
        if isinstance(v, ast.Constant):
            return str(v.value)
        if isinstance(v, ast.Name):
            return str(consts.get(v.id, ''))
        if isinstance(v, ast.BinOp):
            return txt(v.left) + txt(v.right)
        return ''
    out, assume = [], []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr in ('facet', 'probe'):
                    kw = {k.arg: k.value for k in d.keywords}
                    cnt = kw['quick'].value if 'quick' in kw and isinstance(kw['quick'], ast.Constant) else None
                    out.append((n.lineno, txt(d.args[0]), 1 if d.func.attr == 'probe' else cnt, txt(kw['rule']) if 'rule' in kw else '', d.func.attr))
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Prop':
            for k in n.keywords:
                if k.arg == 'assumptions':
                    assume = [txt(e) for e in getattr(k.value, 'elts', [])]
    return [o[1:] for o in sorted(out)], assume


lines = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## The properties', '']
for r in ROWS:
    mod = glob.glob(os.path.join(HERE, 'props', r['pid'].lower() + '_*.py'))
    lines += ['### %s %s' % (r['pid'], r['title']), '', 'Quantified over: %s.  ' % r['qtext'].rstrip('.'), 'Why not the tests: %s  ' % r['why'], 'Oracle and bounds: %s' % r['note'], '']
    if mod:
        fs, assume = facets(mod[0])
        for name, cnt, rule, kind in fs:
            lines.append('* `%s`%s: %s' % (name, ' (probe)' if kind == 'probe' else ' (%s cases)' % cnt if cnt else '', rule))
        if assume:
            lines += ['', 'Assumptions: %s.' % '; '.join(assume)]
        lines.append('')
lines += ['## Planted bugs', '', 'Each is a patch in `seeded/<id>/`; all are caught by the quick check of their property unless marked.', '',
          '| id | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    mt = json.load(open(d))
    lines.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), mt['property'], mt['what_it_breaks'].replace('|', '/'), mt['needs'].replace('|', '/')))
tail = os.path.join(HERE, 'tools', 'design_tail.md')
if os.path.exists(tail):
    lines += ['', open(tail).read().rstrip()]
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as fh:
    fh.write('\n'.join(lines) + '\n')
