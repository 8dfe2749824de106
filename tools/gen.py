#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the META of each check module and tools/na.json."""
import glob
import importlib
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [V, os.path.join(V, 'checks'), '/repo']
TECH = ('solver-based checking: symbolic execution of the real Python functions over z3 terms (symx), every feasible path '
        'explored, each obligation decided by z3 for all values within the bounds; counterexamples replayed on the real code')


def prop_line(pid, m):
    return dict(id = pid,
                title = m['title'],
                statement = m['statement'],
                quantifier = dict(over = m.get('over', ['inputs']), text = m['text']),
                why_tests_cant = m['why'],
                anchors = dict(files = m['files'],
                               mechanism = [dict(name = n, where = w) for n, w in m['mechanism']],
                               observe_at = m.get('observe', [])))


def main():
    lines, checks, na = [], [], []
    for f in sorted(glob.glob(os.path.join(V, 'checks', 'c[0-9]*.py'))):
        n = os.path.basename(f)[:-3]
        meta = getattr(importlib.import_module(n), 'META', None)
        if meta is None:
            print('no META in', n)
            continue
        pid = n.upper()
        assert len(meta['title']) <= 80, (pid, len(meta['title']))
        assert meta['statement'].count('. ') <= 2, (pid, meta['statement'].count('. '))
        lines.append(prop_line(pid, meta))
        checks.append(dict(property = pid,
                           quick_cmd = f'/opt/venv/bin/python check.py {pid} --tier quick',
                           thorough_cmd = f'/opt/venv/bin/python check.py {pid} --tier thorough',
                           technique = TECH,
                           level = 'model_checking',
                           level_note = meta['note']))
    for d in json.load(open(os.path.join(V, 'tools', 'na.json'))):
        lines.append(prop_line(d['id'], d))
        na.append(dict(property = d['id'], reason = d['reason']))
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fp:
        for x in lines:
            fp.write(json.dumps(x) + '\n')
    man = dict(version = 1,
               setup_cmd = '/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); import symx.z3load"',
               checks = checks,
               not_applicable = na)
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fp:
        json.dump(man, fp, indent = 1)
        fp.write('\n')
    code = ('import json, jsonschema; s = json.load(open("/root/.vp/MANIFEST.schema.json")); '
            'jsonschema.validate(json.load(open("MANIFEST.json")), s); '
            'p = json.load(open("/root/.vp/PROPERTIES.schema.json")); '
            '[jsonschema.validate(json.loads(l), p) for l in open("properties.jsonl")]; print("valid")')
    subprocess.run(['/opt/veriftools/pyvenv/bin/python', '-c', code], cwd = V, check = True)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
