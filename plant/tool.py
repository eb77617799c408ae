#!/usr/bin/env python3
"""plant/tool.py [ids...] [--no-tests] [--only-check]: builds /verif/seeded/<id> from plant/specs.py after confirming it in a scratch copy."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
REPO = os.environ.get('PDFMAJOR_REPO', '/repo')
PY = '/opt/venv/bin/python'
BASE = '4f1655c'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def specs():
    sp = importlib.util.spec_from_file_location('specs', os.path.join(HERE, 'specs.py'))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m.BUGS


def one(b, tests=True, check=True):
    id = b['id']
    w = '/tmp/bug-' + id
    subprocess.run(['rm', '-rf', w])
    res = {'id': id}
    try:
        shutil.copytree(REPO, w, symlinks=True)
        sh('git checkout -q -- . && rm -rf tests/samples/output', w)
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return dict(res, error='%s: %d matches of %r' % (f, s.count(old), old[:60]))
            open(p, 'w').write(s.replace(old, new))
        _, patch = sh('git diff', w)
        # removed lines must be original
        own = []
        for f in {e[0] for e in b['edits']}:
            _, bl = sh('git blame -s HEAD -- %s' % f, w)
            by = [x.split()[0].lstrip('^') for x in bl.splitlines()]
            _, d = sh('git diff -U0 -- %s' % f, w)
            touched = orig = 0
            for line in d.splitlines():
                if line.startswith('@@'):
                    a = line.split()[1][1:].split(',')
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for k in range(st, st + n):
                        touched += 1
                        orig += by[k - 1].startswith(BASE[:7])
                    if n == 0:
                        touched += 1
                        orig += by[st - 1].startswith(BASE[:7])
            if orig < touched:
                own.append('%s %d/%d' % (f, orig, touched))
        if own:
            res['own_lines'] = own
        out = os.path.join(SEEDED, id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(patch)
        open(os.path.join(out, 'demo.py'), 'w').write('from minipdf import *\n' + b['demo'].lstrip('\n'))
        shutil.copy(os.path.join(HERE, 'minipdf.py'), os.path.join(out, 'minipdf.py'))
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        res['clean'], o1 = sh('bash %s/demo.sh' % out, REPO, 120)
        res['bug'], o2 = sh('bash %s/demo.sh' % out, w, 120)
        if res['clean'] != 0:
            res['clean_out'] = o1[-600:]
        res['bug_out'] = o2.strip()[-200:]
        if check:
            c, o = sh('VERIF_SEED=1 python3 %s/run.py %s quick' % (os.path.dirname(HERE), b['property']), os.path.dirname(HERE), 900, {'PDFMAJOR_REPO': w})
            res['check'] = c
            res['caught'] = c == 1 and ('VIOLATION property=%s ' % b['property']) in o
            res['check_out'] = [x for x in o.splitlines() if 'VIOLATION' in x or x.startswith('    ')][1:2] or o[-300:]
        if tests:
            # the package is imported from the scratch copy
            rc, o = sh('%s -m pytest -q -p no:cacheprovider --rootdir=%s -n 4 --dist load --timeout=600 -o junit_family=xunit2 --junitxml=%s/j.xml tests' % (PY, w, w), w, 900,
                       {'PYTHONPATH': w, 'PYTHONHASHSEED': '0', 'LC_ALL': 'C.UTF-8'})
            failed = []
            import xml.etree.ElementTree as ET
            ok = set()
            for t in ET.parse(w + '/j.xml').iter('testcase'):
                if not any(c.tag in ('failure', 'error') for c in t):
                    ok.add('%s::%s' % (t.get('classname'), t.get('name')))
            for f in ('tests/test_json_writer.py', 'tests/test_yml_writer.py'):
                if sh('timeout 300 %s %s' % (PY, f), w, 400, {'PYTHONPATH': w})[0] == 0:
                    ok.add(f)
            res['tests_failed'] = [s for s in STABLE if s not in ok]
        return res
    finally:
        subprocess.run(['rm', '-rf', w])


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    tests = '--no-tests' not in sys.argv
    bugs = [b for b in specs() if not ids or b['id'] in ids or b['property'] in ids]
    with ThreadPoolExecutor(2 if tests else 3) as ex:
        for r in ex.map(lambda b: one(b, tests), bugs):
            good = not r.get('error') and r['clean'] == 0 and r['bug'] != 0 and not r.get('tests_failed') and not r.get('own_lines')
            print('%-22s %s %s' % (r['id'], 'VALID' if good else 'INVALID', 'caught' if r.get('caught') else 'MISSED'), flush=True)
            if not good or not r.get('caught'):
                print('   ', {k: v for k, v in r.items() if k != 'id'}, flush=True)


main()
