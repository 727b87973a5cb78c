#!/usr/bin/env python3
"""Confirm planted bugs: does the patch apply, do the stable tests pass with it, does the demonstration
tell the trees apart, and does the property's check catch it?  Everything happens in scratch copies.

    tools/seeded.py [--no-tests] [--no-check] [--tier T] [--checks C01,C02|all] ID...
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout


def relocated(script, copy):
    with open('/opt/vp/' + script) as fp:
        text = fp.read().replace('/repo', copy)
    path = os.path.join(os.path.dirname(copy), os.path.basename(copy) + '.' + script)
    with open(path, 'w') as fp:
        fp.write(text)
    return path


def prepare(base, i, a):
    d = os.path.join(SEEDED, i)
    copy = os.path.join(base, i)
    shutil.copytree('/repo', copy, symlinks=True)
    r = {'id': i, 'copy': copy, 'prop': json.load(open(os.path.join(d, 'meta.json')))['property'], 'bad': []}
    demo = os.path.join(d, 'demo.sh')
    rc, out = sh(['bash', demo], copy, timeout=300)
    if rc != 0:
        r['bad'].append('demo fails on the unchanged tree: ' + out[-300:])
    rc, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], copy)
    if rc != 0:
        r['bad'].append('patch does not apply: ' + out[-300:])
        return r
    rc, out = sh(['bash', relocated('build.sh', copy)], copy)
    if rc != 0:
        r['bad'].append('does not build: ' + out[-300:])
    rc, out = sh(['bash', demo], copy, timeout=300)
    if rc == 0:
        r['bad'].append('demo passes with the patch')
    r['demo'] = out.strip().splitlines()[-1:] if out.strip() else []
    if not a.no_tests:
        res = os.path.join(base, i + '.json')
        sh(['bash', relocated('test.sh', copy), res], copy)
        passed = set(json.load(open(res))['passed'])
        lost = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]
        if lost:
            r['bad'].append('tests fail: %s' % lost[:4])
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('--no-check', action='store_true')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--checks', default='')
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(SEEDED))
    base = tempfile.mkdtemp(prefix='seeded-')
    missed = 0
    try:
        with concurrent.futures.ThreadPoolExecutor(3) as pool:
            results = list(pool.map(lambda i: prepare(base, i, a), ids))
        for r in results:
            caught = []
            if not a.no_check:
                props = [r['prop']]
                if a.checks == 'all':
                    props = ['C%02d' % n for n in range(1, 24)]
                elif a.checks:
                    props = a.checks.split(',')
                for p in props:
                    rc, out = sh(['./check', p, '--tier', a.tier], HERE, {'VERIF_REPO': r['copy']})
                    if rc == 1 and 'VIOLATION property=%s ' % p in out:
                        cl = [l for l in out.splitlines() if l.startswith('clauses')]
                        caught.append(p)
                        if p == r['prop']:
                            r['clause'] = cl[0][:150] if cl else ''
                    elif rc != 0:
                        r['bad'].append('%s exit %d: %s' % (p, rc, out[-200:]))
                if r['prop'] not in caught:
                    missed += 1
            print('%-34s %s %s %s %s' % (r['id'], 'OK ' if not r['bad'] else 'BAD',
                                         r['bad'] or '', 'caught by ' + ','.join(caught) if caught else 'MISSED' if not a.no_check else '',
                                         r.get('clause', '')))
            print('      demo:', *r.get('demo', []))
            sys.stdout.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(1 if missed else 0)


if __name__ == '__main__':
    main()
