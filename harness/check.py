#!/usr/bin/env python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--keep]

Decides one property: TLC checks the specification, prints the histories to
replay, the scenarios made of them run on the real code (the working tree of
/repo), and TLC validates the recorded executions against the specification.
"""
import argparse
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import gens                                                     # noqa: E402
import registry                                                 # noqa: E402

SHARDS = int(os.environ.get('VERIF_SHARDS', '7'))


class Broken(Exception):
    """the machinery, not the code, failed"""


def java(args, cwd, env=None, heap='2g', timeout=850):
    cmd = ['java', '-XX:+UseSerialGC', '-Xss64m', '-Xmx' + heap, '-cp', JAR, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', cwd] + args
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def errors(out):
    lines = [l[:300] for l in out.split('\n') if re.search(r'rror|xception|violated|line \d+', l)
             and not l.startswith('"@') and not l.startswith('/\\')]
    return '\n'.join(lines[:15])


def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(job, tmp):
    """run TLC on a model; -> dict with its statistics and the histories printed"""
    name, module, cfg = job[:3]
    workers = job[3] if len(job) > 3 else 1
    d = os.path.join(tmp, 'mc-' + name)
    os.makedirs(d)
    t = time.time()
    rc, out = java(['-workers', str(workers), '-config', cfg + '.cfg', module + '.tla'], d, heap='6g')
    if rc != 0:
        raise Broken('TLC on %s (%s) ended with %d:\n%s' % (module, cfg, rc, errors(out)))
    hs, seen = [], set()
    for line in out.split('\n'):
        if line.startswith('"@H ') and line not in seen:
            seen.add(line)
            hs.append(json.loads(json.loads(line)[3:]))
    gen, distinct = stats(out)
    return {'name': name, 'module': module, 'cfg': cfg, 'generated': gen, 'distinct': distinct,
            'histories': hs, 'wall_s': round(time.time() - t, 1)}


def run_worker(i, scenarios, tmp, limit):
    src, dst = os.path.join(tmp, 's%d.ndjson' % i), os.path.join(tmp, 't%d.ndjson' % i)
    with open(src, 'w') as fp:
        for s in scenarios:
            fp.write(json.dumps(s) + '\n')
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO,
               SCENARIO_SECONDS=str(limit), WORKER_SECONDS=str(8 * limit), TMPDIR=tmp, PYTHONHASHSEED='0')
    p = subprocess.run([PY, os.path.join(HERE, 'worker.py'), src, dst], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)
    if p.stdout and b'Traceback' in p.stdout:
        sys.stderr.write(p.stdout.decode('utf8', 'replace')[-3000:])
    if p.returncode != 0:
        raise Broken('worker ended with %d:\n%s' % (p.returncode, p.stdout.decode()[-3000:]))
    return dst


def validate(i, dst, tmp):
    """TLC's verdict on the trace: [{line, clauses}].  A step that the specification gives no
    meaning to (TLC can not evaluate it) ends the judgement of its scenario, not of the others."""
    bad, drop = [], set()
    for attempt in range(8):
        verdict = os.path.join(tmp, 'v%d-%d.ndjson' % (i, attempt))
        d = os.path.join(tmp, 'tr%d-%d' % (i, attempt))
        os.makedirs(d)
        trace, lines = dst, None
        if drop:
            trace = os.path.join(d, 'trace.ndjson')
            with open(dst) as fp:
                lines = [(n, l) for n, l in enumerate(fp, 1) if n not in drop]
            with open(trace, 'w') as fp:
                fp.writelines(l for _, l in lines)
            lines = [n for n, _ in lines]
        rc, out = java(['-workers', '1', '-config', 'Trace.cfg', 'Trace.tla'], d,
                       env={'TRACE': trace, 'VERDICT': verdict}, heap='3g')
        if rc == 0 and os.path.exists(verdict):
            with open(verdict) as fp:
                got = [json.loads(l) for l in fp if l.strip()]
            for b in got:
                if lines:
                    b['line'] = lines[b['line'] - 1]
            return bad + got, stats(out)
        m = re.search(r'(\d+) states generated', out)
        if rc != 75 or 'OutOfMemory' in out or not m:
            raise Broken('TLC on the trace ended with %d:\n%s' % (rc, errors(out)))
        # the initial state has consumed nothing: this many lines, and then the one that failed
        at = int(m.group(1))
        at = lines[at - 1] if lines else at
        bad.append({'line': at, 'clauses': ['X.not_in_the_specification']})
        with open(dst) as fp:
            begins = [n for n, l in enumerate(fp, 1) if json.loads(l)['op'] == 'begin'] + [1 << 40]
        first = max(n for n in begins if n <= at)
        drop |= set(range(at, min(n for n in begins if n > at)))
        if at == first:
            raise Broken('TLC can not evaluate the beginning of a scenario:\n%s' % errors(out))
    raise Broken('TLC on the trace ended with %d:\n%s' % (rc, errors(out)))


def shard(i, scenarios, tmp, limit):
    dst = run_worker(i, scenarios, tmp, limit)
    bad, st = validate(i, dst, tmp)
    where, counts, cur, errs = {}, {}, -1, {}
    lines = {b['line'] for b in bad}
    with open(dst) as fp:
        for n, line in enumerate(fp, 1):
            e = json.loads(line)
            if e['op'] == 'begin':
                cur += 1
            else:
                k = e['op'] + ('' if 'ok' not in e else '.ok' if e['ok'] else '.err')
                counts[k] = counts.get(k, 0) + 1
                if n in lines:
                    where[n] = (cur, e)
    return {'bad': [(b['clauses'],) + where[b['line']] for b in bad if b['line'] in where],
            'counts': counts, 'events': n if scenarios else 0, 'states': st,
            'scenarios': scenarios, 'ran': cur + 1}


def trim(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


def fingerprint(sc):
    return hashlib.sha256(json.dumps(sc['ops'], sort_keys=True).encode()).hexdigest()[:16]


def known_findings():
    out = []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\S+) clause=(\S+) scenario=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--only', help='only scenarios whose id starts with this')
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    reg = registry.CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        rc = run(a, prop, tier, seed, reg, tmp, t0)
    except Broken as e:
        print('CHECK BROKEN: %s' % e)
        rc = 2
    finally:
        if a.keep:
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(a, prop, tier, seed, reg, tmp, t0):
    jobs = reg.get('mc', []) + (reg.get('mc_thorough', []) if tier == 'thorough' else [])
    pool = concurrent.futures.ThreadPoolExecutor(max_workers=max(SHARDS, 8))
    if a.replay:
        with open(a.replay) as fp:
            scenarios = [json.load(fp)['scenario']]
        mc = []
    else:
        need = [j for j in jobs if j[0] in reg.get('histories', ())]
        rest = [pool.submit(model_check, j, tmp) for j in jobs if j not in need]
        mc = list(pool.map(lambda j: model_check(j, tmp), need))
        g = gens.G(seed, tier, {m['name']: m['histories'] for m in mc})
        for m in mc:
            if not m['histories']:
                raise Broken('TLC printed no histories for ' + m['name'])
        scenarios = []
        for f in reg['gens']:
            scenarios += f(g)
    if a.only:
        scenarios = [s for s in scenarios if s['id'].startswith(a.only)]
    for n, s in enumerate(scenarios):
        s['prop'] = prop
    k = max(1, min(SHARDS, len(scenarios)))
    # neighbours are of similar cost: deal them out
    parts = [scenarios[i::k] for i in range(k)]
    limit = reg.get('seconds', 60 if tier == 'quick' else 300)
    res = list(pool.map(lambda i: shard(i, parts[i], tmp, limit), range(k)))
    if not a.replay:
        mc += [f.result() for f in rest]

    counts, events, trans = {}, 0, 0
    bad = []
    for r in res:
        events += r['events']
        trans += max(0, r['states'][0] - 1)
        for c, v in r['counts'].items():
            counts[c] = counts.get(c, 0) + v
        for clauses, idx, e in r['bad']:
            bad.append((clauses, r['scenarios'][idx], e))
    accept = reg['clauses']

    def relevant(c):
        return c in ('X.died', 'X.not_in_the_specification') or any(c == p or c.startswith(p + '.') for p in accept)

    mine, other = [], {}
    for clauses, sc, e in bad:
        own = sorted(c for c in clauses if relevant(c))
        for c in clauses:
            if not relevant(c):
                other[c] = other.get(c, 0) + 1
                if a.verbose and other[c] <= 3:
                    print('other', c, sc['id'], json.dumps({k: v for k, v in e.items() if k in ('op', 'f', 'entry', 'ok', 'err')}))
        if own:
            mine.append((own, sc, e))
    for c in [c for cl, _, _ in bad for c in cl]:
        if c == 'X.unknown_event':
            raise Broken('unknown event in the trace')
    harness = [sc['id'] for clauses, sc, _ in bad if 'X.harness' in clauses]

    # a check that explored nothing is not a check
    vacuous = []
    if not a.replay and not a.only:
        for c, n in reg.get('need', {}).items():
            if counts.get(c, 0) < n:
                vacuous.append('%s: %d < %d' % (c, counts.get(c, 0), n))

    known = known_findings()
    violations, seen = [], set()
    for own, sc, e in mine:
        f = fingerprint(sc)
        hit = [x for x in known if x[0] == prop and x[1] in own and x[2] == f]
        if hit:
            line = 'KNOWN-FINDING: property=%s %s' % (prop, hit[0][3])
            if line not in seen:
                seen.add(line)
                print(line)
        else:
            violations.append((own, sc, e))

    rc = 0
    if violations:
        out = os.path.join(ROOT, 'out', 'replay')
        os.makedirs(out, exist_ok=True)
        shown = set()
        for own, sc, e in violations:
            key = tuple(own)
            if key in shown or len(shown) >= 5:
                continue
            shown.add(key)
            path = os.path.join(out, '%s-%s.json' % (prop, fingerprint(sc)))
            with open(path, 'w') as fp:
                json.dump({'property': prop, 'clauses': own, 'event': e, 'scenario': sc}, fp, indent=1)
            brief = {k: v for k, v in e.items() if k in ('op', 'f', 'entry', 'ok', 'err', 'note', 'why')}
            print('clauses %s broken in scenario %s at %s' % (own, sc['id'], json.dumps(brief)))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    if a.verbose or a.replay:
        print('other clauses:', other)
        print('counts:', counts)
    if harness:
        print('the harness failed in scenarios %s' % harness[:10])
        if rc == 0:
            raise Broken('the harness failed, see above')
    if vacuous and rc == 0:
        raise Broken('explored too little: ' + '; '.join(vacuous))

    if not a.replay and not a.only:
        states = sum(m['distinct'] for m in mc) + events
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
              'coverage': {
                  'states': sum(m['distinct'] for m in mc),
                  'transitions': sum(m['generated'] for m in mc),
                  'traces_validated_against_impl': sum(r['ran'] for r in res),
                  'trace_events_validated': events,
                  'trace_steps_checked_by_tlc': trans,
                  'events_by_kind': counts,
                  'models': [{k: m[k] for k in ('module', 'cfg', 'generated', 'distinct', 'wall_s')} |
                             {'histories': len(m['histories'])} for m in mc],
                  'samples': [trim(s) for s in (scenarios[:2] + scenarios[-1:])],
                  'clauses_decided': sorted(accept),
                  'exhaustive': False,
              },
              'assumptions': registry.ASSUMPTIONS + reg.get('assumptions', []),
              'wall_s': round(time.time() - t0, 1),
              'violations': len(violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
    if sum(r['ran'] for r in res) < len(scenarios):
        print('%d scenarios were left out, for want of time' % (len(scenarios) - sum(r['ran'] for r in res)))
    print('%s %s: %d scenarios, %d events, %d model states, %.1f s, %s' % (
        prop, tier, sum(r['ran'] for r in res), events, sum(m['distinct'] for m in mc), time.time() - t0,
        'VIOLATED' if rc else 'held'))
    return rc


if __name__ == '__main__':
    main()
