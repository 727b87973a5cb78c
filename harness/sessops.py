"""What surrounds operations: other operations in the same process, failures,
verbosity levels, numbers of threads."""
import contextlib
import io
import json
import os
import sys
import traceback

import faultops
import lib
import ops
from ops import base

import blosc
from bloscpack import log

LEVELS = ['NORMAL', 'VERBOSE', 'DEBUG']


def forked(env, f):
    """run f in a process of its own that starts from the present state"""
    sys.stdout.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            res = f()
            with os.fdopen(w, 'w') as fp:
                json.dump(res, fp)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as fp:
        text = fp.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 3:
        raise RuntimeError('failed in a forked operation')
    if not os.WIFEXITED(status):
        env.emit(base('died', err='died', why='signal %d' % os.WTERMSIG(status)))
        return None
    return json.loads(text)


def do_solo(env, op):
    """operations in a process in which nothing else has happened"""
    def run():
        for o in op['ops']:
            ops.OPS[o['op']](env, o)
        return {'counter': env.counter}
    r = forked(env, run)
    if r:
        env.counter = r['counter']


@contextlib.contextmanager
def failing(calls, k):
    """the k-th call of one of these functions of blosc raises"""
    count = [0]
    orig = {c: getattr(blosc, c) for c in calls}

    def wrap(f):
        def g(*a, **kw):
            count[0] += 1
            if count[0] == k:
                raise MemoryError('injected')
            return f(*a, **kw)
        return g
    for c in calls:
        setattr(blosc, c, wrap(orig[c]))
    try:
        yield
    finally:
        for c in calls:
            setattr(blosc, c, orig[c])


class Stuck(Exception):
    """operations that wait for each other for ever"""


def do_disturb(env, op):
    """an operation that is made to fail: op['of'] with op['how']"""
    of, how = op['of'], op['how']
    got = []
    real, env.emit = env.emit, got.append
    pre = env.counter
    try:
        if 'call' in how:
            with failing(['compress', 'compress_ptr', 'decompress', 'decompress_ptr'], how['call']):
                ops.OPS[of['op']](env, of)
        elif 'fault' in how:
            roles = {env.path(of['f']): 'out'}
            for i in range(pre, pre + 4):
                for s in ('.dat', '.out'):
                    roles[os.path.join(env.dir, 'x%d%s' % (i, s))] = 'in'
            with faultops.opening(roles, [], faultops.Plan(how['fault'], how['k'], exc=faultops.FAILURES[how.get('exc', 0)])):
                ops.OPS[of['op']](env, of)
        else:
            ops.OPS[of['op']](env, of)
    except OSError:
        pass             # the harness could not look at the result
    finally:
        env.emit = real
    e = base('disturb', ok=all(x.get('ok', True) for x in got), same=all(x['same'] for x in got),
             err=got[-1]['err'] if got else '')
    e['why'] = e.pop('err')
    e['err'] = ''
    env.emit(e)


def do_levels(env, op):
    """the same operations at every level, each time from the same state"""
    said = []
    for lv in op.get('order', LEVELS):
        def run():
            log.set_level(lv)
            ops.SAID = []
            for o in op['ops']:
                o = dict(o)
                if o['op'] == 'cmd':
                    o['level'] = lv.lower()
                ops.OPS[o['op']](env, o)
            return {'counter': env.counter, 'said': ops.SAID}
        r = forked(env, run)
        if r is None:
            return
        said.append((lv, r['said']))
        last = r['counter']
    env.counter = last
    ids = {'': 0}

    def num(lines):
        return [ids.setdefault(l, len(ids)) for l in lines]
    out = {lv: num(s) for lv, s in said}
    if max(len(x) for x in out.values()) > 6000:
        return
    env.emit(base('talk', lines={lv: out[lv] for lv in LEVELS}, cli=any(o['op'] == 'cmd' for o in op['ops'])))


def do_threads(env, op):
    """the same operations with several numbers of threads"""
    for nt in op['nts']:
        def run():
            blosc.set_nthreads(nt)
            for o in op['ops']:
                o = dict(o)
                if o['op'] == 'cmd':
                    o['opts'] = dict(o.get('opts', {}), nt=dict(o['nt'], n=lib.i64(nt)))
                ops.OPS[o['op']](env, o)
            return {'counter': env.counter}
        r = forked(env, run)
        if r is None:
            return
    env.counter = r['counter']


def do_log(env, op):
    """the functions that print messages"""
    def run():
        xs = []
        if 'prefix' in op:
            log.set_prefix(op['prefix'])
        for x in op['xs']:
            if 'set' in x:
                ok, _, err = ops.attempt(lambda: log.set_level(x['set']))
                xs.append({'k': 'set', 'lv': str(x['set']), 'ok': ok, 'rc': 0, 'text': [], 'printed': []})
                continue
            text = '\n'.join(x['text'])
            out, rc, ok = io.StringIO(), 0, True
            with contextlib.redirect_stdout(out):
                try:
                    if x['say'] == 'error':
                        log.error(text, **x.get('kw', {}))
                    elif 'level' in x:
                        log.verbose(text, level=x['level'])
                    else:
                        getattr(log, x['say'])(text)
                except SystemExit as e:
                    rc = e.code if isinstance(e.code, int) else -1
                except Exception:
                    ok = False
            printed = out.getvalue().split('\n')
            xs.append({'k': x['say'], 'lv': x.get('level', {'verbose': 'VERBOSE', 'debug': 'DEBUG', 'normal': 'NORMAL',
                                                            'error': 'NORMAL'}[x['say']]), 'ok': ok, 'rc': rc,
                       'text': x['text'], 'printed': printed[:-1] if printed[-1] == '' else printed + ['<no end of line>'],
                       'code': x.get('kw', {}).get('exit_code', 1)})
        return xs
    xs = forked(env, run)
    if xs is not None:
        for x in xs:
            x.setdefault('code', 0)
        env.emit(base('log', prefix=op.get('prefix', 'bloscpack.py'), xs=xs))


def do_stamp(env, op):
    """give a file a time of change that says nothing"""
    if os.path.exists(env.path(op['f'])):
        os.utime(env.path(op['f']), (10**9, 10**9))


ops.OPS['stamp'] = do_stamp
ops.OPS.update(solo=do_solo, disturb=do_disturb, levels=do_levels, threads=do_threads, log=do_log)
