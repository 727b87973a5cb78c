"""Replacing metadata, cut short or made to fail at every point."""
import contextlib
import io
import itertools
import json
import os
import random
import sys

import faultops
import lib
import ops
from faultops import FAILURES, Plan, RecFile, changes, layout, opening, pick, replay, try_read
from ops import append_mod

import blosc
from bloscpack import cli, log


def stored(b):
    """(digest right, what is stored) as the section states it"""
    comp, csum = int.from_bytes(b[52:56], 'little'), b[41]
    mx = int.from_bytes(b[48:52], 'little')
    if csum >= 9 or comp > mx:
        return False, b''
    s = b[64:64 + comp]
    return lib.digest(csum, s) == b[64 + mx:64 + mx + lib.DIGEST[csum]], s


def command(argv):
    """the command, in this process"""
    was = sys.argv, log.LEVEL, log.PREFIX, blosc.nthreads
    sys.argv = ['blpk'] + argv
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                cli.main()
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise RuntimeError(e.code)
    finally:
        sys.argv, log.LEVEL, log.PREFIX, _ = was
        blosc.set_nthreads(was[3])


def run(env, op, path, out, plan):
    """replace the metadata of the container at path"""
    meta = json.loads(json.dumps(op['meta']))
    kw = dict(op.get('kw', {}))
    if kw.get('magic_format') is not None:
        kw['magic_format'] = kw['magic_format'].encode()
    roles = {os.path.abspath(path): 'out'}
    entry = op.get('entry', 'path')
    if entry == 'cmd':
        m, n = env.fresh('.json'), env.fresh('.dat')
        with open(m, 'w') as fp:
            json.dump(meta, fp)
        env.put_at(n, lib.gen_data(op['data']))
        with opening(roles, out, plan):
            r = ops.attempt(lambda: command(['append', '-e', '-m', m, path, n]))
        os.unlink(m)
        os.unlink(n)
        return r
    with opening(roles, out, plan):
        def do():
            with (RecFile(path, 'r+b', 'out', out, plan) if entry == 'fp' else open(path, 'r+b')) as fp:
                append_mod._seek_to_metadata(fp)
                append_mod._rewrite_metadata_fp(fp, meta, **kw)
        return ops.attempt(do)


def torn(start, log_, rnd, n):
    """states after a part of the writes: whole ones in order, in any order, and inside of one"""
    w = [e for e in log_ if e[0] == 'out' and e[1] != 'read']
    out = [('cut', i, replay(start, w, 'out', i)) for i in pick(rnd, len(w), n)]

    def put(b, p, d):
        b = bytearray(b)
        if p > len(b):
            b.extend(bytes(p - len(b)))
        b[p:p + len(d)] = d
        return bytes(b)
    big = [i for i, e in enumerate(w) if e[1] == 'write' and len(e[3]) > 1]
    spots = [(i, k) for i in big for k in range(1, len(w[i][3]))]
    if len(spots) > 2 * n:
        near = [s for s in spots if s[1] < 32 and s[0] == big[0]]
        spots = (near if len(near) <= n else rnd.sample(near, n)) + rnd.sample(spots, n)
    for i, k in spots:
        p, d = w[i][2], w[i][3]
        out.append(('torn', i, put(replay(start, w, 'out', i), p, d[:k])))
    return out


def reordered(start, log_, rnd, n):
    """what may be there when only some of the writes of the section reached the disk"""
    w = [e for e in log_ if e[0] == 'out' and e[1] == 'write' and e[3]]
    # the reserve is written byte by byte: as one
    runs = []
    for e in w:
        if runs and e[2] == runs[-1][0] + len(runs[-1][1]) and len(e[3]) == 1 and set(runs[-1][1]) <= {0} and e[3] == b'\0':
            runs[-1][1] += e[3]
        else:
            runs.append([e[2], e[3]])
    if len(runs) > 10:
        return []
    subsets = list(itertools.product([False, True], repeat=len(runs)))
    if len(subsets) > n:
        subsets = rnd.sample(subsets, n)
    out = []
    for s in subsets:
        b = bytearray(start)
        for there, (p, d) in zip(s, runs):
            if there:
                b[p:p + len(d)] = d
        out.append(('some', sum(s), bytes(b)))
    return out


def do_crashreplace(env, op):
    rnd = random.Random(op.get('seed', 0))
    f = op['f']
    start = env.bytes(f)
    if not start or not start[5] & 2:
        return
    ok, r, _ = ops.attempt(lambda: ops.bp.unpack_bytes_from_bytes(start))
    if not ok:
        return
    cmd = op.get('entry') == 'cmd'
    piece = lib.gen_data(op['data']) if cmd else b''
    base = len(r[0])
    work = env.fresh('.blp')
    env.put_at(work, start)
    first = []
    ok, _, err = run(env, op, work, first, Plan())
    with open(work, 'rb') as fp:
        final = fp.read()
    if not ok:
        os.unlink(work)
        return
    n = changes(first, 'out')
    states = [(b, m, i, False, False, '') for m, i, b in torn(start, first, rnd, op.get('cuts', 25))]
    if not cmd:
        states += [(b, m, i, False, False, '') for m, i, b in reordered(start, first, rnd, op.get('cuts', 25))]
    reads = sum(1 for x in first if x[:2] == ('out', 'read'))
    for where, k in [('write:out', k) for k in pick(rnd, n, op.get('faults', 10)) if k] + \
            [('read:out', k) for k in pick(rnd, reads, op.get('faults', 10)) if k] + [('close:out', 1)]:
        plan = Plan(where, k, 'half' if rnd.random() < 0.4 else 'none', rnd.random() < 0.6, rnd.choice(FAILURES))
        env.put_at(work, start)
        ok2, _, err2 = run(env, op, work, [], plan)
        with open(work, 'rb') as fp:
            states.append((fp.read(), 'fault:' + where, k, plan.fired, ok2, err2))
    lay = layout(start)
    end = lay['tab']                                # the section is between 32 and here
    known = {stored(start)[1], stored(final)[1]}
    for state, mode, at, fired, ok2, err2 in states:
        rok, rd, rv = try_read(env, state, rnd.choice(faultops.READERS))
        right, s = stored(state)
        again = 'none'
        if not cmd and rnd.random() < 0.5:
            env.put_at(work, state)
            ok3, _, _ = run(env, op, work, [], Plan())
            again = 'err'
            if ok3:
                with open(work, 'rb') as fp:
                    b = fp.read()
                r3 = try_read(env, b, rnd.choice(faultops.READERS))
                again = 'done' if r3 == (True, r[0], lib.short(lib.canon(op['meta']))) and \
                    b[:32] == start[:32] and b[end:] == start[end:] else 'wrong'
        last = lay['ch'][-1] if lay['ch'] else len(start)
        env.emit(ops.base('replaced', f=f, mode=mode, at=at, of=n, fired=fired, ok=ok2, err=err2, final=state == final,
                          rok=rok, rdata=lib.fp(rd), rval=rv, val=lib.short(lib.canon(op['meta'])), again=again,
                          # torn content that the digest is right for by accident
                          blind=right and s not in known, checked=start[41] != 0,
                          torn=cmd and start[6] == 0 and mode != 'cut',
                          outside=(state[:32] == start[:32] and state[end:] == start[end:]) if not cmd else
                          (state[lay['data']:last] == start[lay['data']:last] and
                           state[lay['tab']:lay['tab'] + 8 * (lay['n'] - 1)] ==
                           start[lay['tab']:lay['tab'] + 8 * (lay['n'] - 1)]),
                          pre=lib.fp(piece[:max(0, len(rd) - base)]), piece=lib.fp(piece)))
    if os.path.exists(work):
        os.unlink(work)


ops.OPS['crashreplace'] = do_crashreplace
