"""Unpacking during which a read or a write fails, or the input ends."""
import os
import random

import faultops
import lib
import ndops
import ops
from faultops import FAILURES, Plan, RecFile, layout, opening, pick
from replaceops import command
from ops import abstract_io, bp, file_io


def deliver(env, entry, path, dst, log, plan):
    """-> what it returned, comparable"""
    roles = {os.path.abspath(path): 'in', os.path.abspath(dst): 'out'}
    with opening(roles, log, plan):
        if entry == 'f2f':
            m = bp.unpack_file_from_file(path, dst)
        elif entry == 'cmd':
            m = None
            command(['-f', 'decompress', '-e', path, dst])
        elif entry == 'fp':
            with RecFile(path, 'rb', 'in', log, plan) as i, RecFile(dst, 'wb', 'out', log, plan) as o:
                s = file_io.CompressedFPSource(i)
                abstract_io.unpack(s, file_io.PlainFPSink(o))
                m = s.metadata
        elif entry == 'f2b':
            d, m = bp.unpack_bytes_from_file(path)
            return d, lib.canon(m)
        elif entry == 'nd':
            a = ndops.numpy_io.unpack_ndarray_from_file(path)
            return a.tobytes(order='A'), [str(a.dtype.descr), a.shape]
    with open(dst, 'rb') as fp:
        return fp.read(), lib.canon(m)


def do_deliver(env, op):
    rnd = random.Random(op.get('seed', 0))
    f, entry = op['f'], op['entry']
    b = env.bytes(f)
    if not b or lib.project(b)['bad']:
        return
    path, dst = env.fresh('.blp'), env.fresh('.out')
    env.put_at(path, b)
    ok, clean, _ = ops.attempt(lambda: deliver(env, entry, path, dst, [], Plan()))
    if not ok:
        return
    data = clean[0]
    chunk = int.from_bytes(b[8:12], 'little')
    limit, w = -1, op.get('wrong', 0)
    lay = layout(b)
    if w and w <= lay['n'] and b[6]:
        p = lay['ch'][w - 1] + rnd.choice([16, 17, 3, 0, 12])
        ends = lay['ch'][w] if w < lay['n'] else len(b)
        p = rnd.choice([p, ends - 1, ends - rnd.randrange(1, lib.DIGEST[b[6]] + 1)])
        p = max(lay['ch'][w - 1], min(p, ends - 1))
        b = b[:p] + bytes([b[p] ^ rnd.choice([1, 128, 255])]) + b[p + 1:]
        limit = (w - 1) * chunk
        env.put_at(path, b)
    log = []
    ok, r, err = ops.attempt(lambda: deliver(env, entry, path, dst, log, Plan()))
    runs = [(None, 0, 'none', 0)]
    reads = sum(1 for x in log if x[:2] == ('in', 'read'))
    writes = sum(1 for x in log if x[:2] == ('out', 'write'))
    n = op.get('faults', 10)
    runs += [('read:in', k, 'none', 0) for k in pick(rnd, reads, n) if k]
    runs += [('eof:in', k, rnd.choice(['none', 'half']), 0) for k in pick(rnd, reads, n) if k]
    runs += [('write:out', k, rnd.choice(['none', 'half']), 0) for k in pick(rnd, writes, n) if k]
    runs += [('close:out', 1, 'none', 0)]
    for where, k, how, _ in runs:
        plan = Plan(where, k, how, rnd.random() < 0.6, rnd.choice(FAILURES))
        old = rnd.choice([None, b'', b'stale', b'\0' * (len(data) + 7)])
        if os.path.exists(dst):
            os.unlink(dst)
        if old is not None:
            env.put_at(dst, old)
        ok, r, err = ops.attempt(lambda: deliver(env, entry, path, dst, [], plan))
        out = None
        if entry in ('f2f', 'fp', 'cmd') and os.path.exists(dst):
            with open(dst, 'rb') as fp:
                out = fp.read()
        kept = out is None or out == old
        with open(path, 'rb') as fp:
            untouched = fp.read() == b
        env.emit(ops.base('deliver', f=f, entry=entry, ok=ok, err=err, where=where or '', k=k, fired=plan.fired,
                          kept=kept, out=lib.fp(out or b''), pre=lib.fp(data[:len(out or b'')]), limit=limit,
                          length=len(out or b''), alike=ok and r == clean, untouched=untouched,
                          data=lib.fp(data), array=entry == 'nd'))
    for p in (path, dst):
        if os.path.exists(p):
            os.unlink(p)


ops.OPS['deliver'] = do_deliver
