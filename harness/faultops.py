"""Operations whose every read and write is observed, cut short or made to fail.

RecFile is a file (a real one, unbuffered) that logs what is done to it and can
fail at a chosen point.  open() hands it out for the files under observation, so
that entry points that open files by name are covered too.
"""
import builtins
import contextlib
import io
import errno
import os
import random

import lib
import ops
from ops import abstract_io, file_io, memory_io, append_mod, args_mod, bp


class Injected(OSError):
    pass


# how an operation on a file fails, or is interrupted
FAILURES = [Injected, Injected, lambda m: OSError(errno.ENOSPC, m), lambda m: OSError(errno.EIO, m),
            lambda m: OSError(errno.EINTR, m), lambda m: OSError(errno.EAGAIN, m), lambda m: OSError(errno.EPIPE, m),
            lambda m: OSError(errno.ESPIPE, m), lambda m: OSError(errno.EFBIG, m), KeyboardInterrupt, MemoryError]


class Plan(object):
    """what is to fail: where in {'read','write','eof','close',None}, the k-th time,
    how in {'none','half'}: what a failing write leaves; once: only that time;
    exc: the failure"""

    def __init__(self, where=None, k=0, how='none', once=True, exc=Injected):
        self.where, self.k, self.how, self.once, self.exc = where, k, how, once, exc
        self.count = 0
        self.fired = False

    def hit(self, where):
        if where != self.where:
            return False
        self.count += 1
        if self.count == self.k or (self.count > self.k and not self.once):
            self.fired = True
            return True
        return False


class RecFile(object):

    def __init__(self, path, mode, role, log, plan):
        flags = {'rb': os.O_RDONLY, 'wb': os.O_RDWR | os.O_CREAT | os.O_TRUNC,
                 'r+b': os.O_RDWR, 'w+b': os.O_RDWR | os.O_CREAT | os.O_TRUNC,
                 'rb+': os.O_RDWR}[mode]
        self.fd = os.open(path, flags, 0o644)
        self.name, self.mode, self.role, self.log, self.plan = path, mode, role, log, plan
        self.pos, self.closed = 0, False
        self.end = None         # where it ends, sooner than it should
        if flags & os.O_TRUNC:
            log.append((role, 'trunc', 0, b''))

    def readable(self):
        return True

    writable = seekable = readable

    def read(self, n=-1):
        if n is None:
            n = -1
        if self.plan.hit('read:' + self.role):
            raise self.plan.exc('read failed')
        size = os.fstat(self.fd).st_size
        if self.plan.hit('eof:' + self.role):
            self.end = self.pos + (max(n, 0) // 2 if self.plan.how == 'half' else 0)
        if self.end is not None:
            size = min(size, self.end)
        want = max(0, size - self.pos if n < 0 or self.end is not None else n)
        want = min(want, n) if n >= 0 else want
        b = os.pread(self.fd, want, self.pos)
        self.log.append((self.role, 'read', self.pos, n, len(b)))
        self.pos += len(b)
        return b

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[:len(b)] = b
        return len(b)

    def write(self, b):
        b = bytes(b)
        if self.plan.hit('write:' + self.role):
            if self.plan.how == 'half' and len(b) > 1:
                os.pwrite(self.fd, b[:len(b) // 2], self.pos)
                self.log.append((self.role, 'write', self.pos, b[:len(b) // 2]))
                self.pos += len(b) // 2
            raise self.plan.exc('write failed')
        p = self.pos
        if b:
            while len(b) - (self.pos - p) > 0:
                self.pos += os.pwrite(self.fd, b[self.pos - p:], self.pos)
        self.log.append((self.role, 'write', p, b))
        return len(b)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def seek(self, off, whence=0):
        p = off if whence == 0 else self.pos + off if whence == 1 else \
            os.fstat(self.fd).st_size + off
        if p < 0:
            raise OSError(22, 'Invalid argument')
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        if self.plan.hit('write:' + self.role):
            raise self.plan.exc('truncate failed')
        os.ftruncate(self.fd, size)
        self.log.append((self.role, 'trunc', size, b''))
        return size

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            os.close(self.fd)
            if self.plan.hit('close:' + self.role):
                raise self.plan.exc('close failed')

    def isatty(self):
        return False

    def fileno(self):
        return self.fd

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        with contextlib.suppress(Exception):
            if not self.closed:
                self.closed = True
                os.close(self.fd)

    def getvalue(self):
        return os.pread(self.fd, os.fstat(self.fd).st_size, 0)


@contextlib.contextmanager
def opening(roles, log, plan):
    """open() returns a RecFile for the paths in roles"""
    real = builtins.open

    def open_(file, mode='r', *a, **kw):
        try:
            role = roles.get(os.path.abspath(os.fspath(file)))
        except TypeError:
            role = None
        if role is None or 'b' not in mode:
            return real(file, mode, *a, **kw)
        return RecFile(os.fspath(file), mode, role, log, plan)
    builtins.open = open_
    try:
        yield
    finally:
        builtins.open = real


def replay(start, log, role, upto):
    """the bytes of the file after the first `upto` changes"""
    b = bytearray(start)
    n = 0
    for e in log:
        if e[0] != role or e[1] == 'read':
            continue
        if n >= upto:
            break
        n += 1
        if e[1] == 'trunc':
            if e[2] < len(b):
                del b[e[2]:]
            else:
                b.extend(bytes(e[2] - len(b)))
        else:
            p, d = e[2], e[3]
            if p > len(b):
                b.extend(bytes(p - len(b)))
            b[p:p + len(d)] = d
    return bytes(b)


def changes(log, role):
    return sum(1 for e in log if e[0] == role and e[1] != 'read')


def layout(b):
    """positions of the sections of a whole container"""
    s = lib.project(b)
    opt, csum = b[5], b[6]
    n = int.from_bytes(b[16:24], 'little')
    cap = int.from_bytes(b[24:32], 'little')
    p = 32
    if opt & 2:
        p += 32 + int.from_bytes(b[48:52], 'little') + lib.DIGEST[b[41]]
    tab = p
    if opt & 1:
        p += 8 * (n + cap)
    return {'n': n, 'cap': cap, 'tab': tab, 'data': p, 'csum': csum,
            'ch': [c['pos'] for c in s['ch']], 'offs': opt & 1}


def table_status(state, final, lay):
    out = set()
    if not lay['offs']:
        return []
    for i in range(lay['tab'], lay['data'], 8):
        e = state[i:min(i + 8, lay['data'])]
        if len(e) == 0:
            out.add('absent')
            break
        if e.count(255) == len(e):
            out.add('minus1')
        elif e == final[i:i + 8]:
            out.add('final')
        else:
            out.add('other')
    return sorted(out)


def try_read(env, b, entry):
    path = env.fresh('.blp')
    with open(path, 'wb') as fp:
        fp.write(b)
    dst = path + '.out'

    def run():
        if entry == 'f2f':
            m = bp.unpack_file_from_file(path, dst)
            with open(dst, 'rb') as fp:
                return fp.read(), m
        if entry == 'b2b':
            return bp.unpack_bytes_from_bytes(b)
        if entry == 'fpmem':
            src = file_io.CompressedFPSource(io.BytesIO(b))
            sink = memory_io.PlainMemorySink(src.nchunks if src.nchunks != -1 else None)
            abstract_io.unpack(src, sink)
            return b''.join(sink.chunks), src.metadata
        return bp.unpack_bytes_from_file(path)
    ok, r, _ = ops.attempt(run)
    for p in (path, dst):
        if os.path.exists(p):
            os.unlink(p)
    return (True, r[0], '' if r[1] is None else lib.short(lib.canon(r[1]))) if ok \
        else (False, b'', '')


READERS = ['f2b', 'f2f', 'b2b', 'fpmem']


def pick(rnd, n, k):
    """cut points: all of them, or the ends and a sample of the rest"""
    if n <= k:
        return list(range(n + 1))
    s = {0, 1, 2, 3, n, n - 1, n - 2, n - 3}
    while len(s) < k:
        s.add(rnd.randrange(n + 1))
    return sorted(s)


def crash_event(env, kind, f, state, final, start, data, rnd, **kw):
    rok, rd, rv = try_read(env, state, kw.pop('reader', None) or rnd.choice(READERS))
    e = ops.base('crash', kind=kind, f=f, rok=rok, rdata=lib.fp(rd), rval=rv,
                 table=[], chunks='', keep=[True] * 3, pre=lib.NIL, piece=lib.fp(data), final=state == final, **kw)
    if kind == 'pack':
        lay = layout(final)
        e['table'] = table_status(state, final, lay)
        e['chunks'] = 'all' if state[lay['data']:] == final[lay['data']:] and \
            len(state) >= len(final) else 'some'
    else:
        lay = layout(start)
        last = lay['ch'][-1]
        e['keep'] = [state[lay['data']:last] == start[lay['data']:last],
                     state[lay['tab']:lay['tab'] + 8 * (lay['n'] - 1)] ==
                     start[lay['tab']:lay['tab'] + 8 * (lay['n'] - 1)],
                     state[32:lay['tab']] == start[32:lay['tab']]]
        base = kw.get('baselen', 0)
        e['pre'] = lib.fp(data[:max(0, len(rd) - kw['baselen'])])
    return e


def run_pack(env, op, path, src, log, plan, kw):
    """one pack with every file under observation"""
    entry = op.get('fentry', 'f2f')
    data = lib.gen_data(op['data'])
    roles = {os.path.abspath(path): 'out', os.path.abspath(src): 'in'}
    kw = dict(kw)
    with opening(roles, log, plan):
        if entry == 'f2f':
            return ops.attempt(lambda: bp.pack_file_to_file(src, path, **kw))
        if entry == 'b2f':
            return ops.attempt(lambda: bp.pack_bytes_to_file(data, path, **kw))

        def run():
            g = args_mod.calculate_nchunks(len(data), kw.pop('chunk_size', '1M'))
            with RecFile(src, 'rb', 'in', log, plan) as i, \
                    RecFile(path, 'wb', 'out', log, plan) as o:
                abstract_io.pack(file_io.PlainFPSource(i), file_io.CompressedFPSink(o), *g, **kw)
        return ops.attempt(run)


def do_crashpack(env, op):
    """pack, then every interruption and failure of the same pack"""
    rnd = random.Random(op.get('seed', 0))
    f = op['f']
    data = lib.gen_data(op['data'])
    path, src = env.path(f), env.fresh('.dat')
    env.put_at(src, data)
    kw, req = ops.make_args(env, op)
    log = []
    ok, _, err = run_pack(env, op, path, src, log, Plan(), kw)
    if not ok:
        return
    final = env.bytes(f)
    e = ops.base('pack', f=f, entry=op.get('fentry', 'f2f'), ok=ok, err=err, data=lib.fp(data),
                 req=req, post=lib.project(final), nd=ops.described(op, data))
    raw = ops.observed_raw(final)
    if req['m']['p'] and raw is not None:
        ops.sizes(req['m'], raw)
    e['oh'] = e['post']['h']
    env.emit(e)
    n = changes(log, 'out')
    for i in pick(rnd, n, op.get('cuts', 25)):
        state = replay(b'', log, 'out', i)
        env.emit(crash_event(env, 'pack', f, state, final, b'', data, rnd, mode='cut', at=i, of=n,
                             fired=False, ok=False, err=''))
    reads = sum(1 for x in log if x[:2] == ('in', 'read'))
    faults = [('write:out', k) for k in pick(rnd, n, op.get('faults', 12)) if k] + \
        [('read:in', k) for k in pick(rnd, reads, op.get('faults', 12)) if k] + \
        [('eof:in', k) for k in pick(rnd, reads, 4) if k] + [('close:out', 1)]
    if op.get('fentry') == 'b2f':
        faults = [x for x in faults if not x[0].endswith(':in')]
    for where, k in faults:
        plan = Plan(where, k, 'half' if rnd.random() < 0.4 else 'none', rnd.random() < 0.6, rnd.choice(FAILURES))
        path2 = env.fresh('.blp')
        log2 = []
        kw2, _ = ops.make_args(env, op)
        ok, _, err = run_pack(env, op, path2, src, log2, plan, kw2)
        try:
            with open(path2, 'rb') as fp:
                state = fp.read()
            os.unlink(path2)
        except FileNotFoundError:
            state = b''
        env.emit(crash_event(env, 'pack', f, state, final, b'', data, rnd, mode='fault:' + where,
                             at=k, of=n, fired=plan.fired, ok=ok, err=err))
    os.unlink(src)


def run_append(env, op, path, src, data, log, plan):
    args = ops.append_args(env, op)
    roles = {os.path.abspath(path): 'out', os.path.abspath(src): 'in'}
    with opening(roles, log, plan):
        if op.get('entry', 'path') == 'path':
            return ops.attempt(lambda: append_mod.append(path, src, args))

        def run():
            with RecFile(path, 'r+b', 'out', log, plan) as o, RecFile(src, 'rb', 'in', log, plan) as i:
                return append_mod.append_fp(o, i, len(data), args)
        return ops.attempt(run)


def do_crashappend(env, op):
    rnd = random.Random(op.get('seed', 0))
    f = op['f']
    data = lib.gen_data(op['data'])
    path, src = env.path(f), env.fresh('.dat')
    env.put_at(src, data)
    start = env.bytes(f)
    if not start:
        return
    ok, r, _ = ops.attempt(lambda: bp.unpack_bytes_from_bytes(start))
    if not ok:
        return
    baselen = len(r[0])
    work = env.fresh('.blp')
    env.put_at(work, start)
    log = []
    ok, ret, err = run_append(env, op, work, src, data, log, Plan())
    with open(work, 'rb') as fp:
        final = fp.read()
    if ok and start[5] & 1:
        n = changes(log, 'out')
        states = [(replay(start, log, 'out', i), 'cut', i, False, False, '')
                  for i in pick(rnd, n, op.get('cuts', 25))]
        reads = sum(1 for x in log if x[1] == 'read')
        faults = [('write:out', k) for k in pick(rnd, n, op.get('faults', 12)) if k] + \
            [('read:in', k) for k in pick(rnd, sum(1 for x in log if x[:2] == ('in', 'read')), 8) if k] + \
            [('read:out', k) for k in pick(rnd, sum(1 for x in log if x[:2] == ('out', 'read')), 6) if k] + \
            [('eof:in', k) for k in pick(rnd, sum(1 for x in log if x[:2] == ('in', 'read')), 8) if k] + \
            [('close:out', 1)]
        for where, k in faults:
            # a write that fails half way through leaves a chunk that only its
            # digest tells from a whole one
            half = (start[6] >= 1 or where == 'eof:in') and rnd.random() < 0.4
            plan = Plan(where, k, 'half' if half else 'none', rnd.random() < 0.6, rnd.choice(FAILURES))
            env.put_at(work, start)
            log2 = []
            ok2, _, err2 = run_append(env, op, work, src, data, log2, plan)
            with open(work, 'rb') as fp:
                states.append((fp.read(), 'fault:' + where, k, plan.fired, ok2, err2))
        for state, mode, at, fired, ok2, err2 in states:
            env.emit(crash_event(env, 'append', f, state, final, start, data, rnd, mode=mode, at=at,
                                 of=n, fired=fired, ok=ok2, err=err2, baselen=baselen))
    os.unlink(work)
    # and now the append itself
    env.put(f, final)
    e = ops.base('append', f=f, entry=op.get('entry', 'path'), ok=ok, err=err, data=lib.fp(data),
                 valid=True, post=lib.project(final), ret=-1 if not isinstance(ret, int) else ret)
    e['oh'] = e['post']['h'] if ok else 'err'
    env.emit(e)
    os.unlink(src)


# ------------------------------------------------------------------ streaming

def completed(final_lay, stored, hi):
    """number of chunks that lie entirely below position hi"""
    return sum(1 for i in range(len(final_lay)) if stored[i] <= hi)


def do_io(env, op):
    """one pack, unpack or append; all its input reads and output writes in order"""
    kind, f = op['kind'], op['f']
    path, log = env.path(f), []
    data = lib.gen_data(op['data']) if 'data' in op else b''
    steps = []
    if kind == 'pack':
        src = env.fresh('.dat')
        env.put_at(src, data)
        kw, req = ops.make_args(env, op)
        ok, _, err = run_pack(env, op, path, src, log, Plan(), kw)
        os.unlink(src)
        final = env.bytes(f)
        if not ok:
            return
        snap = lib.project(final)
        e = ops.base('pack', f=f, entry='f2f', ok=ok, err=err, data=lib.fp(data), req=req, post=snap,
                     nd=ops.described(op, data))
        raw = ops.observed_raw(final)
        if req['m']['p'] and raw is not None:
            ops.sizes(req['m'], raw)
        env.emit(e)
        unit = max(1, int.from_bytes(final[8:12], 'little'))
        ends = [c['pos'] + c['k'] for c in snap['ch']]
        first, begin, total = 0, 0, len(data)
        inrole, outrole = 'in', 'out'
        inpos = lambda p: p
        done = lambda hi, _: min(total, sum(1 for x in ends if x <= hi) * unit)
    elif kind == 'append':
        src = env.fresh('.dat')
        env.put_at(src, data)
        start = env.bytes(f)
        lay0 = layout(start)
        ok, _, err = run_append(env, op, path, src, data, log, Plan())
        os.unlink(src)
        final = env.bytes(f)
        snap = lib.project(final)
        env.emit(ops.base('append', f=f, entry='path', ok=ok, err=err, data=lib.fp(data), valid=True,
                          post=snap, ret=-1))
        if not ok:
            return
        unit = max(1, int.from_bytes(final[8:12], 'little'))
        total = len(data)
        lastlen = int.from_bytes(start[12:16], 'little')
        room = unit - lastlen
        ends = [c['pos'] + c['k'] for c in snap['ch']][lay0['n'] - 1:]
        inrole, outrole = 'in', 'out'
        # output completed: the filled up chunk, then whole chunks; only writes of
        # this append count
        done = lambda hi, _: 0 if not [x for x in ends if x <= hi] else \
            min(total, room + (sum(1 for x in ends if x <= hi) - 1) * unit)
    else:                                   # unpack
        b = env.bytes(f)
        snap = lib.project(b)
        if snap['bad']:
            return
        dst = env.fresh('.out')
        roles = {os.path.abspath(path): 'in', os.path.abspath(dst): 'out'}
        with opening(roles, log, Plan()):
            if op.get('entry', 'f2f') == 'f2f':
                ok, _, err = ops.attempt(lambda: bp.unpack_file_from_file(path, dst))
            else:
                def run():
                    with RecFile(path, 'rb', 'in', log, Plan()) as i, \
                            RecFile(dst, 'wb', 'out', log, Plan()) as o:
                        source = file_io.CompressedFPSource(i)
                        abstract_io.unpack(source, file_io.PlainFPSink(o))
                ok, _, err = ops.attempt(run)
        if not ok:
            return
        os.unlink(dst)
        lay = layout(b)
        unit = max(1, int.from_bytes(b[8:12], 'little'))
        starts = [c['pos'] for c in snap['ch']]
        total = sum(c['d'][0] for c in snap['ch'])
        dl = lib.DIGEST[b[6]]
        ends = [c['pos'] + c['k'] + dl for c in snap['ch']]
        limit = max(c['k'] for c in snap['ch']) + dl

        def chunk_of(p):
            import bisect
            return bisect.bisect_right(starts, p) - 1
        seen = set()
        nwritten = 0
        for x in log:
            if x[0] == 'in' and x[1] == 'read' and x[4] > 0 and x[2] + x[4] > lay['data']:
                lo = chunk_of(max(x[2], lay['data']))
                hi = chunk_of(x[2] + x[4] - 1)
                asked = x[3] if x[3] >= 0 else x[4] + 2**30
                steps.append({'t': 'r', 'first': lo, 'last': hi,
                              'big': asked > limit and asked > 4096, 'n': min(asked, 2**31 - 1)})
            elif x[0] == 'out' and x[1] == 'write':
                nwritten += len(x[3])
                steps.append({'t': 'w', 'chunks': len(starts) if nwritten >= total
                              else nwritten // unit})
        env.emit(ops.base('iochunks', f=f, n=len(starts), total=total, steps=steps))
        return
    hi, n = 0, 0
    dpos = layout(final)['data']
    if kind == 'append':
        hi = layout(start)['ch'][-1]
    for x in log:
        if x[0] == inrole and x[1] == 'read':
            steps.append({'t': 'r', 'pos': x[2], 'n': x[3] if x[3] >= 0 else 2**31 - 1, 'got': x[4]})
        elif x[0] == outrole and x[1] == 'write':
            if x[2] >= dpos and x[2] + len(x[3]) > hi:
                hi = x[2] + len(x[3])
            steps.append({'t': 'w', 'done': done(hi, None)})
    env.emit(ops.base('io', f=f, kind=kind, unit=unit, total=total, steps=steps))


ops.OPS.update({'crashpack': do_crashpack, 'crashappend': do_crashappend, 'io': do_io})
