"""What an operation leaves behind: open files, other files, settings of the process."""
import gc
import io
import locale
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

import blosc
import numpy

import faultops
import ndops
import ops
from faultops import FAILURES, Plan, RecFile, opening
from ops import abstract_io, append_mod, bp, file_io, log, memory_io
from replaceops import command


def handles():
    out = {}
    for fd in range(512):
        try:
            st = os.fstat(fd)
        except OSError:
            continue
        out[fd] = (st.st_dev, st.st_ino)
    return out


def listing(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n)
            out[p] = os.path.isdir(p)
    return out


def settings():
    mask = os.umask(0o22)
    os.umask(mask)
    return {'umask': mask, 'directory': os.getcwd(), 'environment': dict(os.environ), 'arguments': list(sys.argv),
            'path': list(sys.path), 'streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
            'hooks': (id(sys.excepthook), id(sys.displayhook)), 'switching': sys.getswitchinterval(),
            'recursion': sys.getrecursionlimit(), 'digits': sys.get_int_max_str_digits(),
            'signals': [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM)],
            'threads': threading.active_count(), 'warnings': (id(warnings.filters), len(warnings.filters), id(warnings.showwarning)),
            'errors': (numpy.geterr(), numpy.get_printoptions()), 'random': hash(random.getstate()),
            'random of numpy': numpy.random.get_state()[1].tobytes(), 'collector': (gc.isenabled(), gc.get_threshold()),
            'locale': locale.setlocale(locale.LC_ALL), 'level': log.LEVEL, 'prefix': log.PREFIX, 'temporary': tempfile.tempdir,
            'threads of blosc': blosc.nthreads, 'block size': blosc.get_blocksize(), 'tracing': (sys.gettrace(), sys.getprofile())}


def do_leave(env, op):
    r = random.Random(op['seed'])
    home = env.fresh('.d')
    os.mkdir(home)
    was = os.getcwd(), tempfile.tempdir, blosc.nthreads
    os.chdir(home)
    tempfile.tempdir = home
    try:
        for one in op['runs']:
            blosc.set_nthreads(r.choice([1, 2, 3]))
            leave(env, op, one, r, home)
    finally:
        os.chdir(was[0])
        tempfile.tempdir = was[1]
        blosc.set_nthreads(was[2])


def leave(env, op, one, r, home):
    entry, fate, at = one['entry'], one['fate'], one['at']
    data = bytes(r.randrange(97, 123) for _ in range(r.choice([99, 100, 350, 1000])))
    array = numpy.frombuffer(data, 'u1')
    src, dst = os.path.join(home, 'in'), os.path.join(home, 'out')
    for p in (src, dst):
        if os.path.exists(p):
            os.unlink(p)
    bl = bp.BloscArgs(clevel=r.choice([0, 1, 9]), typesize=1)
    ba = bp.BloscpackArgs(checksum=r.choice(['None', 'adler32', 'md5', 'sha512']), max_app_chunks=lambda n: 10 * n)
    meta = r.choice([None, {'a': 'b'}])
    unpacks = entry.startswith('unpack') or entry in ('ndunpack', 'ndsource', 'decompress', 'info')
    grows = entry.startswith('append')
    if fate == 'refused' and unpacks and ba.checksum == 'None':
        ba.checksum = 'crc32'
    if fate == 'refused' and grows:
        ba.max_app_chunks = 0
        ba.offsets = r.random() < 0.6
    if unpacks or grows:
        if entry in ('ndunpack', 'ndsource', 'unpack_nb'):
            b = bp.pack_ndarray_to_bytes(array, chunk_size=100, blosc_args=bl, bloscpack_args=ba)
        else:
            b = bp.pack_bytes_to_bytes(data, chunk_size=100, metadata=meta, blosc_args=bl, bloscpack_args=ba)
        if fate == 'refused' and unpacks:
            how = r.choice(['digest', 'cut', 'header', 'length'])
            k = -1 if entry != 'info' else 4
            if entry == 'info' or how == 'header':
                b = b[:4] + bytes([255]) + b[5:]
            elif how == 'digest':
                b = b[:k] + bytes([b[k] ^ 1])
            else:
                b = b[:len(b) - r.randrange(1, 20)]
    else:
        b = data
        if fate == 'refused':
            bl.clevel = 10
    more = bytes(r.randrange(256) for _ in range(r.choice([950, 300])))
    if grows:
        env.put_at(dst, b)
        env.put_at(src, more)
    else:
        env.put_at(src, b)
    missing = fate == 'absent' and r.choice(one['own'])
    if missing == 'in':
        os.unlink(src)
    if missing == 'out':
        if grows:
            os.unlink(dst)
        else:
            dst = os.path.join(home, 'nowhere', 'out')
    if fate not in ('absent',) and not grows and r.random() < 0.4 and 'out' in one['own']:
        env.put_at(dst, b'stale' * 500)
    plan = Plan()
    if fate in ('read', 'write', 'close'):
        where = {'read': 'read:in', 'write': 'write:out', 'close': 'close:out'}[fate]
        plan = Plan(where, at + 1, r.choice(['none', 'half']), r.random() < 0.6, r.choice(FAILURES))
    faulty = fate in ('read', 'write', 'close') or r.random() < 0.3
    theirs = []

    def caller(path, mode, role):
        f = RecFile(path, mode, role, [], plan) if faulty else open(path, mode, buffering=r.choice([0, 4096]))
        theirs.append(f)
        return f

    inputs = {p: open_read(p) for p in (src,) if os.path.exists(p)}
    # the files of the caller, opened before
    i = o = None
    if 'in' in one['theirs']:
        i = caller(src, 'rb', 'in')
    if 'out' in one['theirs']:
        o = caller(dst, 'r+b' if grows else 'w+b', 'out')
    if r.random() < 0.3:
        i = i and (theirs.append(io.BytesIO(inputs[src])) or theirs[-1]) if not faulty else i
    ch = dict(chunk_size=100, blosc_args=bl, bloscpack_args=ba)
    cl = ['-l', str(bl.clevel)]

    def run():
        if entry == 'pack_ff':
            bp.pack_file_to_file(src, dst, metadata=meta, **ch)
        elif entry == 'pack_bf':
            bp.pack_bytes_to_file(data, dst, metadata=meta, **ch)
        elif entry == 'pack_bb':
            bp.pack_bytes_to_bytes(data, metadata=meta, **ch)
        elif entry == 'pack_fp':
            n, c, last = bp.args.calculate_nchunks(len(data), 100)
            abstract_io.pack(file_io.PlainFPSource(i), file_io.CompressedFPSink(o), n, c, last, metadata=meta,
                             blosc_args=bl, bloscpack_args=ba)
        elif entry == 'pack_mem':
            n, c, last = bp.args.calculate_nchunks(len(data), 100)
            abstract_io.pack(file_io.PlainFPSource(i), memory_io.CompressedMemorySink(), n, c, last, metadata=meta,
                             blosc_args=bl, bloscpack_args=ba)
        elif entry == 'unpack_ff':
            bp.unpack_file_from_file(src, dst)
        elif entry == 'unpack_fb':
            bp.unpack_bytes_from_file(src)
        elif entry == 'unpack_bb':
            bp.unpack_bytes_from_bytes(inputs[src])
        elif entry == 'unpack_fp':
            s = file_io.CompressedFPSource(i)
            abstract_io.unpack(s, file_io.PlainFPSink(o))
        elif entry == 'unpack_mem':
            s = file_io.CompressedFPSource(i)
            abstract_io.unpack(s, memory_io.PlainMemorySink())
        elif entry == 'ndpack':
            ndops.numpy_io.pack_ndarray_to_file(array, dst, **ch)
        elif entry == 'ndpack_fp':
            ndops.numpy_io.pack_ndarray(array, file_io.CompressedFPSink(o), **ch)
        elif entry == 'ndpack_b':
            bp.pack_ndarray_to_bytes(array, **ch)
        elif entry == 'ndunpack':
            ndops.numpy_io.unpack_ndarray_from_file(src)
        elif entry == 'ndsource':
            ndops.numpy_io.unpack_ndarray(file_io.CompressedFPSource(i))
        elif entry == 'unpack_nb':
            bp.unpack_ndarray_from_bytes(inputs[src])
        elif entry == 'append_ff':
            append_mod.append(dst, src)
        elif entry == 'append_fp':
            append_mod.append_fp(o, i, len(more))
        elif entry == 'compress':
            command(['-f', 'compress', '-z', '100', '-k', ba.checksum] + (['-l', '9'] if fate != 'refused' else ['-z', '0']) + [src, dst])
        elif entry == 'decompress':
            command(['-f', 'decompress', '-e', src, dst])
        elif entry == 'append_cmd':
            command(['append', '-e', dst, src])
        elif entry == 'info':
            command(['info', src])
        else:
            raise KeyError(entry)

    files, fds, state = listing(home), handles(), settings()
    roles = {os.path.abspath(src): 'in', os.path.abspath(dst): 'out'} if faulty else {}
    kept, ok = None, True
    with ops.quiet():
        try:
            with opening(roles, [], plan):
                run()
        except BaseException as e:       # and all it refers to
            kept, ok = e, False
        # while the error is still there
        left = {fd: x for fd, x in handles().items() if fds.get(fd) != x}
    after, now = listing(home), settings()
    whole = True
    if ok and 'out' in one['own'] and not faulty:
        first = open_read(dst)           # all of it has been written
        gc.collect()
        whole = first == open_read(dst) and len(first) > 0
    theirs_open = all(not f.closed for f in theirs)
    new = [p for p in after if p not in files and p != dst]
    gone = [p for p in files if p not in after]
    env.emit(ops.base('leave', entry=entry, fate=fate, at=at, ok=ok, err=type(kept).__name__ if kept else '', fired=plan.fired,
                      left=len(left), theirs=theirs_open, files=len(new) + len(gone), whole=whole,
                      changed=sorted(k for k in state if state[k] != now[k]),
                      inputs=all(os.path.exists(p) and open_read(p) == x for p, x in inputs.items())))
    del kept
    for f in theirs:
        try:
            f.close()
        except BaseException:
            pass


def open_read(p):
    fd = os.open(p, os.O_RDONLY)
    try:
        out = b''
        while True:
            x = os.read(fd, 1 << 20)
            if not x:
                return out
            out += x
    finally:
        os.close(fd)


ops.OPS['leave'] = do_leave
