"""Reading any bytes whatever."""
import os
import random
import resource
import signal
import struct

import lib
import ndops
import ops
from faultops import layout
from ops import abstract_io, append_mod, bp, file_io, memory_io
from replaceops import command

HUGE = [2**62, 2**63 - 1, 2**31 - 1, 2**31, 2**32 - 1, 2**28, 2**24, 10**9, 2**40, 2**26 + 1]
LIMIT = 12


class Hang(BaseException):
    pass


def alarmed(*_):
    raise Hang('it does not end')


def said(kind, v, rnd):
    return {'true': v, 'less': v - 1, 'more': v + 1, 'zero': 0, 'huge': rnd.choice(HUGE)}[kind]


def put(b, at, fmt, v):
    k = struct.calcsize(fmt)
    lo, hi = (-(1 << (8 * k - 1)), (1 << (8 * k - 1)) - 1) if fmt[-1].islower() else (0, (1 << 8 * k) - 1)
    return b[:at] + struct.pack(fmt, max(lo, min(hi, v))) + b[at + k:] if at + k <= len(b) else b


def distort(b, x, rnd):
    """the numbers in a container, distorted; a piece of it changed, missing, or there twice"""
    lay = layout(b)
    out = b
    for name, at, fmt in (('n', 16, '<q'), ('cap', 24, '<q'), ('max', 48, '<I'), ('comp', 52, '<I')):
        k = x.get(name, 'true')
        if k != 'true' and (at < 32 or b[5] & 2):
            out = put(out, at, fmt, said(k, struct.unpack_from(fmt, b, at)[0], rnd))
    at = x.get('at', 0)
    if at and at <= len(lay['ch']):
        p = lay['ch'][at - 1] + rnd.choice(x.get('field', [12]))
        if p + 4 <= len(b):
            out = put(out, p, '<I', said(x['by'], struct.unpack_from('<I', b, p)[0], rnd))
    for _ in range(x.get('noise', 0)):
        where = rnd.choice([0, 0, 32, lay['tab'], lay['data']] + lay['ch'])
        p = min(len(out) - 1, where + rnd.randrange(32))
        out = out[:p] + bytes([rnd.choice([0, 255, 1, 128, out[p] ^ 1, rnd.randrange(256)])]) + out[p + 1:]
    if x.get('inside') and b[5] & 2:
        # what the metadata consist of
        p, k = 64, struct.unpack_from('<I', b, 52)[0]
        for _ in range(x['inside'] if k else 0):
            q = p + rnd.randrange(k)
            out = out[:q] + bytes([rnd.choice([0, 0x80, 0xc3, 0xff, 0x22, 0x5c, 0x7b, out[q] ^ 1])]) + out[q + 1:]
    if x.get('splice') and len(out) > 40:
        lo = rnd.randrange(0 if x['splice'] == 'any' else 32, len(out))
        hi = min(len(out), lo + rnd.choice([1, 4, 16, 32, 100, len(out)]))
        out = {'gone': out[:lo] + out[hi:], 'twice': out[:hi] + out[lo:], 'any': out[:lo] + rnd.randbytes(hi - lo) + out[hi:],
               'moved': out[:lo] + out[hi:] + out[lo:hi]}[x['splice']]
    if x.get('cut'):
        out = out[:max(0, len(out) - (x['cut'] if x.get('bytes') else x['cut'] * rnd.choice([1, 16, 20])))]
    if x.get('nest') and b[5] & 2:
        # a value that is in another one, and so on
        v = (x['nest'] * 40000)[:struct.unpack_from('<I', b, 48)[0]].encode()
        out = put(put(out, 52, '<I', len(v)), 44, '<I', len(v))
        out = out[:41] + b'\0\0\0' + out[44:64] + v + out[64 + len(v):]
    return out


def readers(env, path, b):
    def to_file():
        dst = env.fresh('.out')
        try:
            m = bp.unpack_file_from_file(path, dst)
            with open(dst, 'rb') as fp:
                return fp.read(), m
        finally:
            os.unlink(dst)

    def by_command():
        dst = env.fresh('.out')
        try:
            command(['-f', 'decompress', '-e', path, dst])
            with open(dst, 'rb') as fp:
                return fp.read(), Ellipsis
        finally:
            if os.path.exists(dst):
                os.unlink(dst)

    def to_memory():
        with open(path, 'rb') as fp:
            s = file_io.CompressedFPSource(fp)
            k = memory_io.PlainMemorySink()
            abstract_io.unpack(s, k)
            return b''.join(k.chunks), s.metadata

    def array():
        return ndops.numpy_io.unpack_ndarray_from_file(path).tobytes(order='A'), Ellipsis

    return {'f2b': lambda: bp.unpack_bytes_from_file(path), 'f2f': to_file, 'b2b': lambda: bp.unpack_bytes_from_bytes(b),
            'mem': to_memory, 'cmd': by_command, 'nd': array, 'info': lambda: (command(['info', path]), Ellipsis)}


def changers(path):
    def replace():
        with open(path, 'r+b') as fp:
            append_mod._seek_to_metadata(fp)
            append_mod._rewrite_metadata_fp(fp, {'k': 1})

    def grow():
        with open(path + '.new', 'wb') as fp:
            fp.write(b'12345')
        try:
            append_mod.append(path, path + '.new')
        finally:
            os.unlink(path + '.new')
    return {'replace': replace, 'append': grow}


def timed(f):
    """-> ok, result, error, growth of the memory in KiB"""
    before = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    # of processor time: a machine that is busy is not a reader that hangs
    signal.signal(signal.SIGPROF, alarmed)
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    try:
        ok, r, err = ops.attempt(f)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ok, r, err, resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - before


def do_hostile(env, op):
    rnd = random.Random(op.get('seed', 0))
    good = env.bytes(op['f'])
    if not good or lib.project(good)['bad']:
        return
    path = env.fresh('.blp')
    for x in op['xs']:
        b = distort(good, x, rnd)
        env.put_at(path, b)
        post = lib.project(b)
        plain = sum(c['d'][0] for c in post['ch']) + max(0, post['m'].get('rawlen', 0))
        plain += max([c['nb'] for c in post['ch']] + [0])
        seen = []
        for name, f in readers(env, path, b).items():
            ok, r, err, mem = timed(f)
            d, m = r if ok and name != 'info' else (b'', Ellipsis)
            seen.append({'by': name, 'ok': ok, 'err': err, 'mem': mem, 'data': lib.fp(d), 'told': m is not Ellipsis,
                         'val': '' if m is Ellipsis or m is None else lib.short(lib.canon(m))})
            if err == 'Hang':
                break
        with open(path, 'rb') as fp:
            untouched = fp.read() == b
        if not any(s['err'] == 'Hang' for s in seen):
            for name, f in changers(path).items():
                env.put_at(path, b)
                ok, r, err, mem = timed(f)
                with open(path, 'rb') as fp:
                    seen.append({'by': name, 'ok': ok, 'err': err, 'mem': mem, 'data': lib.NIL, 'told': False,
                                 'val': 'kept' if fp.read() == b else 'changed'})
        env.emit(ops.base('hostile', f=op['f'], ok=seen[0]['ok'], seen=seen, post=post, untouched=untouched,
                          size=len(b) // 1024 + 1, plain=min(plain // 1024 + 1, 2**20), x=repr(x)[:200]))
    if os.path.exists(path):
        os.unlink(path)


ops.OPS['hostile'] = do_hostile
