"""Containers in which positions exceed 32 bits.

They are sparse files in the scratch directory: the chunks are zeros that blosc
stored uncompressed, and the file object that is written to leaves them out."""
import io
import os
import struct

import lib
import ops

UNIT = 2**28
ZERO = bytes(1 << 20)


class Sparse(io.FileIO):
    """a file in which long stretches of zeros are not written"""

    def write(self, b):
        b = memoryview(b).cast('B')
        n = len(b)
        if n < 1 << 20:
            return io.FileIO.write(self, b)
        i = 0
        while i < n:
            part = b[i:i + len(ZERO)]
            if bytes(part) == ZERO[:len(part)]:
                self.seek(len(part), 1)
            else:
                io.FileIO.write(self, part)
            i += len(part)
        if self.tell() > os.fstat(self.fileno()).st_size:
            self.truncate(self.tell())
        return n


def project(path):
    """the header, the table, how long the chunks are, what the last ones hold"""
    s = {'h': '', 'hdr': [], 'tab': [], 'resv': 0, 'resvok': True, 'cts': [], 'end': lib.i64(0),
         'm': '', 'mlen': 0, 'last': [], 'bad': ''}
    with open(path, 'rb') as fp:
        size = os.fstat(fp.fileno()).st_size
        s['end'] = lib.i64(size)
        hdr = fp.read(32)
        s['hdr'] = list(hdr)
        if len(hdr) < 32:
            s['bad'] = 'header'
            return s
        opt, csum = hdr[5], hdr[6]
        n, cap = struct.unpack('<qq', hdr[16:32])
        if not (0 <= n < 1000 and 0 <= cap < 1000) or csum > 8:
            s['bad'] = 'header'
            return s
        if opt & 2:
            mh = fp.read(32)
            raw, mx, comp = struct.unpack('<III', mh[12:24])
            s['mlen'] = 32 + mx + lib.DIGEST[mh[9]]
            fp.seek(32)
            s['m'] = lib.sha(fp.read(s['mlen']))
        if opt & 1:
            used, rest = fp.read(8 * n), fp.read(8 * cap)
            s['tab'] = [list(used[i:i + 8]) for i in range(0, len(used), 8)]
            s['resv'], s['resvok'] = len(rest) // 8, rest.count(255) == len(rest)
        dl = lib.DIGEST[csum]
        p = fp.tell()
        for i in range(n):
            fp.seek(p)
            h = fp.read(16)
            if len(h) < 16:
                s['bad'] = 'chunk %d missing' % i
                return s
            ct = struct.unpack('<I', h[12:16])[0]
            s['cts'].append(lib.i64(ct))
            c = {'z': False, 'd': lib.NIL, 'dg': True}
            fp.seek(p)
            if ct > 1 << 24:
                # nothing but zeros, as far as can be seen
                flags = h[2]
                c['z'] = bool(flags & 2) and struct.unpack('<I', h[4:8])[0] == ct - 16
            else:
                b = fp.read(ct)
                plain = lib.decompress(b)
                c['dg'] = lib.digest(csum, b) == fp.read(dl)
                if plain is None:
                    c['dg'] = False
                elif len(plain) > 1 << 20:
                    c['z'] = plain.count(0) == len(plain)
                    c['d'] = lib.NIL
                else:
                    c['d'] = lib.fp(plain)
            s['last'].append(c)
            p += ct + dl
        s['h'] = lib.sha(hdr + str([s['tab'], s['cts'], s['last'], s['m']]).encode() + struct.pack('<q', size))
    return s


class Zeros(ops.abstract_io.PlainSource):
    """a source of zeros, which are compressed once"""

    def __iter__(self):
        plain = bytes(self.chunk_size)
        for i in range(self.nchunks - 1):
            yield plain
        yield plain[:self.last_chunk]

    @property
    def compress_func(self):
        cache = {}

        def compress(chunk, blosc_args):
            if len(chunk) not in cache:
                cache[len(chunk)] = ops.blosc.compress(chunk, **blosc_args)
            return cache[len(chunk)]
        return compress


def do_hugepack(env, op):
    """k chunks of 2**28 zeros (and some more)"""
    f, k, more = op['f'], op['k'], op.get('more', 0)
    path = env.path(f)
    kw, req = ops.make_args(env, op)
    kw.pop('chunk_size', None)
    n = k + (1 if more else 0)

    def run():
        with Sparse(path, 'w+b') as out:
            ops.abstract_io.pack(Zeros(), ops.file_io.CompressedFPSink(out), n, UNIT, more or UNIT, **kw)
    ok, _, err = ops.attempt(run)
    e = ops.base('hugepack', f=f, ok=ok, err=err, n=n, unit=UNIT, last=more or UNIT,
                 req={'csum': req['csum'], 'ts': req['ts'], 'offs': req['offs'],
                      'cap': req['cap']['mul'] * n + req['cap']['add'], 'm': req['m']['p']})
    e['tail'] = lib.fp(bytes(more))
    if ok:
        e['post'] = project(path)
    env.emit(e)


def do_hugeappend(env, op):
    f = op['f']
    path, data = env.path(f), lib.gen_data(op['data'])
    pre = project(path)
    args = ops.append_args(env, op)
    def run():
        if op.get('entry') == 'path':
            src = env.fresh('.dat')
            with open(src, 'wb') as fp:
                fp.write(data)
            ops.append_mod.append(path, src, args)
            return None
        with Sparse(path, 'r+b') as o:
            return ops.append_mod.append_fp(o, io.BytesIO(data), len(data), args)
    ok, ret, err = ops.attempt(run)
    e = ops.base('hugeappend', f=f, ok=ok, err=err, data=lib.fp(data), pre=pre, post=project(path),
                 ret=-1 if ret is None else ret if isinstance(ret, int) and 0 <= ret < 1000 else -2)
    env.emit(e)


ops.OPS.update(hugepack=do_hugepack, hugeappend=do_hugeappend)
