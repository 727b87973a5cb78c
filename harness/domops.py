"""Packing with parameters inside and outside their domains."""
import struct

import lib
import ops
from ops import attempt, base

import numpy
import bloscpack as bp
from bloscpack import abstract_io, file_io, memory_io, numpy_io
from bloscpack import args as args_mod
from bloscpack.args import BloscArgs, BloscpackArgs, MetadataArgs

OTHER = {'none': None, 'float': 5.0, 'str': '5', 'list': [5], 'bytes': b'zlib', 'nan': 'nanK',
         'inf': 'infK', 'empty': ''}


def value(x):
    """the Python value of a tagged value"""
    t = x['t']
    if t == 'int':
        v = struct.unpack('<q', bytes(x['n']))[0]
    elif t == 'big+':
        v = 2**64 + 5
    elif t == 'big-':
        v = -2**64 - 5
    elif t == 'size':
        digits = len(str(x['den'])) - 1
        s = str(x['num']).rjust(digits + 1, '0')
        v = (s[:-digits] + '.' + s[-digits:] if digits else s) + x['suf']
    elif t == 'name':
        v = x['s']
    else:
        v = OTHER.get(x['s'], x['s'])
    if x['fn']:
        return lambda n: v
    return v


def build(op):
    ps = op['ps']
    val = {p: value(x) for p, x in ps.items()}
    kw = {}
    if 'cs' in val:
        kw['chunk_size'] = val['cs']
    elif 'cs' in op:
        kw['chunk_size'] = op['cs']
    b = dict(op.get('bl', {}))
    b.update({k: val[p] for p, k in (('ts', 'typesize'), ('clevel', 'clevel'), ('cname', 'cname'))
              if p in val})
    if b:
        kw['blosc_args'] = BloscArgs(**b)
    d = {'offsets': op['offs']}
    if 'csum' in val:
        d['checksum'] = val['csum']
    if 'cap' in val:
        d['max_app_chunks'] = val['cap']
    kw['bloscpack_args'] = BloscpackArgs(**d)
    m = {k: val[p] for p, k in (('mcodec', 'meta_codec'), ('mcsum', 'meta_checksum'),
                                ('mlevel', 'meta_level'), ('mmax', 'max_meta_size')) if p in val}
    if 'mfmt' in val:
        v = val['mfmt']
        m['magic_format'] = v.encode() if ps['mfmt']['t'] == 'name' else v
    if 'meta' in op:
        kw['metadata'] = op['meta']
        kw['metadata_args'] = MetadataArgs(**m)
    elif m:
        kw['metadata_args'] = MetadataArgs(**m)
    return kw


def do_dom(env, op):
    """pack with the parameters op['ps'], all others at their defaults"""
    data = lib.gen_data(op['data'])
    entry, out, src = op['entry'], {}, None
    path = env.path('D')
    if entry in ('f2f', 'dep_f2f'):
        src = env.fresh('.dat')
        with open(src, 'wb') as fp:
            fp.write(data)
    arr = numpy.frombuffer(data, dtype='u1')

    def run():
        kw = build(op)
        if entry == 'nd':
            kw.pop('metadata', None)
            out['c'] = numpy_io.pack_ndarray_to_bytes(arr, **kw)
        elif entry == 'ndf':
            kw.pop('metadata', None)
            numpy_io.pack_ndarray_to_file(arr, path, **kw)
        else:
            out['c'] = ops.pack_into(entry, data, path, kw, src)

    ok, _, err = attempt(run)
    usable = False
    if ok:
        c = out.get('c')
        if c is None:
            with open(path, 'rb') as fp:
                c = fp.read()

        def back():
            if entry in ('nd', 'ndf'):
                return numpy_io.unpack_ndarray_from_bytes(c).tobytes() == data
            if isinstance(c, bytes):
                d, m = bp.unpack_bytes_from_bytes(c)
                return d == data and m == op.get('meta')
            sink = memory_io.PlainMemorySink()
            s = memory_io.CompressedMemorySource(c)
            abstract_io.unpack(s, sink)
            return b''.join(sink.chunks) == data
        usable = bool(attempt(back)[1])
    e = base('dom', entry=entry, ok=ok, err=err, ps=op['ps'], usable=usable,
             r={'len': len(data), 'offs': op['offs'],
                'meta': 'meta' in op or entry in ('nd', 'ndf'),
                'nd': entry in ('nd', 'ndf'), 'mem': entry in ('mem', 'memmem')})
    e['oh'] = 'ok' if ok else 'err'
    ops.outcome_key(e, op)
    env.emit(e)


def do_chunking(env, op):
    """the number of chunks of inputs of any length"""
    xs = []
    for length, cs in op['xs']:
        ok, r, err = attempt(lambda: args_mod.calculate_nchunks(length, cs))
        x = {'len': list(length.to_bytes(12, 'little')), 'cs': cs, 'ok': ok,
             'n': [0] * 8, 'chunk': 0, 'last': 0}
        if ok:
            x.update(n=lib.i64(r[0]), chunk=max(-1, min(lib.MAXINT, r[1])),
                     last=max(-1, min(lib.MAXINT, r[2])))
        xs.append(x)
    env.emit(base('chunking', xs=xs))


class Captured(Exception):
    pass


class Capture(abstract_io.CompressedSink):
    """a sink that takes the header only"""

    def configure(self, blosc_args, bloscpack_header):
        raise Captured(bloscpack_header)

    def write_bloscpack_header(self):
        raise NotImplementedError

    write_metadata = init_offsets = finalize = put = write_bloscpack_header


def do_capacity(env, op):
    """what is reserved, for any number of chunks and any request"""
    xs = []
    for n, cap, offs, fn in op['xs']:
        arg = (lambda k: cap) if fn else cap
        out = {}

        def run():
            try:
                abstract_io.pack(memory_io.PlainMemorySource([]), Capture(), n, 8, 8,
                                 bloscpack_args=BloscpackArgs(offsets=offs, max_app_chunks=arg))
            except Captured as c:
                h = c.args[0]
                out.update(n=lib.i64(h.nchunks), cap=lib.i64(h.max_app_chunks))
                return
        ok, _, err = attempt(run)
        xs.append({'n': lib.i64(n), 'cap': lib.i64(cap), 'offs': offs, 'ok': ok and bool(out),
                   'on': out.get('n', [0] * 8), 'ocap': out.get('cap', [0] * 8)})
    env.emit(base('capacity', xs=xs))


ops.OPS['dom'] = do_dom
ops.OPS['chunking'] = do_chunking
ops.OPS['capacity'] = do_capacity
