"""Packing and unpacking numpy arrays."""
import io
import json
import os

import lib
import ops
import setfacts
from ops import attempt, base

import blosc
import numpy as np
from bloscpack import file_io, memory_io, numpy_io
from bloscpack.args import BloscArgs, BloscpackArgs, MetadataArgs

Rec = np.dtype

DTYPES = {
    'b1': '?', 'i1': 'i1', 'u1': 'u1', 'i2': '<i2', 'u2': '>u2', 'i4': '<i4', 'u4be': '>u4',
    'i8': '<i8', 'u8': '<u8', 'i8be': '>i8', 'f2': '<f2', 'f4': '<f4', 'f4be': '>f4', 'f8': '<f8',
    'f8be': '>f8', 'g': 'g', 'c8': '<c8', 'c16': '<c16', 'c16be': '>c16', 'G': 'G',
    'S1': 'S1', 'S3': 'S3', 'S255': 'S255', 'S17': 'S17', 'U1': '<U1', 'U5': '<U5', 'U5be': '>U5',
    'U63': '<U63', 'V1': 'V1', 'V7': 'V7', 'V255': 'V255', 'M': '<M8[ns]', 'Mus': '>M8[us]',
    'MD': '<M8[D]', 'M25': '<M8[25s]', 'Mgen': '<M8', 'm': '<m8[h]', 'mgen': '<m8', 'm7': '>m8[7D]',
    'rec': [('a', '<i4'), ('b', '>f8')],
    'rec1': [('x', 'i1')],
    'recS': [('name', 'S10'), ('u', '<U3'), ('t', '<M8[s]')],
    'recdef': ['i4', 'f8'],
    'nested': [('p', [('x', '<f4'), ('y', '<f4')]), ('q', 'u1')],
    'nested2': [('o', [('p', [('x', '<i2'), ('y', [('z', '>i2')])]), ('q', 'S2')])],
    'sub': [('v', '<f4', (3,)), ('m', '<i2', (2, 2)), ('z', 'u1')],
    'sub1': [('v', 'i1', 1), ('w', '<i4', (1,))],
    'subrec': [('r', [('a', 'i1'), ('b', '<i2', (2,))], (2,)), ('c', 'S1')],
    'titles': [(('title', 'name'), '<i4'), ('n2', '<f4')],
    'uni': [(u'\u00e9', '<i4'), ('b c', 'i1'), ("q'uote", 'i1'), ('dq"x', 'i1')],
    'bool2': [('t', '?'), ('f', '?')],
    'rec255': [('a', 'S200'), ('b', 'V55')],
}


def dtype(name):
    if name == 'recdef':
        return np.dtype('i4,f8')
    if name == 'align':
        return np.dtype([('a', 'i1'), ('b', '<f8'), ('c', 'i1')], align=True)
    if name == 'pad':
        return np.dtype({'names': ['a', 'b'], 'formats': ['<i4', 'i1'], 'offsets': [2, 9], 'itemsize': 16})
    if name == 'padend':
        return np.dtype({'names': ['a'], 'formats': ['<i2'], 'offsets': [0], 'itemsize': 8})
    if name == 'padfront':
        return np.dtype({'names': ['a'], 'formats': ['<i2'], 'offsets': [6], 'itemsize': 8})
    if name == 'padnest':
        inner = np.dtype([('x', 'i1'), ('y', '<i4')], align=True)
        return np.dtype([('n', inner), ('k', 'i1'), ('arr', inner, (2,))], align=True)
    if name == 'padtitle':
        return np.dtype({'names': ['a', 'b'], 'formats': ['<i4', 'i1'], 'offsets': [0, 7],
                         'titles': ['ta', None], 'itemsize': 9})
    if name == 'record':
        return np.dtype((np.record, [('a', '<i4'), ('b', 'S3')]))
    if name == 'metadata':
        return np.dtype('<f4', metadata={'unit': 'm'})
    if name.startswith('S') and name[1:].isdigit():
        return np.dtype(name)
    if name.startswith('many#'):
        return np.dtype([('f%d' % i, 'u1') for i in range(int(name[5:]))])
    if name.startswith('name#'):
        return np.dtype([('n' * int(name[5:]), '<i4'), ('b', '>i2')])
    if name == 'O':
        return np.dtype('O')
    if name == 'recO':
        return np.dtype([('a', 'i4'), ('o', 'O')])
    if name == 'nestO':
        return np.dtype([('n', [('p', 'i1'), ('q', [('o', 'O')])]), ('z', 'i1')])
    if name == 'subO':
        return np.dtype([('o', 'O', (2,)), ('z', 'i1')])
    return np.dtype(DTYPES.get(name, name))


PADDED = {'align', 'pad', 'padend', 'padfront', 'padnest', 'padtitle'}
OBJECTS = {'O', 'recO', 'nestO', 'subO'}


def describe(dt):
    """everything that distinguishes data types, as text"""
    if dt.subdtype is not None:
        return 'sub(%s,%r)' % (describe(dt.subdtype[0]), dt.subdtype[1])
    if dt.names is None:
        return dt.str
    out = []
    for n in dt.names:
        f = dt.fields[n]
        out.append('%r/%r@%d:%s' % (n, f[2] if len(f) > 2 else None, f[1], describe(f[0])))
    return 'rec%d{%s}' % (dt.itemsize, ','.join(out))


def field_mask(dt):
    """which bytes of an item belong to a field"""
    m = np.zeros(dt.itemsize, bool)
    if dt.subdtype is not None:
        one = field_mask(dt.subdtype[0])
        return np.tile(one, dt.itemsize // max(1, len(one)))
    if dt.names is None:
        m[:] = True
        return m
    for n in dt.names:
        f = dt.fields[n]
        m[f[1]:f[1] + f[0].itemsize] |= field_mask(f[0])
    return m


def elements(a):
    """the bytes of the elements in C order, padding blanked"""
    b = a.tobytes()
    m = field_mask(a.dtype)
    if m.all() or not b:
        return b
    x = np.frombuffer(b, 'u1').reshape(-1, len(m)) * m.astype('u1')
    return x.tobytes()


def stored_order(a):
    return 'F' if a.flags.fnc else 'C'


def make(env, spec):
    """the array of a scenario: dense, then views of it"""
    dt = dtype(spec['dt'])
    shape = tuple(spec['sh'])
    n = 1
    for k in shape:
        n *= k
    if dt.hasobject:
        a = np.empty(shape, dt)
    else:
        b = lib.gen_data({'k': spec.get('k', 'mix'), 'n': n * dt.itemsize + 1, 's': spec.get('s', 0)})
        kind = spec.get('mem', 'own')
        if dt.itemsize == 0:
            a = np.zeros(shape, dt)
        elif kind == 'readonly':
            a = np.frombuffer(b[:-1], dt, n)
        elif kind == 'unaligned':
            a = np.frombuffer(bytearray(b), np.uint8)[1:].view(dt)
        elif kind == 'memmap':
            p = env.fresh('.npm')
            with open(p, 'wb') as fp:
                fp.write(b)
            a = np.memmap(p, dt, 'r+', shape=(n,)) if n else np.frombuffer(b'', dt)
        else:
            a = np.frombuffer(b[:-1], dt, n).copy()
        a = a.reshape(shape, order=spec.get('order', 'C'))
    for v in spec.get('views', []):
        a = view(a, v['v'], v['i'])
    # kinds of arrays that are arrays too
    sub = spec.get('sub')
    if sub == 'matrix' and a.ndim == 2 and dt.names is None:
        a = a.view(np.matrix)
    elif sub == 'recarray' and a.dtype.names and a.ndim:
        a = a.view(np.recarray)
    elif sub == 'other':
        a = a.view(Other)
    return a


class Other(np.ndarray):
    """a subclass that adds nothing"""


def view(a, v, i):
    ax = lambda s: a[(slice(None),) * (i - 1) + (s,)]
    if v == 'T':
        return a.T
    if v == 'swap':
        return a.swapaxes(i - 1, i)
    if v == 'rev':
        return ax(slice(None, None, -1))
    if v == 'step':
        return ax(slice(None, None, 2))
    if v == 'tail':
        return ax(slice(1, None))
    if v == 'init':
        return ax(slice(None, -1))
    if v == 'pick':
        r = a[(slice(None),) * (i - 1) + (-1,)]
        # a scalar: the array of no dimensions that holds it
        return r if isinstance(r, np.ndarray) else a.reshape(-1)[-1:].reshape(())
    if v == 'empty':
        return ax(slice(0, 0))
    if v == 'new':
        return ax(np.newaxis)
    if v == 'broadcast':
        return np.broadcast_to(a, (2,) + a.shape)
    if v == 'field':
        return a[a.dtype.names[i - 1]]
    raise ValueError(v)


def pack_nd(entry, a, path, kw):
    if entry == 'file':
        numpy_io.pack_ndarray_to_file(a, path, **kw)
    elif entry == 'dep_file':
        numpy_io.pack_ndarray_file(a, path, **kw)
    elif entry == 'bytes':
        return numpy_io.pack_ndarray_to_bytes(a, **kw)
    elif entry == 'dep_str':
        return numpy_io.pack_ndarray_str(a, **kw)
    elif entry == 'fp':
        bio = io.BytesIO()
        numpy_io.pack_ndarray(a, file_io.CompressedFPSink(bio), **kw)
        return bio.getvalue()
    elif entry == 'mem':
        sink = memory_io.CompressedMemorySink()
        numpy_io.pack_ndarray(a, sink, **kw)
        return sink
    else:
        raise ValueError(entry)


def do_ndpack(env, op):
    f, entry = op['f'], op['entry']
    a = make(env, op['arr'])
    path = env.path(f)
    if os.path.exists(path):
        os.unlink(path)
    if op.get('over') and entry != 'mem':
        ops.leftover(path, op['over'])
    dt = a.dtype
    kw, req = ops.make_args(env, dict({k: v for k, v in op.items() if k != 'ma'}))
    ma = op.get('ma')
    if ma is not None:
        mx, mxl = ops.linear(ma.get('max', {'mul': 10, 'add': 0}))
        d = {k: v for k, v in ma.items() if k.startswith('meta_')}
        if 'max' in ma:
            d['max_meta_size'] = mx
        kw['metadata_args'] = ops.reuse(env, op, 'ma', lambda: MetadataArgs(**d))
    req['m'] = {'p': True, 'val': '?', 'codec': lib.CODECS.index((ma or {}).get('meta_codec', 'zlib')),
                'level': (ma or {}).get('meta_level', 6),
                'csum': lib.CHECKSUMS.index((ma or {}).get('meta_checksum', 'adler32')),
                'max': mxl if ma is not None else {'mul': 10, 'add': 0}, 'raw': 1, 'z': 1}
    req['ts'] = dt.itemsize
    frozen = ops.frozen(kw)
    obj = bool(dt.hasobject)
    padded = op['arr']['dt'] in PADDED
    mem = b'' if obj else a.tobytes(order='A')
    els = b'' if obj else elements(a)
    flags = (a.flags.writeable, a.shape, a.strides, describe(dt))
    out = {}

    def run():
        r = pack_nd(entry, a, path, kw)
        if entry == 'mem':
            env.mem[f] = r
        elif r is not None:
            out['b'] = r

    ok, _, err = attempt(run)
    same = ops.frozen(kw) == frozen and \
        (obj or (elements(a) == els and (padded or a.tobytes(order='A') == mem))) and flags == (a.flags.writeable, a.shape, a.strides, describe(a.dtype))
    e = base('ndpack', f=f, entry=entry, ok=ok, err=err, req=req, same=same,
             mem=entry == 'mem', exact=not padded, object=obj,
             data=lib.NIL if obj else lib.fp(mem), nbytes=0 if obj else len(mem),
             item=dt.itemsize, sh=list(a.shape), sd=list(a.strides), dt=lib.short(describe(dt)),
             el=lib.NIL if obj else lib.fp(els),
             md={'p': False, 'sh': [], 'order': '', 'container': ''})
    if ok:
        if entry == 'mem':
            meta = env.mem[f].metadata
            e['post'] = ops.mem_snapshot(env.mem[f])
            chunks = [c or b'' for c in env.mem[f].chunks]
        else:
            if 'b' in out:
                env.put(f, out['b'])
            b = env.bytes(f)
            e['post'] = lib.project(b)
            chunks = [b[c['pos']:c['pos'] + c['k']] for c in e['post']['ch']]
            raw = ops.observed_raw(b)
            meta = None
            if raw is not None:
                ops.sizes(req['m'], raw)
                good, meta, _ = attempt(lambda: json.loads(raw.decode()))
                req['m']['val'] = e['post']['m'].get('val', '?')
        if isinstance(meta, dict) and isinstance(meta.get('shape'), (list, tuple)):
            e['md'] = {'p': True, 'sh': [int(k) for k in meta['shape']], 'order': str(meta.get('order')),
                       'container': str(meta.get('container'))}
        if env.facts:
            e['z'] = setfacts.facts(dict(setfacts.given(op.get('bl') or {}), ts=-1), dt.itemsize, chunks)
        e['oh'] = e['post']['h'] if entry != 'mem' else lib.sha(json.dumps(e['post']).encode())
    else:
        if os.path.exists(path):
            os.unlink(path)
        e['oh'] = 'err'
    ops.outcome_key(e, op)
    env.emit(e)


def described(op, data):
    """the array that the metadata of a container describes"""
    d = op.get('as')
    if not d:
        return {'p': 'bad'}
    dt, sh = dtype(d['dt']), tuple(d['sh'])
    need = dt.itemsize
    for k in sh:
        need *= k
    r = {'p': 'array', 'need': need, 'dt': lib.short(describe(dt)), 'sh': list(sh),
         'order': 'C', 'el': lib.NIL}
    if data is not None and len(data) == need:
        a = np.frombuffer(data, dt).reshape(sh, order=d['order']) if need else np.empty(sh, dt, d['order'])
        r['el'], r['order'] = lib.fp(elements(a)), stored_order(a)
    return r


ops.described = described


class Watch(object):
    """observes what is written through blosc.decompress_ptr, and does not let
    more be written than the array that is described can hold"""

    def __init__(self, need):
        self.need, self.written, self.outside = need, 0, False

    def __enter__(self):
        self.orig = blosc.decompress_ptr

        def decompress_ptr(b, ptr, *a, **kw):
            n = int.from_bytes(bytes(b[4:8]), 'little')
            self.written += n
            if self.need is not None and self.written > self.need:
                self.outside = True
                raise RuntimeError('write outside of the array')
            return self.orig(b, ptr, *a, **kw)
        blosc.decompress_ptr = decompress_ptr
        return self

    def __exit__(self, *a):
        blosc.decompress_ptr = self.orig


def unpack_nd(env, entry, f, path):
    if entry == 'file':
        return numpy_io.unpack_ndarray_from_file(path)
    if entry == 'dep_file':
        return numpy_io.unpack_ndarray_file(path)
    with open(path, 'rb') if entry != 'mem' else io.BytesIO() as fp:
        b = fp.read()
    if entry == 'bytes':
        return numpy_io.unpack_ndarray_from_bytes(b)
    if entry == 'dep_str':
        return numpy_io.unpack_ndarray_str(b)
    if entry == 'fp':
        return numpy_io.unpack_ndarray(file_io.CompressedFPSource(io.BytesIO(b)))
    if entry == 'mem':
        return numpy_io.unpack_ndarray(memory_io.CompressedMemorySource(env.mem[f]))
    raise ValueError(entry)


def do_ndunpack(env, op):
    f, entry = op['f'], op['entry']
    out = {}
    with Watch(op.get('need')) as w:
        ok, a, err = attempt(lambda: unpack_nd(env, entry, f, env.path(f)))
    e = base('ndunpack', f=f, entry=entry, ok=ok, err=err, outside=w.outside, array=True, dt='', sh=[],
             order='', el=lib.NIL)
    if ok:
        if isinstance(a, np.ndarray) and not a.dtype.hasobject:
            e.update(dt=lib.short(describe(a.dtype)), sh=list(a.shape), order=stored_order(a),
                     el=lib.fp(elements(a)))
            e['oh'] = lib.sha(json.dumps([e['dt'], e['sh'], e['order'], e['el']]).encode())
        else:
            e['array'] = False
    else:
        e['oh'] = 'err'
    ops.outcome_key(e, op)
    env.emit(e)


ops.OPS['ndpack'] = do_ndpack
ops.OPS['ndunpack'] = do_ndunpack
