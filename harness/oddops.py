"""Metadata made of anything, not only of what JSON has."""
import collections
import datetime
import decimal
import enum
import fractions
import io
import math
import random
import uuid

import numpy

import lib
import ops
from ops import append_mod, bp


class Text(str):
    pass


class Thing(object):
    pass


class Colour(enum.Enum):
    RED = 1


def circular():
    x = []
    x.append(x)
    return x


# kind -> what makes one; the kinds that JSON has are in the specification
VALUES = {
    'null': lambda r: None, 'bool': lambda r: r.choice([True, False]), 'int': lambda r: r.choice([0, -1, 2**31, 2**63, -2**70, 10**30]),
    'float': lambda r: r.choice([0.5, -0.0, 1e300, 5e-324, 0.1, 1e16, float('inf'), float('-inf')]),
    'str': lambda r: r.choice(['', 'x', '\u20ac', '\ud800', '\0', '"\\', '\U0001f600', Text('t')]),
    'list': lambda r: [], 'dict': lambda r: {}, 'ordered': lambda r: collections.OrderedDict(b=1, a=2),
    'bytes': lambda r: r.choice([b'', b'abc', b'\xff']), 'bytearray': lambda r: bytearray(b'abc'), 'set': lambda r: {1, 2},
    'frozenset': lambda r: frozenset(), 'complex': lambda r: 1j, 'object': lambda r: Thing(), 'date': lambda r: datetime.date(2020, 1, 2),
    'time': lambda r: datetime.datetime(2020, 1, 2, 3, 4), 'decimal': lambda r: decimal.Decimal('1.10'),
    'fraction': lambda r: fractions.Fraction(1, 3), 'npint': lambda r: numpy.int64(3), 'nparray': lambda r: numpy.arange(3),
    'npbool': lambda r: numpy.bool_(True), 'function': lambda r: len, 'class': lambda r: Thing, 'range': lambda r: range(3),
    'iterator': lambda r: iter([1, 2]), 'enum': lambda r: Colour.RED, 'uuid': lambda r: uuid.UUID(int=5), 'ellipsis': lambda r: Ellipsis,
    'circular': lambda r: circular(), 'memoryview': lambda r: memoryview(b'abc'), 'mapping': lambda r: collections.UserDict(a=1),
    'tuplekey': lambda r: {('a', 'b'): 1}, 'byteskey': lambda r: {b'k': 1}, 'datekey': lambda r: {datetime.date(2020, 1, 2): 1},
    'objectkey': lambda r: {Thing(): 1}, 'setkey': lambda r: {frozenset([1]): 1, 'a': 2}}


def alike(a, b):
    """the same value, of the same type"""
    try:
        if isinstance(a, dict) and isinstance(b, dict):
            return list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(map(alike, a, b))
        if isinstance(a, float) and isinstance(b, float):
            return a == b and math.copysign(1, a) == math.copysign(1, b)
        return isinstance(a, type(b)) and a == b
    except Exception:
        return False


def nested(r, kinds, depth):
    """a value in which each of the kinds is, somewhere"""
    parts = [VALUES[k](r) for k in kinds]
    while len(parts) > 1 or depth > 0:
        n = r.randrange(1, 4)
        some, parts = parts[:n], parts[n:]
        v = list(some) if r.random() < 0.5 else dict(('k%d' % i, x) for i, x in enumerate(some))
        parts.append(v)
        depth -= 1
    return parts[0]


def do_odd(env, op):
    r = random.Random(op['seed'])
    data = b'0123456789' * 20
    for kinds, depth in op['vs']:
        value = nested(r, kinds, depth)
        for entry in ('bytes', 'file', 'replace'):
            path = env.fresh('.blp')
            held, before = 'ok', b''
            if entry == 'bytes':
                def run():
                    return bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(data, chunk_size=64, metadata=value))
            elif entry == 'file':
                src = env.fresh('.raw')
                env.put_at(src, data)

                def run():
                    bp.pack_file_to_file(src, path, chunk_size=64, metadata=value)
                    return bp.unpack_bytes_from_file(path)
            else:
                before = bp.pack_bytes_to_bytes(data, chunk_size=64, metadata={'old': ['metadata']},
                                                metadata_args=bp.MetadataArgs(max_meta_size=5000))
                env.put_at(path, before)

                def run():
                    with open(path, 'r+b') as fp:
                        append_mod._seek_to_metadata(fp)
                        append_mod._rewrite_metadata_fp(fp, value)
                    return bp.unpack_bytes_from_file(path)
            # refused by an error of the serializer's, and not by chance
            ok, got, err = ops.attempt(run)
            if entry == 'replace':
                with open(path, 'rb') as fp:
                    held = 'same' if fp.read() == before else 'changed'
            env.emit(ops.base('odd', ok=ok, err=err, entry=entry, kinds=list(kinds), none=value is None, held=held,
                              alike=ok and got[0] == data and alike(value, got[1])))


# settings that are mappings, changed by their owner in between
GOOD = {'typesize': [1, 4, 8, 255], 'clevel': [0, 1, 9], 'shuffle': [0, 1, 2, True], 'cname': ['lz4', 'zlib', 'blosclz'], 'other': [1, None, 'x']}
BAD = {'typesize': [0, 256, -1, 'x'], 'clevel': [10, -1, 'x'], 'shuffle': [3, -1, 'x'], 'cname': ['nope', '', 'LZ4']}


def do_reuse(env, op):
    r = random.Random(op['seed'])
    kinds = op['kinds']
    m = [k(typesize=8, clevel=7, shuffle=1, cname='lz4') for k in (({'dict': dict, 'ordered': collections.OrderedDict}[x] for x in kinds))]
    first = bp.pack_bytes_to_bytes(b'0123456789' * 20, chunk_size=64, bloscpack_args=bp.BloscpackArgs(max_app_chunks=9))
    out = []
    for s in op['steps']:
        o, one = m[s['o'] - 1], {'act': s['act'], 'o': s['o'], 'k': s['k'], 'v': s['v'], 'ok': True, 'held': True, 'own': True}
        if s['act'] == 'set':
            if s['v'] == 'absent':
                o.pop(s['k'], None)
            else:
                o[s['k']] = None if s['v'] == 'none' else r.choice((GOOD if s['v'] == 'good' else BAD)[s['k']])
        else:
            fp, more = io.BytesIO(first), io.BytesIO(b'abc' * r.choice([1, 5, 50]))
            was = list(o.items())
            one['ok'], _, _ = ops.attempt(lambda: append_mod.append_fp(fp, more, len(more.getvalue()), o))
            one['own'] = list(o.items()) == was
            one['held'] = fp.getvalue() == first
            if one['ok']:
                one['held'] = bp.unpack_bytes_from_bytes(fp.getvalue())[0] == b'0123456789' * 20 + more.getvalue()
        out.append(one)
    env.emit(ops.base('reuse', ok=all(x['ok'] for x in out), steps=out))


ops.OPS['odd'] = do_odd
ops.OPS['reuse'] = do_reuse
