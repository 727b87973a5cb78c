"""Encoding and decoding of the container header and the metadata header."""
import struct

import lib
import ops
from ops import attempt, base

from bloscpack import headers

BP = {'ver': 'format_version', 'offs': 'offsets', 'meta': 'metadata', 'csum': 'checksum',
      'ts': 'typesize', 'chunk': 'chunk_size', 'last': 'last_chunk', 'n': 'nchunks',
      'cap': 'max_app_chunks'}
META = {'magic': 'magic_format', 'opts': 'meta_options', 'csum': 'meta_checksum',
        'codec': 'meta_codec', 'level': 'meta_level', 'raw': 'meta_size', 'max': 'max_meta_size',
        'comp': 'meta_comp_size', 'user': 'user_codec'}
CLASSES = {'bp': (headers.BloscpackHeader, BP), 'meta': (headers.MetadataHeader, META)}

BADVALUES = {'str': '1', 'none': None, 'float': 1.0, 'huge': 2**63, 'neghuge': -2**63 - 1,
             'big': 2**64 + 1, 'list': [], 'bytes': b'1', 'text': u'JSON', 'unknown': 'adler33',
             'case': 'ADLER32', 'short': '0000000', 'long': '000000000', 'two': '00000002',
             'half': 0.5}


def to_code(k, name, v):
    if name in ('magic', 'user'):
        return bytes(v)
    if name == 'csum':
        return lib.CHECKSUMS[v]
    if name == 'codec':
        return lib.CODECS[v]
    if name == 'opts':
        return format(v, '08b')
    if isinstance(v, list):
        return struct.unpack('<q', bytes(v))[0]
    return v


def number(v):
    if isinstance(v, bool) or not isinstance(v, int):
        raise TypeError('not a number: %r' % (v,))
    return lib.i64(v)


def observe(k, h):
    """the fields of a header object"""
    out = {}
    for name, attr in CLASSES[k][1].items():
        v = getattr(h, attr)
        if name in ('magic', 'user'):
            v = list(v)
        elif name == 'csum':
            v = lib.CHECKSUMS.index(v)
        elif name == 'codec':
            v = lib.CODECS.index(v)
        elif name == 'opts':
            v = int(v, 2)
        elif name in ('offs', 'meta'):
            v = bool(v)
        else:
            v = number(v)
        out[name] = v
    return out


def item(x):
    k = x['k']
    cls, names = CLASSES[k]
    if x['t'] == 'enc':
        kw = {names[n]: to_code(k, n, v) for n, v in x['f'].items()}
        for n, kind in x.get('bad', {}).items():
            kw[names[n]] = BADVALUES[kind]
        out = {}

        def run():
            out['b'] = cls(**kw).encode()
        ok, _, err = attempt(run)
        r = {'t': 'enc', 'k': k, 'f': x['f'], 'bad': bool(x.get('bad')), 'ok': ok,
             'out': list(out['b']) if ok else [], 'back': {}}
        if ok:
            good, back, _ = attempt(lambda: observe(k, cls.decode(out['b'])))
            r['back'] = back if good else {}
        return r
    b = bytes(x['b'])
    ok, h, err = attempt(lambda: cls.decode(b))
    r = {'t': 'dec', 'k': k, 'b': list(b), 'ok': ok, 'f': {}, 'out': []}
    if ok:
        good, f, _ = attempt(lambda: observe(k, h))
        r['f'] = f if good else {}
        good, o, _ = attempt(lambda: list(h.encode()))
        r['out'] = o if good else []
    return r


def do_headers(env, op):
    env.emit(base('headers', xs=[item(x) for x in op['xs']]))


def do_sethdr(env, op):
    """g := f with the container header or the metadata header replaced; the
    new bytes are given, or made from the old ones by setting some of them"""
    f, g, k = op['f'], op.get('g', op['f']), op['k']
    b = env.bytes(f)
    at = 0 if k == 'bp' else 32
    if len(b) < at + 32 or (k == 'meta' and not b[5] & 2):
        return
    h = list(op['b']) if 'b' in op else list(b[at:at + 32])
    for i, v in op.get('set', []):
        h[i] = v
    b = b[:at] + bytes(h) + b[at + 32:]
    env.put(g, b)
    env.emit(base('sethdr', f=f, g=g, k=k, b=h, h=lib.sha(b)))


ops.OPS['headers'] = do_headers
ops.OPS['sethdr'] = do_sethdr
