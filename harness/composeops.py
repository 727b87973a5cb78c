"""Containers written by somebody else: put together here from the documented
format, with blosc, zlib, hashlib and json only."""
import json
import struct
import zlib

import blosc

import lib
import ops


def serialize(v, style):
    """one of the ways to write a value as JSON"""
    if style == 'spaces':
        t = json.dumps(v)
    elif style == 'indent':
        t = '\n' + json.dumps(v, indent=3) + '\r\n\t '
    elif style == 'unicode':
        t = json.dumps(v, ensure_ascii=False)
    elif style == 'sorted':
        t = json.dumps(v, sort_keys=True, separators=(',', ':'))
    elif style == 'escaped':
        t = json.dumps(v, separators=(',', ':')).replace('a', '\\u0061') if '"a' in json.dumps(v) else json.dumps(v)
        try:
            if json.loads(t) != v:
                t = json.dumps(v)
        except ValueError:
            t = json.dumps(v)
    else:
        t = json.dumps(v, separators=(',', ':'))
    return t.encode('utf8', 'surrogatepass')


def meta_section(v, m):
    """metadata header, data, slack, digest"""
    raw = serialize(v, m.get('style', 'compact'))
    stored = raw
    if m['codec']:
        c = zlib.compressobj(m['level'], zlib.DEFLATED, m.get('wbits', 15), m.get('mem', 8), m.get('strategy', 0))
        stored = c.compress(raw) + (c.flush(zlib.Z_FULL_FLUSH) if m.get('flush') else b'') + c.flush()
    junk = bytes.fromhex(m.get('junk', ''))
    slack = (junk * (m['slack'] // len(junk) + 1))[:m['slack']] if junk else bytes(m['slack'])
    h = (b'JSON' + bytes(4) + bytes([0, m['csum'], m['codec'], m['level'] if m['codec'] else 0]) +
         struct.pack('<III', len(raw), len(stored) + m['slack'], len(stored)) +
         bytes.fromhex(m.get('user', '')).ljust(8, b'\0'))
    return h + stored + slack + lib.digest(m['csum'], stored)


def compressed(b, z):
    blosc.set_blocksize(z.get('block', 0))
    try:
        return blosc.compress(b, typesize=z['typesize'], clevel=z['clevel'], shuffle=int(z['shuffle']), cname=z['cname'])
    finally:
        blosc.set_blocksize(0)


def compose(op):
    """-> the container, and its content"""
    data = lib.gen_data(op['data'])
    at, parts = 0, []
    for k in op['sizes']:
        parts.append(data[at:at + k])
        at += k
    head = meta_section(op['meta'], op['m']) if 'meta' in op else b''
    body, pos = [], []
    n, offs = len(parts), op['offs']
    start = 32 + len(head) + (8 * (n + op['cap']) if offs != 'none' else 0)
    for i, part in enumerate(parts):
        c = compressed(part, op['z'][i % len(op['z'])])
        pos.append(start + sum(map(len, body)))
        body.append(c + lib.digest(op['csum'], c))
    table = b''
    if offs != 'none':
        table = struct.pack('<%dq' % (n + op['cap']), *((pos if offs == 'known' else [-1] * n) + [-1] * op['cap']))
    hdr = struct.pack('<4sBBBBiiqq', b'blpk', 3, (offs != 'none') | ('meta' in op) << 1, op['csum'], op['ts'],
                      op['chunk'], op['last'], n if op.get('counted', True) else -1, op['cap'])
    return hdr + head + table + b''.join(body), data[:at]


def do_compose(env, op):
    b, data = compose(op)
    f = op['f']
    env.put(f, b)
    e = ops.base('compose', f=f, ok=True, data=lib.fp(data), post=lib.project(b),
                 val=lib.short(lib.canon(op['meta'])) if 'meta' in op else '',
                 nd=ops.described(op, data))
    e['oh'] = e['post']['h']
    env.emit(e)


ops.OPS['compose'] = do_compose
