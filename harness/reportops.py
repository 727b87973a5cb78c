"""What operations say about sizes, ratios and numbers when they are verbose."""
import os
import re

import lib
import ops
from ops import base, log

from bloscpack import pretty

UNITS = 'BKMGT'
SIZE = r'(\d+(?:\.\d+)?)([BKMGT])(?: \((\d+)B\))?'
NONE = {'v': -1, 'u': 'B', 'n': -1}
NUM = {'sign': 1, 'i': 0, 'f': 0}


def size(d, u, n):
    whole, _, frac = d.partition('.')
    if len(frac) > 2 or len(whole) > 6 or n is not None and int(n) > lib.MAXINT:
        return {'v': -2, 'u': u, 'n': -2}
    return {'v': int(whole) * 100 + int((frac + '00')[:2]), 'u': u, 'n': -1 if n is None else int(n)}


def number(s):
    sign, s = (-1, s[1:]) if s.startswith('-') else (1, s)
    whole, frac = s.split('.')
    return {'sign': sign, 'i': min(int(whole), lib.MAXINT), 'f': int(frac)}


def line(m, n=0, a=NONE, b=NONE, r=NUM, s=''):
    return {'m': m, 'n': min(n, lib.MAXINT), 'a': a, 'b': b, 'r': r, 's': s}


PATTERNS = [
    (r'((?:input|output) (?:file|bytes) size|orig file size (?:before|after) append|new file size|chunk_size'
     r'|last_chunk_size|metadata section occupies a total of):? ' + SIZE, lambda g: line(g[0], a=size(*g[1:4]))),
    (r'(compression ratio|decompression ratio|Approximate compression ratio of appended data): (-?\d+\.\d{6})',
     lambda g: line(g[0].replace('Approximate compression ratio of appended data', 'appended ratio'), r=number(g[1]))),
    (r'nchunks: (\d+)', lambda g: line('nchunks', n=int(g[0]))),
    (r'max_app_chunks was set to: (\d+)', lambda g: line('capacity', n=int(g[0]))),
    (r"Input was smaller than the given 'chunk_size': " + SIZE + ' using: ' + SIZE,
     lambda g: line('smaller', a=size(*g[0:3]), b=size(*g[3:6]))),
    (r"Input was length zero, ignoring 'chunk_size'", lambda g: line('empty')),
    (r'chunk handled, in: ' + SIZE + ' out: ' + SIZE, lambda g: line('handled', a=size(*g[0:3]), b=size(*g[3:6]))),
    (r"(?:Handle|decompressing) chunk '(\d+)' ?(\(last\))? ?", lambda g: line('chunk', n=int(g[0]), s=g[1] or '')),
    (r'metadata has (\d+) preallocated empty bytes', lambda g: line('slack', n=int(g[0]))),
    (r"read (compressed|uncompressed) metadata of size: '(\d+)'", lambda g: line('metadata', n=int(g[1]), s=g[0])),
    (r'using (\d+) (threads?)', lambda g: line('threads', n=int(g[0]), s=g[1])),
    (r"((?:input|output|original|new) file) is: '(.*)'", lambda g: line(g[0], s=g[1])),
    (r"overwriting existing file: '(.*)'", lambda g: line('overwriting', s=g[0])),
]
PATTERNS = [(re.compile('^(?:' + p + ')$'), f) for p, f in PATTERNS]


def parse(lines):
    out = []
    for x in lines:
        t = x.split(': ', 1)[1] if ': ' in x else x
        for p, f in PATTERNS:
            m = p.match(t)
            if m:
                out.append(f(m.groups()))
                break
    return out


def length(p):
    return os.path.getsize(p) if p and os.path.exists(p) else -1


def do_report(env, op):
    """an operation, at a level, and what it says"""
    o = dict(op['do'])
    kind = o['op']
    lv = {'verbose': log.VERBOSE, 'debug': log.DEBUG}[op['level']]
    names = {'in': '', 'out': '', 'orig': '', 'new': ''}
    if kind == 'cmd':
        o['level'] = op['level']
        here = lambda x: os.path.join(env.dir, x)
        c = {'c': 'compress', 'd': 'decompress', 'a': 'append'}.get(o['cmd'], o['cmd'])
        if c == 'append':
            names.update(orig=o['in'], new=o['out'])
            box, plain = here(o['in']), here(o['out'])
        else:
            names.update({'in': o['in'], 'out': o['out'] or (o['in'] + '.blp' if c == 'compress' else o['in'][:-4])})
            box, plain = (here(names['out']), here(o['in'])) if c == 'compress' else (here(o['in']), here(names['out']))
        kind = {'compress': 'pack', 'decompress': 'unpack'}.get(c, c)
    else:
        box, plain = env.path(o['f']), None
    before, old = length(box), lib.project(open(box, 'rb').read() if os.path.exists(box) else b'')
    there = kind != 'append' and os.path.exists(plain if kind == 'unpack' else box) if plain else False
    given = length(plain) if kind in ('append', 'pack') and plain else -1
    got, real = [], env.emit
    env.emit = lambda e: (got.append(e), real(e))
    was, ops.SAID = log.LEVEL, []
    log.LEVEL = lv if o['op'] != 'cmd' else was
    try:
        ops.OPS[o['op']](env, o)
        said = ops.SAID
    finally:
        log.LEVEL, ops.SAID, env.emit = was, None, real
    if not got:
        return
    e = got[-1]
    if plain is None:
        given = e['nbytes'] if 'nbytes' in e else e['data'][0] if 'data' in e else -1
    elif kind == 'unpack':
        given = length(plain)
    b = b''
    if os.path.exists(box):
        with open(box, 'rb') as fp:
            b = fp.read()
    req = -1
    if o['op'] in ('pack', 'ndpack'):
        req = e['req']['cs'] if e['req']['csr']['den'] == 0 else -1
    env.emit(base('report', ok=e['ok'], kind=kind, entry=o.get('entry', 'cmd'), debug=op['level'] == 'debug', plain=given,
                  before=before, after=len(b), old=old, post=lib.project(b), req=req, over=there,
                  nt=int.from_bytes(bytes(o['opts']['nt']['n']), 'little') if o.get('opts', {}).get('nt', {}).get('t') == 'int' else -1,
                  names=names, lines=parse(said)))


def do_sizes(env, op):
    """the texts for sizes"""
    xs = []
    for n in op['ns']:
        def show():
            return pretty.pretty_size(n), pretty.double_pretty_size(n)
        ok, r, _ = ops.attempt(show)
        p = [re.match('^' + SIZE + '$', x) for x in r] if ok else [None, None]
        a, b = [size(*m.groups()) if m else NONE for m in p]
        back, v, _ = ops.attempt(lambda: pretty.reverse_pretty(r[0]))
        xs.append({'n': n, 'a': a, 'b': b, 'back': v if back and type(v) is int and abs(v) <= lib.MAXINT else -1})
    env.emit(base('sizes', ok=True, xs=xs))


ops.OPS['report'] = do_report
ops.OPS['sizes'] = do_sizes
