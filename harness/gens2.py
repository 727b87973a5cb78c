"""Generators for headers, parameter domains, arrays, the command line and
what surrounds operations (sessions, levels, threads)."""
import struct

import lib
from gens import (CHECKSUMS, CNAMES, UNPACK, scenario)


# ------------------------------------------------------------------ C16

def chunked(xs, k):
    return [xs[i:i + k] for i in range(0, len(xs), k)]


EDGES = [0, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, 2**24, 2**31 - 18, 2**31 - 17, 2**31 - 16,
         2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**40, 2**62, 2**63 - 2, 2**63 - 1, -1, -2,
         -128, -2**31, -2**31 - 1, -2**63]


def bp_fields(g):
    r = g.rnd
    num = lambda pool: lib.i64(r.choice(pool + g.ints[:60] if r.random() < 0.3 else pool))
    cs = r.choice(EDGES[:14] + [r.randrange(2**31)])
    f = {'ver': num([0, 1, 2, 3, 3, 3, 4, 127, 128, 255, 256, -1]),
         'offs': r.random() < 0.5, 'meta': r.random() < 0.5, 'csum': r.randrange(9),
         'ts': num([0, 1, 2, 8, 127, 128, 254, 255, 255, 256, -1, 300]),
         'chunk': lib.i64(cs), 'last': lib.i64(r.choice([cs, cs - 1, cs // 2, 1, 0, -1, cs + 1])),
         'n': num(EDGES), 'cap': num(EDGES)}
    if r.random() < 0.5:
        n = r.choice([1, 2, 100, 2**31, 2**40, 2**62, 2**63 - 2])
        f['n'], f['cap'] = lib.i64(n), lib.i64(2**63 - 1 - n + r.choice([-1, 0, 0, 1]))
    return f


def meta_fields(g):
    r = g.rnd
    num = lambda pool: lib.i64(r.choice(pool))
    s = lambda: r.choice([[], list(b'JSON'), [0], [1, 0], [0, 0, 7], [255] * 8, [7] * 9, [0] * 8,
                          [r.randrange(256) for _ in range(r.randrange(9))]])
    return {'magic': s(), 'opts': r.choice([0, 0, 1, 128, 255, r.randrange(256)]),
            'csum': r.randrange(9), 'codec': r.randrange(2),
            'level': num([0, 1, 5, 9, 9, 10, -1, 255, 256]),
            'raw': num(EDGES), 'max': num(EDGES), 'comp': num(EDGES), 'user': s()}


BAD = {'bp': [(n, k) for n in ('ver', 'ts', 'chunk', 'last', 'n', 'cap')
              for k in ('str', 'none', 'float', 'huge', 'neghuge', 'big', 'list')] +
             [('csum', k) for k in ('unknown', 'case', 'none')],
       'meta': [(n, k) for n in ('level', 'raw', 'max', 'comp')
                for k in ('str', 'none', 'float', 'huge', 'neghuge', 'big', 'list')] +
               [('csum', k) for k in ('unknown', 'case', 'none')] +
               [('codec', k) for k in ('unknown', 'case', 'none')] +
               [('magic', k) for k in ('text', 'none', 'float')] +
               [('user', k) for k in ('text', 'none', 'float')] +
               [('opts', k) for k in ('short', 'long', 'two', 'none', 'bytes', 'float')]}
DEFAULT = {'bp': {'ver': lib.i64(3), 'offs': True, 'meta': False, 'csum': 1, 'ts': lib.i64(8),
                  'chunk': lib.i64(256), 'last': lib.i64(5), 'n': lib.i64(3), 'cap': lib.i64(30)},
           'meta': {'magic': list(b'JSON'), 'opts': 0, 'csum': 1, 'codec': 1, 'level': lib.i64(6),
                    'raw': lib.i64(90), 'max': lib.i64(900), 'comp': lib.i64(80), 'user': []}}


def random_bytes(g, k):
    """32 bytes that are close to a header"""
    r = g.rnd
    b = [r.randrange(256) if r.random() < 0.3 else r.choice([0, 1, 255, 128, 127]) for _ in range(32)]
    if k == 'bp':
        b[0:4] = list(b'blpk')
        b[5] = r.choice([0, 1, 2, 3, 3, r.randrange(256)])
        b[6] = r.choice(list(range(9)) * 2 + [9, 255])
        cs = r.choice([r.randrange(2**31), 1, 2**31 - 17, 2**31 - 16, 0, 2**32 - 1, r.randrange(2**32)])
        b[8:12] = struct.pack('<I', cs)
        b[12:16] = struct.pack('<I', r.choice([cs, min(cs, 1), min(2**32 - 1, cs + 1), r.randrange(cs + 1)]))
        if r.random() < 0.7:
            b[23] = b[31] = 0
            if r.random() < 0.5:
                b[31] = b[23] = 63
    else:
        b[9] = r.choice(list(range(9)) * 2 + [9, 255])
        b[10] = r.choice([0, 1, 0, 1, 2, 255])
        b[11] = r.choice(list(range(10)) + [10, 255])
    return b


def header_items(g):
    hs = sorted(g.histories.get('HeaderMC', []), key=str)
    xs = list(g.sample(hs, g.scale(9000, 10**6)))
    for k, pairs in BAD.items():
        for n, kind in pairs:
            xs.append({'t': 'enc', 'k': k, 'f': DEFAULT[k], 'bad': {n: kind}})
    for _ in range(g.scale(4000, 60000)):
        xs.append({'t': 'enc', 'k': 'bp', 'f': bp_fields(g)})
        xs.append({'t': 'enc', 'k': 'meta', 'f': meta_fields(g)})
        for k in ('bp', 'meta'):
            xs.append({'t': 'dec', 'k': k, 'b': random_bytes(g, k)})
    for v in range(256):        # every value of every small field
        for i in (4, 5, 6, 7):
            b = list(b'blpk') + [3, 1, 1, 8] + [0, 1, 0, 0, 9, 0, 0, 0] + [4] + [0] * 15
            b[i] = v
            xs.append({'t': 'dec', 'k': 'bp', 'b': b})
        for i in range(8, 12):
            b = list(b'JSON\0\0\0\0') + [0, 1, 1, 6] + [4, 0, 0, 0, 9, 0, 0, 0, 3] + [0] * 11
            b[i] = v
            xs.append({'t': 'dec', 'k': 'meta', 'b': b})
    for n in range(70):
        for k in ('bp', 'meta'):
            b = (random_bytes(g, k) * 3)[:n]
            xs.append({'t': 'dec', 'k': k, 'b': b})
            good = list(b'blpk') + [3, 1, 1, 8] + [0, 1, 0, 0, 9, 0, 0, 0] + [4] + [0] * 15
            if k == 'meta':
                good = list(b'JSON\0\0\0\0') + [0, 1, 1, 6] + [4, 0, 0, 0, 9, 0, 0, 0, 3] + [0] * 11
            xs.append({'t': 'dec', 'k': k, 'b': (good + [0] * 40)[:n]})
    g.rnd.shuffle(xs)
    return [scenario('hdr%d' % i, [{'op': 'headers', 'xs': c}]) for i, c in enumerate(chunked(xs, 400))]


def foreign(g):
    """containers with the header of something else: every reader refuses them"""
    out = []
    changes = [('bp', [[4, v]]) for v in (0, 1, 2, 4, 5, 127, 255)] + \
        [('bp', [[i, ord('x')]]) for i in range(4)] + \
        [('bp', [[5, v]]) for v in (4, 5, 8, 0x10, 0x21, 0x40, 0x81, 0xff)] + \
        [('bp', [[6, v]]) for v in (9, 10, 128, 255)] + \
        [('bp', [[11, 0x80]]), ('bp', [[11, 0x7f], [10, 0xff], [9, 0xff], [8, 0xff]]),
         ('bp', [[15, 0x7f]]), ('bp', [[23, 0x80]]), ('bp', [[31, 0x80]]), ('bp', [[31, 0xff]]),
         ('bp', [[23, 0x7f], [31, 0x7f]]), ('bp', [[8, 1], [9, 0], [10, 0], [11, 0]])] + \
        [('meta', [[9, v]]) for v in (9, 100, 255)] + [('meta', [[10, v]]) for v in (2, 255)] + \
        [('meta', [[11, v]]) for v in (10, 255)]
    for i, (k, ch) in enumerate(changes):
        for j in range(g.scale(1, 6)):
            op = g.pack(cs=g.cycle('vcs', [10, 100]), n=g.cycle('vn', [25, 100, 250]), offsets=True, cap=9,
                        meta=1 if k == 'meta' or i % 2 else 0)
            if 'ma' in op:
                op['ma']['max'] = {'mul': 3, 'add': 30}
            ops = [op, {'op': 'sethdr', 'f': 'A', 'g': 'B', 'k': k, 'set': ch}]
            ops += g.all_reads('B')
            for e in ('fp', 'path'):
                ops.append(dict(g.append(g.cycle('va', [0, 5, 50]), 'B'), entry=e))
            if 'meta' in op:
                ops.append({'op': 'rewrite', 'f': 'B', 'meta': 'other', 'kw': {}})
            out.append(scenario('foreign%d-%d' % (i, j), ops + g.reads('A')))
    return out


# ------------------------------------------------------------------ C17

DOM_ENTRIES = ['b2f', 'f2f', 'b2b', 'fp', 'memfp', 'dep_f2f', 'dep_b2f', 'mem', 'memmem', 'nd', 'ndf']


def domains(g):
    """parameters at the edges of their domains, by every entry point"""
    hs = [h for h in g.histories['DomainMC'] if h]
    ones = sorted((h for h in hs if len(h) == 1), key=str)
    twos = sorted((h for h in hs if len(h) == 2), key=str)
    ops = []

    def add(h, entry):
        n = g.cycle('dn', [100, 1, 5000, 33, 100, 100])
        op = {'op': 'dom', 'entry': entry, 'ps': h, 'data': g.data(n),
              'offs': True if 'cap' in h else g.cycle('do', [True, True, False])}
        if any(p.startswith('m') for p in h) or g.rnd.random() < 0.3:
            op['meta'] = g.cycle('dm', [{'a': 1}, [1, 2], 'x' * 50, 7])
        if 'cs' not in h and g.rnd.random() < 0.7:
            op['cs'] = g.cycle('dc', [10, 50, 1000, 7])
        ops.append(op)
        if g.rnd.random() < 0.05:
            ops.append(dict(op, data={'k': 'zero', 'n': 0}))
        if 'cap' in h and g.rnd.random() < 0.2:
            ops.append(dict(op, offs=False))
    for h in ones:
        for e in (DOM_ENTRIES if g.full else [g.cycle('de', DOM_ENTRIES) for _ in range(5)]):
            add(h, e)
    for h in g.sample(twos, g.scale(1800, 20000)):
        add(h, g.cycle('de', DOM_ENTRIES))
    g.rnd.shuffle(ops)
    return [scenario('dom%d' % i, c) for i, c in enumerate(chunked(ops, 60))]


def chunkings(g):
    """lengths and chunk sizes up to what 64 bits can count, and beyond"""
    M, r = 2**63 - 1, g.rnd
    sizes = [1, 2, 3, 255, 256, 1000, 2**16, 2**20, 2**20 + 1, 2**24, 2**30, 2**31 - 18, 2**31 - 17]
    sizes += [v for v in g.lits(1, 2**31 - 17)][:80]
    xs = []
    for cs in sizes:
        for n in [0, 1, cs - 1, cs, cs + 1, 2 * cs - 1, 2 * cs, 2 * cs + 1, 255 * cs, 256 * cs + 1,
                  2**31 * cs, 2**32 * cs - 1, 2**53 * cs + 1, (2**53 + 1) * cs, 2**62 * cs + cs // 2,
                  M * cs - cs, M * cs - 1, M * cs, M * cs + 1, M * cs + cs, (M + 5) * cs]:
            if 0 <= n < 2**95:
                xs.append([n, cs])
    for _ in range(g.scale(1500, 20000)):
        cs = r.choice(sizes + [r.randrange(1, 2**31 - 17), r.randrange(1, 2**10)])
        n = r.choice([r.randrange(2**r.randrange(1, 94)), cs * r.randrange(2**r.randrange(1, 63))])
        xs.append([n + r.choice([-1, 0, 0, 1]) if n else n, cs])
    for n in g.lits(1, 2**62):
        xs += [[n, r.choice(sizes)], [r.choice(sizes) * n, min(n, 2**31 - 17)]]
    r.shuffle(xs)
    return [scenario('chunking%d' % i, [{'op': 'chunking', 'xs': c}])
            for i, c in enumerate(chunked(xs, 300))]


def capacities(g):
    M, r = 2**63 - 1, g.rnd
    edge = [0, 1, 2, 10, 2**31 - 1, 2**31, 2**32, 2**62, M - 2, M - 1, M]
    xs = [[n, c, o, fn] for n in edge[1:] for c in edge for o in (True, False) for fn in (True, False)]
    for _ in range(g.scale(500, 5000)):
        n = r.randrange(1, 2**r.randrange(1, 64))
        c = r.choice([r.randrange(2**r.randrange(1, 64)), M - n, M - n + 1, M - n - 1])
        xs.append([min(n, M), min(max(0, c), M), r.random() < 0.9, r.random() < 0.5])
    r.shuffle(xs)
    return [scenario('capacity%d' % i, [{'op': 'capacity', 'xs': c}])
            for i, c in enumerate(chunked(xs, 300))]


# ------------------------------------------------------------------ C12, C13

PLAIN_DT = ['b1', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4be', 'i8', 'u8', 'i8be', 'f2', 'f4', 'f4be', 'f8',
            'f8be', 'g', 'c8', 'c16', 'c16be', 'G', 'S1', 'S3', 'S255', 'S17', 'U1', 'U5', 'U5be', 'U63',
            'V1', 'V7', 'V255', 'M', 'Mus', 'MD', 'M25', 'Mgen', 'm', 'mgen', 'm7', 'metadata']
REC_DT = ['rec', 'rec1', 'recS', 'recdef', 'nested', 'nested2', 'sub', 'sub1', 'subrec', 'titles', 'uni',
          'bool2', 'rec255', 'record']
PAD_DT = ['align', 'pad', 'padend', 'padfront', 'padnest', 'padtitle']
OBJ_DT = ['O', 'recO', 'nestO', 'subO']
ITEM = {'b1': 1, 'i1': 1, 'u1': 1, 'i2': 2, 'u2': 2, 'f2': 2, 'g': 16, 'c8': 8, 'c16': 16, 'c16be': 16,
        'G': 32, 'S1': 1, 'S3': 3, 'S255': 255, 'S17': 17, 'U1': 4, 'U5': 20, 'U5be': 20, 'U63': 252,
        'V1': 1, 'V7': 7, 'V255': 255, 'i4': 4, 'u4be': 4, 'f4': 4, 'f4be': 4, 'metadata': 4,
        'rec': 12, 'rec1': 1, 'recS': 30, 'recdef': 12, 'nested': 9, 'nested2': 6, 'sub': 21, 'sub1': 5,
        'subrec': 11, 'titles': 8, 'uni': 7, 'bool2': 2, 'rec255': 255, 'record': 7,
        'align': 24, 'pad': 16, 'padend': 8, 'padfront': 8, 'padnest': 28, 'padtitle': 9}
ND_PACK = ['file', 'bytes', 'dep_file', 'dep_str', 'fp', 'mem']
ND_UNPACK = ['file', 'bytes', 'dep_file', 'dep_str', 'fp']


def item_size(dt):
    if '#' in dt:
        return int(dt[5:]) if dt.startswith('many') else 6
    return ITEM.get(dt, int(dt[1:]) if dt[0] == 'S' and dt[1:].isdigit() else 8)


def nd_op(g, dt, sh, entry=None, **arr):
    """a pack of an array, with settings and a chunk size"""
    n = item_size(dt)
    for k in sh:
        n *= k
    item = item_size(dt)
    op = {'op': 'ndpack', 'f': 'A', 'entry': entry or g.cycle('npe', ND_PACK),
          'arr': dict({'dt': dt, 'sh': list(sh), 's': g.rnd.randrange(1000),
                       'k': g.cycle('kind', ['mix', 'rnd', 'zero', 'seq', 'text', 'ff'])}, **arr)}
    if op['entry'] in ('file', 'dep_file') and g.rnd.random() < 0.3:
        op['over'] = g.cycle('nover', [1, 100, 5000, 200000])
    w = g.cycle('ncs', ['item', 'few', 'all', 'above', 'default', 'few', 'odd', 'below', 'half'])
    if w == 'item':
        op['cs'] = item
    elif w == 'few':
        op['cs'] = item * g.cycle('nfew', [2, 3, 5, 16, 64])
    elif w == 'all' and n:
        op['cs'] = n
    elif w == 'above':
        op['cs'] = n + g.cycle('nab', [1, item, 1000])
    elif w == 'odd':                # may have to be refused
        op['cs'] = max(1, item * 3 + g.cycle('nodd', [1, -1, 2, 0]))
    elif w == 'half' and n >= 2:
        op['cs'] = max(item, n // 2 // item * item)
    elif w == 'below' and n > 1:
        op['cs'] = n - 1
    cs = op.get('cs')
    if cs and n // cs > 400:
        op['cs'] = -(-n // 400 // item) * item or item
    g.settings(op, meta=0)
    if g.rnd.random() < 0.4:
        ma = g.ma()
        if ma is not None:
            if 'max' in ma:
                ma['max'] = {'mul': g.cycle('nmm', [1, 2, 3]), 'add': g.cycle('nma', [0, 5, 40])}
            op['ma'] = ma
    return op


def nd_reads(g, op, k=2):
    if op['entry'] == 'mem':
        return [{'op': 'ndunpack', 'f': 'A', 'entry': 'mem'}]
    return [{'op': 'ndunpack', 'f': 'A', 'entry': g.cycle('nue', ND_UNPACK)} for _ in range(k)]


def arrays(g):
    """every layout of the model with some type, every type with some layout"""
    out = []
    hs = g.histories.get('NdarrayMC', [])
    by = {}
    for h in hs:        # by the shape that results, the order, and the last operations
        by.setdefault((json_key(h['sh']), h['order'], h['ops'][-1]['v'], len(h['ops'])), []).append(h)
    keys = sorted(by)
    g.rnd.shuffle(keys)
    types = PLAIN_DT + REC_DT + PAD_DT
    picked = keys[:g.scale(420, 10**6)]
    for i, k in enumerate(picked):
        h = g.rnd.choice(by[k])
        dt = g.cycle('ndt', types)
        op = nd_op(g, dt, h['sh'], order=h['base']['order'],
                   views=h['ops'], mem=g.cycle('nmem', ['own', 'readonly', 'unaligned', 'own', 'memmap']),
                   sub=g.cycle('nsub', ['', '', 'matrix', '', 'other', 'recarray', '']))
        op['arr']['sh'] = h['base']['sh']
        out.append(scenario('view%d' % i, [op] + nd_reads(g, op)))
    return out


def json_key(x):
    return repr(x)


def array_types(g):
    out = []
    shapes = [[], [0], [1], [7], [100], [3, 4], [2, 3, 4], [1000], [0, 5], [5, 1], [1, 1, 1]]
    for dt in PLAIN_DT + REC_DT + PAD_DT:
        for j in range(g.scale(4, 20)):
            sh = g.cycle('nsh' + ('p' if dt in PAD_DT else ''), shapes)
            op = nd_op(g, dt, sh, order=g.cycle('nord', ['C', 'F']),
                       sub=g.cycle('nsub', ['', '', 'matrix', '', 'other', 'recarray', '']))
            out.append(scenario('type-%s-%d' % (dt, j), [op] + nd_reads(g, op)))
    # views through a field
    for dt in ('rec', 'recS', 'nested', 'sub', 'uni', 'align', 'padnest'):
        for i in (1, 2):
            op = nd_op(g, dt, g.cycle('nsf', [[5], [3, 4], []]), order=g.cycle('nord', ['C', 'F']),
                       views=[{'v': 'field', 'i': i}])
            op.pop('cs', None)
            out.append(scenario('field-%s-%d' % (dt, i), [op] + nd_reads(g, op)))
    # every item size
    for n in list(range(1, 256)) if g.full else sorted(set(
            [1, 2, 3, 5, 7, 9, 11, 13, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 200, 251, 254, 255] +
            [v for v in g.lits(1, 255)][:40])):
        op = nd_op(g, 'S%d' % n, [g.cycle('nis', [1, 10, 33])])
        out.append(scenario('item%d' % n, [op] + nd_reads(g, op, 1)))
    for dt in OBJ_DT:
        for e in ND_PACK:
            for sh in ([], [0], [3], [2, 2]):
                if not g.full and g.rnd.random() < 0.4:
                    continue
                op = nd_op(g, dt, sh, entry=e)
                op.pop('cs', None)
                out.append(scenario('object-%s-%s-%d' % (dt, e, len(sh)), [op]))
    return out


def array_sizes(g):
    """many chunks, chunks at their limits, big arrays"""
    out = []
    for i in range(g.scale(60, 600)):
        dt = g.cycle('nst', ['i1', 'i2', 'f8', 'c16', 'S17', 'rec', 'U5', 'V7', 'align'])
        item = item_size(dt)
        k = g.cycle('nsk', [1, 2, 3, 10, 100, 257])
        per = g.cycle('nsp', [1, 2, 5, 64, 1000])
        n = max(1, k * per + g.cycle('nsd', [-1, 0, 1]))
        op = nd_op(g, dt, [n])
        op['cs'] = per * item
        out.append(scenario('nsize%d' % i, [op] + nd_reads(g, op)))
    for i, (dt, sh, cs) in enumerate([('f8', [200000], None), ('i4', [512, 513], '1M'), ('i2', [2**20 + 3], '1M'),
                                      ('c16', [300, 300], 2**16), ('U63', [5000], 252 * 1000)]):
        op = nd_op(g, dt, sh, order=g.cycle('nord', ['C', 'F']))
        op.pop('cs', None)
        if cs:
            op['cs'] = cs
        out.append(scenario('nbig%d' % i, [op] + nd_reads(g, op)))
    return out


def array_meta(dt, sh, order='C', **kw):
    m = {'dtype': dt, 'shape': sh, 'order': order, 'container': 'numpy'}
    m.update(kw)
    return {k: v for k, v in m.items() if v != 'DROP'}


BAD_DESCRIPTIONS = [
    {}, [], 'numpy', 5, 0, True, False, '', ['numpy'], {'container': 'numpy'},
    {'container': 'numpy', 'dtype': "'<f8'"}, {'container': 'numpy', 'dtype': "'<f8'", 'shape': [3]},
    array_meta("'<f8'", [3], container='DROP'), array_meta("'<f8'", [3], container='other'),
    array_meta("'<f8'", [3], container='Numpy'), array_meta("'<f8'", [3], container=None),
    array_meta("'<f8'", [3], dtype='DROP'), array_meta("'<f8'", [3], shape='DROP'),
    array_meta("'<f8'", [3], order='DROP'), array_meta("'nope'", [3]), array_meta('nope', [3]),
    array_meta("''", [3]), array_meta("'", [3]), array_meta("[('a',", [3]), array_meta("[]", [3], order='X'),
    array_meta("'<f8'", [-1]), array_meta("'<f8'", [-3, -1]), array_meta("'<f8'", 'abc'), array_meta("'<f8'", [1.5]),
    array_meta("'<f8'", ['3']), array_meta("'<f8'", [[3]]), array_meta("'<f8'", {'a': 1}),
    array_meta("'<f8'", [3], 'X'), array_meta("'<f8'", [3], 5), array_meta("'<f8'", [3], 'K'),
    array_meta("'<f8'", [3], ['C']), array_meta("'|O'", [3]), array_meta("'O'", [2]),
    array_meta("[('a', '|O')]", [2]), array_meta("[('a', [('b', '|O')]), ('c', '<i4')]", [1]),
    array_meta("[('a', '|O', (2,))]", [2]), array_meta("__import__('os')", [2]), array_meta("{'a': 1}", [2]),
    array_meta("[('a', 'nope')]", [2]), array_meta("[('a', '<f8'), ('a', '<f8')]", [1]), array_meta(['zz'], [3]),
    array_meta({'x': 1}, [3]), array_meta(7.5, [3]), array_meta("lambda: 1", [3]), array_meta('1+', [2]),
    array_meta("[('a', '<i4', (-1,))]", [2]), array_meta([['a', 'nope']], [2]), array_meta([['a', '|O']], [2])]


def not_arrays(g):
    """containers with other metadata or none, by every entry point"""
    out = []
    for i, m in enumerate(BAD_DESCRIPTIONS + ['none'] * 6):
        for j in range(g.scale(1, 4)):
            op = g.pack(cs=g.cycle('bcs', [8, 24, 100]), n=g.cycle('bn', [24, 48, 0, 8, 16]),
                        entry=g.cycle('bpe', ['b2b', 'mem', 'b2f', 'fp']), meta=0)
            if m != 'none':
                op['meta'] = m
            rd = ['mem'] if op['entry'] == 'mem' else ND_UNPACK
            out.append(scenario('notarray%d-%d' % (i, j),
                                [op] + [{'op': 'ndunpack', 'f': 'A', 'entry': e} for e in rd]))
    return out


DESCRIPTIONS = [     # metadata's dtype, shape, order, and the type it names; old forms too
    ("'<f8'", [3], 'C', 'f8'), ("'<f8'", [2, 3], 'F', 'f8'), ("'<f8'", [2, 3], 'C', 'f8'), ('<f8', [4], 'C', 'f8'),
    ('f8', [4], 'C', 'f8'), ("'|u1'", [10], 'C', 'u1'), ("'|S3'", [5], 'C', 'S3'), ("'<i2'", [], 'C', 'i2'),
    ("'<i2'", [0], 'C', 'i2'), ("'<i2'", [3, 0], 'C', 'i2'), ("[('a', '<i4'), ('b', '>f8')]", [3], 'C', 'rec'),
    ([['a', '<i4'], ['b', '>f8']], [3], 'C', 'rec'), ([['p', [['x', '<f4'], ['y', '<f4']]], ['q', 'u1']], [2], 'C', 'nested'),
    ("[('v', '<f4', (3,)), ('m', '<i2', (2, 2)), ('z', '|u1')]", [2], 'C', 'sub'),
    ("'<U5'", [4], 'C', 'U5'), ("'<M8[ns]'", [3], 'C', 'M'), ("'|V7'", [3], 'C', 'V7')]


def described_arrays(g):
    """containers packed as bytes that describe an array: exactly the data, or
    shorter, or longer, in one chunk or many"""
    out = []
    for i, (dt, sh, order, name) in enumerate(DESCRIPTIONS):
        item = item_size(name)
        need = item
        for k in sh:
            need *= k
        for d in [0, -1, 1, -item, item, 'half', 'double', 'empty', 'long']:
            n = need // 2 if d == 'half' else 2 * need if d == 'double' else 0 if d == 'empty' \
                else need + 5000 if d == 'long' else need + d
            if n < 0:
                continue
            for j in range(g.scale(1, 3)):
                op = g.pack(cs=max(1 if n < 3000 else 7, g.cycle('dcs2', [1, item, 2 * item, 7, 1000, max(1, need), max(1, n)])), n=n,
                            entry=g.cycle('bpe', ['b2b', 'mem', 'b2f', 'fp']), meta=0)
                op['meta'] = array_meta(dt, sh, order, extra=g.cycle('dex', ['DROP', 1]))
                op['as'] = {'dt': name, 'sh': sh, 'order': order}
                es = ['mem'] if op['entry'] == 'mem' else ND_UNPACK
                out.append(scenario('described%d-%s-%d' % (i, d, j),
                                    [op] + [{'op': 'ndunpack', 'f': 'A', 'entry': g.cycle('nue', es) if es != ['mem'] else 'mem',
                                             'need': need} for _ in range(2)]))
    return out


def array_histories(g):
    """arrays whose container is appended to, or gets other metadata, or is
    damaged or truncated"""
    out = []
    for i in range(g.scale(80, 800)):
        dt = g.cycle('hdt', ['f8', 'i4', 'S3', 'rec', 'u1', 'c16'])
        sh = g.cycle('hsh', [[10], [3, 4], [100], [1]])
        item, need = item_size(dt), item_size(dt)
        for k in sh:
            need *= k
        op = nd_op(g, dt, sh, entry=g.cycle('hpe', ['file', 'bytes', 'fp']))
        op['cs'] = item * g.cycle('hcs', [1, 3, 1000])
        op['bp'] = {'offsets': True, 'max_app': 50, 'checksum': g.cycle('hck', CHECKSUMS)}
        op['ma'] = {'max': {'mul': 3, 'add': 50}, 'meta_checksum': g.cycle('hmck', CHECKSUMS)}
        rd = lambda f: [{'op': 'ndunpack', 'f': f, 'entry': g.cycle('nue', ND_UNPACK), 'need': need}]
        w = g.cycle('hww', ['append', 'append0', 'rewrite', 'same', 'damage', 'trunc', 'foreign'])
        ops = [op] + rd('A')
        if w == 'append':
            ops += [g.append(g.cycle('hap2', [1, item, need, 2 * item + 1]))] + rd('A')
        elif w == 'append0':
            ops += [g.append(0)] + rd('A')
        elif w == 'rewrite':
            ops += [{'op': 'rewrite', 'f': 'A', 'kw': {}, 'meta': g.cycle('hrm', [
                {'a': 1}, [], array_meta("'<f8'", [1], container='x')])}] + rd('A')
            ops += [g.append(5)] + rd('A')
        elif w == 'same':       # another array of another size
            ops += [{'op': 'rewrite', 'f': 'A', 'kw': {}, 'meta': array_meta("'|u1'", [need + 1]),
                     'as': {'dt': 'u1', 'sh': [need + 1], 'order': 'C'}},
                    {'op': 'ndunpack', 'f': 'A', 'entry': g.cycle('nue', ND_UNPACK), 'need': need + 1},
                    dict(g.append(4)), {'op': 'ndunpack', 'f': 'A', 'entry': g.cycle('nue', ND_UNPACK), 'need': need + 1}]
        elif w == 'damage':
            for _ in range(6):
                ops += [{'op': 'damage', 'f': 'A', 'g': 'B', 'frac': g.rnd.random(), 'xor': g.cycle('hx', [1, 0x80, 0xff])}] + \
                    [{'op': 'ndunpack', 'f': 'B', 'entry': g.cycle('nue', ND_UNPACK)}]
        elif w == 'trunc':
            for _ in range(6):
                ops += [{'op': 'trunc', 'f': 'A', 'g': 'B', 'frac': g.rnd.random()}] + \
                    [{'op': 'ndunpack', 'f': 'B', 'entry': g.cycle('nue', ND_UNPACK)}]
        else:
            ops += [{'op': 'sethdr', 'f': 'A', 'g': 'B', 'k': 'bp', 'set': [[4, g.cycle('hfv', [0, 2, 4, 255])]]}] + rd('B')
        out.append(scenario('ndhist%d' % i, ops))
    return out
