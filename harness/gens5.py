"""Magnitudes: every quantity takes round numbers, powers of two, numbers that
the sources mention, and above all those that they did not mention before."""
import json

import gens2 as g2
import gens3 as g3
from gens import (APPEND, CHECKSUMS, METAS, PACK_FILE, PACK_MEM, SECTIONS, UNPACK, UNPACK_MEM, scenario)

ROUND = sorted({2**k + d for k in range(2, 18) for d in (-1, 0, 1)} |
               {m * 10**k for k in range(1, 6) for m in (1, 2, 3, 5)} |
               {7, 11, 12, 24, 36, 48, 60, 72, 96, 120, 144, 365, 720, 999, 1001, 1500, 44100})


def values(g):
    """-> (numbers that are new, with their surroundings; the others)"""
    new = set()
    for v in g.newints[:14]:
        for x in (v - 1, v, v + 1, 2 * v, v // 8, v // 8 + 1):
            new.add(x)
        if v <= 22:
            new |= {1 << v, (1 << v) - 1, (1 << v) + 1}
    return sorted(x for x in new if x >= 1), sorted(set(ROUND + g.lits(1, 200000)))


def text(n, g):
    """a string of n characters, more or less compressible"""
    k = g.cycle('mgt', ['q', 'r', 'w'])
    if k == 'q':
        return 'q' * n
    if k == 'r':
        return ''.join(g.rnd.choice('abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(n))
    return ('lorem ipsum dolor %d ' % n * (n // 15 + 1))[:n]


def file_pack(g, **kw):
    op = g.pack(**kw)
    if 'ma' in op and kw.get('meta'):
        op['ma']['max'] = {'mul': 3, 'add': 30}
    return op


def q_chunk(g, v):
    n = min(max(2 * v + v // 2, v + 1), 4000000)
    if v > 3000000:
        n = min(v + 7, 9000000)
    op = g.pack(cs=v, n=n)
    if n > 500000:
        op['data']['k'] = 'seq'
    return [op] + g.reads(k=2)


def q_total(g, v):
    cs = g.cycle('mgc', [1, 2, 3, 5, 0.5])
    cs = max(1, int(v / cs), v // 3000)
    op = g.pack(cs=cs, n=min(v, 9000000))
    if v > 500000:
        op['data']['k'] = 'seq'
    return [op] + g.reads(k=2)


def q_nchunks(g, v):
    if v > 3990:
        return None
    cs = g.cycle('mgn', [1, 2, 16, 5])
    op = g.pack(cs=cs, n=cs * v - g.cycle('mgl', [0, 0, cs // 2]), cap=g.cycle('mgcap', [0, 3, 1]))
    return [op] + g.reads(k=2)


def q_last(g, v):
    if v > 1000000:
        return None
    return [g.pack(cs=v + g.cycle('mgq', [7, 1, 100]), n=2 * v + v + 14)] + g.reads(k=2)


def q_typesize(g, v):
    if v > 255:
        return None
    op = g.pack(cs=g.cycle('mgts', [1000, v * 10, v * 7 + 1]), n=g.cycle('mgtn', [5000, 40 * v, 100 * v + 3]))
    op['bl'] = dict(op.get('bl', {}), typesize=v)
    return [op] + g.reads(k=1)


def q_capacity(g, v):
    if v > 200000:
        return None
    cs = g.cycle('mgk', [10, 64, 100])
    op = file_pack(g, cs=cs, n=3 * cs + 1, offsets=True, cap={'mul': 0, 'add': v}, meta=0.4)
    return [op] + g.reads() + [g.append(cs), g.append(2 * cs + 5)] + g.reads(k=2)


def q_slots(g, v):
    """used and reserved slots together"""
    if not 4 <= v <= 100000:
        return None
    k = min(g.cycle('mgsl', [3, 1, v // 2, v - 1]), 3000)
    op = file_pack(g, cs=8, n=8 * k, offsets=True, cap={'mul': 0, 'add': v - k}, meta=0.4)
    return [op, g.append(8 * min(v - k, 900))] + g.reads() + [g.append(9)] + g.reads()


def q_metalen(g, v):
    if v > 2000000 or v < 2:
        return None
    op = g.pack(cs=100, n=g.cycle('mgml', [0, 150]), meta=0)
    op['meta'] = text(v - 2, g)
    op['ma'] = {'meta_codec': g.cycle('mgmc', ['None', 'zlib']), 'meta_checksum': g.cycle('mgms', CHECKSUMS),
                'max': g.cycle('mgmm', [{'mul': 1, 'add': 0}, {'mul': 2, 'add': 1}, {'mul': 1, 'add': 1}]),
                'meta_level': g.cycle('mgmz', list(range(10)))}
    ops = [op] + g.reads(k=2)
    if g.rnd.random() < 0.4:
        ops += [{'op': 'rewrite', 'f': 'A', 'meta': text(max(1, v // 2), g), 'kw': {}}] + g.reads()
    return ops


def q_metamax(g, v):
    if v > 2000000 or v < 2:
        return None
    op = g.pack(cs=100, n=g.cycle('mgml', [0, 150]), meta=0, offsets=True, cap=5)
    op['meta'] = text(g.cycle('mgx', [max(0, v - 2), v // 2, min(v, 3)]), g)[:max(0, v - 2)]
    op['ma'] = {'meta_codec': g.cycle('mgmc', ['None', 'zlib']), 'meta_checksum': g.cycle('mgms', CHECKSUMS),
                'max': {'mul': 0, 'add': v + g.cycle('mgx2', [0, 15])}}
    other = text(max(1, min(v, 30000) - g.cycle('mgx3', [2, 3, 1, 20])), g)
    return [op] + g.reads(k=2) + [{'op': 'rewrite', 'f': 'A', 'meta': other, 'kw': {'codec': g.cycle('mgx4', ['None', 'zlib', None])}}] \
        + g.reads() + [g.append(70)] + g.reads()


def q_rewrite(g, v):
    """metadata replaced by some of this length"""
    if v > 300000 or v < 3:
        return None
    op = g.pack(cs=100, n=120, meta=0, offsets=True, cap=5)
    op['meta'] = g.cycle('mgr', [{'a': 1}, 'x', [], 'y' * v])
    op['ma'] = {'meta_codec': g.cycle('mgmc', ['None', 'zlib']), 'meta_checksum': g.cycle('mgms', CHECKSUMS),
                'max': {'mul': 1, 'add': v + g.cycle('mgra', [0, 40, 500])}}
    ops = [op] + g.reads()
    for m in (text(v - 2, g), 'z', {'k': text(max(0, v - 9), g)}):
        kw = g.cycle('mgrk', [{}, {'codec': 'None'}, {'codec': None}, {'level': 9}, {'codec': 'None'}])
        ops += [{'op': 'rewrite', 'f': 'A', 'meta': m, 'kw': kw}] + g.reads()
    return ops


def q_keys(g, v):
    """metadata with so many members, elements, levels"""
    if v > 20000:
        return None
    op = g.pack(cs=100, n=g.cycle('mgml', [0, 150]), meta=0)
    k = g.cycle('mgkk', ['dict', 'list', 'deep', 'int', 'neg'])
    deep = []
    for _ in range(min(v, 60)):
        deep = [deep]
    op['meta'] = {'dict': {'k%d' % i: i for i in range(v)}, 'list': list(range(v)), 'deep': deep, 'int': v, 'neg': {'v': -v}}[k]
    return [op] + g.reads(k=2)


def q_piece(g, v):
    if v > 4000000:
        return None
    cs = max(1, v // g.cycle('mgp', [1, 2, 3, 10]), v // 400)
    op = file_pack(g, cs=cs, n=max(1, g.cycle('mgpn', [cs, cs // 2, 2 * cs + 1])), offsets=True, cap={'mul': 0, 'add': 450}, meta=0.3)
    return [op, g.append(v)] + g.reads(k=2) + [g.append(g.cycle('mgpk', [1, cs, v]))] + g.reads()


def q_newchunks(g, v):
    if v > 3500:
        return None
    cs = g.cycle('mgnc', [1, 2, 16])
    op = file_pack(g, cs=cs, n=cs * 2, offsets=True, cap={'mul': 0, 'add': v + g.cycle('mgnx', [0, 1, 5])}, meta=0.3)
    return [op, g.append(cs * v)] + g.reads(k=2) + [g.append(1)] + g.reads()


def q_before(g, v):
    """appended to when it has so many chunks"""
    if v > 3500:
        return None
    cs = g.cycle('mgnc', [1, 2, 16])
    op = file_pack(g, cs=cs, n=cs * v, offsets=True, cap={'mul': 0, 'add': 40}, meta=0.3)
    return [op, g.append(3 * cs)] + g.reads(k=2) + [g.append(1), g.append(cs)] + g.reads()


def q_room(g, v):
    """the last chunk lacks, or has, this much"""
    if v > 300000:
        return None
    cs = v + g.cycle('mgrm', [1, 10, v])
    op = file_pack(g, cs=cs, n=2 * cs + g.cycle('mgrn', [v, cs - v]), offsets=True, cap=20, meta=0.3)
    return [op, g.append(g.cycle('mgrp', [v, cs - v, 1, v + cs]))] + g.reads(k=2) + [g.append(5)] + g.reads()


def q_spill(g, v):
    """what goes beyond the last chunk is this much, or a multiple"""
    if v > 100000:
        return None
    ops = []
    sizes = [(3, 2), (2, 1), (4, 3), (1, 1), (4, 2), (3, 1), (1, 2), (0.5, 2), (2.5, 3), (8, 5)]
    if v not in g.newints:
        sizes = [g.cycle('mgsp', sizes), g.cycle('mgsp', sizes)]
    for k, m in sizes:
        cs = max(1, int(v * k) + g.cycle('mgs1', [0, 0, 1, 0, -1]) * (v not in g.newints))
        if v // cs > 300:
            continue
        room = min(g.cycle('mgsr', [0, 1, cs // 2, cs - 1]), cs - 1)
        ops += [file_pack(g, cs=cs, n=g.cycle('mgsk', [1, 2, 3]) * cs - room, offsets=True, cap={'mul': 0, 'add': 400}, meta=0.3),
                g.append(room + v * m)] + g.reads()
        ops += [g.append(g.cycle('mgsq', [v, 2 * v, 1]))] + g.reads()
    return ops


def q_appends(g, v):
    """so many appends, one after the other"""
    if v > 70:
        return None
    cs = g.cycle('mgac', [7, 16, 100])
    op = file_pack(g, cs=cs, n=cs * 2, offsets=True, cap={'mul': 0, 'add': v}, meta=0.3)
    ops = [op]
    for i in range(v + 2):
        ops.append(g.append(g.cycle('mgai', [1, cs, cs // 2, 0, cs])))
        if i % 5 == 0:
            ops += g.reads()
    return ops + g.reads(k=3)


def q_rewrites(g, v):
    if v > 60:
        return None
    op = g.pack(cs=50, n=120, meta=0, offsets=True, cap=5)
    op['meta'] = {'n': -1}
    op['ma'] = {'max': {'mul': 0, 'add': 60}, 'meta_codec': 'None'}
    ops = [op]
    for i in range(v + 2):
        ops.append({'op': 'rewrite', 'f': 'A', 'meta': {'n': i}, 'kw': g.cycle('mgrw', [{}, {'codec': 'None'}, {'codec': None}])})
        if i % 5 == 0:
            ops += g.reads()
    return ops + g.reads()


def q_damage(g, v):
    """damage, and truncation, at this position from either end"""
    cs = g.cycle('mgdc', [100, 1000, max(16, v)])
    if v > 200000:
        return None
    op = file_pack(g, cs=cs, n=max(2 * v, 3 * cs), offsets=True, cap=g.cycle('mgdk', [0, 5, v % 5000]), meta=0.5)
    op['data']['k'] = g.cycle('mgdd', ['rnd', 'mix', 'seq'])
    if max(2 * v, 3 * cs) // cs > 1500:
        return None
    op['bp']['checksum'] = g.cycle('mgds', CHECKSUMS[1:])
    ops = [op]
    for pos in (v, -v, v + 32, 32 + 8 * v):
        ops.append({'op': 'damage', 'f': 'A', 'g': 'B', 'pos': pos, 'xor': g.cycle('mgdx', [1, 0x80, 0xff])})
        ops += g.reads('B', 2)
    for w in ('firstchunk', 'firstdigest', 'midchunk', 'lastchunk', 'lastdigest', 'metadata', 'metadigest'):
        ops.append({'op': 'damage', 'f': 'A', 'g': 'B', 'in': w, 'frac': g.cycle('mgdf', [0, 1, 0.5, 0.99]), 'xor': 1})
        ops += g.reads('B') + [g.append(3, 'B')]
    return ops


def q_chunks_damaged(g, v):
    """damage to a container of so many chunks, or with chunks of this size"""
    if v > 3500:
        return None
    cs = g.cycle('mgdn', [4, 16, 1])
    op = file_pack(g, cs=cs, n=cs * v, offsets=True, cap=3, meta=0.5)
    op['bp']['checksum'] = g.cycle('mgds', CHECKSUMS[1:])
    ops = [op]
    for w in ('firstchunk', 'firstdigest', 'midchunk', 'middigest', 'lastchunk', 'lastdigest', 'metadata', 'metadigest'):
        ops.append({'op': 'damage', 'f': 'A', 'g': 'B', 'in': w, 'frac': g.rnd.random(), 'xor': g.cycle('mgdx', [1, 0x80, 0xff])})
        ops += g.reads('B')
        if g.rnd.random() < 0.5:
            ops.append(g.append(3, 'B'))
    for k in range(4):
        ops.append({'op': 'trunc', 'f': 'A', 'g': 'B', 'frac': g.rnd.random()})
        ops += g.reads('B')
    return ops


def q_trunc(g, v):
    if v > 200000:
        return None
    cs = g.cycle('mgdc', [100, 1000, max(16, v)])
    op = file_pack(g, cs=cs, n=max(2 * v, 3 * cs), offsets=g.cycle('mgto', [True, False]), cap=g.cycle('mgdk', [0, 5]), meta=0.5)
    op['data']['k'] = g.cycle('mgdd', ['rnd', 'mix', 'seq'])
    if max(2 * v, 3 * cs) // cs > 1500:
        return None
    ops = [op]
    for ln in (v, -v, v + 32, -v - 1, 32 + 8 * v, v - 1):
        ops.append({'op': 'trunc', 'f': 'A', 'g': 'B', 'len': ln})
        ops += g.reads('B', 2)
    return ops


def q_items(g, v):
    if v > 255:
        return None
    op = g2.nd_op(g, 'S%d' % v, [g.cycle('mgi', [1, 10, 33])])
    return [op] + g2.nd_reads(g, op)


def q_dimension(g, v):
    if v > 300000:
        return None
    dt = g.cycle('mgit', ['i1', '<f4', 'i2', 'rec', 'S3'])
    sh = g.cycle('mgis', [[v], [v, 1], [1, v], [2, v], [v, 3]])
    op = g2.nd_op(g, dt, sh, order=g.cycle('nord', ['C', 'F']))
    return [op] + g2.nd_reads(g, op)


def q_nbytes(g, v):
    if v > 4000000:
        return None
    op = g2.nd_op(g, 'u1', [v])
    op2 = g2.nd_op(g, '<f8', [max(1, v // 8)])
    return [op] + g2.nd_reads(g, op) + [op2] + g2.nd_reads(g, op2)


def q_ndim(g, v):
    if v > 32:
        return None
    op = g2.nd_op(g, g.cycle('mgit', ['i1', '<f4', 'i2', 'rec', 'S3']), [g.cycle('mgid', [1, 1, 1, 2]) if i < 20 and i % 3 == 0 else 1
                                                                        for i in range(v)], order=g.cycle('nord', ['C', 'F']))
    return [op] + g2.nd_reads(g, op)


def q_fields(g, v):
    if v > 255:
        return None
    op = g2.nd_op(g, 'many#%d' % v, [g.cycle('mgi', [1, 10, 33])])
    return [op] + g2.nd_reads(g, op)


def q_name(g, v):
    if v > 20000:
        return None
    op = g2.nd_op(g, 'name#%d' % v, [g.cycle('mgi', [1, 10, 33])])
    return [op] + g2.nd_reads(g, op)


def q_array_chunks(g, v):
    if v > 3500:
        return None
    op = g2.nd_op(g, g.cycle('mgit', ['i1', '<f4', 'i2', 'rec', 'S3']), [v * 2], order=g.cycle('nord', ['C', 'F']))
    op['cs'] = 2 * g2.item_size(op['arr']['dt'])
    return [op] + g2.nd_reads(g, op)


def q_described(g, v):
    """bytes described as an array, too few or too many by this much"""
    if v > 100000:
        return None
    ops = []
    for need, n in ((v, v - 1), (v, v + 1), (5 * v, 4 * v), (8, 8 + v), (v + 8, 8), (v, v)):
        op = g.pack(cs=max(1, n // 30, g.cycle('mgde', [1, 8, 100])), n=n, entry=g.cycle('bpe', ['b2b', 'mem', 'b2f', 'fp']), meta=0)
        op['meta'] = g2.array_meta("'|u1'", [need])
        op['as'] = {'dt': 'u1', 'sh': [need], 'order': 'C'}
        e = 'mem' if op['entry'] == 'mem' else g.cycle('nue', g2.ND_UNPACK)
        ops += [op, {'op': 'ndunpack', 'f': 'A', 'entry': e, 'need': need}]
    return ops


def q_command(g, v):
    """the command line, with input, chunks, or metadata of this size"""
    if v > 400000:
        return None
    cs = max(1, v // g.cycle('mgcc', [1, 2, 5]), v // 300)
    ops = [{'op': 'file', 'n': 'd', 'data': g.data(v)},
           {'op': 'file', 'n': 'm', 'text': json.dumps(text(min(v, 50000), g))}]
    op = g3.cmd(g, 'compress', 'd')
    op['opts'] = {'cs': g3.tag(cs), 'nt': g3.tag(1), 'csum': g3.tag(g.cycle('ack', CHECKSUMS))}
    if g.rnd.random() < 0.6:
        op['m'] = 'm'
    ops += [op, g3.cmd(g, 'info', 'd.blp'), g3.cmd(g, 'decompress', 'd.blp', 'o', force=True),
            {'op': 'file', 'n': 'e', 'data': g.data(g.cycle('mgce', [v, 1, cs]))},
            g3.options(g, g3.cmd(g, 'append', 'd.blp', 'e'), p=0.4),
            g3.cmd(g, 'decompress', 'd.blp', 'o', force=True), g3.cmd(g, 'info', 'd.blp')]
    return ops


def read_more(g, ops):
    """every reader at the end of the life of every container"""
    out = []
    for i, op in enumerate(ops):
        out.append(op)
        end = i + 1 == len(ops) or ops[i + 1]['op'] in ('pack', 'ndpack', 'file', 'cmd')
        if op['op'] in ('unpack', 'append', 'rewrite') and end and op.get('f') == 'A' \
                and op.get('entry') not in UNPACK_MEM and sum(o.get('data', {}).get('n', 0) for o in ops) < 2000000:
            out += g.all_reads()
    return out


def sizes(*kinds):
    """a generator of scenarios about these quantities"""
    def magnitudes(g):
        out = []
        new, old = values(g)
        todo = [(k, v) for v in new for k in kinds]
        if len(todo) > 400:
            todo = g.sample(todo, 400)
        pools = {k: list(old) for k in kinds}
        for i in range(g.scale(45, 500)):
            k = kinds[i % len(kinds)]
            todo.append((k, g.cycle('mag' + k.__name__, pools[k])))
        # by how far their sizes are apart: the small ones are cheap
        for i, (k, v) in enumerate(todo):
            ops = k(g, v)
            if ops and i < len(todo) - g.scale(45, 500):
                ops = read_more(g, ops)
            if ops:
                out.append(scenario('mag-%s-%d-%d' % (k.__name__[2:], v, i), ops))
        return out
    return magnitudes


PLAIN = sizes(q_chunk, q_total, q_nchunks, q_last, q_typesize)
CONTAINER = sizes(q_chunk, q_total, q_nchunks, q_last, q_typesize, q_capacity, q_slots, q_newchunks, q_piece, q_spill)
LAYOUT = sizes(q_chunk, q_nchunks, q_capacity, q_slots, q_metalen, q_metamax, q_newchunks, q_before, q_rewrite)
META = sizes(q_metalen, q_metamax, q_keys, q_rewrite)
GROW = sizes(q_piece, q_spill, q_newchunks, q_before, q_room, q_appends, q_capacity, q_slots)
REFUSE = sizes(q_slots, q_newchunks, q_appends, q_metamax, q_rewrite, q_capacity)
REWRITE = sizes(q_rewrite, q_metamax, q_rewrites, q_metalen)
DAMAGE = sizes(q_damage, q_chunks_damaged)
TRUNC = sizes(q_trunc, q_chunks_damaged)
ARRAYS = sizes(q_items, q_dimension, q_nbytes, q_ndim, q_fields, q_name, q_array_chunks)
NOTARRAYS = sizes(q_described, q_fields, q_name)
COMMANDS = sizes(q_command)
