"""One process, inputs that differ in one feature only (see Memo)."""
import json

from gens import APPEND, CHECKSUMS, PACK_FILE, PACK_MEM, UNPACK, UNPACK_MEM, scenario
from gens2 import ND_PACK, ND_UNPACK
from gens4 import ROOMY

EQUAL_META = [[{'a': 1}, {'a': 2}, {'b': 1}, {'a': '1'}], [[1], [True], [1.0], ['1']], ['x', 'y', '', 'xx'],
              [{'a': 1, 'b': 2}, {'b': 2, 'a': 1}, {'a': 2, 'b': 1}], [0, False, 0.0, ''], [[], {}, [[]], [{}]]]
SAME_SIZE = [['i4', 'f4', 'u4be', 'S4', 'f4be'], ['f8', 'f8be', 'i8', 'c8', 'M', 'm'], ['i2', 'u2', 'f2', 'S2', 'V2'],
             ['rec', 'S17'], ['b1', 'i1', 'u1', 'S1', 'V1']]


def clone(x):
    return json.loads(json.dumps(x))


def varied(base, changes):
    """the base and its twins: each change is (path, value)"""
    out = [base]
    for path, v in changes:
        x = clone(base)
        at = x
        for p in path[:-1]:
            at = at.setdefault(p, {})
        if at.get(path[-1]) == v and type(at.get(path[-1])) is type(v):
            continue
        at[path[-1]] = v
        out.append(x)
    return out


def settings_changes(g):
    return [(('bl', 'typesize'), g.cycle('mts', [4, 1, 16])), (('bl', 'clevel'), g.cycle('mcl', [0, 9, 1])), (('bl', 'shuffle'), False),
            (('bl', 'cname'), g.cycle('mcn', ['lz4', 'zstd', 'zlib'])), (('bp', 'checksum'), g.cycle('mck', ['crc32', 'None', 'md5'])),
            (('bp', 'max_app'), g.cycle('mma', [0, 7, {'mul': 2, 'add': 1}])), (('bp', 'offsets'), False)]


def meta_changes(g):
    return [(('ma', 'meta_checksum'), g.cycle('mmc', ['crc32', 'None', 'sha1'])), (('ma', 'meta_codec'), 'None'),
            (('ma', 'meta_level'), g.cycle('mml', [9, 0, 1])), (('ma', 'max'), g.cycle('mmm', [500, {'mul': 5, 'add': 40}]))]


def data_changes(d):
    """other data of the same length"""
    return [(('data',), dict(d, s=d['s'] + 1)), (('data',), dict(d, k='zero')), (('data',), dict(d, n=d['n'] + 1))]


def containers(g):
    """containers of one size that differ in little; -> names, ops that make them"""
    c = g.cycle('mxc', [40, 100, 1000])
    looks = g.rnd.sample(['zrrt', 'rzrt', 'rrzt', 'rrtz', 'trrz', 'rtzr', 'zzzr', 'zrzz', 'rzzz'], 3)
    metas = clone(g.cycle('mxm', EQUAL_META))
    base = {'op': 'pack', 'f': 'X', 'cs': c, 'data': {'k': 'blk', 'b': c, 'n': 4 * c, 's': g.rnd.randrange(50), 'l': looks[0]},
            'meta': metas[0], 'bl': {'clevel': g.cycle('mxl', [7, 0, 9])}, 'bp': {'checksum': 'adler32', 'max_app': 20}, 'ma': {'max': 90}}
    ch = [(('data', 'l'), l) for l in looks[1:]] + [(('data', 's'), 99), (('meta',), metas[1]), (('meta',), metas[2]),
                                                    (('bp', 'checksum'), 'crc32'), (('ma', 'meta_checksum'), 'crc32'),
                                                    (('ma', 'meta_codec'), 'None'), (('bl', 'cname'), 'lz4')]
    ops = [dict(x, f='X%d' % i) for i, x in enumerate(varied(base, ch))]
    return ['X%d' % i for i in range(len(ops))], ops


def arrays_of(g):
    ts = clone(g.cycle('mat', SAME_SIZE))
    g.rnd.shuffle(ts)
    sh, others = g.cycle('mas', [([3, 4], [[4, 3], [12], [2, 6], [3, 4, 1], [1, 12]]), ([2, 3, 2], [[3, 2, 2], [6, 2], [12]]),
                                 ([12], [[3, 4], [1, 12], [12, 1]])])
    arr = {'dt': ts[0], 'sh': sh, 's': g.rnd.randrange(50), 'k': 'rnd' if g.rnd.random() < 0.5 else 'mix', 'order': g.cycle('mao', ['C', 'F'])}
    base = {'op': 'ndpack', 'f': 'A', 'arr': arr, 'cs': 100}
    return base, [(('arr', 'order'), 'F' if arr['order'] == 'C' else 'C'), (('arr', 's'), 77)] + \
        [(('arr', 'sh'), s) for s in others[:3]] + [(('arr', 'dt'), t) for t in ts[1:4]]


def keyed(ops, key):
    return [dict(o, key='%s|%d' % (key, i), tag='C18.same_outcome', oh='error') if o['op'] not in ('copy', 'stamp') else o
            for i, o in enumerate(ops)]


def each(g):
    """-> (what must be there, the variants: lists of operations)"""
    kind = g.cycle('memokind', ['ndpack', 'pack', 'append', 'unpack', 'mem', 'rewrite', 'ndunpack', 'append', 'ndpack'])
    if kind == 'ndpack':
        base, ch = arrays_of(g)
        base['entry'] = g.cycle('mae', ND_PACK)
        vs = varied(base, ch + [(('cs',), 48)] + settings_changes(g)[1:])
        r = {'op': 'ndunpack', 'f': 'A', 'entry': 'mem' if base['entry'] == 'mem' else g.cycle('mau', ND_UNPACK)}
        return [], [[v, r] for v in vs]
    if kind in ('pack', 'mem'):
        d = {'k': g.cycle('mpk', ['mix', 'rnd', 'seq']), 'n': g.cycle('mpn', [250, 1000, 99]), 's': g.rnd.randrange(50)}
        metas = clone(g.cycle('mpm', EQUAL_META))
        base = {'op': 'pack', 'f': 'A', 'cs': 100, 'data': d, 'meta': metas[0], 'ma': {'max': ROOMY},
                'entry': g.cycle('mpe' + kind, PACK_FILE if kind == 'pack' else PACK_MEM)}
        vs = varied(base, data_changes(d) + [(('cs',), 64), (('cs',), '1K')] + [(('meta',), m) for m in metas[1:]] +
                    settings_changes(g) + (meta_changes(g) if kind == 'pack' else []))
        r = {'op': 'unpack', 'f': 'A', 'entry': g.cycle('mpu' + kind, UNPACK if kind == 'pack' else UNPACK_MEM)}
        return [], [[v, r] for v in vs]
    if kind == 'ndunpack':
        base, ch = arrays_of(g)
        base.update(entry='bytes', bl={'clevel': 0})
        vs = varied(base, ch)
        entry = g.cycle('mnu', ND_UNPACK)
        return [dict(v, f='X%d' % i) for i, v in enumerate(vs)], \
            [[{'op': 'copy', 'f': 'X%d' % i, 'g': 'A'}, {'op': 'stamp', 'f': 'A'}, {'op': 'ndunpack', 'f': 'A', 'entry': entry}]
             for i in range(len(vs))]
    names, pre = containers(g)
    lead = lambda n: [{'op': 'copy', 'f': n, 'g': 'A'}, {'op': 'stamp', 'f': 'A'}]
    u = {'op': 'unpack', 'f': 'A', 'entry': g.cycle('mcu', UNPACK)}
    if kind == 'unpack':
        return pre, [lead(n) + [u] for n in names]
    if kind == 'append':
        c = pre[0]['cs']
        d = {'k': 'mix', 'n': g.cycle('man', [1, c, c + 3]), 's': 3}
        a = {'op': 'append', 'f': 'A', 'entry': g.cycle('mne', APPEND), 'data': d}
        # the same operation on each container, and others on the first
        more = varied(a, data_changes(d) + [(('a',), {'obj': {'clevel': 0}}), (('a',), {'obj': {'cname': 'zstd'}}),
                                            (('a',), {'obj': {'typesize': 3}})])
        return pre, [lead(n) + [a, u] for n in names] + [lead(names[0]) + [x, u] for x in more[1:]]
    m = clone(g.cycle('mrm', EQUAL_META))
    w = {'op': 'rewrite', 'f': 'A', 'meta': [m[0], 'q'], 'kw': {}}
    more = varied(w, [(('meta',), [v, 'q']) for v in m[1:]] + [(('kw',), {'level': 1}), (('kw',), {'codec': 'None'}),
                                                               (('kw',), {'checksum': 'crc32'})])
    return pre, [lead(n) + [w, u] for n in names] + [lead(names[0]) + [x, u] for x in more[1:]]


def twins_in_a_process(g):
    """the base, the base again, a twin, the base, the next twin, ..."""
    out = []
    for i in range(g.scale(18, 300)):
        pre, vs = each(g)
        ops = [{'op': 'solo', 'ops': pre}] if pre else []
        vs = [keyed(v, 'twin%d' % j) for j, v in enumerate(vs)]
        for v in vs:
            ops.append({'op': 'solo', 'ops': v})
        order = list(range(1, len(vs)))
        g.rnd.shuffle(order)
        ops += vs[0] + vs[0]
        for j in order:
            ops += vs[j]
            if g.rnd.random() < 0.5:
                ops += vs[0] if g.rnd.random() < 0.7 else vs[g.rnd.choice(order)]
        out.append(scenario('twin%d' % i, ops))
    return out
