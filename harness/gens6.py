"""Damage and truncation of every kind of container as every kind of reader
meets it: arrays, containers in memory, the command line."""
import gens2 as g2
from gens import CHECKSUMS, PACK_MEM, hurt, scenario


def memory_damage(g):
    """a stored chunk or a digest altered within a container in memory"""
    out = []
    for i in range(g.scale(60, 500)):
        op = g.pack(cs=g.cycle('yc', [1, 16, 40, 100, 1000]), n=g.cycle('yn', [1, 39, 100, 250, 1000, 3001]),
                    entry=g.cycle('ye', PACK_MEM), meta=0.3)
        op['bp'] = dict(op.get('bp') or {}, checksum=CHECKSUMS[1 + i % 8])
        if op['data']['n'] // g.cs_value(op['cs']) > 300:
            op['cs'] = 40
        look = g.cycle('yl', ['z', 's', None, 'r', 'zs', 'zfrst', 'p', None, 'c'])
        if look:                # equal chunks among them
            op['data'].update(k='blk', b=g.cs_value(op['cs']), l=look)
        ops = [op] + g.reads(mem=True)
        for _ in range(g.scale(8, 20)):
            ops.append({'op': 'memhurt', 'f': 'A', 'g': 'B', 'at': g.cycle('ya', [0, 0.999, g.rnd.random(), g.rnd.random()]),
                        'what': g.cycle('yw', ['chunk', 'digest', 'digest', 'chunk', 'before']),
                        'frac': g.cycle('yf', [0, 0.999, g.rnd.random(), g.rnd.random()]),
                        'xor': g.cycle('yx', [1, 0x80, 0xff, 0x10])})
            if g.rnd.random() < 0.5:
                if ops[-1]['what'] == 'chunk':
                    ops[-1].update({'as': 'field', 'field': g.cycle('yfi', [0, 1, 2, 3, 4, 4, 8, 12, 12]),
                                    'to': g.cycle('yft', ['zero', 'one', 'dec', 'inc', 'max', 'half', 'dbl', 'neg'])})
                else:
                    ops[-1]['as'] = g.cycle('yas', ['zero', 'ones', 'rev', 'cut', 'none', 'long', 'next'])
            ops += g.reads('B', 2, mem=True)
        out.append(scenario('memdmg%d' % i, ops + g.reads(mem=True)))
    return out


def arrays(g, i):
    """-> a pack of an array whose container can be damaged"""
    dt = g.cycle('zd', ['<i2', '<f8', '>i4', 'S7', '<i8'])
    op = g2.nd_op(g, dt, g.cycle('zs', [[5], [60], [7, 9], [2, 3, 4], [300], [1]]),
                  entry=g.cycle('ze', [e for e in g2.ND_PACK if e != 'mem']))
    op.pop('cs', None)
    if g.rnd.random() < 0.7:
        op['cs'] = g2.item_size(dt) * g.cycle('zk', [1, 5, 16, 64])
    op['bp'] = dict(op.get('bp') or {}, offsets=g.cycle('zo', [True, True, False]), max_app=g.cycle('zm', [0, 3]))
    op['bp']['checksum'] = CHECKSUMS[i % 9]
    if g.rnd.random() < 0.6:
        op['ma'] = {'meta_checksum': g.cycle('zmc', CHECKSUMS), 'meta_codec': g.cycle('zmk', ['zlib', 'None']),
                    'max': {'mul': 2, 'add': 30}}
    elif g.rnd.random() < 0.5:
        op.pop('ma', None)
    op['arr']['k'] = g.cycle('zkk', ['zero', 'mix', 'rnd', 'seq'])
    return op


def nd_reads(g, f, k=2):
    return [{'op': 'ndunpack', 'f': f, 'entry': g.cycle('zr', g2.ND_UNPACK)} for _ in range(k)]


def array_damage(g):
    out = []
    for i in range(g.scale(60, 500)):
        op = arrays(g, i)
        ops = [op] + nd_reads(g, 'A', 1)
        for _ in range(g.scale(8, 20)):
            ops.append(hurt(g, True))
            ops += nd_reads(g, 'B', 2)
        out.append(scenario('nddmg%d' % i, ops))
    return out


def array_truncation(g):
    out = []
    for i in range(g.scale(40, 300)):
        op = arrays(g, i)
        ops = [op] + nd_reads(g, 'A', 1)
        for j in range(40):
            t = {'op': 'trunc', 'f': 'A', 'g': 'B'}
            if j < 20:
                t['len'] = -1 - j
            else:
                t['frac'] = g.rnd.random()
            ops += [t] + nd_reads(g, 'B', 1)
        out.append(scenario('ndtrunc%d' % i, ops))
    return out


def command(g, trunc):
    """what the command line makes of damage, or of a part of a container"""
    out = []
    for i in range(g.scale(30, 200)):
        op = g.pack(cs=g.cycle('wc', [40, 100, 1000]), meta=0.6, n=g.cycle('wn', [1, 39, 100, 250, 1000, 3001]))
        op['bp'] = dict(op.get('bp') or {}, checksum=CHECKSUMS[1 + i % 8] if not trunc else CHECKSUMS[i % 9],
                        offsets=g.cycle('wo', [True, True, False]), max_app=3)
        if 'meta' in op:
            op['ma'] = {'meta_checksum': g.cycle('wmc', CHECKSUMS[0 if trunc else 1:]), 'max': {'mul': 2, 'add': 30},
                        'meta_codec': g.cycle('wmk', ['zlib', 'None', 'zlib'])}
        ops = [op]
        for j in range(g.scale(8, 20)):
            if not trunc:
                ops.append(hurt(g, 'meta' in op))
            else:
                ops.append({'op': 'trunc', 'f': 'A', 'g': 'B', 'frac': g.rnd.random()} if j % 2 else
                           {'op': 'trunc', 'f': 'A', 'g': 'B', 'len': -1 - j})
            ops.append({'op': 'unpack', 'f': 'B', 'entry': 'cli'})
        out.append(scenario('clidmg%d' % i, ops))
    return out


def command_damage(g):
    return command(g, False)


def command_truncation(g):
    return command(g, True)


def equal_metadata(g):
    """metadata replaced by some that Python takes for equal, in part or as a whole"""
    out = []
    pairs = [({'a': 1, 'b': 2}, {'a': True, 'b': 3}), ({'a': 1, 'b': 2}, {'a': 1.0, 'b': 3}),
             ({'a': 0, 'b': [1]}, {'a': False, 'b': [2]}), ([1, 2], [True, 3]), ([0, 'x', 1.0], [False, 'y', 1]),
             ({'a': {'x': 1, 'y': 0}}, {'a': {'x': True, 'y': 1}}), ({'a': 1}, {'a': 1, 'b': True}),
             ({'a': True, 'b': False}, {'a': 1, 'b': 1}), ({'a': -0.0, 'b': 1}, {'a': 0, 'b': 2}),
             ({'b': 1, 'a': 2}, {'a': 2, 'b': 3}), ({'a': None, 'b': 1}, {'b': 2}), ({'a': 'x', 'b': 1}, {'b': 1}),
             ({'a': [], 'b': 1}, {'a': {}, 'b': 1}), ({'a': '1'}, {'a': 1}), ({'1': 2}, {'1': '2'}),
             ({'a': 1e3, 'b': 0}, {'a': 1000, 'b': 1}), ('a', ['a']), ({'k': 'v'}, ['k']), ([], {}), (0, []), ('', {}),
             ({'a': 1}, {'a': True}), ({'a': 1}, {'a': 1.0}), ([0], [False]), ({'a': [{'b': 0}]}, {'a': [{'b': 0.0}]}), (1, True),
             ({'a': 0.0}, {'a': -0.0}), ({'a': 1, 'b': 2}, {'b': 2, 'a': 1})]
    for i, (a, b) in enumerate(pairs):
        for x, y in ((a, b), (b, a)):
            op = g.pack(cs=100, n=150, meta=0, offsets=True, cap=5)
            op['meta'] = x
            op['ma'] = {'meta_codec': g.cycle('vq', ['None', 'zlib']), 'max': {'mul': 2, 'add': 40}}
            ops = [op] + g.reads(k=1)
            for m in (y, x, {'z': y}, y):
                ops += [{'op': 'rewrite', 'f': 'A', 'meta': m, 'kw': g.cycle('vk', [{}, {}, {'codec': 'None'}])}] + g.reads(k=2)
            out.append(scenario('equal%d' % len(out), ops))
    return out


STRETCHES = [('firstchunk', 'firstchunk'), ('firstdigest', 'firstdigest'), ('firstchunk', 'firstdigest'), ('midchunk', 'middigest'),
             ('lastchunk', 'lastdigest'), ('lastdigest', 'lastdigest'), ('firstchunk', 'lastdigest'), ('midchunk', 'lastdigest'),
             ('firstdigest', 'midchunk'), ('metadata', 'metadata'), ('metadigest', 'metadigest'), ('metadata', 'metadigest'),
             ('metadata', 'firstdigest'), ('offsets', 'firstchunk'), ('metadigest', 'lastdigest')]


def wiped(g):
    """whole parts overwritten with the same byte, as lost sectors are"""
    out = []
    for csum in CHECKSUMS[1:]:
        for n in (39, 300, 2500):
            op = g.pack(cs=g.cycle('xcs', [39, 100, 1000]), n=n, meta=0)
            op['bp'] = dict(op.get('bp') or {}, checksum=csum, offsets=g.cycle('xo', [True, True, False]), max_app=3)
            op['meta'] = g.cycle('xm', ['y' * 30, {'a': 1}, list(range(50))])
            op['ma'] = {'meta_checksum': csum, 'max': {'mul': 1, 'add': g.cycle('xa', [0, 20])}, 'meta_codec': g.cycle('xk', ['zlib', 'None'])}
            ops = [op]
            for how in ('zero', 'ones', 'spaces'):
                for a, b in STRETCHES if how == 'zero' or g.full else g.sample(STRETCHES, 4):
                    ops.append({'op': 'damage', 'f': 'A', 'g': 'B', 'in': a, 'upto': b, 'as': how, 'frac': 0})
                    ops += g.reads('B', 2)
                    if g.rnd.random() < 0.4:
                        ops.append(dict(g.append(g.cycle('xp', [1, 50])), f='B'))
            out.append(scenario('wiped%d' % len(out), ops))
    return out
