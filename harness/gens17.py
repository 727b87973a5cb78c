"""Metadata made of anything."""
from gens import scenario

JSON = ['null', 'bool', 'int', 'float', 'str', 'list', 'dict', 'ordered']
ODD = ['bytes', 'bytearray', 'set', 'frozenset', 'complex', 'object', 'date', 'time', 'decimal', 'fraction', 'npint', 'nparray',
       'npbool', 'function', 'class', 'range', 'iterator', 'enum', 'uuid', 'ellipsis', 'circular', 'memoryview', 'mapping',
       'tuplekey', 'byteskey', 'datekey', 'objectkey', 'setkey']


def odd(g):
    out = []
    for i in range(g.scale(4, 40)):
        vs = [[[k], d] for k in g.sample(JSON + ODD, len(JSON + ODD)) for d in ((i % 3,) if not g.full else (0, 1, 2))]
        for _ in range(g.scale(6, 60)):
            some = [g.rnd.choice(JSON) for _ in range(g.rnd.randrange(1, 6))]
            vs.append([some, g.rnd.randrange(3)])
            some = some + [g.rnd.choice(ODD)]
            g.rnd.shuffle(some)
            vs.append([some, g.rnd.randrange(3)])
        out.append(scenario('odd%d' % i, [{'op': 'odd', 'seed': 1000 * g.rnd.randrange(1000) + i, 'vs': vs}]))
    return out


def reuse(g):
    """settings handed over as mappings, again and again (Reuse)"""
    out = []
    hs = sorted(g.histories.get('Reuse', []) + g.histories.get('ReuseDeep', []), key=str)
    hs = g.sample(hs, g.scale(1902, 20000))
    for i in range(0, len(hs), 100):
        out.append(scenario('reuse%d' % i, [{'op': 'reuse', 'seed': g.rnd.randrange(10**6), 'steps': h,
                                             'kinds': g.cycle('rek', [['dict', 'dict'], ['dict', 'ordered'], ['ordered', 'dict']])}
                                            for h in hs[i:i + 100]]))
    return out


def shrunk(g):
    """the last chunk was stored badly: what is appended is smaller than what it frees"""
    out = []
    for i in range(g.scale(24, 400)):
        cs = g.cycle('shc', [200, 1000, 4096, 20000])
        rest = g.cycle('shr', [cs - 1, cs, cs // 2, cs - 17])
        op = g.pack(cs=cs, n=g.cycle('shn', [0, 0, 1, 3]) * cs + rest, offsets=True, cap=g.cycle('shp', [3, 40]), meta=0.3, entry='b2f')
        kind = g.cycle('shk', ['zero', 'ff', 'blk'])
        op['data'] = {'n': op['data']['n'], 'k': kind, 's': i}
        if kind == 'blk':
            op['data']['b'] = 64
        op['bl'] = {'clevel': 0}
        op['bp']['checksum'] = g.cycle('shs', ['None', 'adler32', 'sha512'])
        ops = [op]
        for n in (g.cycle('sha', [1, cs - rest, cs - rest + 1, cs, cs + 5, 2 * cs]), g.cycle('shb', [0, 1, cs, 3])):
            a = g.append(n)
            a['data'] = {'n': n, 'k': 'zero', 's': i}
            a['a'] = {'obj': {'clevel': 9}}
            ops += [a] + g.reads(k=2)
        out.append(scenario('shr%d' % i, ops))
    return out
