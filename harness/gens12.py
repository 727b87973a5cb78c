"""Sources and sinks of one's own, driven by the packing and unpacking loops."""
from gens import CHECKSUMS, UNPACK, scenario

EXC = ['ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'EOFError', 'NotImplementedError',
       'MemoryError', 'OSError', 'KeyboardInterrupt', 'SystemExit', 'ZeroDivisionError', 'AssertionError',
       'ChecksumMismatch', 'Own']
HOW = ['flip', 'last', 'short', 'long', 'empty', 'none', 'wiped', 'chunk']
CALLS = {'pack': ['conf source', 'conf sink', 'header', 'meta', 'offsets', 'iter', 'chunk', 'comp', 'put', 'end', 'final'],
         'unpack': ['iter', 'chunk', 'put', 'end']}


def style(g, dir_):
    s = {'configure': g.cycle('dcf', ['base', 'own', 'base']), 'iterator': g.rnd.random() < 0.5,
         'falsy': g.rnd.random() < 0.15, 'returns': g.cycle('dre', [None, 0, 7]),
         'compress': g.cycle('dco', ['settings', 'other', 'base'])}
    if s['compress'] != 'base':
        s['shape'] = g.cycle('dsh', ['bytes', 'memoryview', 'bytearray'])
    return s


def failing(g, c, i, dir_):
    return {'c': c, 'i': i, 'exc': g.cycle('dex' + dir_, EXC)}


def pack(g, n, meta=None, f=''):
    """n chunks are packed"""
    o = g.pack(f or 'A')
    for k in ('op', 'entry', 'src', 'around', 'over', 'f'):
        o.pop(k, None)
    cs = g.cycle('dcs', [1, 7, 64, 100, 1000, 4096, 333])
    o.update(op='drive', dir='pack', cs=cs, style=style(g, 'pack'), src='own', snk='own',
             data={'n': max(0, (n - 1) * cs + g.cycle('dla', [cs, 1, cs // 2 or 1, cs - 1 or 1])) if n > 1
                   else g.cycle('dl1', [0, cs, 1, cs - 1]), 'k': g.cycle('dpa', ['rnd', 'text', 'rnd', 'zero', 'blk']),
                   's': g.rnd.randrange(1000)})
    if meta is True and 'meta' not in o:
        o['meta'] = g.meta()
    if meta is False:
        for k in ('meta', 'ma'):
            o.pop(k, None)
    if 'ma' in o:
        o['ma'].pop('max', None)
    if g.rnd.random() < 0.3:
        o['level'] = g.rnd.choice([0, 1, 2])
    if f:
        o['f'] = f
    return o


def unpack(g, n, bad=()):
    o = {'op': 'drive', 'dir': 'unpack', 'src': 'own', 'snk': 'own', 'n': n, 'style': style(g, 'unpack'),
         'csum': g.cycle('dcu', CHECKSUMS + ['rolling']), 'cs': g.cycle('dus', [1, 16, 100, 1000, 4096]),
         'nonum': g.rnd.random() < 0.3}
    if bad:
        o.update(bad=list(bad), how=g.cycle('dho', HOW))
        if o['csum'] == 'None':
            o['csum'] = 'rolling'
    o['data'] = {'n': n * o['cs'] - (g.rnd.randrange(o['cs']) if n else 0), 'k': g.cycle('dup', ['rnd', 'text', 'rnd']),
                 's': g.rnd.randrange(1000)}
    if g.rnd.random() < 0.3:
        o['level'] = g.rnd.choice([0, 1, 2])
    return o


def session(g, r):
    if r['dir'] == 'pack':
        return pack(g, max(1, r['n']), r['meta'])
    return unpack(g, r['n'], r['bad'])


def protocol_histories(g):
    """the programs of the model: two sessions, one inside of the other, one failure"""
    out = []
    hs = g.histories.get('ProtocolMC', [])
    for n, h in enumerate(g.sample(hs, g.scale(250, 8000))):
        a, b = session(g, h['r'][0]), session(g, h['r'][1])
        lanes = [a, b]
        f = h['fails']
        if f['k']:
            lanes[f['k'] - 1]['fail'] = failing(g, f['c']['c'], f['c']['i'], lanes[f['k'] - 1]['dir'])
        ops = [a]
        if h['at']['c']:
            a['nest'] = {'c': h['at']['c'], 'i': h['at']['i'], 'op': b}
        else:
            ops.append(b)
        out.append(scenario('pr%d' % n, ops))
    return out


def every_failure(g):
    """each kind of call fails in each way, at the first, a middle, and the last chunk"""
    out = []
    for d in ('pack', 'unpack'):
        for c in CALLS[d]:
            for x in EXC:
                for i in ([1, 3, 5] if c in ('chunk', 'comp', 'put') else [0]):
                    o = pack(g, 5, True) if d == 'pack' else unpack(g, 5)
                    if c == 'comp':
                        o['style']['compress'] = g.rnd.choice(['settings', 'other'])
                    o['fail'] = {'c': c, 'i': i, 'exc': x}
                    out.append(o)
    g.rnd.shuffle(out)
    return [scenario('pf%d' % n, out[i:i + 4]) for n, i in enumerate(range(0, len(out), 4))]


def with_library(g):
    """one of the two is the library's: what comes out is what would have come out of it"""
    out = []
    for n in range(g.scale(150, 3000)):
        k = g.cycle('dwk', [1, 2, 3, 5, 9, 17, 40])
        ops = []
        o = pack(g, k, f='A')
        if n % 3:
            o['src'], o['snk'] = 'own', g.cycle('dws', ['fp', 'file', 'mem'])
        else:
            o['src'] = g.cycle('dwr', ['fp', 'mem'])
            if n % 2:
                o['snk'] = g.cycle('dwt', ['fp', 'file', 'mem'])
        ops.append(o)
        if o['snk'] in ('fp', 'file'):
            ops += [{'op': 'unpack', 'f': 'A', 'entry': g.cycle('due', UNPACK)} for _ in range(2)]
            if g.rnd.random() < 0.3:
                ops.append(g.append(g.cycle('dap', [0, 1, 100, 5000])))
                ops.append({'op': 'unpack', 'f': 'A', 'entry': 'f2b'})
        if o['snk'] != 'own':
            for _ in range(2):
                u = {'op': 'drive', 'dir': 'unpack', 'f': 'A', 'src': 'mem' if o['snk'] == 'mem' else 'fp',
                     'snk': g.cycle('dwn', ['own', 'own', 'fp', 'mem', 'file']), 'style': style(g, 'unpack')}
                if g.rnd.random() < 0.3:
                    u['level'] = g.rnd.choice([0, 1, 2])
                if u['snk'] == 'own' and g.rnd.random() < 0.3:
                    u['fail'] = failing(g, 'put', g.rnd.randrange(1, k + 1), 'unpack')
                ops.append(u)
        out.append(scenario('pl%d' % n, ops))
        if n % 2:
            u = unpack(g, k, g.rnd.sample(range(1, k + 1), g.rnd.choice([0, 1, 1])))
            u['snk'] = g.cycle('dwm', ['fp', 'mem', 'file'])
            out.append(scenario('pk%d' % n, [u]))
    return out


def again(g):
    """the same source and sink, one session after the other; some fail"""
    out = []
    for n in range(g.scale(80, 1500)):
        d = 'pack' if n % 3 else 'unpack'
        first, ops = None, []
        for _ in range(g.rnd.randrange(2, 5)):
            k = g.rnd.choice([1, 2, 3, 6])
            o = pack(g, k, f='A') if d == 'pack' else unpack(g, k, g.rnd.sample(range(1, k + 1), g.rnd.choice([0, 0, 0, 1])))
            first = first or o
            o.update(again='x', style=first['style'])
            if d == 'pack' and n % 2:
                o['snk'] = 'mem'
            elif g.rnd.random() < 0.3:
                o['fail'] = failing(g, g.rnd.choice(CALLS[d]), 1, d)
                if o['fail']['c'] not in ('chunk', 'comp', 'put'):
                    o['fail']['i'] = 0
            ops.append(o)
            if o['snk'] == 'mem':
                ops.append({'op': 'drive', 'dir': 'unpack', 'f': 'A', 'src': 'mem', 'snk': g.cycle('dan', ['own', 'mem', 'fp']),
                            'style': style(g, 'unpack')})
        out.append(scenario('pa%d' % n, ops))
    return out


def not_any(g):
    """what is no source or sink at all"""
    out = []
    for d in ('pack', 'unpack'):
        right = {'pack': ('plain source', 'compressed sink'), 'unpack': ('compressed source', 'plain sink')}[d]
        for side in (0, 1):
            for w in ['other', 'list', 'class', 'none', 'plain source', 'plain sink', 'compressed sink', 'compressed source']:
                if w != right[side]:
                    for snk in ('own', 'mem', 'fp'):
                        o = pack(g, 3, f='A') if d == 'pack' else unpack(g, 3)
                        o.update(wrong=[('source', 'sink')[side], w], snk=snk)
                        out.append(o)
    return [scenario('pw%d' % n, out[i:i + 6]) for n, i in enumerate(range(0, len(out), 6))]


DRIVEN = [protocol_histories, every_failure, with_library, again, not_any]
