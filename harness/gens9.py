"""Containers that somebody else wrote."""
import gens2 as g2
import gens3 as g3
from gens import APPEND, CHECKSUMS, CNAMES, TYPESIZES, UNPACK, KINDS, hurt, scenario

STYLES = ['compact', 'spaces', 'indent', 'unicode', 'sorted', 'escaped']


def chunk_settings(g, k=None):
    """how each chunk is compressed: they may all be different"""
    return [{'typesize': g.cycle('wts', TYPESIZES), 'clevel': g.cycle('wlv', list(range(10))),
             'shuffle': g.cycle('wsh', [0, 1, 2]), 'cname': g.cycle('wcn', CNAMES),
             'block': g.cycle('wbl', [0, 0, 0, 128, 512, 4096])} for _ in range(k or g.rnd.randrange(1, 4))]


def section(g, codec=None, slack=None, csum=None, junk=None):
    m = {'codec': g.rnd.randrange(2) if codec is None else codec, 'level': g.cycle('wml', list(range(10))),
         'slack': g.cycle('wsl', [0, 1, 7, 100, 5000]) if slack is None else slack,
         'csum': g.rnd.randrange(9) if csum is None else csum, 'style': g.cycle('wst', STYLES)}
    if junk if junk is not None else g.rnd.random() < 0.3:
        m['junk'] = g.cycle('wj', ['ff', '00', '7b7d', '626c706b', '0201130800', '22'])
        m['user'] = g.cycle('wu', ['', '01', '6c7a346800000001', 'ffffffffffffffff', '00000000000000aa'])
    if m['codec']:
        m['wbits'] = g.cycle('wwb', [15, 9, 12, 15])
        m['mem'] = g.cycle('wme', [8, 1, 9])
        m['strategy'] = g.cycle('wsy', [0, 1, 2, 3, 4])
        m['flush'] = g.rnd.random() < 0.2
    return m


def value(g):
    return None if g.rnd.random() < 0.05 else g.meta()


def reads(g, k=3, f='A'):
    return [{'op': 'unpack', 'f': f, 'entry': g.cycle('wue', UNPACK)} for _ in range(k)]


def looks(g):
    """the commands that read it"""
    c = [g3.cmd(g, 'info', 'A.blp'), g3.cmd(g, 'decompress', 'A.blp', g.cycle('wo', ['', 'out']), force=True)]
    return g.rnd.sample(c, g.rnd.randrange(3))


def changes(g, op, total):
    """appending and other metadata: what is promised depends on the container"""
    out = []
    c = max(op['chunk'], 1)
    for _ in range(g.rnd.randrange(1, 4)):
        if 'meta' in op and g.rnd.random() < 0.35:
            out.append({'op': 'rewrite', 'f': 'A', 'meta': value(g), 'kw': g.cycle('wrk', [
                {}, {'codec': None, 'level': None}, {'checksum': None}, {'codec': 'zlib', 'level': 9}, {'codec': 'None'}])})
        else:
            a = g.append(min(20000, g.cycle('wap', [0, 1, c - 1, c, c + 1, 2 * c, 3 * c + 2, 5])))
            if g.rnd.random() < 0.2:
                a.update(entry='cli')
                a.pop('a', None)
                a.pop('around', None)
            out.append(a)
        out += reads(g, 1)
    return out


def content(g, n):
    return {'k': g.cycle('wk', KINDS), 'n': n, 's': g.rnd.randrange(1000)}


def header(w, sizes, g):
    """the sizes the writer states"""
    chunk = -1 if w['chunk'] == 'unknown' else sizes[0]
    if w['chunk'] == 'larger':
        chunk += g.cycle('wlg', [1, 3, 1000, 10**6, 2**31 - 1 - 10**7])
    return chunk, -1 if w['last'] == 'unknown' else sizes[-1]


def written(g, w, sizes, **kw):
    op = {'op': 'compose', 'f': 'A', 'data': content(g, sum(sizes)), 'sizes': sizes, 'offs': w['offs'], 'cap': w['cap'],
          'csum': w['csum'], 'ts': g.cycle('wht', [8, 0, 1, 4, 255, 16, 3]), 'z': chunk_settings(g)}
    op['chunk'], op['last'] = header(w, sizes, g)
    op['counted'] = w.get('counted', True)
    op.update(kw)
    return op


def histories(g):
    """every kind of writer of the model"""
    out = []
    hs = g.histories.get('ComposeMC', [])
    for i, h in enumerate(g.sample(hs, g.scale(300, 12000))):
        w, small = h['w'], h['sizes']
        big = g.cycle('wbig', [2, 3, 16, 64, 100, 1000, 4096, 10000, 65536] + g.lits(2, 5000)[:20])
        little = g.cycle('wlit', [1, big - 1, big // 2, 1])
        sizes = [[0, little, big][k] for k in small]
        w = dict(w, csum={0: 0, 1: g.cycle('wc1', [1, 2]), 6: g.cycle('wc6', [3, 4, 5, 6, 7, 8])}[w['csum']],
                 cap=w['cap'] and g.cycle('wcap', [1, 2, 5, 300]))
        op = written(g, w, sizes)
        if w['m']['p']:
            m = w['m']
            op['meta'] = value(g)
            op['m'] = section(g, m['codec'], m['slack'] and g.cycle('wslk', [1, 9, 400, 5000]),
                              {0: 0, 2: g.cycle('wm2', [1, 2]), 5: g.cycle('wm5', [3, 4, 5, 6, 7, 8])}[m['csum']], m['junk'])
        out.append(scenario('wr%d' % i, [op] + reads(g, 2) + looks(g) + changes(g, op, sum(sizes))))
    return out


def many(g):
    """more and larger chunks, sizes all alike or all different"""
    out = []
    for i in range(g.scale(60, 900)):
        n = g.cycle('wn', [1, 2, 3, 5, 8, 20, 64, 65, 256, 300])
        top = max(2, min(g.cycle('wtop', [2, 10, 100, 1000, 20000, 100000]), 800000 // n))
        kind = g.cycle('wkind', ['alike', 'alike', 'different', 'growing', 'random', 'some empty'])
        if kind == 'alike':
            sizes = [top] * (n - 1) + [g.cycle('wlast', [1, top, top // 2, top - 1])]
        elif kind == 'different':
            sizes = [1 + (j * 7919) % top for j in range(n)]
        elif kind == 'growing':
            sizes = [min(2**min(j, 16), top) for j in range(n)]
        elif kind == 'random':
            sizes = [g.rnd.randrange(top + 1) for j in range(n)]
        else:
            sizes = [g.rnd.choice([0, 0, 1, top]) for j in range(n)]
        w = {'chunk': g.cycle('wst1', ['stated', 'unknown']) if kind == 'alike' else 'unknown',
             'last': g.cycle('wst2', ['stated', 'unknown']), 'offs': g.cycle('wof', ['none', 'known', 'known', 'unknown']),
             'cap': 0, 'csum': g.rnd.randrange(9)}
        if w['offs'] != 'none':
            w['cap'] = g.cycle('wcap2', [0, 1, 7, 1000])
        else:
            w['counted'] = g.cycle('wcnt', [True, False])
        op = written(g, w, sizes, z=chunk_settings(g, g.rnd.randrange(1, 6)))
        if i % 2:
            op['meta'], op['m'] = value(g), section(g)
        out.append(scenario('wm%d' % i, [op] + reads(g, 3) + looks(g) + changes(g, op, sum(sizes))))
    return out


def arrays(g):
    """arrays described by somebody else, in chunks that need not be of whole items"""
    out = []
    for i, (dt, sh, order, name) in enumerate(g2.DESCRIPTIONS * g.scale(3, 12)):
        item = g2.item_size(name)
        need = item
        for k in sh:
            need *= k
        n = need + (g.rnd.choice([0, 0, 0, 1, -1, item]) if need else 0)
        cut = g.cycle('wcut', ['one', 'items', 'odd', 'any'])
        if cut == 'one' or n <= 1:
            sizes, known = [n], True
        elif cut == 'any':
            at = sorted(g.rnd.randrange(n + 1) for _ in range(3))
            sizes, known = [b - a for a, b in zip([0] + at, at + [n])], False
        else:
            c = min(n, item if cut == 'items' else g.cycle('wodd', [1, 3, 5, 7, item + 1]))
            sizes = [c] * (n // c) + ([n % c] if n % c else [])
            known = True
        w = {'chunk': g.cycle('wst1', ['stated', 'unknown']) if known else 'unknown', 'last': g.cycle('wst2', ['stated', 'unknown']),
             'offs': g.cycle('wof', ['none', 'known', 'known', 'unknown']), 'cap': 0, 'csum': g.rnd.randrange(9)}
        w['counted'] = w['offs'] != 'none' or g.cycle('wacnt', [True, False])
        op = written(g, w, sizes, meta=g2.array_meta(dt, sh, order, extra=g.cycle('wex', ['DROP', 1, {'a': []}])), m=section(g))
        op['as'] = {'dt': name, 'sh': sh, 'order': order}
        op['data']['k'] = g.cycle('wak', ['rnd', 'seq', 'zero'])
        out.append(scenario('wa%d' % i, [op] + reads(g, 1) + [
            {'op': 'ndunpack', 'f': 'A', 'entry': e, 'need': need} for e in g.rnd.sample(g2.ND_UNPACK, 2)] + looks(g)))
    return out


def grown(g):
    """containers that have everything the library's own have, appended to"""
    out = []
    for i in range(g.scale(60, 900)):
        c = g.cycle('wgc', [2, 5, 16, 100, 1000, 4096, 20000])
        n = g.cycle('wgn', [1, 2, 3, 7])
        w = {'chunk': g.cycle('wgk', ['stated', 'stated', 'larger']) if n == 1 else 'stated', 'last': 'stated', 'offs': 'known',
             'cap': g.cycle('wgp', [2, 5, 50]), 'csum': g.rnd.randrange(9)}
        sizes = [c] * (n - 1) + [g.cycle('wgl', [1, c, c - 1, c // 2])]
        op = written(g, w, sizes, ts=g.cycle('wgt', [8, 1, 4, 255, 16, 3]))
        if w['chunk'] == 'larger':
            op['chunk'] = sizes[0] + g.cycle('wgx', [1, 5, 1000, 100000])
        if i % 2:
            op['meta'], op['m'] = value(g), section(g)
        ops = [op]
        for _ in range(4):
            ops += changes(g, op, sum(sizes))
        out.append(scenario('wg%d' % i, ops + looks(g)))
    return out


def partly(g):
    """appending to those that do not state everything: it need not work"""
    out = []
    for i in range(g.scale(30, 400)):
        c = g.cycle('wpc', [5, 100, 4096])
        n = g.cycle('wpn', [1, 2, 3])
        w = {'chunk': g.cycle('wpk', ['stated', 'stated', 'unknown']), 'last': g.cycle('wpl', ['unknown', 'unknown', 'stated']),
             'offs': g.cycle('wpo', ['known', 'known', 'known', 'unknown', 'none']), 'cap': 0, 'csum': g.rnd.randrange(9)}
        if w['offs'] != 'none':
            w['cap'] = g.cycle('wpp', [0, 1, 7])
        op = written(g, w, [c] * (n - 1) + [g.cycle('wpx', [1, c, c - 1, c // 2])], ts=g.cycle('wpt', [8, 8, 4, 0]))
        if i % 2:
            op['meta'], op['m'] = value(g), section(g)
        ops = [op]
        for _ in range(3):
            a = g.append(g.cycle('wpa', [0, 1, 2, c // 2, c, 3 * c]))
            ops += [a] + reads(g, 1)
        out.append(scenario('wp%d' % i, ops))
    return out


def null_metadata(g):
    """metadata that is replaced by null, and by something else again"""
    out = []
    for i in range(g.scale(12, 120)):
        c = g.cycle('xc', [10, 100, 1000])
        op = g.pack(cs=c, n=g.cycle('xn', [5, 35, 250, 1000]), meta=1, offsets=True, cap=g.cycle('xcap', [3, 20]))
        op['ma'] = {'max': {'mul': 2, 'add': 40}, 'meta_checksum': g.cycle('xck', CHECKSUMS)}
        ops = [op, {'op': 'rewrite', 'f': 'A', 'meta': None, 'kw': g.cycle('xkw', [{}, {'codec': 'None'}, {'codec': None}])}]
        for _ in range(3):
            ops += reads(g, 1) + [g.append(g.cycle('xap', [0, 1, c // 2, c, c + 7]))] + reads(g, 1)
            if g.rnd.random() < 0.3:
                ops += [{'op': 'rewrite', 'f': 'A', 'meta': g.cycle('xv', [None, {'a': 1}, 'x', 0, [], '']), 'kw': {}}]
        out.append(scenario('null%d' % i, ops + looks(g)))
    return out


def hurt_ones(g):
    """damaged and cut"""
    out = []
    hs = [h for h in g.histories.get('ComposeMC', []) if h['w']['n'] > 0 and (h['w']['csum'] or h['w']['m'].get('csum'))] or \
        [{'w': {'chunk': 'unknown', 'last': 'unknown', 'offs': o, 'cap': 0, 'csum': c, 'm': {'p': False}}, 'sizes': s}
         for o in ('none', 'known', 'unknown') for c in (1, 6) for s in ([1, 2], [2, 0, 2], [2, 2, 1])]
    for i, h in enumerate(g.sample(hs, g.scale(40, 600)) if len(hs) > 20 else hs):
        w, sizes = h['w'], [[0, 30, 77][k] for k in h['sizes']]
        op = written(g, w, sizes)
        if w['m']['p']:
            op['meta'], op['m'] = value(g), section(g, w['m']['codec'], w['m']['slack'], w['m']['csum'], w['m']['junk'])
        ops = [op]
        for _ in range(4):
            ops += [hurt(g, 'meta' in op), dict(reads(g, 1)[0], f='B')]
        for _ in range(4):
            ops += [{'op': 'trunc', 'f': 'A', 'g': 'B', 'frac': g.rnd.random()}, dict(reads(g, 1)[0], f='B')]
        out.append(scenario('wh%d' % i, ops))
    return out


COMPOSED = [histories, many, arrays, grown, partly]
