"""What verbose operations say is true."""
import json

import gens2 as g2
import gens3 as g3
from gens import APPEND, METAS, scenario

PACKS = ['f2f', 'b2f', 'b2b', 'f2f', 'b2b', 'dep_f2f', 'dep_b2f', 'fp']
LEVEL = ['verbose', 'debug', 'debug']


def report(g, o):
    return {'op': 'report', 'level': g.cycle('rl', LEVEL), 'do': o}


def geometry(g, n):
    return max(1, n // 60 + 1, g.cycle('rcs', [1, 7, 100, 512, 1000, 1024, 1025, 4096, 10240, 65536, 100000]))


LENGTHS = [0, 1, 5, 100, 511, 999, 1000, 1023, 1024, 1025, 1029, 1030, 1034, 1035, 1536, 2047, 2048, 10239, 10240, 10291,
           10292, 32768, 65535, 65536, 100000, 102400, 102350, 1048575, 1048576, 1053818, 1053819, 1572864]


def told_lives(g):
    """pack, unpack, append and read, all of it verbose"""
    out = []
    for n in range(g.scale(100, 2500)):
        k = g.cycle('rn', LENGTHS) if g.rnd.random() < 0.7 else g.rnd.randrange(200000)
        p = g.pack('A')
        p.update(entry=g.cycle('rpe', PACKS), data={'n': k, 'k': g.cycle('rk', ['mix', 'rnd', 'zero', 'text']), 's': n})
        p['cs'] = geometry(g, k) if g.rnd.random() < 0.8 else g.cycle('rcx', ['1M', '64K', '1.5K', 65536])
        if k > 200000 and p['cs'] == '1.5K':
            p['cs'] = '64K'
        for q in ('over', 'around'):
            p.pop(q, None)
        ops = [report(g, p), report(g, {'op': 'unpack', 'f': 'A', 'entry': g.cycle('rue', ['f2f', 'f2f', 'b2b', 'dep_f2f', 'f2b'])})]
        for _ in range(g.rnd.randrange(3)):
            c = p['cs'] if isinstance(p['cs'], int) else 1000
            a = g.append(min(60 * c, g.cycle('rap', [0, 1, 10, c, 2 * c, 3 * c + 1, 1024, 1500])))
            a['entry'] = g.cycle('rae', ['path', 'path', 'path'] + APPEND)
            ops.append(report(g, a))
            ops.append(report(g, {'op': 'unpack', 'f': 'A', 'entry': 'f2f'}))
        out.append(scenario('tl%d' % n, ops))
    return out


def told_arrays(g):
    """arrays packed and read verbosely, appended to in between"""
    out = []
    for n in range(g.scale(40, 1000)):
        dt = g.cycle('rdt', g2.PLAIN_DT + g2.REC_DT + g2.PAD_DT)
        sh = g.cycle('rsh', [[0], [], [1], [7], [100], [3, 5], [2, 3, 4], [1000], [33, 31], [4096]])
        p = g2.nd_op(g, dt, sh, entry=g.cycle('rnd', [x for x in g2.ND_PACK if x != 'mem']))
        ops = [report(g, p)] + [report(g, x) for x in g2.nd_reads(g, p, 2)]
        if g.rnd.random() < 0.4:
            ops.append(report(g, {'op': 'unpack', 'f': 'A', 'entry': 'f2f'}))
        out.append(scenario('ta%d' % n, ops))
    return out


def told_commands(g):
    """the same on the command line"""
    out = []
    for n in range(g.scale(50, 1200)):
        k = g.cycle('cn', LENGTHS[:-8]) if g.rnd.random() < 0.7 else g.rnd.randrange(50000)
        ops = [{'op': 'file', 'n': 'A', 'data': {'n': k, 'k': g.cycle('ck', ['mix', 'rnd', 'zero', 'text']), 's': n}}]
        c = g3.cmd(g, 'compress', 'A', g.cycle('co', ['', 'B.blp', '']))
        g3.options(g, c, k)
        if g.rnd.random() < 0.5:
            c['opts']['nt'] = g3.tag(g.cycle('cnt', [1, 2, 3, 8, 9, 30, 123]))
        if g.rnd.random() < 0.4:
            ops.append({'op': 'file', 'n': 'meta.json', 'text': json.dumps(g.cycle('clim', METAS))})
            c['m'] = 'meta.json'
        box = c['out'] or 'A.blp'
        if g.rnd.random() < 0.3:
            ops.append({'op': 'file', 'n': box, 'data': {'n': 50, 's': 3}})
            c['force'] = True
        ops.append(report(g, c))
        d = g3.cmd(g, 'decompress', box, g.cycle('cd', ['out', 'out', '']))
        if not d['out'] or g.rnd.random() < 0.3:
            d['force'] = True
            if d['out'] and g.rnd.random() < 0.5:
                ops.append({'op': 'file', 'n': 'out', 'data': {'n': 5, 's': 3}})
        ops.append(report(g, d))
        if g.rnd.random() < 0.6:
            ops.append({'op': 'file', 'n': 'N', 'data': {'n': g.cycle('can', [0, 1, 100, 1024, 5000]), 's': n}})
            a = g3.cmd(g, 'append', box, 'N')
            ops.append(report(g, a))
            ops.append(report(g, g3.cmd(g, 'info', box)))
        out.append(scenario('tc%d' % n, ops))
    return out


def told_sizes(g):
    """every border of the units and of rounding"""
    ns = {0}
    for k in range(0, 31):
        for m in (1, 3, 5, 999, 1000, 1001, 1023):
            for d in (-11, -6, -5, -1, 0, 1, 5, 6, 10, 51, 512, 5242, 5243, 5368709):
                ns.add((m << k) // 2 + d)
    ns |= {g.rnd.randrange(1 << g.rnd.randrange(1, 31)) for _ in range(400)}
    ns = sorted(n for n in ns if 0 <= n < 2 ** 31 - 2 ** 26)
    g.rnd.shuffle(ns)
    return [scenario('ts%d' % i, [{'op': 'sizes', 'ns': ns[i:i + 100]}]) for i in range(0, len(ns), 100)]


TOLD = [told_lives, told_arrays, told_commands, told_sizes]
