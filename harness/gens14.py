"""Replacements of metadata that are interrupted."""
import json

from gens import CHECKSUMS, METAS, crash_settings, scenario

CODEC = {0: 'None', 1: 'zlib'}
SAME = {'adler32': ['adler32', 'crc32'], 'crc32': ['crc32', 'adler32']}


def text(g, v, unit):
    """a value of the model, a letter of which is so long"""
    r = g.rnd
    return ''.join('q' * unit if x == 1 else ''.join(r.choice('abcdefghijklmnoprstuvwxyz0123456789') for _ in range(unit))
                   for x in v)


def start(g, i, meta, ma):
    cs = g.cycle('pcs', [10, 100, 1000])
    op = g.pack(cs=cs, n=g.cycle('pn', [1, cs, 3 * cs, 2 * cs + 5, 7]), offsets=True, cap=g.cycle('pcap', [30, 50]), meta=0)
    op['meta'], op['ma'] = meta, ma
    op['bp']['checksum'] = g.cycle('pc', CHECKSUMS)
    return op


def crash(g, i, meta, kw, entry=None):
    op = {'op': 'crashreplace', 'f': 'A', 'meta': meta, 'kw': kw, 'seed': i, 'cuts': 120 if g.full else 14,
          'faults': 40 if g.full else 6, 'entry': entry or g.cycle('pe', ['path', 'fp'])}
    if op['entry'] == 'cmd':
        op['data'] = g.data(g.cycle('pd', [0, 1, 5, 300]))
        op['kw'] = {}
    return op


def replacements(g):
    """those of the model"""
    out, by = [], {}
    for h in g.histories.get('Replace', []):
        w, n = h['was'], h['now']
        by.setdefault((len(w['v']), len(n['v']), len(set(w['v'])), len(set(n['v'])), w['k'], n['k'], w['c'] == n['c']), []).append(h)
    keys = sorted(by)
    g.rnd.shuffle(keys)
    for i, k in enumerate(keys[:g.scale(90, 1000)]):
        h = g.rnd.choice(by[k])
        unit = g.cycle('pu', [1, 5, 20, 20, 100, 400])
        csum = g.cycle('pcs1', CHECKSUMS[1:] + ['adler32', 'crc32', 'adler32', 'crc32', 'None'])
        old, new = text(g, h['was']['v'], unit), text(g, h['now']['v'], unit)
        if old == new:
            new += 'x'
        other = g.cycle('psame', SAME[csum]) if csum in SAME else csum
        ops = [start(g, i, old, {'meta_codec': CODEC[h['was']['k']], 'meta_checksum': csum, 'meta_level': g.cycle('plv', list(range(10))),
                                 'max': max(len(old), len(new)) + g.cycle('pmx', [2, 3, 40])})]
        kw = {'codec': CODEC[h['now']['k']], 'level': g.cycle('pl2', [None, 6, 1, 9]),
              'checksum': None if csum == other else other}
        ops.append(crash(g, i, new, kw))
        ops.append({'op': 'rewrite', 'f': 'A', 'meta': new, 'kw': kw})
        ops += g.reads(k=1)
        out.append(scenario('pr%d' % i, ops))
    return out


def replaced_values(g):
    """other values, after other operations, and on the command line"""
    out = []
    metas = [m for m in METAS if m is not None]
    for i in range(g.scale(60, 1000)):
        a, b = g.cycle('va', metas), g.cycle('vb', metas[3:] + metas[:3])
        if a == b:
            continue
        size = max(len(json.dumps(a)), len(json.dumps(b)))
        p = start(g, i, a, {'meta_checksum': g.cycle('vc', CHECKSUMS), 'max': size + g.cycle('vm', [0, 20, 300])})
        ops = [p]
        if g.rnd.random() < 0.4:
            ops.append(g.append(g.cycle('vap', [1, 30, 200])))
        ops.append(crash(g, 500 + i, b, {}, g.cycle('ve', ['cmd', 'path', 'cmd', 'fp'])))
        ops.append({'op': 'rewrite', 'f': 'A', 'meta': b, 'kw': {}})
        ops += g.reads(k=1)
        if g.rnd.random() < 0.5:
            ops.append(crash(g, 900 + i, a, {}))
        out.append(scenario('pv%d' % i, ops))
    return out


REPLACED = [replacements, replaced_values]
