"""Relations: quantities that have nothing to do with each other happen to be
equal, off by one, multiples of each other."""
import gens2 as g2
import gens4 as g4
from gens import (APPEND, CHECKSUMS, CNAMES, PACK_FILE, PACK_MEM, crash_settings, hurt, scenario)
from gens5 import text, values

DIGEST = {'None': 0, 'adler32': 4, 'crc32': 4, 'md5': 16, 'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64}
RELS = [('eq', lambda y, g: y), ('next', lambda y, g: y + 1), ('prev', lambda y, g: y - 1), ('dbl', lambda y, g: 2 * y),
        ('mul', lambda y, g: y * g.cycle('rmul', [3, 4, 5, 7, 8, 10, 16])), ('half', lambda y, g: y // 2),
        ('div', lambda y, g: y // g.cycle('rdiv', [3, 4, 8, 10])), ('eq', lambda y, g: y), ('sq', lambda y, g: y * y)]
FREE = ['cs', 'last', 'nch', 'ts', 'cap', 'ms', 'mx', 'p1', 'p2', 'lv']
SEEN = FREE + ['n', 'room', 'dig', 'tab', 'slots', 'mdig', 'start', 'c16', 'c32', 'newch']


def whole(q):
    """the quantities that follow from the others"""
    q['n'] = (q['nch'] - 1) * q['cs'] + q['last']
    q['room'] = q['cs'] - q['last']
    q['newch'] = max(0, -(-(q['p1'] - q['room']) // max(1, q['cs'])))
    q['slots'] = q['nch'] + q['cap']
    q['tab'] = 8 * q['slots']
    q['start'] = 32 + (32 + q['mx'] + q['mdig'] if q['m'] else 0) + q['tab']
    q['c16'], q['c32'] = 16, 32
    return q


def sound(q):
    return 1 <= q['cs'] <= 200000 and 1 <= q['last'] <= q['cs'] and 1 <= q['nch'] <= 300 and 1 <= q['ts'] <= 255 and \
        0 <= q['cap'] <= 2000 and 2 <= q['ms'] <= 5000 and 0 <= q['mx'] <= 20000 and 0 <= q['p1'] <= 300000 and \
        0 <= q['p2'] <= 300000 and 0 <= q['lv'] <= 9 and q['n'] <= 400000 and q['newch'] <= 400 and (q['p1'] + q['p2']) // q['cs'] < 800


def related(g, tag='', small=False, **fixed):
    """quantities between which some relation holds"""
    for _ in range(200):
        q = {'cs': g.cycle('qcs' + tag, [1, 2, 5, 8, 12, 16, 20, 31, 64, 100, 240, 256, 1000, 1024, 4096]),
             'nch': g.cycle('qn' + tag, [1, 2, 3, 4, 5, 8, 12, 20, 40]), 'ts': g.cycle('qt' + tag, [1, 2, 4, 8, 3, 16, 100, 255]),
             'cap': g.cycle('qc' + tag, [0, 1, 2, 4, 10, 30]), 'ms': g.cycle('qm' + tag, [2, 7, 15, 30, 100, 333]),
             'p1': g.cycle('qp' + tag, [1, 7, 16, 50, 200, 1000, 5000]), 'p2': g.cycle('qq' + tag, [0, 1, 9, 100, 3000]),
             'lv': g.rnd.randrange(10)}
        q['last'] = g.cycle('ql' + tag, [1, q['cs'], (q['cs'] + 1) // 2, max(1, q['cs'] - 1)])
        q['mx'] = q['ms'] * g.cycle('qx' + tag, [1, 2, 3, 10])
        q['csum'] = g.cycle('qk' + tag, CHECKSUMS)
        q['mcsum'] = g.cycle('qmk' + tag, CHECKSUMS)
        q['dig'], q['mdig'] = DIGEST[q['csum']], DIGEST[q['mcsum']]
        q['m'] = g.rnd.random() < 0.6
        q.update(fixed)
        whole(q)
        for _ in range(2):
            x, y = g.cycle('qX' + tag, FREE), g.cycle('qY' + tag, SEEN)
            if x == y:
                continue
            if 'm' in (x[0], y[0]) or 'mx' in (x, y):
                q['m'] = True
            new = dict(q)
            new[x] = g.cycle('qR' + tag, RELS)[1](q[y], g)
            if x == 'cs':
                new['last'] = new['cs'] if q['last'] == q['cs'] else max(1, new['cs'] - 1) if q['last'] > 1 else 1
            if x in fixed:
                continue
            whole(new)
            if sound(new):
                q = new
                break
        else:
            continue
        if small and (q['nch'] > 40 or q['n'] > 50000 or q['newch'] > 40):
            continue
        if sound(q):
            return q
    raise RuntimeError('no quantities')


def pack_of(g, q, entry=None, **kw):
    op = g.pack(cs=q['cs'], n=q['n'], entry=entry, meta=0, offsets=kw.get('offsets', True), cap={'mul': 0, 'add': q['cap']})
    op['bl'] = dict(op.get('bl') or {}, typesize=q['ts'])
    if g.rnd.random() < 0.5:
        op['bl']['clevel'] = q['lv']
    op['bp']['checksum'] = q['csum']
    if q['m']:
        op['meta'] = text(max(0, q['ms'] - 2), g)
        op['ma'] = {'meta_checksum': q['mcsum'], 'meta_codec': g.cycle('qmc', ['zlib', 'None']), 'max': q['mx']}
        if g.rnd.random() < 0.5:
            op['ma']['meta_level'] = q['lv']
    return op


def lives(g):
    """pack, append, replace, append"""
    out = []
    for i in range(g.scale(130, 1500)):
        q = related(g, 'l')
        op = pack_of(g, q, offsets=g.rnd.random() < 0.95)
        ops = [op] + g.reads(k=2) + [g.append(q['p1'])] + g.reads(k=2)
        if q['m']:
            k = g.cycle('qr', ['mx', 'ms', 'p2', 'nch', 'dig', 'cs'])
            ops += [{'op': 'rewrite', 'f': 'A', 'meta': text(max(0, q[k] - 2), g) if q[k] < 30000 else ['w'],
                     'kw': g.cycle('qrk', [{}, {'codec': 'None'}, {'level': q['lv']}])}] + g.reads()
        ops += [g.append(q['p2'])] + g.reads(k=2)
        out.append(scenario('life%d' % i, ops))
    return out


def plain_lives(g):
    """pack only, through every entry point, and every reader"""
    out = []
    for i in range(g.scale(130, 1500)):
        q = related(g, 'p')
        mem = i % 4 == 0
        op = pack_of(g, q, entry=g.cycle('qpm', PACK_MEM) if mem else g.cycle('qpe', PACK_FILE), offsets=g.rnd.random() < 0.8)
        if mem and 'ma' in op:
            op['ma'].pop('max')
        out.append(scenario('plain%d' % i, [op] + g.all_reads(mem=mem)))
    return out


def damaged_lives(g):
    out = []
    for i in range(g.scale(60, 600)):
        q = related(g, 'd', csum=CHECKSUMS[1 + i % 8], mcsum=CHECKSUMS[1 + i // 8 % 8])
        op = pack_of(g, q)
        ops = [op]
        if g.rnd.random() < 0.5:
            ops += [g.append(q['p1'])] + g.reads()
        for _ in range(g.scale(6, 15)):
            ops.append(hurt(g, q['m']))
            ops += g.reads('B', 2)
            if g.rnd.random() < 0.3:
                ops.append(dict(g.append(q['p2']), f='B'))
        out.append(scenario('dmglife%d' % i, ops))
    return out


def truncated_lives(g):
    out = []
    for i in range(g.scale(40, 400)):
        q = related(g, 't', small=True)
        op = pack_of(g, q, offsets=g.rnd.random() < 0.7)
        ops = [op]
        if op['bp']['offsets'] and g.rnd.random() < 0.5:
            ops += [g.append(q['p1'])] + g.reads()
        for j in range(30):
            t = {'op': 'trunc', 'f': 'A', 'g': 'B'}
            if j < 8:
                t['len'] = -1 - j
            elif j < 14:        # by so much
                t['len'] = -max(1, g.cycle('qtl', [q['dig'], q['last'], q['ts'], q['cs'], 16, 8 * q['nch'], q['dig'] + 1]))
            else:
                t['frac'] = g.rnd.random()
            ops += [t] + g.reads('B')
        out.append(scenario('trunclife%d' % i, ops))
    return out


def interrupted_packs(g):
    out = []
    for i in range(g.scale(25, 200)):
        q = related(g, 'ip', small=True)
        op = crash_settings(g, pack_of(g, q, offsets=g.rnd.random() < 0.85))
        op.update(op='crashpack', fentry=g.cycle('kfe', ['f2f', 'b2f', 'fp', 'f2f']), seed=3000 + i,
                  cuts=g.scale(25, 100), faults=g.scale(8, 30))
        out.append(scenario('kplife%d' % i, [op] + g.reads()))
    # numbers that the sources mention
    new, old = values(g)
    for v in [v for v in new if v <= 300] + [g.cycle('ipv', [v for v in old if v <= 130]) for _ in range(g.scale(4, 30))]:
        cs = g.cycle('ipc', [1, 2, 7, 30])
        op = crash_settings(g, g.pack(cs=cs, n=cs * v, offsets=True, cap=g.cycle('ipp', [0, 3]), meta=0.3))
        op.update(op='crashpack', fentry=g.cycle('kfe', ['f2f', 'b2f', 'fp', 'f2f']), seed=4000 + v, cuts=g.scale(25, 100), faults=g.scale(8, 30))
        out.append(scenario('kpnew%d-%d' % (v, len(out)), [op] + g.reads()))
    return out


def interrupted_appends(g):
    out = []
    jobs = [related(g, 'ia', small=True) for _ in range(g.scale(25, 200))]
    new, old = values(g)
    for v in [v for v in new if v <= 300] + [g.cycle('iav', [v for v in old if v <= 130]) for _ in range(g.scale(4, 30))]:
        cs = g.cycle('ipc', [1, 2, 7, 30])
        k = g.cycle('iak', ['before', 'piece', 'cs'])
        q = related(g, 'iv', small=True)
        q.update({'before': {'nch': v, 'cs': cs, 'last': cs, 'p1': 3 * cs}, 'piece': {'nch': 2, 'cs': cs, 'last': 1, 'p1': cs * v},
                  'cs': {'nch': 3, 'cs': v, 'last': v, 'p1': 2 * v + 1}}[k])
        jobs.append(whole(q))
    for i, q in enumerate(jobs):
        q['cap'] = max(q['cap'], q['newch'] + 3)
        op = crash_settings(g, pack_of(g, whole(q)))
        ops = [op]
        if g.rnd.random() < 0.3:
            ops.append(g.append(min(q['p2'], q['room'])))
        a = g.append(q['p1'])
        if g.rnd.random() < 0.5:
            a['a'] = {'obj': {'typesize': q['ts'], 'clevel': g.cycle('ial', [0, 9, 1]), 'cname': g.cycle('iac', CNAMES)}}
        a.pop('around', None)
        a.update(op='crashappend', entry=g.cycle('kae', ['path', 'fp']), seed=5000 + i, cuts=g.scale(25, 100), faults=g.scale(8, 30))
        out.append(scenario('kalife%d' % i, ops + [a] + g.reads()))
    return out


def streamed_lives(g):
    out = []
    jobs = [related(g, 's') for _ in range(g.scale(30, 300))]
    new, old = values(g)
    for v in new + [g.cycle('isv', old) for _ in range(g.scale(10, 60))]:
        for k in (['cs', 'nch', 'p1'] if v in new else [g.cycle('isk', ['cs', 'nch', 'p1'])]):
            q = related(g, 'sv', small=True)
            cs = g.cycle('isc', [1, 16, 1000])
            if k == 'cs' and v <= 400000:
                q.update(cs=v, nch=7, last=v, p1=6 * v + 1)
            elif k == 'nch' and v <= 1100:
                q.update(cs=cs, nch=v, last=1, p1=9 * cs)
            elif k == 'p1' and v <= 2000000:
                q.update(cs=max(1, v // 12), nch=2, last=1, p1=v)
            else:
                continue
            jobs.append(whole(q))
    for i, q in enumerate(jobs):
        q['cap'] = max(q['cap'], 2 * q['newch'] + 3)
        op = crash_settings(g, pack_of(g, whole(q)))
        op.update(op='io', kind='pack', fentry=g.cycle('kfe2', ['f2f', 'fp', 'f2f']))
        un = {'op': 'io', 'kind': 'unpack', 'f': 'A'}
        a = g.append(q['p1'])
        a.pop('around', None)
        a.update(op='io', kind='append', entry=g.cycle('kae', ['path', 'fp']))
        out.append(scenario('iolife%d' % i, [op, dict(un, entry=g.cycle('iue', ['f2f', 'fp'])), a, dict(un, entry=g.cycle('iue', ['f2f', 'fp']))] +
                            g.reads()))
    return out


def routed_lives(g):
    """the same through all entry points"""
    out = []
    jobs = [related(g, 'r') for _ in range(g.scale(25, 250))]
    new, old = values(g)
    for v in new + [g.cycle('irv', old) for _ in range(g.scale(8, 60))]:
        q = related(g, 'rv', small=True)
        k = g.cycle('irk', ['cs', 'nch', 'p1', 'ts', 'cap', 'ms', 'mx'])
        if k == 'cs' and v <= 100000:
            q.update(cs=v, nch=3, last=v)
        elif k == 'nch' and v <= 300:
            q.update(cs=5, nch=v, last=1)
        elif k == 'p1' and v <= 100000:
            q.update(cs=max(1, v // 12), nch=2, last=1, p1=v)
        elif k == 'ts' and v <= 255:
            q.update(ts=v)
        elif k == 'cap' and v <= 2000:
            q.update(cap=v)
        elif k == 'ms' and 2 <= v <= 5000:
            q.update(ms=v, mx=2 * v, m=True)
        elif k == 'mx' and v <= 20000:
            q.update(mx=max(v, q['ms']), m=True)
        else:
            continue
        jobs.append(whole(q))
    for i, q in enumerate(jobs):
        op = pack_of(g, q, offsets=g.rnd.random() < 0.8)
        op.pop('over', None)
        fits = 'meta' not in op or q['ms'] <= q['mx']
        if not fits and op['ma'].get('meta_codec') != 'None':
            op['ma']['max'] = q['ms']           # whether it fits is up to zlib
            fits = True
        ops = [g4.alike(dict(op, f='F' + e, entry=e), 'p') for e in PACK_FILE]
        if fits:
            ops.append(g4.alike(dict(op, f='Fx', entry='fp'), 'm', oh='chunks'))
            for e in PACK_MEM:
                ops.append(g4.alike(dict(op, f='M' + e, entry=e), 'm', oh='chunks'))
                ops += [g4.alike(dict(o, f='M' + e), 'u') for o in g.reads(mem=True)]
        ops += [g4.alike(dict(o, f='F' + PACK_FILE[0]), 'u') for o in g.all_reads()]
        a = g.append(q['p1'])
        for k, e in enumerate(PACK_FILE):
            ops.append(g4.alike(dict(a, f='F' + e, entry=APPEND[(k + i) % len(APPEND)]), 'a'))
        ops += [g4.alike(dict(o, f='F' + g.cycle('rle', PACK_FILE)), 'v') for o in g.reads(k=3)]
        out.append(scenario('route-life%d' % i, ops))
    return out


def array_lives(g):
    out = []
    for i in range(g.scale(80, 800)):
        dt = g.cycle('nad', ['<i2', '<f8', '>i4', 'S7', '<i8', 'u1', 'S16', 'U3', 'c16', 'S100', 'rec'])
        it = g2.item_size(dt)
        q = {'it': it, 'per': g.cycle('nap', [1, 2, 3, 5, 8, 16]), 'nch': g.cycle('nan', [1, 2, 3, 7, 20]), 'd0': g.cycle('na0', [1, 2, 3, 5, 16]),
             'rest': g.cycle('nar', [0, 1, 2])}
        x, y = g.cycle('naX', ['per', 'nch', 'd0']), g.cycle('naY', ['per', 'nch', 'd0', 'it'])
        q[x] = max(1, min(200, g.cycle('naR', RELS)[1](q[y], g)))
        items = max(1, min(20000, q['per'] * q['nch'] + q['rest']))
        d0 = q['d0']
        sh = g.cycle('nas', ['flat', 'two', 'owt', 'sq', 'three'])
        shape = {'flat': [items], 'two': [d0, max(1, items // d0)], 'owt': [max(1, items // d0), d0], 'sq': [d0, d0],
                 'three': [d0, q['nch'], q['per']]}[sh]
        op = g2.nd_op(g, dt, shape, order=g.cycle('nao', ['C', 'F']))
        op['cs'] = it * q['per']
        ops = [op]
        for e in g2.nd_reads(g, op):
            ops.append(e)
        out.append(scenario('arrlife%d' % i, ops))
    return out
