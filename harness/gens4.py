"""Generators for what surrounds operations: sessions, levels, threads, entry
points, schedules."""
import json

import gens2
import gens3
from gens import (APPEND, CHECKSUMS, CNAMES, METAS, PACK_FILE, PACK_MEM, UNPACK, UNPACK_MEM, scenario)
from gens2 import ND_PACK, ND_UNPACK, array_meta

SMALL = [{'a': 1}, 'x', [1], {}, 0]             # not worth compressing
LARGE = ['a' * 300, list(range(100)), {'k%d' % i: 'value' for i in range(30)}]
ROOMY = {'mul': 3, 'add': 40}


# ------------------------------------------------------------------ C18

class Session(object):
    """the concrete operations of one process: two argument objects, two
    inputs of each kind, a few containers to read and to append to"""

    def __init__(self, g):
        self.g = g
        cs = g.cycle('scs', [16, 100, 1000])
        self.data = {d: g.data(cs * g.cycle('sn%d' % d, [1, 2, 3, 5]) + g.cycle('snd', [0, 1, -1])) for d in (1, 2)}
        self.cs = {1: cs, 2: g.cycle('scs2', [16, 64, 100, '1K'])}
        alike = g.cycle('salike', ['no', 'size', 'data', 'no', 'chunks', 'all but metadata'])
        if alike in ('size', 'chunks', 'all but metadata'):
            self.data[2]['n'] = self.data[1]['n']
        if alike in ('data', 'all but metadata'):
            self.data[2] = dict(self.data[1])
        if alike in ('chunks', 'all but metadata'):
            self.cs[2] = cs
        self.meta = {1: g.cycle('ssm', SMALL), 2: g.cycle('slm', LARGE)}
        if alike != 'no' and g.rnd.random() < 0.5:      # equally long, or equal but for the type
            self.meta[2] = {'{"a": 1}': {'a': True}, '"x"': 'y', '[1]': [True], '{}': [], '0': False}[json.dumps(self.meta[1])]
        self.look = g.rnd.random() < 0.6
        self.args = {}
        for o in ('o1', 'o2', 'none'):
            a = {}
            if o != 'none':
                bl = {k: v for k, v in (g.blosc(0) or {}).items()}
                if o == 'o1':
                    bl.pop('typesize', None)
                a['bl'] = bl
                a['bp'] = g.bp(offsets=True)
                a['ma'] = {'max': ROOMY, 'meta_checksum': g.cycle('smk', CHECKSUMS), 'meta_level': g.cycle('sml', list(range(10)))}
            self.args[o] = a
        self.entry = {'pack': g.cycle('spe', PACK_FILE), 'mem': g.cycle('sme', PACK_MEM), 'ndpack': g.cycle('sne', ND_PACK),
                      'append': g.cycle('sae', APPEND), 'unpack': g.cycle('sue', UNPACK), 'unmem': g.cycle('sume', UNPACK_MEM),
                      'ndunpack': g.cycle('snue', ND_UNPACK)}
        self.dt = {1: g.cycle('sd1', ['i4', 'f4', 'U1', 'i2']), 2: g.cycle('sd2', ['c16', 'rec', 'S17', 'f8'])}
        self.sh = {1: g.cycle('ss1', [[7], [3, 4], [2, 3, 4]]), 2: g.cycle('ss2', [[10], [0], [5, 5]])}
        self.adict = g.rnd.random() < 0.5
        self.resink = g.rnd.random() < 0.3
        self.n = 0

    def base(self):
        """containers that the session finds"""
        g = self.g
        ops = []
        for d in (1, 2):
            ops.append({'op': 'pack', 'f': 'R%d' % d, 'cs': self.cs[d], 'data': self.data[d], 'meta': self.meta[d],
                        'bl': {'typesize': 2}, 'bp': {'max_app': 20, 'checksum': g.cycle('sbk', CHECKSUMS)}, 'ma': {'max': ROOMY}})
            ops.append({'op': 'ndpack', 'f': 'N%d' % d, 'entry': 'bytes', 'arr': {'dt': self.dt[d], 'sh': self.sh[d]}})
        ops.append({'op': 'pack', 'f': 'Z', 'cs': 10, 'data': {'k': 'rnd', 'n': 35, 's': 1}, 'bp': {'max_app': 0}})
        ops.append({'op': 'damage', 'f': 'R1', 'g': 'D', 'pos': -9})
        ops.append({'op': 'trunc', 'f': 'R2', 'g': 'T', 'frac': g.rnd.random()})
        return ops

    def call(self, c, keyed=True, shared=True):
        k, o, d = c['k'], c['o'], c['d']
        a = self.args[o]
        kw = {}
        if keyed:
            kw = {'key': '%s|%s|%d' % (k, o, d), 'tag': 'C18.same_outcome', 'oh': 'error'}
        if shared and o != 'none':
            kw['reuse'] = o
        if k in ('pack', 'mem'):
            op = dict(kw, op='pack', f='P' if k == 'pack' else 'M', entry=self.entry[k], cs=self.cs[d], data=self.data[d],
                      meta=self.meta[d], reuse_meta=d)
            op.update(json.loads(json.dumps(a)))
            if k == 'mem' and self.resink:
                op['resink'] = True
            if not self.look or not keyed:
                return [op]
            # what can be read afterwards, from under a name used before
            return [op, dict(kw, op='unpack', f=op['f'], entry=self.entry['unpack' if k == 'pack' else 'unmem'],
                             key=kw['key'] + '|read')]
        if k == 'ndpack':
            op = dict(kw, op='ndpack', f='Q', entry=self.entry[k], arr={'dt': self.dt[d], 'sh': self.sh[d]})
            op.update(json.loads(json.dumps(a)))
            return [op]
        if k == 'append':
            op = dict(kw, op='append', f='X', entry=self.entry[k], data={'k': 'mix', 'n': 37 * d, 's': d})
            if o != 'none':
                if self.adict and o == 'o1':
                    op['a'] = {'dict': {x: a['bl'].get(x) for x in ('typesize', 'clevel', 'shuffle', 'cname')}}
                else:
                    op['a'] = {'obj': a['bl']}
            return [{'op': 'copy', 'f': 'R1', 'g': 'X'}, op] + self.after('X', kw)
        if k == 'rewrite':
            return [{'op': 'copy', 'f': 'R1', 'g': 'Y'},
                    dict(kw, op='rewrite', f='Y', meta=['other', d], kw={'level': 3} if d == 1 else {})] + self.after('Y', kw)
        if k == 'unpack':
            return [dict(kw, op='unpack', f='R%d' % d, entry=self.entry[k])]
        return [dict(kw, op='ndunpack', f='N%d' % d, entry=self.entry[k])]

    def after(self, f, kw):
        if not self.look or 'key' not in kw:
            return []
        return [dict(kw, op='unpack', f=f, entry=self.entry['unpack'], key=kw['key'] + '|read')]

    def fail(self, c):
        """the call made to fail in one of the ways that it can"""
        g = self.g
        k = c['k']
        pre = self.call(c, keyed=False)
        of = dict(pre[-1])
        of.pop('resink', None)
        how = {}
        if k in ('pack', 'mem'):
            of['f'] = 'PF'
            w = g.cycle('sfp', ['call', 'call', 'fault', 'small', 'cs', 'meta'])
            if w == 'fault' and k == 'pack':
                of['entry'] = g.cycle('sfe', ['f2f', 'b2f'])
                how = {'fault': g.cycle('sff', ['write:out', 'read:in', 'write:out']), 'k': g.rnd.randrange(1, 8), 'exc': g.rnd.randrange(11)}
            elif w == 'small':
                of['ma'] = dict(of.get('ma', {}), max=0)
                of.pop('reuse', None)
            elif w == 'cs':
                of['cs'] = g.cycle('sfc', [0, -1, 'x', 2**40])
            elif w == 'meta':
                of.pop('reuse', None)
                of['ma'] = {'max': -5}
            else:
                how = {'call': g.rnd.randrange(1, 4)}
        elif k == 'ndpack':
            of['f'] = 'PF'
            if g.rnd.random() < 0.3:
                of['arr'] = {'dt': g.cycle('sfo', ['O', 'recO']), 'sh': [3]}
            elif g.rnd.random() < 0.3:
                of['cs'] = 3
            else:
                how = {'call': 1}
        elif k == 'append':
            w = g.cycle('sfa', ['Z', 'D', 'call', 'fault', 'args'])
            if w in 'ZD':
                pre[0] = {'op': 'copy', 'f': w, 'g': 'X'}
                of['data'] = {'k': 'seq', 'n': 5000, 's': 1}
            elif w == 'call':
                how = {'call': g.rnd.randrange(1, 3)}
            elif w == 'args':
                of.pop('reuse', None)
                of['a'] = {'dict': {'typesize': 8}}
            else:
                of['entry'] = 'path'
                how = {'fault': g.cycle('sfq', ['write:out', 'read:in', 'read:out']), 'k': g.rnd.randrange(1, 6), 'exc': g.rnd.randrange(11)}
        elif k == 'rewrite':
            of['meta'] = g.cycle('sfm', ['z' * 9000 + str(list(range(2000))), self.meta[1]])
            of['kw'] = g.cycle('sfk', [{}, {'checksum': 'nope'}, {'codec': 'None'}, {'level': 77}])
        elif k == 'unpack':
            of['f'] = g.cycle('sfu', ['D', 'T', 'gone', 'R1'])
            if of['f'] == 'R1':
                how = {'call': 1}
        else:
            of['f'] = g.cycle('sfn', ['R1', 'D', 'T', 'gone', 'N1'])
            if of['f'] == 'N1':
                how = {'call': 1}
        return pre[:-1] + [{'op': 'disturb', 'of': of, 'how': how}]


def sessions(g):
    """the histories of the model, several of them in one process; before
    them, every call in a process of its own"""
    hs = list(g.histories.get('SessionMC', []))
    hs.sort(key=json.dumps)
    g.rnd.shuffle(hs)
    per = 5
    out = []
    for i in range(0, min(len(hs), g.scale(900, 12000)), per):
        s = Session(g)
        part = hs[i:i + per]
        calls = [c for h in part for c in h]
        fine = {json.dumps([c['k'], c['o'], c['d']]): dict(c, fails=False) for c in calls}
        ops = [{'op': 'solo', 'ops': s.base()}]
        for key in sorted(fine):
            ops.append({'op': 'solo', 'ops': s.call(fine[key], shared=False)})
        for c in calls:
            ops += s.fail(c) if c['fails'] else s.call(c, shared=g.rnd.random() < 0.85)
        # once more at the end, with the objects that have been through it all
        for key in g.rnd.sample(sorted(fine), min(3, len(fine))):
            ops += s.call(fine[key])
        out.append(scenario('sess%d' % (i // per), ops))
    return out


def long_sessions(g):
    """many operations in one process"""
    kinds = ['pack', 'mem', 'ndpack', 'append', 'rewrite', 'unpack', 'ndunpack']
    out = []
    for i in range(g.scale(12, 100)):
        s = Session(g)
        ops = [{'op': 'solo', 'ops': s.base()}]
        fine = [{'k': k, 'o': o, 'd': d} for k in kinds for o in (('none', 'o1', 'o2') if k in kinds[:4] else ('none',))
                for d in (1, 2)]
        for c in fine:
            ops.append({'op': 'solo', 'ops': s.call(c, shared=False)})
        for j in range(g.scale(40, 120)):
            c = g.rnd.choice(fine)
            ops += s.fail(c) if g.rnd.random() < 0.35 else s.call(c, shared=g.rnd.random() < 0.8)
        out.append(scenario('long%d' % i, ops))
    return out


# ------------------------------------------------------------------ C19

def keyed(op, key, tag, **kw):
    return dict(op, key=key, tag=tag, **kw)


def level_ops(g, i):
    """operations of every kind, with inputs of every kind; each list starts
    with what it needs, so that it can be repeated"""
    same = lambda op, key: keyed(op, key, 'C19.same_outcome', oh='error')
    w = g.cycle('lw', ['pack', 'pack', 'mem', 'nd', 'append', 'rewrite', 'fail', 'fail', 'capacity', 'ndfail', 'edge'])
    if w == 'pack':
        op = g.pack(cs=g.cycle('lcs', [1, 16, 100, 1000, '1K']), n=g.cycle('ln', [0, 1, 15, 16, 99, 200]))
        return [same(op, 'p')] + [same(o, 'u' + o['entry']) for o in g.reads(k=2)]
    if w == 'mem':
        op = g.pack(entry=g.cycle('lme', PACK_MEM), cs=g.cycle('lcs', [1, 16, 100, 1000, '1K']), n=g.cycle('ln', [0, 1, 15, 16, 99, 200]))
        return [same(op, 'p')] + [same(o, 'u' + o['entry']) for o in g.all_reads(mem=True)]
    if w == 'nd':
        op = gens2.nd_op(g, g.cycle('ldt', gens2.PLAIN_DT + gens2.REC_DT + gens2.PAD_DT), g.cycle('lsh', [[], [0], [7], [3, 4], [2, 0, 3]]),
                         order=g.cycle('lor', ['C', 'F']))
        return [same(op, 'p')] + [same(o, 'u' + o['entry']) for o in gens2.nd_reads(g, op)]
    if w == 'append':
        cs = g.cycle('las', [10, 100, 1000])
        ops = [same(g.pack(cs=cs, n=g.cycle('lan', [1, cs, 2 * cs + 1]), offsets=True, cap=g.cycle('lac', [0, 1, 5, 50])), 'p')]
        for j in range(3):
            ops.append(same(g.append(g.cycle('lal', [0, 1, cs, 3 * cs, 9 * cs])), 'a%d' % j))
        return ops + [same(o, 'u') for o in g.reads()]
    if w == 'rewrite':
        op = g.pack(cs=100, n=g.cycle('lrn', [0, 50, 250]), meta=0)
        op['meta'] = g.cycle('lrm', METAS)
        op['ma'] = {'max': ROOMY, 'meta_checksum': g.cycle('lrk', CHECKSUMS)}
        return [same(op, 'p')] + [same({'op': 'rewrite', 'f': 'A', 'meta': m, 'kw': kw}, 'r%d' % j) for j, (m, kw) in enumerate([
            (['q'], {}), (g.cycle('lrm2', METAS), {'codec': g.cycle('lrc', ['None', 'zlib', None, 'nope'])}),
            ('y' * 40, {'level': g.cycle('lrl', [0, 9, None, 12]), 'checksum': g.cycle('lrk', CHECKSUMS)})])] + \
            [same(o, 'u') for o in g.reads()]
    if w == 'fail':
        op = g.pack(cs=g.cycle('lfs', [10, 100]), n=g.cycle('lfn', [9, 100, 250]), offsets=True, cap=20)
        op['bp']['checksum'] = g.cycle('lfk', CHECKSUMS[1:])
        t = g.cycle('lft', ['damage', 'trunc', 'foreign', 'damage'])
        d = {'op': 'damage', 'f': 'A', 'g': 'B', 'frac': g.rnd.random()} if t == 'damage' else \
            {'op': 'trunc', 'f': 'A', 'g': 'B', 'frac': g.rnd.random()} if t == 'trunc' else \
            {'op': 'sethdr', 'f': 'A', 'g': 'B', 'k': 'bp', 'set': [g.cycle('lff', [[4, 2], [0, 1], [5, 0x84], [6, 9]])]}
        return [op, d] + [same(dict(o, f='B'), 'u' + o['entry']) for o in g.reads(k=2)] + \
            [same(dict(g.append(5), f='B'), 'a')]
    if w == 'capacity':
        op = g.pack(cs=10, n=g.cycle('lcn', [0, 5, 30]), offsets=g.cycle('lco', [True, False]), cap=g.cycle('lcc', [0, 1, {'mul': 1, 'add': 0}, 'default']))
        return [same(op, 'p'), same(g.append(200), 'a'), same(g.append(3), 'b')] + [same(o, 'u') for o in g.reads()]
    if w == 'ndfail':
        op = g.pack(cs=8, n=g.cycle('lnn', [24, 16, 0]), meta=0)
        op['meta'] = g.cycle('lnm', gens2.BAD_DESCRIPTIONS + [array_meta("'<f8'", [3])])
        return [op] + [same({'op': 'ndunpack', 'f': 'A', 'entry': g.cycle('nue', ND_UNPACK)}, 'u')]
    # legal and illegal extremes
    tag = gens3.tag
    ps = {g.cycle('lep', ['cs', 'ts', 'clevel', 'cname', 'csum', 'cap']): None}
    p = list(ps)[0]
    v = {'cs': [tag(0), tag(2**31 - 17), tag(2**31), tag('x')], 'ts': [tag(0), tag(1), tag(255), tag(256)], 'clevel': [tag(-1), tag(0), tag(9), tag(10)],
         'cname': [tag('lz4'), tag('nope')], 'csum': [tag('md5'), tag('nope')], 'cap': [tag(-1), tag(0), tag(2**63), tag(77)]}[p]
    n = g.cycle('len', [0, 100])
    return [same({'op': 'dom', 'entry': g.cycle('lee', ['b2b', 'f2f', 'fp', 'mem', 'nd']), 'ps': {p: x}, 'offs': True,
                  'data': g.data(n)}, 'd%d' % j) for j, x in enumerate(v)]


def levels(g):
    out = []
    for i in range(g.scale(260, 3000)):
        ops = level_ops(g, i)
        order = g.cycle('lo', [['NORMAL', 'VERBOSE', 'DEBUG'], ['DEBUG', 'VERBOSE', 'NORMAL'], ['VERBOSE', 'DEBUG', 'NORMAL']])
        out.append(scenario('level%d' % i, [{'op': 'levels', 'order': order, 'ops': ops}]))
    return out


def level_commands(g):
    """commands at every level"""
    out = []
    for i in range(g.scale(60, 600)):
        n = g.cycle('lcn2', [0, 1, 100, 1000, 5000])
        same = lambda op, key: keyed(op, key, 'C19.same_outcome')
        c = lambda *a, **k: gens3.cmd(g, *a, **k)
        pre = [{'op': 'file', 'n': 'd', 'data': g.data(n)}, {'op': 'file', 'n': 'e', 'data': g.data(g.cycle('lce', [0, 1, 700, 90000]))},
               {'op': 'file', 'n': 'm', 'text': json.dumps(g.cycle('lcm', METAS))}]
        a = c('compress', 'd', force=True)
        gens3.options(g, a, n)
        if g.rnd.random() < 0.5:
            a['m'] = 'm'
        ap = gens3.options(g, c('append', 'd.blp', 'e'), p=0.3)
        for o in (a, ap):
            o['opts']['nt'] = gens3.tag(1)
        seq = [same(a, 'c'), same(ap, 'a'), same(c('info', 'd.blp'), 'i'), same(c('decompress', 'd.blp', 'o', force=True), 'd'),
               same(c('compress', 'd', 'o'), 'x'), same(c('compress', 'gone'), 'y'), same(c('decompress', 'e', 'o', noext=True, force=True), 'z'),
               same(c('append', 'd.blp', 'gone'), 'w'), same(c('info', 'e'), 'v')]
        k = g.cycle('lck', [4, 9])
        out.append(scenario('lcmd%d' % i, pre + [{'op': 'levels', 'ops': seq[:k]}]))
    return out


def messages(g):
    """the histories of Verbosity on the functions themselves"""
    out = []
    hs = list(g.histories.get('VerbosityMC', []))
    texts = [['x'], ['', 'a', '', 'b'], [''], ['one', 'two'], [u'\u00e9 %s {}'], [' lead', 'trail ']]
    say = {'NORMAL': 'normal', 'VERBOSE': 'verbose', 'DEBUG': 'debug'}
    per = 8
    for i in range(0, len(hs), per):
        ops = []
        for h in hs[i:i + per]:
            xs = []
            for x in h:
                if x['k'] == 'set':
                    xs.append({'set': {'LOUD': g.cycle('mbad', ['LOUD', 'verbose', '', 'Debug', 'NORMALVERBOSE'])}.get(x['lv'], x['lv'])})
                elif x['lv'] not in say:
                    xs.append({'say': 'verbose', 'level': g.cycle('mbad', ['LOUD', 'verbose', '', 'Debug', 'NORMALVERBOSE']), 'text': ['t']})
                elif g.rnd.random() < 0.4:
                    xs.append({'say': 'verbose', 'level': x['lv'], 'text': g.cycle('mt', texts)})
                else:
                    xs.append({'say': say[x['lv']], 'text': g.cycle('mt', texts)})
            if g.rnd.random() < 0.4:
                xs.append({'say': 'error', 'text': g.cycle('mt', texts), 'kw': g.cycle('mk', [{}, {'exit_code': 3}, {'exit_code': 0}])})
            op = {'op': 'log', 'xs': xs}
            if g.rnd.random() < 0.4:
                op['prefix'] = g.cycle('mp', ['blpk', 'p q', ''])
            ops.append(op)
        out.append(scenario('msg%d' % (i // per), ops))
    return out


def threads(g):
    """the same operations with 1, 2 and more threads"""
    out = []
    for i in range(g.scale(45, 400)):
        same = lambda op, key: keyed(op, key, 'C19.threads', oh='content')
        n = g.cycle('tn', [0, 1, 1000, 100000, 300000, 2000000, 700001])
        cs = g.cycle('tcs', [1000, 65536, '1M', 100000, '256K'])
        if n > 300000 and cs == 1000:
            cs = 100000
        nts = [1] + g.rnd.sample([2, 3, 4, 8, 16, 32], 2)
        w = g.cycle('tw', ['pack', 'nd', 'cli', 'pack'])
        if w == 'nd':
            op = gens2.nd_op(g, g.cycle('tdt', ['f8', 'i4', 'rec', 'S17']), [n // 20])
            op.pop('cs', None)
            ops = [same(op, 'p')] + [same(o, 'u' + o['entry']) for o in gens2.nd_reads(g, op)]
        elif w == 'cli':
            c = lambda *a, **k: dict(gens3.cmd(g, *a, **k), nt=gens3.tag(1))
            a = c('compress', 'd', force=True)
            gens3.options(g, a, n)
            pre = [{'op': 'file', 'n': 'd', 'data': g.data(n)}, {'op': 'file', 'n': 'e', 'data': g.data(g.cycle('te', [0, 1, 70000]))}]
            ops = [same(a, 'c'), same(c('append', 'd.blp', 'e'), 'a'), same(c('info', 'd.blp'), 'i'), same(c('decompress', 'd.blp', 'o', force=True), 'd')]
            # what info prints of chunks differs
            ops[2].pop('key')
            out.append(scenario('thread%d' % i, pre + [{'op': 'threads', 'nts': nts, 'ops': ops}]))
            continue
        else:
            op = g.pack(cs=cs, n=n, offsets=True, cap=50)
            ops = [same(op, 'p')] + [same(o, 'u' + o['entry']) for o in g.reads(k=2)] + [same(g.append(g.cycle('tap', [0, 1, 90000])), 'a')] + \
                [same(o, 'v' + o['entry']) for o in g.reads()]
        out.append(scenario('thread%d' % i, [{'op': 'threads', 'nts': nts, 'ops': ops}]))
    return out


# ------------------------------------------------------------------ C20

PROGRAM = {'pack': lambda n: 2 + 3 * n, 'unpack': lambda n: 1 + 3 * n, 'append': lambda n: 6 + 3 * n, 'rewrite': lambda n: 4}


def lane_of(g, kind, i, w=None):
    """w: the entry point.  -> (operations that prepare a lane, the lane); the lanes differ in
    everything that they can"""
    cs = g.cycle('pcs%d' % i, [[10, 16, 100, 7], [12, 33, 50, 24], [8, 21, 64, 40]][i])
    n = 2 * cs + g.cycle('pn%d' % i, [3, 0, 5, -1])
    data = {'k': g.cycle('pk%d' % i, ['rnd', 'mix', 'seq', 'rnd']), 'n': n, 's': 100 * i + g.rnd.randrange(50)}
    p = g.pack(cs=cs, n=n, offsets=True, cap=20, f='R%d' % i)
    p['data'] = data
    p.setdefault('bl', {})
    p['bp']['checksum'] = g.cycle('pck%d' % i, CHECKSUMS[i::3])
    if g.rnd.random() < 0.6 or kind == 'rewrite':
        p['meta'] = g.cycle('pm%d' % i, [{'lane': i, 'x': list(range(40 + i))}, ['lane', i], 'lane%d' % i * 30])
        p['ma'] = {'max': ROOMY, 'meta_checksum': g.cycle('pmk%d' % i, CHECKSUMS), 'meta_level': g.rnd.randrange(10)}
    else:
        p.pop('meta', None)
        p.pop('ma', None)
    f = 'L%d' % i
    if kind == 'pack':
        w = w or g.cycle('pe', ['b2f', 'f2f', 'b2b', 'mem', 'nd', 'fp', 'fail', 'memmem'])
        if w == 'nd':
            op = dict(gens2.nd_op(g, g.cycle('pdt%d' % i, [['f8', 'rec'], ['i2', 'S17'], ['c16', 'U3']][i]), [5 + i, 3]), f=f)
            return [], [op]
        op = dict(p, f=f, entry=w)
        if w == 'fail':
            op['entry'] = 'f2f'
            op['ma'] = {'max': 0}
            op['meta'] = 'does not fit'
        return [], [op]
    if kind == 'unpack':
        w = w or g.cycle('pue', ['f2b', 'f2f', 'b2b', 'fp', 'mem', 'nd', 'damaged', 'fpmem'])
        if w == 'nd':
            op = dict(gens2.nd_op(g, g.cycle('pdt%d' % i, [['f8', 'rec'], ['i2', 'S17'], ['c16', 'U3']][i]), [5 + i, 3]), f='R%d' % i)
            return [op], [{'op': 'ndunpack', 'f': 'R%d' % i, 'entry': g.cycle('nue', ND_UNPACK)}]
        if w == 'mem':
            return [dict(p, entry='mem')], [{'op': 'unpack', 'f': 'R%d' % i, 'entry': g.cycle('ume', UNPACK_MEM)}]
        if w == 'damaged':
            return [p, {'op': 'damage', 'f': 'R%d' % i, 'g': 'R%d' % i, 'pos': -6}], [{'op': 'unpack', 'f': 'R%d' % i, 'entry': 'f2b'}]
        return [p], [{'op': 'unpack', 'f': 'R%d' % i, 'entry': w}]
    if kind == 'append':
        a = dict(g.append(cs * 2 + g.cycle('pan', [0, 1, -1])), f=f, entry=w or g.cycle('pae', APPEND))
        a['data'] = {'k': 'rnd', 'n': a['data']['n'], 's': 7 + i}
        return [p], [{'op': 'copy', 'f': 'R%d' % i, 'g': f}, a]
    return [p], [{'op': 'copy', 'f': 'R%d' % i, 'g': f}, {'op': 'rewrite', 'f': f, 'meta': ['new', i], 'kw': {}}]


def concurrent(g, name, n_steps, limit, per):
    """the schedules of the model, by the kinds of operations in their lanes"""
    by = {}
    for h in g.histories.get(name, []):
        by.setdefault(tuple(h['kinds']), []).append(h['run'])
    out = []
    for kinds in sorted(by):
        runs = sorted(by[kinds], key=json.dumps)
        g.rnd.shuffle(runs)
        for j in range(0, min(len(runs), limit), per):
            pre, lanes = [], []
            for i, k in enumerate(kinds):
                a, b = lane_of(g, k, i)
                pre += a
                lanes.append(b)
            lens = [PROGRAM[k](n_steps) for k in kinds]
            scheds = []
            for r in runs[j:j + per]:
                scheds.append({'points': 'io', 'run': r})
                at, cum = [], [0] * len(lens)
                for l, q in r:
                    cum[l - 1] += q
                    at.append([l - 1, min(1.0, (cum[l - 1] - g.rnd.random()) / lens[l - 1])])
                scheds.append({'points': g.cycle('pp', ['line', 'io', 'line', 'op']), 'at': at})
            # and switches anywhere
            for kk in ('line', 'op'):
                at = sorted([[g.rnd.randrange(len(lens)), g.rnd.random()] for _ in range(g.rnd.randrange(2, 14))], key=lambda x: x[1])
                scheds.append({'points': kk, 'at': at})
            if g.rnd.random() < 0.4:
                scheds.append({'points': 'free'})
            out.append(scenario('%s%s%d' % (name, ''.join(k[0] for k in kinds), j), pre + [{'op': 'par', 'lanes': lanes, 'schedules': scheds}]))
    return out


def twins(g):
    """the same entry point in two lanes: one runs as a whole, or in part, in between
    two lines of the other, in particular close to its beginning and its end"""
    out = []
    kinds = [('pack', w) for w in ('b2f', 'f2f', 'b2b', 'mem', 'fp', 'memmem', 'dep_b2f', 'memfp')] + \
        [('unpack', w) for w in ('f2b', 'f2f', 'b2b', 'fp', 'mem', 'fpmem', 'damaged', 'dep_f2b', 'memfp')] + \
        [('append', w) for w in APPEND] + [('rewrite', None), ('nd', 'bytes'), ('nd', 'file'), ('nd', 'mem'),
                                           ('unnd', 'bytes'), ('unnd', 'file'), ('unnd', 'fp')]
    for j, (k, w) in enumerate(kinds * g.scale(1, 4)):
        pre, lanes = [], []
        for i in range(2):
            if k in ('nd', 'unnd'):
                dt = g.cycle('tdt%d' % i, [['f8', 'rec', '<i4'], ['i2', 'S17', '>u2']][i])
                op = dict(gens2.nd_op(g, dt, [5 + i, 3], entry=w if k == 'nd' else 'bytes'), f='R%d' % i)
                a, b = ([], [op]) if k == 'nd' else ([op], [{'op': 'ndunpack', 'f': 'R%d' % i, 'entry': w}])
            elif k == 'unpack' and w == 'memfp':
                a, b = lane_of(g, k, i, 'mem')
                b = [dict(b[0], entry='memfp')]
            else:
                a, b = lane_of(g, k, i, w)
            pre += a
            lanes.append(b)
        scheds = []
        for e in range(1, g.scale(5, 20) + 1):
            other = g.cycle('two', [1.0, 1.0, 0.5, 0.8, -2])
            scheds.append({'points': g.cycle('twp', ['line', 'line', 'op']), 'at': [[e % 2, -e], [1 - e % 2, other], [e % 2, 1.0]]})
        for _ in range(g.scale(5, 60)):
            x = g.rnd.randrange(2)
            scheds.append({'points': g.cycle('twp2', ['line', 'line', 'op']),
                           'at': [[x, g.rnd.random()], [1 - x, g.cycle('two2', [1.0, 0.9, g.rnd.random(), -1])], [x, 1.0]]})
        out.append(scenario('twins%s%s%d' % (k, w, j), pre + [{'op': 'par', 'lanes': lanes, 'schedules': scheds}]))
    return out


def pairs(g):
    return concurrent(g, 'ParMC', 2, g.scale(30, 10000), 6)


def triples(g):
    return concurrent(g, 'ParTriples', 1, g.scale(4, 10000), 4)


def more_pairs(g):
    return concurrent(g, 'ParDeep', 2, g.scale(0, 400), 10) + concurrent(g, 'ParThree', 1, g.scale(0, 80), 8)


# ------------------------------------------------------------------ C21

def alike(op, key, **kw):
    return keyed(op, key, 'C21.same', **kw)


def unacceptable(g, what):
    """a parameter outside of its domain, as op 'dom' takes it"""
    tag = gens3.tag
    return g.cycle('una' + what, [('cs', tag(0)), ('cs', tag(-1)), ('cs', tag(2**31)), ('cs', tag('x')), ('ts', tag(0)), ('ts', tag(256)),
                                  ('clevel', tag(-1)), ('clevel', tag(10)), ('cname', tag('nope')), ('csum', tag('nope')),
                                  ('csum', tag('')), ('cap', tag(-1)), ('cap', tag('5')), ('cap', tag(2**63))] +
                   ([('mlevel', tag(10)), ('mcodec', tag('nope')), ('mcsum', tag('nope')), ('mmax', tag(-1)), ('mfmt', tag('NOPE'))]
                    if what == 'file' else []))


def routes(g):
    """the requests of the model, made through every entry point"""
    hs = sorted(g.histories.get('RoutesMC', []) + g.histories.get('RoutesDeep', []), key=json.dumps)
    first = [h for h in hs if len(h) == 1]
    rest = [h for h in hs if len(h) > 1]
    g.rnd.shuffle(rest)
    rest = rest[:g.scale(150, 2500)]
    out = []
    for i, h in enumerate(first + first + rest):
        r = h[0]
        if not r['ok']:
            out.append(refused_pack(g, 'route%d' % i, r['n']))
            continue
        C = g.cycle('rC', [2, 8, 16, 17, 100, 1000, 4096])
        size = lambda n: (n // 2) * C + (C // 2 if n % 2 else 0)
        op = g.pack(cs=C, n=size(r['n']), offsets=r['cap'] > 0 or g.rnd.random() < 0.7, cap=r['cap'], meta=0)
        if r['m'] != 'no':
            op['meta'] = g.meta()
            op['ma'] = dict(g.ma() or {}, max=ROOMY if r['m'] == 'fits' else g.cycle('rmx', [0, 1]))
            if r['m'] == 'not' and op['meta'] in (0, 1, True, False, '', {}, []):
                op['meta'] = 'does not fit'
        ops, mems = [], []
        entries = list(PACK_FILE)
        for e in entries:
            ops.append(alike(dict(op, f='F' + e, entry=e), 'p'))
        if r['m'] != 'not':
            ops.append(alike(dict(op, f='Fx', entry='fp'), 'm', oh='chunks'))
            for e in PACK_MEM:
                ops.append(alike(dict(op, f='M' + e, entry=e), 'm', oh='chunks'))
            mems = ['M' + e for e in PACK_MEM]
        names = ['F' + e for e in entries]
        for j, r in enumerate(h[1:]):
            key = 's%d' % j
            if r['op'] != 'unpack':
                mems = []
            if r['op'] == 'append':
                a = g.append(size(r['n']))
                if not r['ok']:
                    a['a'] = g.cycle('rba', [{'dict': {'typesize': 8}}, {'obj': {'clevel': 10, 'typesize': 8}}, {'obj': {'cname': 'nope'}},
                                             {'dict': {'typesize': 256, 'clevel': 1, 'shuffle': True, 'cname': 'lz4'}},
                                             {'obj': {'typesize': 0}}])
                    a['valid'] = False
                for k, f in enumerate(names):
                    ops.append(alike(dict(a, f=f, entry=APPEND[(k + j) % 3]), key))
            elif r['op'] == 'damage':
                where = {'frac': g.rnd.random()} if op.get('bp', {}).get('checksum', 'adler32') != 'None' else {'pos': g.rnd.randrange(32)}
                for f in names:
                    ops.append(dict(where, op='damage', f=f, xor=g.cycle('rx', [1, 0xff, 0x80])))
                # the same everywhere
                x = g.cycle('rx', [1, 0xff, 0x80])
                for o in ops[-len(names):]:
                    o['xor'] = x
            elif r['op'] == 'trunc':
                fr = g.rnd.random()
                ops += [{'op': 'trunc', 'f': f, 'frac': fr} for f in names]
            elif r['op'] == 'header':
                k, st = g.cycle('rh', [('bp', [[4, 2]]), ('bp', [[4, 4]]), ('bp', [[5, 5]]), ('bp', [[6, 9]]), ('bp', [[0, 0]]), ('bp', [[16, 9]]),
                                       ('bp', [[16, 0]]), ('bp', [[16, 255], [23, 255]]), ('bp', [[16 + x, 255] for x in range(8)]),
                                       ('bp', [[8, 1], [9, 0]]), ('bp', [[12, 1]]), ('bp', [[24, 3]]), ('bp', [[7, 3]]), ('bp', [[5, 0]]),
                                       ('bp', [[5, 1]]), ('bp', [[5, 3]]), ('bp', [[6, 2]]), ('meta', [[0, 75]]), ('meta', [[9, 9]]), ('meta', [[10, 2]]),
                                       ('meta', [[11, 10]]), ('meta', [[20, 1]]), ('meta', [[16, 255], [19, 255]])])
                ops += [{'op': 'sethdr', 'f': f, 'k': k, 'set': st} for f in names]
            else:
                us = list(UNPACK)
                g.rnd.shuffle(us)
                for n, f in enumerate(names):
                    ops.append(alike({'op': 'unpack', 'f': f, 'entry': us[n % len(us)]}, key))
                for u in us[len(names):]:
                    ops.append(alike({'op': 'unpack', 'f': names[0], 'entry': u}, key))
                for f in mems:
                    for u in UNPACK_MEM:
                        ops.append(alike({'op': 'unpack', 'f': f, 'entry': u}, key))
        out.append(scenario('route%d' % i, ops))
    return out


def refused_pack(g, sid, n):
    """parameters that every entry point has to judge alike"""
    ops = []
    data = g.data({0: 0, 1: 1, 2: 16, 5: 50}[n])
    for j in range(4):
        what = g.cycle('rpw', ['file', 'all', 'file'])
        p, v = unacceptable(g, what)
        d = {'op': 'dom', 'ps': {p: v}, 'offs': g.rnd.random() < 0.8, 'data': data}
        if what == 'file':
            d['meta'] = g.meta()
        ops += [alike(dict(d, entry=e), 'd%d' % j) for e in PACK_FILE + (PACK_MEM if what == 'all' else [])]
        if p != 'ts':
            d.pop('meta', None)
            ops += [alike(dict(d, entry=e), 'n%d' % j) for e in ('nd', 'ndf')]
    return scenario(sid, ops)


def legal_edges(g):
    """parameters at the edges of their domains: the same outcome everywhere"""
    tag = gens3.tag
    out = []
    edges = [('cs', [tag(1), tag(2**31 - 17), tag('1B'), tag('1.5K')]), ('ts', [tag(1), tag(255)]), ('clevel', [tag(0), tag(9)]),
             ('cname', [tag(c) for c in ('blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd')]), ('csum', [tag(c) for c in CHECKSUMS]),
             ('cap', [tag(0), tag(1), tag(1000)])]
    for p, vs in edges:
        ops = []
        for j, v in enumerate(vs):
            d = {'op': 'dom', 'ps': {p: v}, 'offs': True, 'data': g.data(g.cycle('len', [0, 1, 100]))}
            ops += [alike(dict(d, entry=e), '%d' % j) for e in PACK_FILE + PACK_MEM]
        out.append(scenario('edge' + p, ops))
    return out


def array_routes(g):
    """arrays through every numpy entry point, and what they make of
    containers that are damaged, cut off, or hold no array"""
    out = []
    for i in range(g.scale(70, 900)):
        dt = g.cycle('ardt', gens2.PLAIN_DT + gens2.REC_DT + gens2.OBJ_DT)
        op = gens2.nd_op(g, dt, g.cycle('arsh', [[], [0], [1], [7], [3, 4], [2, 0, 3], [2, 3, 4], [50]]), order=g.cycle('aror', ['C', 'F']))
        ops = [alike(dict(op, f='F' + e, entry=e), 'p') for e in ND_PACK if e != 'mem']
        names = ['F' + e for e in ND_PACK if e != 'mem']
        ops.append(alike(dict(op, f='Fx', entry='fp'), 'm', oh='chunks'))
        ops.append(alike(dict(op, f='M', entry='mem'), 'm', oh='chunks'))
        reads = lambda key: [alike({'op': 'ndunpack', 'f': f, 'entry': e}, key) for f, e in zip(names, ND_UNPACK)]
        ops += reads('u') + [alike({'op': 'ndunpack', 'f': 'M', 'entry': 'mem'}, 'u')]
        ops += [alike({'op': 'unpack', 'f': f, 'entry': g.cycle('ue', UNPACK)}, 'b') for f in names]
        w = g.cycle('arw', ['damage', 'trunc', 'append', 'rewrite', 'sethdr'])
        if w == 'damage':
            x = {'frac': g.rnd.random()} if op.get('bp', {}).get('checksum', 'adler32') != 'None' else {'pos': g.rnd.randrange(32)}
            ops += [dict(x, op='damage', f=f) for f in names]
        elif w == 'trunc':
            fr = g.rnd.random()
            ops += [{'op': 'trunc', 'f': f, 'frac': fr} for f in names]
        elif w == 'append':
            a = g.append(g.cycle('ara', [0, 1, 8, 40]))
            ops += [alike(dict(a, f=f, entry=APPEND[k % 3]), 'a') for k, f in enumerate(names)]
        elif w == 'rewrite':
            m = g.cycle('arm', [{}, 'x', 5, {'container': 'numpy'}])
            ops += [{'op': 'rewrite', 'f': f, 'meta': m} for f in names]
        else:
            ops += [{'op': 'sethdr', 'f': f, 'k': 'bp', 'set': [[12, 1]]} for f in names]
        if i % 3:
            ops += reads('v')
        out.append(scenario('aroute%d' % i, ops))
    return out
