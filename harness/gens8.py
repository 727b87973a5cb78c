"""Compression settings: given or not, by every way to give them."""
import gens as g1
import gens2 as g2
import gens3 as g3
import gens7 as g7
from gens import APPEND, CNAMES, PACK_FILE, PACK_MEM, TYPESIZES, scenario

FIELDS = [('typesize', 'ts'), ('clevel', 'lv'), ('shuffle', 'sh'), ('cname', 'cn')]
ND = ['file', 'bytes', 'fp', 'mem', 'dep_file', 'dep_str']


def noted(gen):
    """the scenarios of another generator, with the settings looked at"""
    def f(g):
        return [dict(s, facts=True) for s in gen(g)]
    f.__name__ = gen.__name__ + '_settings'
    return f


def data(g, n):
    """what compresses, differently with different settings"""
    return {'k': g.cycle('zk', ['seq', 'text', 'mix', 'seq', 'rnd']), 'n': n, 's': g.rnd.randrange(1000)}


def size(g):
    return g.cycle('zn', [0, 1, 50, 127, 128, 129, 500, 1000, 5000, 20000, 100000, 350000])


def shuffled(g, sh):
    return sh if sh == 2 else g.cycle('zsh%d' % sh, [bool(sh), sh])


def blosc(z, g):
    """the model's settings as they are given: concrete values keep what matters"""
    d = {}
    if z['ts'] != -1:
        d['typesize'] = g.cycle('zts', [4, 1, 2, 16, 3, 255, 8, 5])
    if z['lv'] != -1:
        d['clevel'] = 0 if z['lv'] == 0 else g.cycle('zlv', [9, 1, 2, 3, 4, 5, 6, 7, 8])
    if z['sh'] != -1:
        d['shuffle'] = shuffled(g, z['sh'])
    if z['cn']:
        d['cname'] = g.cycle('zcn', [c for c in CNAMES if c != 'blosclz'])
    return d


def append_args(g, d):
    """as a dictionary in which what is not given is None, or as an object, which
    has everything"""
    if not d and g.rnd.random() < 0.6:
        return {}
    if len(d) == 4 and g.rnd.random() < 0.5:
        return {'a': {'obj': d}}
    return {'a': {'dict': {k: d.get(k) for k, _ in FIELDS}}}


def histories(g):
    """the histories of the model"""
    out = []
    hs = g.histories.get('SettingsMC', [])
    for i, h in enumerate(g.sample(hs, g.scale(250, 8000))):
        cs = g.cycle('hcs', [100, 200, 3000, 20000, 150000])
        unit = cs // 2
        op = {'op': 'pack', 'f': 'A', 'entry': g.cycle('he', PACK_FILE), 'cs': cs if h[0]['n'] > 1 else unit,
              'data': data(g, h[0]['n'] * unit), 'bl': blosc(h[0]['z'], g), 'bp': {'max_app': 20}}
        if not op['bl'] and g.rnd.random() < 0.5:
            del op['bl']
        if h[0]['n'] == 1:
            # more of the same length than the chunk: it is lowered to that, and
            # the last chunk is full
            op['cs'] = g.cycle('hcs1', [cs, unit])
        ops = [op]
        for a in h[1:]:
            ops.append(dict({'op': 'append', 'f': 'A', 'entry': g.cycle('hae', APPEND + ['cli']),
                             'data': data(g, a['n'] * unit)}, **append_args(g, blosc(a['z'], g))))
            if ops[-1]['entry'] == 'cli' and 'a' in ops[-1]:
                ops[-1]['entry'] = 'path'
        out.append(dict(scenario('set%d' % i, ops + g.reads()), facts=True))
    return out


def grid(g):
    """every codec, level and kind of shuffle"""
    out = []
    i = 0
    for cn in CNAMES:
        for lv in range(10):
            for sh in (0, 1, 2):
                if not g.full and (lv + sh + i) % 2 and lv not in (0, 7, 9):
                    i += 1
                    continue
                bl = {'cname': cn, 'clevel': lv, 'shuffle': shuffled(g, sh), 'typesize': g.cycle('gts', TYPESIZES)}
                n = size(g)
                mem = i % 3 == 0
                op = {'op': 'pack', 'f': 'A', 'entry': g.cycle('gm', PACK_MEM) if mem else g.cycle('ge', PACK_FILE),
                      'cs': g.cycle('gcs', [64, 1000, 5000, 350000, '1M']), 'data': data(g, n), 'bl': bl,
                      'bp': {'max_app': 50}}
                if not isinstance(op['cs'], str) and n // op['cs'] > 100:
                    op['cs'] = 5000
                ops = [op]
                if not mem:
                    ops.append({'op': 'append', 'f': 'A', 'entry': g.cycle('gae', APPEND), 'data': data(g, size(g) % 50000 + 1),
                                'a': {g.cycle('gk', ['dict', 'obj']): dict(bl, clevel=g.cycle('gl', list(range(10))),
                                                                          cname=g.cycle('gc', CNAMES))}})
                    ops += g.reads()
                out.append(dict(scenario('grid%d' % i, ops), facts=True))
                i += 1
    return out


def one_at_a_time(g):
    """all but one setting as usual, each way to pack and to append"""
    out = []
    odd = [('typesize', v) for v in (1, 2, 3, 7, 9, 16, 64, 255)] + [('clevel', v) for v in range(10)] + \
        [('shuffle', v) for v in (False, True, 0, 1, 2)] + [('cname', v) for v in CNAMES] + [('', None)]
    i = 0
    for k, v in odd:
        for entry in PACK_FILE + PACK_MEM + ['nd'] * 2:
            i += 1
            if not g.full and i % 3:
                continue
            bl = {k: v} if k else {}
            n = g.cycle('on', [100, 128, 2000, 30000])
            if entry == 'nd':
                dt = g.cycle('odt', ['<i4', '<f8', 'u1', 'S3', 'S17', '<i2'])
                op = {'op': 'ndpack', 'f': 'A', 'entry': g.cycle('one', ND), 'cs': '1M', 'bl': bl,
                      'arr': {'dt': dt, 'sh': [n // 17], 'k': 'seq', 's': i, 'order': 'C'}}
            else:
                op = {'op': 'pack', 'f': 'A', 'entry': entry, 'cs': g.cycle('ocs', [100, 1000, 20000]), 'data': data(g, n),
                      'bl': bl, 'bp': {'max_app': 5}}
            out.append(dict(scenario('one%d' % i, [op]), facts=True))
    for k, v in odd:
        for entry in APPEND:
            for last in (0, 1):
                i += 1
                if not g.full and i % 2:
                    continue
                pk = {'op': 'pack', 'f': 'A', 'entry': 'b2f', 'cs': 1000, 'data': data(g, 2000 + 500 * last),
                      'bl': {'typesize': g.cycle('opt', [8, 4, 1, 3, 16]), 'clevel': g.cycle('opl', list(range(10))),
                             'cname': g.cycle('opc', CNAMES)}, 'bp': {'max_app': 10}}
                d = {x: None for x, _ in FIELDS}
                if k:
                    d[k] = v
                a = {'dict': d} if i % 5 else {'obj': {k: v} if k else {}}
                out.append(dict(scenario('oneapp%d' % i, [
                    pk, {'op': 'append', 'f': 'A', 'entry': entry, 'data': data(g, g.cycle('oan', [300, 500, 501, 2600])), 'a': a},
                    {'op': 'append', 'f': 'A', 'entry': entry, 'data': data(g, g.cycle('oan2', [0, 1, 700]))}] + g.reads()),
                    facts=True))
    return out


def shared(g):
    """one object for packing, appending and arrays with different sizes of items"""
    out = []
    for i in range(g.scale(25, 300)):
        bl = {'typesize': g.cycle('sts', [1, 2, 4, 8, 3]), 'clevel': g.cycle('slv', [0, 1, 5, 9]),
              'shuffle': g.cycle('ssh', [False, True, 2]), 'cname': g.cycle('scn', CNAMES)}
        for k in g.rnd.sample(sorted(bl), g.rnd.randrange(3)):
            bl.pop(k)
        ops = []
        for f in 'ABC':
            x = g.cycle('sx', ['pack', 'nd', 'pack', 'mem'])
            if x == 'nd':
                ops.append({'op': 'ndpack', 'f': f, 'entry': g.cycle('sne', ND[:3]), 'cs': '1M', 'bl': bl, 'reuse': 'R',
                            'arr': {'dt': g.cycle('sdt', ['<i4', '<f8', 'u1', 'S17']), 'sh': [200], 'k': 'seq', 's': i, 'order': 'C'}})
            else:
                ops.append({'op': 'pack', 'f': f, 'entry': g.cycle('sm', PACK_MEM) if x == 'mem' else g.cycle('se', PACK_FILE),
                            'cs': 1000, 'data': data(g, g.cycle('sn', [500, 2500, 4000])), 'bl': bl, 'reuse': 'R',
                            'bp': {'max_app': 20}})
                if x == 'pack':
                    ops.append({'op': 'append', 'f': f, 'entry': g.cycle('sae', APPEND), 'data': data(g, 700),
                                'a': {'obj': bl}, 'reuse': 'R'})
        out.append(dict(scenario('shared%d' % i, ops), facts=True))
    return out


def threads(g):
    """with more threads than one"""
    out = []
    for i in range(g.scale(10, 60)):
        bl = blosc({'ts': g.cycle('tt', [-1, 4]), 'lv': g.cycle('tl', [-1, 0, 9]), 'sh': g.cycle('th', [-1, 0, 2]),
                    'cn': g.cycle('tc', ['', 'x'])}, g)
        ops = [{'op': 'set', 'nthreads': g.cycle('tn', [2, 3, 8])},
               {'op': 'pack', 'f': 'A', 'entry': g.cycle('te', PACK_FILE), 'cs': g.cycle('tcs', [1000, 30000, 400000]),
                'data': data(g, g.cycle('td', [5000, 90000, 400000])), 'bl': bl, 'bp': {'max_app': 50}},
               dict({'op': 'append', 'f': 'A', 'entry': g.cycle('tae', APPEND), 'data': data(g, 7000)}, **append_args(g, bl))]
        out.append(dict(scenario('thr%d' % i, ops + g.reads()), facts=True))
    return out


def commands(g):
    """compress and append with each option, and with none"""
    out = []
    opts = [('ts', v) for v in (1, 2, 8, 16, 255)] + [('clevel', v) for v in range(10)] + [('cname', c) for c in CNAMES] + \
        [('noshuffle', True), ('', None), ('', None)]
    for i, (p, v) in enumerate(opts * g.scale(1, 4)):
        n = g.cycle('kn', [100, 2000, 40000, 350000])
        cs = max(1000, n // 20)
        ops = [{'op': 'file', 'n': 'd', 'data': data(g, n)}, {'op': 'file', 'n': 'e', 'data': data(g, g.cycle('ke', [1, 300, 5000]))}]
        c = g3.cmd(g, 'compress', 'd', opts={'nt': g3.tag(1), 'cs': g3.tag(cs)})
        a = g3.cmd(g, 'append', 'd.blp', 'e', opts={'nt': g3.tag(1)})
        for op, on in ((c, i % 2 == 0 or n < 1000), (a, i % 2 == 1 or n < 1000)):
            if not on:
                g3.options(g, op, n, 0.5)
                op['opts'].update(nt=g3.tag(1))
                if op is c:
                    op['opts']['cs'] = g3.tag(cs)
            elif p == 'noshuffle':
                op['noshuffle'] = True
            elif p:
                op['opts'][p] = g3.tag(v)
        out.append(dict(scenario('cmdset%d' % i, ops + [c, a, dict(a)]), facts=True))
    return out


SETTINGS = [histories, grid, one_at_a_time, shared, threads, commands, noted(g1.settings_grid), noted(g1.append_arguments),
            noted(g7.lives), noted(lambda g: g3.compress_options(g)[:g.scale(30, 500)]),
            noted(lambda g: g3.append_commands(g, 15))]
