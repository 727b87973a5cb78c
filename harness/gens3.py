"""Generators for the command line."""
import json

import lib
from gens import (hurt, APPEND, CHECKSUMS, CNAMES, METAS, scenario)

STEMS = ['d', 'd', 'my file.txt', 'sub/d', u'caf\u00e9', 'a.blp.x', 'blp', '.d', 'D.BLP', 'd.blp_', 'x=1', '#d', 'help', 'blob',
         'lab.pl', 'p', 'bb', 'd..', 'd.b', 'l.blpp']
OTHERS = ['x', 'y.bl', 'x.BLP', 'x.blp.', 'sub/y', 'out.dat', 'xblp', 'blp.', 'pulp', 'x.p', 'lib', '.l', 'bp.']
CMDS = {'compress': ['compress', 'c'], 'decompress': ['decompress', 'd'], 'append': ['append', 'a'],
        'info': ['info', 'i']}


def tag(v):
    base = {'t': 'other', 'n': [0] * 8, 's': '', 'num': 0, 'den': 1, 'suf': 'B', 'fn': False}
    if isinstance(v, int):
        if not -2**63 <= v < 2**63:
            return dict(base, t='big+' if v > 0 else 'big-')
        return dict(base, t='int', n=lib.i64(v))
    if isinstance(v, tuple):
        return dict(base, t='size', num=v[0], den=v[1], suf=v[2])
    return dict(base, t='name', s=v)


def cmd(g, name, in_='', out='', **kw):
    op = {'op': 'cmd', 'cmd': g.cycle('alias-' + name, CMDS[name]) if name in CMDS else name,
          'in': in_, 'out': out}
    op.update(kw)
    if g.rnd.random() < 0.3:
        op['long'] = True
    return op


def size_tag(g, n):
    """a chunk size that cuts n bytes in a few pieces"""
    cs = g.cycle('clics', [1, 7, 16, 100, 1000, 1024, 4096, 65536, (1, 1, 'K'), (15, 10, 'K'), (100, 1, 'B'), 'max'])
    if isinstance(cs, int):
        cs = max(cs, n // 200 + 1)
    if isinstance(cs, tuple) and n > 200000:
        cs = (64, 1, 'K')
    return tag(cs)


def options(g, op, n=1000, p=0.6):
    """legal options of a compression or append"""
    o = {}
    r = g.rnd
    compress = op['cmd'] in ('compress', 'c')
    if r.random() < p:
        o['ts'] = tag(g.cycle('clits', [1, 2, 3, 4, 8, 16, 17, 255, 100]))
    if r.random() < p:
        o['clevel'] = tag(g.cycle('clil', list(range(10))))
    if r.random() < p:
        o['cname'] = tag(g.cycle('clic', CNAMES))
    if r.random() < 0.3:
        op['noshuffle'] = True
    if r.random() < 0.7 or op.get('key'):
        o['nt'] = tag(1)
    if compress:
        if r.random() < 0.8:
            o['cs'] = size_tag(g, n)
        if r.random() < p:
            o['csum'] = tag(g.cycle('clik', CHECKSUMS))
        if r.random() < 0.15:
            op['nooffsets'] = True
    keys = list(o)
    r.shuffle(keys)
    op['opts'] = {k: o[k] for k in keys}
    return op


def command_histories(g):
    """every history of the model, with options and names of all kinds"""
    out = []
    hs = [h for h in g.histories.get('CliMC', [])]
    # a history is covered by those that continue it: prefer the long ones
    hs.sort(key=json.dumps)
    longest = max(len(h) for h in hs)
    full = [h for h in hs if len(h) == longest]
    # by what the commands are, not by which names they have
    groups = {}
    for h in full:
        groups.setdefault(json.dumps([(c['cmd'], c['force'], c['noext'], c['in'] == 'd', c['out'] != '') for c in h]), []).append(h)
    keys = sorted(groups)
    g.rnd.shuffle(keys)
    picked = []
    want = g.scale(560, 12000)
    for k in keys:
        picked.append(g.rnd.choice(groups[k]))
    while len(picked) < want:
        picked.append(g.rnd.choice(full))
    for i, h in enumerate(picked[:want]):
        stem, other = g.cycle('stem', STEMS), g.cycle('other', OTHERS)
        if stem == other:
            other = 'zz'
        name = lambda s: s.replace('d', stem, 1) if s.startswith('d') else s.replace('x', other, 1)
        n = g.cycle('clin', [0, 1, 10, 999, 1000, 5000])
        ops = [{'op': 'file', 'n': 'sub', 'dir': True}] if 'sub/' in stem + other else []
        ops.append({'op': 'file', 'n': stem, 'data': g.data(n)})
        meta = g.rnd.random() < 0.3
        if meta:
            ops.append({'op': 'file', 'n': 'meta.json', 'text': json.dumps(g.cycle('clim', METAS))})
        for c in h:
            if c['cmd'] == 'make':
                ops.append({'op': 'file', 'n': name(c['in']), 'data': g.data(g.cycle('clin2', [0, 1, 17, 500]))})
            elif c['cmd'] == 'remove':
                ops.append({'op': 'file', 'n': name(c['in']), 'rm': True})
            else:
                op = cmd(g, c['cmd'], name(c['in']), name(c['out']) if c['out'] else '', force=c['force'],
                         noext=c['noext'])
                if op['in'].startswith('-') or op['out'].startswith('-'):
                    continue
                if c['cmd'] in ('compress', 'append'):
                    options(g, op, n)
                    if meta and c['cmd'] == 'compress' and g.rnd.random() < 0.7:
                        op['m'] = 'meta.json'
                ops.append(op)
        out.append(scenario('cli%d' % i, ops))
    return out


def compress_options(g):
    """every option, and the container that the library makes with it"""
    out = []
    for i in range(g.scale(150, 1500)):
        n = g.cycle('con', [0, 1, 100, 1000, 4097, 20000])
        data = g.data(n)
        stem = g.cycle('costem', STEMS)
        op = cmd(g, 'compress', stem, g.cycle('coo', ['', '', 'e.blp', 'o']))
        op['key'], op['tag'] = 'pack', 'C15.same_container'
        options(g, op, n, 0.7)
        op['opts']['nt'] = tag(1)
        ops = [{'op': 'file', 'n': 'sub', 'dir': True}, {'op': 'file', 'n': stem, 'data': data}]
        lib_op = {'op': 'pack', 'f': 'L', 'entry': g.cycle('coe', ['b2b', 'f2f', 'b2f']), 'data': data, 'bl': {},
                  'bp': {}, 'key': 'pack', 'tag': 'C15.same_container'}
        o = op['opts']
        val = lambda x: (int.from_bytes(bytes(x['n']), 'little') if x['t'] == 'int' else x['s'])
        if 'cs' in o:
            if o['cs']['t'] == 'size':
                import domops
                lib_op['cs'] = domops.value(o['cs'])
            else:
                lib_op['cs'] = 2147483631 if o['cs']['t'] == 'name' else val(o['cs'])
        for p, k in (('ts', 'typesize'), ('clevel', 'clevel'), ('cname', 'cname')):
            if p in o:
                lib_op['bl'][k] = val(o[p])
        if op.get('noshuffle'):
            lib_op['bl']['shuffle'] = False
        if 'csum' in o:
            lib_op['bp']['checksum'] = o['csum']['s']
        if op.get('nooffsets'):
            lib_op['bp']['offsets'] = False
        if g.rnd.random() < 0.5:
            m = g.cycle('com', METAS)
            ops.append({'op': 'file', 'n': 'm.json', 'text': g.cycle('comt', ['%s', ' %s\n', '\n%s', '%s  \n\n']) %
                        json.dumps(m, indent=g.cycle('comi', [None, 2]))})
            op['m'] = 'm.json'
            lib_op['meta'] = m
        op['real'] = i % 37 == 0
        ops += [op, lib_op]
        target = op['out'] or stem + '.blp'
        ops += [cmd(g, 'info', target), cmd(g, 'decompress', target, 'back', noext=True)]
        if op['out'] in ('', 'e.blp'):
            ops.append(cmd(g, 'decompress', target, force=True))
        out.append(scenario('copt%d' % i, ops))
    return out


def bad_options(g):
    """values outside of their domains, each with everything else in order"""
    out, items = [], []
    for h in g.histories.get('DomainMC', []):
        if not h or len(h) != 1:
            continue
        (p, x), = h.items()
        if p not in ('cs', 'ts', 'clevel', 'cname', 'csum') or x['fn']:
            continue
        # on the command line everything is text
        if x['t'] == 'other' and (x['s'] in ('1', 'str') or p == 'csum' and x['s'] == 'none'):
            continue
        items.append((p, x))
    for v in (0, 1, 2, 8, 255, 256, 257, -1, 2**31, 2**64, 1000):
        items.append(('nt', tag(v)))
    for s in ('x', '1.5', '', 'None', '0x2', '1K'):
        items.append(('nt', dict(tag('x'), t='other', s=s)))
    items.sort(key=lambda x: json.dumps(x, sort_keys=True))
    g.rnd.shuffle(items)
    for i in range(0, len(items), 5):
        ops = [{'op': 'file', 'n': 'd', 'data': g.data(1000)},
               {'op': 'file', 'n': 'e', 'data': g.data(g.cycle('bon', [0, 10, 100]))},
               cmd(g, 'compress', 'd')]
        for p, x in items[i:i + 5]:
            op = cmd(g, 'compress', 'd', 'o.blp', opts={p: x}, force=True)
            ops += [op, {'op': 'file', 'n': 'o.blp', 'rm': True}]
            if p in ('ts', 'clevel', 'cname', 'nt'):
                ops.append(cmd(g, 'append', 'd.blp', 'e', opts={p: x}))
            if p == 'nt':
                ops += [cmd(g, 'decompress', 'd.blp', 'o', opts={p: x}), cmd(g, 'info', 'd.blp', opts={p: x}),
                        {'op': 'file', 'n': 'o', 'rm': True}]
        out.append(scenario('badopt%d' % i, ops))
    return out


def append_commands(g, quick=120):
    """appending on the command line until nothing is reserved any more, and
    replacing metadata on the way"""
    out = []
    for i in range(g.scale(quick, quick * 10)):
        cs = g.cycle('acs', [10, 100, 1000])
        n = g.cycle('acn', [1, cs - 1, cs, cs + 1, 3 * cs])
        ops = [{'op': 'file', 'n': 'd', 'data': g.data(n)}]
        metas = []      # values that Python does not take for equal (1 == True)
        for m in g.rnd.sample(METAS, len(METAS)):
            if m not in metas and len(metas) < 4:
                metas.append(m)
        for j, m in enumerate(metas):
            ops.append({'op': 'file', 'n': 'm%d' % j, 'text': json.dumps(m)})
        ops.append({'op': 'file', 'n': 'bad', 'text': g.cycle('acb', ['{', 'x', '', '{"a": }', '[1,2', "{'a': 1}"])})
        op = cmd(g, 'compress', 'd')
        op['opts'] = {'cs': tag(cs), 'nt': tag(1), 'csum': tag(g.cycle('ack', CHECKSUMS))}
        if g.rnd.random() < 0.6:
            op['m'] = 'm0'
        if g.rnd.random() < 0.1:
            op['nooffsets'] = True
        ops.append(op)
        for j in range(g.scale(4, 8)):
            k = g.cycle('acl', [0, 1, cs // 2, cs, cs + 1, 5 * cs, 11 * cs, 29 * cs])
            ops.append({'op': 'file', 'n': 'e', 'data': g.data(k)})
            a = options(g, cmd(g, 'append', 'd.blp', 'e'), p=0.3)
            w = g.cycle('acw', ['', '', 'm1', 'm2', 'm3', 'bad', 'gone', '', 'm1'])
            if w:
                a['m'] = w
            ops.append(a)
            if g.rnd.random() < 0.3:
                ops.append(cmd(g, 'info', 'd.blp'))
            if g.rnd.random() < 0.3:
                ops.append(cmd(g, 'decompress', 'd.blp', 'o', force=True))
        ops.append(cmd(g, 'decompress', 'd.blp', 'o', force=True))
        ops.append({'op': 'unpack', 'f': 'd', 'entry': g.cycle('acu', ['f2b', 'f2f'])})
        out.append(scenario('acmd%d' % i, ops))
    return out


def append_same(g):
    """a command line append makes what the library makes with these settings"""
    out = []
    val = lambda x: int.from_bytes(bytes(x['n']), 'little') if x['t'] == 'int' else x['s']
    names = {'ts': 'typesize', 'clevel': 'clevel', 'cname': 'cname'}
    for i in range(g.scale(60, 600)):
        cs = g.cycle('ascs', [100, 1000, 4096, 20000])
        data = g.data(g.cycle('asn', [cs - 1, cs, 2 * cs + cs // 2, 3 * cs]))
        data['k'] = g.cycle('ask', ['seq', 'mix', 'text', 'seq'])
        bl = {'typesize': g.cycle('asts', [8, 4, 1, 2, 16, 8]), 'cname': g.cycle('asc', CNAMES)}
        pk = {'op': 'pack', 'f': 'd', 'entry': 'b2f', 'data': data, 'cs': cs, 'bl': bl,
              'bp': {'checksum': g.cycle('assum', CHECKSUMS)}}
        ops = [pk, {'op': 'copy', 'f': 'd', 'g': 'L'}]
        for j in range(3):
            new = dict(g.data(g.cycle('asa', [cs // 2, cs, 2 * cs + 3, 1])), k=g.cycle('ask', ['seq', 'mix']))
            ops.append({'op': 'file', 'n': 'e', 'data': new})
            a = options(g, cmd(g, 'append', 'd.blp', 'e'), p=g.cycle('asp', [0, 0.3, 0.7, 1]))
            a['opts']['nt'] = tag(1)
            a['key'], a['tag'] = 'app%d' % j, 'C15.same_container'
            obj = {k: val(a['opts'][p]) for p, k in names.items() if p in a['opts']}
            if a.get('noshuffle'):
                obj['shuffle'] = False
            ops += [a, {'op': 'append', 'f': 'L', 'entry': g.cycle('asx', ['path', 'fp']), 'data': new,
                        'a': {'obj': obj}, 'key': 'app%d' % j, 'tag': 'C15.same_container'}]
        out.append(scenario('appsame%d' % i, ops))
    return out


def damaged_commands(g):
    """containers that are damaged, cut off, or something else"""
    out = []
    for i in range(g.scale(70, 800)):
        op = g.pack(cs=g.cycle('dcs', [10, 100, 1000]), n=g.cycle('dcn', [1, 99, 250, 3001]), meta=0.6,
                    offsets=True, cap=50)
        op['bp']['checksum'] = g.cycle('dck', CHECKSUMS[1:])
        if 'meta' in op:
            op['meta'] = g.cycle('dcm', [{'a': 1}, 'x', [1, 2, 3]])
            op['ma'] = {'max': {'mul': 3, 'add': 30}, 'meta_checksum': g.cycle('dcmk', CHECKSUMS[1:])}
        ops = [op, {'op': 'file', 'n': 'e', 'data': g.data(g.cycle('dce', [0, 1, 50]))}]
        for j in range(3):
            w = g.cycle('dcw', ['damage', 'damage', 'trunc', 'foreign', 'damage'])
            d = hurt(g, 'meta' in op)
            if w == 'trunc':
                d = {'op': 'trunc', 'f': 'A', 'g': 'B', 'frac': g.rnd.random()}
            elif w == 'foreign':
                d = {'op': 'sethdr', 'f': 'A', 'g': 'B', 'k': 'bp',
                     'set': [g.cycle('dcf', [[4, 0], [4, 2], [4, 4], [0, 0x78], [5, 0x44], [6, 9]])]}
            ops.append(d)
            ops.append(cmd(g, 'decompress', 'B.blp', g.cycle('dco', ['o', '', 'o']), force=True,
                           noext=False))
            ops.append({'op': 'file', 'n': 'o', 'rm': True})
            if g.rnd.random() < 0.6:
                ops.append(cmd(g, 'info', 'B.blp'))
            if g.rnd.random() < 0.6:
                ops.append(cmd(g, 'append', 'B.blp', 'e'))
        out.append(scenario('dcmd%d' % i, ops))
    return out


def info_commands(g):
    """info and decompress of containers of every kind"""
    out = []
    for i in range(g.scale(170, 1500)):
        op = g.pack(meta=0.7, cs=None if i % 3 else g.cycle('ics', [1, 3, 10, 100, 1000]))
        if op['data']['n'] > 50000:
            op['data']['n'] = op['data']['n'] % 50000
        if 'meta' in op:
            op['ma'] = dict(op.get('ma', {}), max={'mul': 3, 'add': 30})
        ops = [op]
        if g.rnd.random() < 0.4:
            ops.append(g.append(g.cycle('ica', [0, 1, 50, 500])))
        if 'meta' in op and g.rnd.random() < 0.3:
            ops.append({'op': 'rewrite', 'f': 'A', 'meta': 'other', 'kw': {}})
        ops += [cmd(g, 'info', 'A.blp'), cmd(g, 'decompress', 'A.blp')]
        if i % 50 == 0:
            ops[-1]['real'] = ops[-2]['real'] = True
        if i % 4 == 0:
            ops.append(cmd(g, 'decompress', 'A.blp', 'v', level=g.cycle('icl', ['verbose', 'debug'])))
            ops.append(cmd(g, 'info', 'A.blp', level=g.cycle('icl', ['verbose', 'debug'])))
        out.append(scenario('icmd%d' % i, ops))
    return out


def odd_commands(g):
    """links, directories, missing pieces, misuse of the parser"""
    out = []
    d = {'op': 'file', 'n': 'd', 'data': g.data(500)}
    e = {'op': 'file', 'n': 'e', 'data': g.data(50)}
    dd = {'op': 'file', 'n': 'dir', 'dir': True}
    ddb = {'op': 'file', 'n': 'dir.blp', 'dir': True}
    c = lambda *a, **k: cmd(g, *a, **k)
    bogus = lambda name, extra, **k: cmd(g, name, '', '', bogus=True, extra=extra, **k)
    lists = [
        # the same file under two names
        [d, {'op': 'file', 'n': 'l', 'sym': 'd'}, c('compress', 'd', 'l', force=True), c('compress', 'l', 'd', force=True),
         c('compress', 'l'), c('decompress', 'l.blp', 'l'), c('decompress', 'l.blp', 'l', force=True), c('info', 'l.blp')],
        [d, {'op': 'file', 'n': 'l', 'hard': 'd'}, c('compress', 'd', 'l', force=True), c('compress', 'l'),
         {'op': 'file', 'n': 'k.blp', 'hard': 'l.blp'}, c('decompress', 'l.blp', 'k.blp', force=True), c('decompress', 'k.blp'),
         c('append', 'k.blp', 'd'), c('decompress', 'l.blp', 'z'), c('append', 'l.blp', 'k.blp')],
        [d, c('compress', 'd', 'd'), c('compress', 'd', 'd', force=True), c('compress', 'd'),
         c('decompress', 'd.blp', 'd.blp', force=True), c('decompress', 'd.blp', 'd.blp', force=True, noext=True),
         c('append', 'd.blp', 'd.blp'), c('decompress', 'd.blp', 'o')],
        [d, {'op': 'file', 'n': 'k.blp', 'sym': 'd.blp'}, c('compress', 'd'), c('compress', 'd', force=True),
         c('decompress', 'k.blp'), c('append', 'k.blp', 'd'), c('info', 'k.blp'), c('decompress', 'd.blp', 'q')],
        # directories
        [d, dd, ddb, c('compress', 'dir'), c('compress', 'dir', 'o'), c('compress', 'd', 'dir'), c('compress', 'd', 'dir', force=True),
         c('decompress', 'dir.blp'), c('decompress', 'dir.blp', 'o', force=True), c('info', 'dir'), c('info', 'dir.blp'), c('compress', 'd'),
         c('append', 'dir.blp', 'd'), c('append', 'd.blp', 'dir'), c('decompress', 'd.blp', 'dir', force=True),
         c('compress', 'd', 'dir/x.blp'), c('decompress', 'dir/x.blp'), c('decompress', 'dir/x.blp')],
        [d, c('compress', 'd', 'no/x'), c('compress', 'no/d'), c('compress', 'd', 'd/x'), c('decompress', 'no/d.blp'),
         c('compress', 'd'), c('decompress', 'd.blp', 'no/x'), c('append', 'd.blp', 'no/x'), c('append', 'no/x.blp', 'd'), c('info', 'no/x')],
        # missing inputs
        [c('compress', 'a'), c('decompress', 'a.blp'), c('decompress', 'a'), c('append', 'a.blp', 'b'), c('append', 'a', 'b'),
         c('info', 'a'), c('compress', 'a', 'b', force=True), c('decompress', 'a', 'b', noext=True),
         c('decompress', 'a.blp', 'b', noext=True, force=True)],
        [d, c('compress', 'd'), c('append', 'd.blp', 'gone'), c('append', 'gone.blp', 'd'), c('append', 'gone', 'd', noext=True),
         c('append', 'd', 'd.blp'), c('append', 'd', 'e', noext=True), c('info', 'd'), c('decompress', 'd', 'x'),
         c('decompress', 'd', noext=True), c('decompress', 'd', 'x', noext=True)],
        # metadata files
        [d, dd, {'op': 'file', 'n': 'bad', 'text': '{"a":'}, {'op': 'file', 'n': 'm', 'text': '{"a": 1}'},
         {'op': 'file', 'n': 'm2', 'text': '{"a": 2}'}, {'op': 'file', 'n': 'empty', 'text': ''}, {'op': 'file', 'n': 'long', 'text': json.dumps('x' * 5000)},
         c('compress', 'd', m='bad'), c('compress', 'd', m='gone'), c('compress', 'd', m='dir'), c('compress', 'd', m='empty'),
         c('compress', 'd'), c('append', 'd.blp', 'd', m='m'), c('decompress', 'd.blp', 'o'), c('compress', 'd', m='m', force=True), c('append', 'd.blp', 'd', m='bad'),
         c('append', 'd.blp', 'd', m='gone'), c('append', 'd.blp', 'd', m='dir'), c('append', 'd.blp', 'd', m='m'),
         c('append', 'd.blp', 'd', m='long'), c('append', 'd.blp', 'd', m='m2'), c('info', 'd.blp'), c('decompress', 'd.blp', 'o', force=True)],
        # misuse
        [d, c('compress', 'd'), bogus('', []), bogus('compress', []), bogus('c', ['d', 'o', 'p']), bogus('x', ['d']), bogus('decompress', []),
         bogus('append', ['d.blp']), bogus('a', []), bogus('info', []), bogus('i', ['d.blp', 'd']), bogus('', ['-v', '-d', 'c', 'd', 'o']),
         bogus('c', ['-q', 'd', 'o']), bogus('c', ['-z', 'd']), bogus('d', ['-z', '1K', 'd.blp', 'o']), bogus('d', ['-f', 'd.blp', 'o']),
         bogus('a', ['-z', '5', 'd.blp', 'd']), bogus('i', ['-e', 'd.blp']), bogus('', ['--bogus']), bogus('compres-s', ['d', 'o'])],
        [d, e, c('compress', 'd', 'e'), c('compress', 'd', 'e', force=True), c('decompress', 'e'), c('decompress', 'e', 'd', noext=True),
         c('decompress', 'e', 'd', noext=True, force=True), c('info', 'e'), c('append', 'e', 'd'), c('append', 'e', 'd', noext=True),
         c('info', 'e')],
        [d, c('compress', 'd', '.blp'), c('decompress', '.blp'), c('decompress', '.blp', 'o'), c('info', '.blp'), c('append', '.blp', 'd')],
    ]
    for i, ops in enumerate(lists):
        out.append(scenario('odd%d' % i, ops))
        out.append(scenario('oddv%d' % i, [dict(o, level='verbose') if o['op'] == 'cmd' else o for o in ops]))
    return out
