"""Histories of argument and header objects."""
from gens import CHECKSUMS, CNAMES, scenario

NAMES = {'blosc': ['typesize', 'clevel', 'shuffle', 'cname'],
         'bloscpack': ['offsets', 'checksum', 'max_app_chunks'],
         'metadata': ['magic_format', 'meta_checksum', 'meta_codec', 'meta_level', 'max_meta_size'],
         'header': ['format_version', 'offsets', 'metadata', 'checksum', 'typesize', 'chunk_size', 'last_chunk',
                    'nchunks', 'max_app_chunks'],
         'metaheader': ['magic_format', 'meta_options', 'meta_checksum', 'meta_codec', 'meta_level', 'meta_size',
                        'max_meta_size', 'meta_comp_size', 'user_codec']}
UNKNOWN = ['nope', '_attrs', 'attributes', 'copy', 'Typesize', '', None, 0]
BYTES = [{'b': ''}, {'b': 'JSON'}, {'b': 'a'}, {'b': 'ABCDEFGH'}, {'b': '\x01\xff'}, {'b': 'NUMPY'}]
CALLS = [{'mul': 11, 'add': 0}, {'mul': 0, 'add': 7}, {'mul': 2, 'add': 3}, {'mul': 1, 'add': 0}]
DOMAIN = {
    'typesize': [8, 1, 4, 255, 16], 'clevel': [7, 0, 9, 1], 'shuffle': [True, False], 'cname': CNAMES,
    'offsets': [True, False], 'checksum': CHECKSUMS, 'max_app_chunks': CALLS + [0, 1, 300],
    'magic_format': BYTES, 'meta_checksum': CHECKSUMS, 'meta_codec': ['zlib', 'None'],
    'meta_level': [6, 0, 9, 1], 'max_meta_size': CALLS + [0, 50, 100000],
    'user_codec': BYTES, 'meta_options': ['00000000'], 'format_version': [3, 0, 255, 2], 'metadata': [False, True],
    'chunk_size': [-1, 0, 1, 100, 2**31 - 17, 256], 'last_chunk': [-1, 0, 1, 100, 99, 255],
    'nchunks': [-1, 0, 1, 10, 2**32, 2**62], 'meta_size': [0, 1, 256, 2**32 - 1],
    'meta_comp_size': [0, 1, 255, 65536]}
OF_HEADER = {'max_app_chunks': [0, 0, 1, 300, 2**40], 'max_meta_size': [0, 1, 300, 2**32 - 1], 'typesize': [0, 8, 255, 1]}


def domain(k, n):
    return OF_HEADER[n] if k in ('header', 'metaheader') and n in OF_HEADER else DOMAIN[n]


def value(g, k, n):
    return g.cycle('o' + k + n, domain(k, n))


def legal(k, v):
    """that the constructor takes them"""
    if k != 'header':
        return v
    c, l = v.get('chunk_size', -1), v.get('last_chunk', -1)
    if c != -1 and l != -1 and l > c:
        v['last_chunk'] = c
    if v.get('nchunks', -1) == -1 and v.get('max_app_chunks', 0):
        v['max_app_chunks'] = 0
    return v


def new(g, k, v):
    names = NAMES[k]
    v = legal(k, dict(v))
    way = g.cycle('onew', ['kw', 'kw', 'positional'])
    if way == 'positional':
        n = max([names.index(x) + 1 for x in v] or [0])
        for x in names[:n]:
            if x not in v:
                v[x] = value(g, k, x)
        v = legal(k, {x: v[x] for x in names if x in v})
        if 'last_chunk' in v and k == 'header':
            v = {x: v[x] for x in names if x in v}
    if k == 'bloscpack' and g.rnd.random() < 0.1 and 'checksum' in v:
        v['checksum'] = None
    return {'op': 'obj', 'act': 'new', 'k': k, 'names': names, 'g': v, 'way': way}


def unknown(g, k):
    others = [n for q in NAMES for n in NAMES[q] if n not in NAMES[k]]
    return g.rnd.choice(UNKNOWN + others)


def one(g, kinds, a, i, j=0, v=None, name=None):
    """an action on the i-th object"""
    k = kinds[i - 1]
    names = NAMES[k]
    o = {'op': 'obj', 'act': a, 'i': i, 'names': names}
    name = name or g.rnd.choice(names)
    if a == 'set':
        o.update(g=v or {name: value(g, k, name)}, way=g.cycle('oset', ['attr', 'item', 'update', 'kw', 'pairs']))
    elif a in ('read', 'lend'):
        o['name'] = name if j else unknown(g, k)
        o['way'] = g.cycle('oread', ['item', 'get', 'dict', 'star'])
        if not j:
            o['way'] = 'item'
        if a == 'lend' and g.rnd.random() < 0.8:
            o['v'] = value(g, k, o['name']) if j else 1
    elif a == 'wrong':
        o.update(name=unknown(g, k), way=g.cycle('owrong', ['item', 'update', 'kw']))
        if o['way'] == 'kw' and not isinstance(o['name'], str):
            o['way'] = 'item'
    elif a == 'del':
        o.update(name=name, way=g.cycle('odel', ['del', 'pop', 'popdefault', 'popitem', 'clear']))
    elif a == 'copy':
        o['way'] = g.cycle('ocopy', ['copy', 'shallow', 'deep', 'kw', 'dict', 'positional'])
        if k in ('header', 'metaheader'):
            o['way'] = g.cycle('ocopyh', ['copy', 'shallow', 'deep'])
    elif a == 'move':
        o.update(j=j, way=g.cycle('omove', ['object', 'attr', 'item', 'update', 'kw', 'pairs']))
    return o


def use(g, kinds):
    """packing with some of the objects"""
    o = {'op': 'obj', 'act': 'use', 'names': [], 'data': {'n': g.cycle('oun', [0, 1, 1000, 3000]), 'k': 'text', 's': 1},
         'cs': g.cycle('oucs', [100, 1000, 333])}
    for key, k in (('bl', 'blosc'), ('bpa', 'bloscpack'), ('ma', 'metadata')):
        at = [i + 1 for i, q in enumerate(kinds) if q == k]
        if at:
            o[key] = g.rnd.choice(at)
    return o


def object_histories(g):
    """those of the model: kinds and fields are filled in"""
    out = []
    for n, h in enumerate(g.sample([h for h in g.histories.get('ObjectsMC', []) if h[-1]['act'] != 'new'],
                                  g.scale(150, 8000))):
        ka, kb = g.rnd.sample(list(NAMES), 2)
        kind = {'a': ka, 'b': kb}
        field = {k: g.rnd.sample(NAMES[k], 2) for k in (ka, kb)}
        vals = {(k, f): (g.rnd.sample(domain(k, f), min(3, len(domain(k, f)))) * 3)[:3] for k in (ka, kb) for f in field[k]}
        kinds, ops = [], []
        for a in h:
            v = {}
            k = kind[a['k']] if a['act'] == 'new' else kinds[a['i'] - 1]
            if 'g' in a:
                v = {field[k][p]: vals[k, field[k][p]][x] for p, x in enumerate(a['g']) if x != -1}
            if a['act'] == 'new':
                ops.append(new(g, k, v))
                kinds.append(k)
            elif a['act'] == 'move' and k != kinds[a['j'] - 1]:
                continue
            else:
                j = a.get('j', 0)
                ops.append(one(g, kinds, a['act'], a['i'], j, v, field[k][j - 1] if j and a['act'] in ('read', 'lend') else None))
                if a['act'] == 'copy':
                    kinds.append(k)
        if g.rnd.random() < 0.2 and set(kinds) & {'blosc', 'bloscpack', 'metadata'}:
            ops.append(use(g, kinds))
        out.append(scenario('ob%d' % n, ops))
    return out


def object_walks(g):
    """long histories of several objects of every kind"""
    out = []
    for n in range(g.scale(200, 3000)):
        kinds, ops = [], []
        pool = ['header'] if n % 5 == 0 else g.rnd.sample(list(NAMES), g.rnd.randrange(1, 4))
        for _ in range(g.rnd.randrange(6, 16)):
            a = g.rnd.choice(['new', 'set', 'set', 'set', 'copy', 'copy', 'move', 'move', 'read', 'lend', 'wrong', 'del', 'use'])
            if not kinds or a == 'new':
                k = g.rnd.choice(pool)
                fs = g.rnd.sample(NAMES[k], g.rnd.randrange(len(NAMES[k]) + 1))
                ops.append(new(g, k, {f: value(g, k, f) for f in fs}))
                kinds.append(k)
            elif a == 'use':
                if set(kinds) & {'blosc', 'bloscpack', 'metadata'}:
                    ops.append(use(g, kinds))
            else:
                i = g.rnd.randrange(len(kinds)) + 1
                if a == 'move':
                    same = [j + 1 for j, k in enumerate(kinds) if k == kinds[i - 1] and j + 1 != i]
                    if same:
                        ops.append(one(g, kinds, a, i, g.rnd.choice(same)))
                elif a == 'set':
                    k = kinds[i - 1]
                    fs = g.rnd.sample(NAMES[k], g.rnd.randrange(1, 4))
                    ops.append(one(g, kinds, a, i, 0, {f: value(g, k, f) for f in fs}))
                else:
                    ops.append(one(g, kinds, a, i, g.rnd.randrange(2)))
                if a == 'copy':
                    kinds.append(kinds[i - 1])
        out.append(scenario('ow%d' % n, ops))
    return out


def each_field(g):
    """every field of every kind, with every value, is set and used alone"""
    out = []
    for k in NAMES:
        ops = [new(g, k, {})]
        for f in NAMES[k]:
            for v in domain(k, f):
                ops.append(one(g, [k], 'set', 1, 0, {f: v}))
                ops.append(one(g, [k], 'read', 1, 1, None, f))
                if k in ('blosc', 'bloscpack', 'metadata'):
                    ops.append(use(g, [k]))
        out.append(scenario('oe' + k, ops))
    return out


OBJECTS = [object_histories, object_walks, each_field]
