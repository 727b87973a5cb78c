"""The argument and header objects as mappings of their fields."""
import ast
import re
import copy

import headerops
import lib
import ops
from ops import attempt, base

from bloscpack import headers
from bloscpack.args import BloscArgs, BloscpackArgs, MetadataArgs

CLASSES = {'blosc': BloscArgs, 'bloscpack': BloscpackArgs, 'metadata': MetadataArgs,
           'header': headers.BloscpackHeader, 'metaheader': headers.MetadataHeader}
KIND = {c: k for k, c in CLASSES.items()}
SPACE = {c.__name__: c for c in CLASSES.values()}
UNKNOWN = ['nope', '_attrs', 'attributes', 'copy', 'Typesize', '', None, 0, b'typesize', 'bytes_attributes', 'pformat']


CALLABLES = {}


def concrete(v):
    if isinstance(v, dict):
        # one callable for equal ones, as only the same one is equal to itself
        return v['b'].encode('latin1') if 'b' in v else \
            CALLABLES.setdefault((v['mul'], v['add']), ops.linear(v)[0])
    return v


def shown(v):
    """a value, or what a callable makes of its argument, as text"""
    if callable(v):
        ok, r, _ = attempt(lambda: (v(1000), v(2000), v(0)))
        if not ok or any(type(x) is not int for x in r) or (r[1] - r[0]) % 1000 or r[0] - r[2] != r[1] - r[0]:
            return 'callable'
        return '%d*n+%d' % ((r[1] - r[0]) // 1000, r[2])
    return repr(v)


def stated(text, v):
    """a value as it is listed: as it is, or as a size, with the exact number"""
    return callable(v) or text == repr(v) or \
        type(v) is int and v >= 0 and re.match(r'[0-9.]+[A-Z]? \(%dB\)$' % v, text) is not None


def listed(o):
    for by in (4, 0, 7):
        lines = o.pformat(by).split('\n')
        if lines[0] != type(o).__name__ + ':' or len(lines) != 1 + len(o):
            return False
        for line, (n, v) in zip(lines[1:], o.items()):
            if not line.startswith(' ' * by + n + ': ') or not stated(line[by + len(n) + 2:], v):
                return False
    return True


def readable(o):
    """whether the printed forms state the fields"""
    if attempt(lambda: listed(o))[:2] != (True, True):
        return False
    if any(callable(v) for v in dict(o).values()):
        return True
    ok, d, _ = attempt(lambda: ast.literal_eval(str(o)))
    if not ok or d != dict(o):
        return False
    return KIND[type(o)] in ('header', 'metaheader') or eval(repr(o), dict(SPACE)) == o


def look(o):
    names = list(o)
    return {'k': KIND.get(type(o), type(o).__name__), 'names': [str(n) for n in names], 'n': len(o),
            'items': [shown(o[n]) for n in names], 'attrs': [shown(getattr(o, n)) for n in names],
            'views': list(o.keys()) == names and [n for n, _ in o.items()] == names and
            [shown(v) for v in o.values()] == [shown(v) for _, v in o.items()] == [shown(o[n]) for n in names],
            'dict': dict(o) == o and all(n in o for n in names) and not any(u in o for u in UNKNOWN),
            'printed': readable(o)}


def safely(o):
    ok, r, _ = attempt(lambda: look(o))
    return r if ok else {'k': 'broken', 'names': [], 'n': 0, 'items': [], 'attrs': [], 'views': False,
                         'dict': False, 'printed': False}


def encoding(o):
    k = 'bp' if KIND[type(o)] == 'header' else 'meta'
    ok, f, _ = attempt(lambda: headerops.observe(k, o))
    if not ok:
        return []
    ok, b, _ = attempt(o.encode)
    if not ok:
        return [{'k': k, 'f': f, 'ok': False, 'out': [], 'total': []}]
    t = o.total_prospective_chunks if k == 'bp' else None
    return [{'k': k, 'f': f, 'ok': True, 'out': list(b), 'total': [] if t is None else lib.i64(t)}]


def setting(o, given, way):
    if way == 'attr':
        for n, v in given.items():
            setattr(o, n, v)
    elif way == 'item':
        for n, v in given.items():
            o[n] = v
    elif way == 'update':
        o.update(given)
    elif way == 'kw':
        o.update(**given)
    else:
        o.update(list(given.items()))


def act(objs, op):
    a, way = op['act'], op.get('way', '')
    o = objs[op['i'] - 1] if op.get('i') else None
    given = {n: concrete(v) for n, v in op.get('g', {}).items()}
    name = op.get('name')
    if a == 'new':
        cls = CLASSES[op['k']]
        objs.append(cls(*given.values()) if way == 'positional' else cls(**given))
    elif a == 'set':
        setting(o, given, way)
    elif a == 'read':
        if way == 'get':
            r = o.get(name, UNKNOWN)
            if r is UNKNOWN:
                raise KeyError(name)
            return r
        if way == 'dict':
            return dict(o)[name]
        if way == 'star':
            return dict(**o)[name]
        return o[name]
    elif a == 'lend':
        return o.setdefault(name, concrete(op['v'])) if 'v' in op else o.setdefault(name)
    elif a == 'wrong':
        if way == 'update':
            o.update({name: 1})
        elif way == 'kw':
            o.update(**{name: 1})
        else:
            o[name] = 1
    elif a == 'del':
        if way == 'pop':
            o.pop(name)
        elif way == 'popdefault':
            o.pop(name, None)
        elif way == 'popitem':
            o.popitem()
        elif way == 'clear':
            o.clear()
        else:
            del o[name]
    elif a == 'copy':
        objs.append({'copy': lambda: o.copy(), 'shallow': lambda: copy.copy(o), 'deep': lambda: copy.deepcopy(o),
                     'kw': lambda: type(o)(**o), 'dict': lambda: type(o)(**dict(o)),
                     'positional': lambda: type(o)(*o.values())}[way]())
    elif a == 'move':
        t = objs[op['j'] - 1]
        if way == 'object':
            t.update(o)
        else:
            setting(t, dict(o), way)
    elif a == 'use':
        use(objs, op)
    return None


def use(objs, op, fresh=False):
    def pick(k):
        if not op.get(k):
            return None
        o = objs[op[k] - 1]
        return type(o)(**dict(o)) if fresh else o
    return ops.bp.pack_bytes_to_bytes(lib.gen_data(op['data']), chunk_size=op['cs'], metadata={'a': [1, 2]},
                                      blosc_args=pick('bl'), bloscpack_args=pick('bpa'), metadata_args=pick('ma'))


def key(objs, op):
    return 'use ' + ' '.join('%s:%s' % (k, [shown(v) for v in objs[op[k] - 1].values()] if op.get(k) else '')
                             for k in ('bl', 'bpa', 'ma')) + repr((op['data'], op['cs']))


def do_obj(env, op):
    objs = env.objs.setdefault('#', [])
    kinds = [KIND.get(type(o), '') for o in objs]
    if any(op.get(x, 0) > len(objs) for x in ('i', 'j', 'bl', 'bpa', 'ma')):
        return          # there is no such object, as making it failed
    out = {}

    def emit(a, ok, err, **kw):
        lk = [safely(o) for o in objs]
        env.emit(base('obj', ok=ok, err=err, a=a, objs=lk, ret=out.get('r', ''),
                      eq=[[x == y and not x != y for y in objs] for x in objs],
                      enc=[x for o in objs if KIND.get(type(o)) in ('header', 'metaheader') for x in encoding(o)], **kw))

    if op['act'] == 'use':
        for fresh in (False, True):
            ok, b, err = attempt(lambda: use(objs, op, fresh))
            emit({'act': 'use'}, ok, err, key=key(objs, op), tag='C26.used', oh=lib.sha(b) if ok else 'err')
        return
    k = op['k'] if op['act'] == 'new' else kinds[op['i'] - 1]
    names = op['names']
    ok, r, err = attempt(lambda: act(objs, op))
    if ok and op['act'] in ('read', 'lend'):
        out['r'] = shown(r)
    given = {n: shown(concrete(v)) for n, v in op.get('g', {}).items()}
    a = {'act': op['act'], 'i': op.get('i', 0), 'k': k, 'names': names,
         'j': op['j'] if op['act'] == 'move' else names.index(op['name']) + 1 if op.get('name') in names else 0,
         'g': [given.get(n, '') for n in names]}
    emit(a, ok, err)


ops.OPS['obj'] = do_obj
