"""Executes scenarios on the real code and records one event per step.

A scenario is a JSON object {"id": ..., "ops": [...]}; an operation only
contains JSON values, so a scenario can be saved and replayed.
"""
import copy
import contextlib
import io
import json
import math
import os
import re
import sys
import warnings
import zlib

warnings.simplefilter('ignore')

import blosc                                                    # noqa: E402
import setfacts
import lib                                                      # noqa: E402

import bloscpack as bp                                          # noqa: E402
from bloscpack import abstract_io, file_io, memory_io, numpy_io, log   # noqa: E402
from bloscpack import append as append_mod                      # noqa: E402
from bloscpack import args as args_mod                          # noqa: E402
from bloscpack.args import BloscArgs, BloscpackArgs, MetadataArgs       # noqa: E402

ABSENT = object()


class Died(Exception):
    pass


def linear(spec):
    """int or {'mul','add'} -> (argument for the code, {'mul','add'})"""
    if isinstance(spec, dict):
        a, b = spec['mul'], spec['add']
        return (lambda x: a * x + b), {'mul': a, 'add': b}
    return spec, {'mul': 0, 'add': spec}


SIZES = {'B': 1, 'K': 2**10, 'M': 2**20, 'G': 2**30, 'T': 2**40}


def parse_cs(cs):
    """the requested chunk size as num/den*mul for the specification"""
    if isinstance(cs, str):
        m = re.fullmatch(r'(?=\.?\d)(\d*)(?:\.(\d*))?([BKMGT])', cs)
        if not m:
            return 0, {'num': 0, 'den': 0, 'mul': 0}
        frac = m.group(2) or ''
        num, den = int(m.group(1) + frac), 10**len(frac)
        d = math.gcd(num, den)
        return 0, {'num': num // d, 'den': den // d, 'mul': SIZES[m.group(3)]}
    return cs, {'num': 0, 'den': 0, 'mul': 0}


def described(op, data):
    return {'p': 'bad'}          # see ndops


class Env(object):
    """The state of one scenario: a scratch directory and in-memory objects."""

    def __init__(self, dir_, emit):
        self.dir, self.emit = dir_, emit
        self.mem = {}           # file name -> CompressedMemorySink
        self.facts = False      # whether settings are of interest
        self.objs = {}          # reused argument objects
        self.counter = 0
        self.last = {}          # file name -> last known bytes

    def path(self, f):
        return os.path.join(self.dir, f + '.blp')

    def fresh(self, suffix):
        self.counter += 1
        return os.path.join(self.dir, 'x%d%s' % (self.counter, suffix))

    def bytes(self, f):
        try:
            with open(self.path(f), 'rb') as fp:
                return fp.read()
        except FileNotFoundError:
            return b''

    def put(self, f, b):
        self.put_at(self.path(f), b)

    def put_at(self, path, b):
        with open(path, 'wb') as fp:
            fp.write(b)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out, \
            contextlib.redirect_stderr(io.StringIO()) as err:
        yield out, err


SAID = None        # the lines that operations print, when they are of interest


def attempt(f):
    """run f; -> (ok, value or None, error name)"""
    out = None
    try:
        with quiet() as (out, _):
            return True, f(), ''
    except BaseException as e:       # SystemExit, ChunkingException too
        return False, None, type(e).__name__
    finally:
        if SAID is not None:
            SAID.extend(out.getvalue().split('\n'))


def base(op, **kw):
    e = {'op': op, 'key': '', 'oh': '', 'tag': 'X', 'same': True, 'err': ''}
    e.update(kw)
    return e


def outcome_key(e, op):
    """comparison key and tag from the scenario, outcome from the event"""
    if op.get('key'):
        e['key'] = op['key']
        e['tag'] = op.get('tag', 'C21.same')
        if op.get('oh') == 'content' and e['oh'] != 'err':
            # all but how the chunks are compressed
            p = e.get('tpost') or e.get('post')
            if p and not p['bad']:
                e['oh'] = lib.sha(json.dumps([p['hdr'], p['m'].get('bytes', ''), p['resv'],
                                              [[c['nb'], c['d']] for c in p['ch']]]).encode())
        elif op.get('oh') == 'chunks' and e['oh'] != 'err':
            # what containers in files and in memory have in common
            p = e['post']
            if not p['bad']:
                h = list(p['hdr'])
                h[5] &= 0xfd
                val = e['md'] if 'md' in e else e['mval'] if 'mval' in e else p['m'].get('val', '') if p['m'] else ''
                e['oh'] = lib.sha(json.dumps([h, val, [[c['raw'], c['dg'], c['nb'], c['d']] for c in p['ch']]]).encode())
        elif op.get('oh') == 'error' and not e['ok']:
            e['oh'] = 'err ' + e['err']


# ------------------------------------------------------------------ arguments

def make_args(env, op):
    """argument objects for a pack operation, and what they ask for"""
    kw, req = {}, {}
    cs = op.get('cs', '1M')
    req['cs'], req['csr'] = parse_cs(cs)
    if 'cs' in op:
        kw['chunk_size'] = cs
    bl = op.get('bl')
    req['ts'] = (bl or {}).get('typesize', 8)
    if bl is not None:
        kw['blosc_args'] = reuse(env, op, 'bl', lambda: BloscArgs(**bl))
    b = op.get('bp')
    cap = (b or {}).get('max_app', {'mul': 10, 'add': 0})
    capf, req['cap'] = linear(cap)
    req['offs'] = bool((b or {}).get('offsets', True))
    csum = (b or {}).get('checksum', 'adler32')
    req['csum'] = lib.CHECKSUMS.index(csum if csum is not None else 'None')
    if b is not None:
        def mk():
            d = {k: v for k, v in b.items() if k in ('offsets', 'checksum')}
            if 'max_app' in b:
                d['max_app_chunks'] = capf
            return BloscpackArgs(**d)
        kw['bloscpack_args'] = reuse(env, op, 'bp', mk)
    if 'meta' in op:
        kw['metadata'] = reuse(env, op, 'meta%s' % op.get('reuse_meta', ''), lambda: json.loads(json.dumps(op['meta'])))
        m = op.get('ma')
        mx, mxl = linear((m or {}).get('max', {'mul': 10, 'add': 0}))
        if m is not None:
            def mkm():
                d = {k: v for k, v in m.items() if k.startswith('meta_')}
                if 'max' in m:
                    d['max_meta_size'] = mx
                return MetadataArgs(**d)
            kw['metadata_args'] = reuse(env, op, 'ma', mkm)
        req['m'] = {'p': True, 'val': lib.short(lib.canon(op['meta'])),
                    'codec': lib.CODECS.index((m or {}).get('meta_codec', 'zlib')),
                    'level': (m or {}).get('meta_level', 6),
                    'csum': lib.CHECKSUMS.index((m or {}).get('meta_checksum', 'adler32')),
                    'max': mxl}
        sizes(req['m'], json.dumps(op['meta'], separators=(',', ':')).encode())
    else:
        req['m'] = {'p': False}
        if op.get('ma_only') is not None:      # silently ignored without metadata
            kw['metadata_args'] = MetadataArgs(**op['ma_only'])
    return kw, req


def sizes(m, raw):
    lvl = m['level'] if 0 <= m['level'] <= 9 else 6
    m['raw'], m['z'] = len(raw), len(zlib.compress(raw, lvl))


def observed_raw(b):
    """the serialized metadata stored in container b, or None"""
    import struct
    try:
        if not b[5] & 2:
            return None
        comp = struct.unpack('<I', b[52:56])[0]
        s = b[64:64 + comp]
        return s if b[42] == 0 else zlib.decompress(s)
    except Exception:
        return None


def reuse(env, op, name, mk):
    """argument objects may be shared between operations: op['reuse'] names a set"""
    tag = op.get('reuse')
    if not tag:
        return mk()
    k = (tag, name)
    if k not in env.objs:
        env.objs[k] = mk()
    return env.objs[k]


def frozen(kw):
    out = {}
    for k, v in kw.items():
        if hasattr(v, 'attributes'):
            out[k] = [(a, getattr(v, a)) for a in v.attributes], sorted((a, repr(x)) for a, x in vars(v).items())
        elif isinstance(v, dict):
            out[k] = json.dumps(v, sort_keys=True, default=str)
        else:
            out[k] = repr(v)
    return out


DEFAULT_BLOSC = {'typesize': 8, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'}


# ------------------------------------------------------------------ operations

def chunks_of(data, geometry):
    n, cs, last = geometry
    if n == 1:
        return [data]
    return [data[i * cs:(i + 1) * cs] for i in range(n - 1)] + [data[(n - 1) * cs:]]


def mem_snapshot(sink):
    hdr = sink.bloscpack_header.encode()
    s = {'h': lib.sha(hdr), 'size': 0, 'bad': '', 'hdr': list(hdr), 'm': {}, 'tab': [],
         'resv': 0, 'resvok': True, 'ch': [], 'trail': 0}
    csum = hdr[6]
    for i, c in enumerate(sink.chunks):
        sums = getattr(sink, 'checksums', ()) if csum else ()
        dg = sums[i] if i < len(sums) else b''
        s['ch'].append(lib.project_chunk(c or b'', dg or b'', csum, 0))
    # metadata is kept as an object: no section
    s['hdr'][5] &= 0xfd
    return s


def pack_into(entry, data, path, kw, src=None, sink=None, around=(0, 0)):
    """pack `data` by an entry point; -> the bytes of the container when it is
    not in the file at `path`, or the sink when it is in memory, or None"""
    before, after = around
    if entry == 'b2f':
        bp.pack_bytes_to_file(data, path, **kw)
    elif entry == 'dep_b2f':
        bp.pack_bytes_file(data, path, **kw)
    elif entry == 'f2f':
        bp.pack_file_to_file(src, path, **kw)
    elif entry == 'dep_f2f':
        bp.pack_file(src, path, **kw)
    elif entry == 'b2b':
        return bp.pack_bytes_to_bytes(data, **kw)
    else:
        kw = dict(kw)
        g = args_mod.calculate_nchunks(len(data), kw.pop('chunk_size', '1M'))
        if entry in ('fp', 'mem'):
            fp = io.BytesIO(b'\x5a' * before + data + b'\xa5' * after)
            fp.seek(before)
            source = file_io.PlainFPSource(fp)
        else:
            source = memory_io.PlainMemorySource(chunks_of(data, g))
        if entry in ('mem', 'memmem'):
            sink = sink or memory_io.CompressedMemorySink()
            abstract_io.pack(source, sink, *g, **kw)
            return sink
        bio = io.BytesIO()
        abstract_io.pack(source, file_io.CompressedFPSink(bio), *g, **kw)
        return bio.getvalue()


def leftover(path, n):
    """a file of n bytes that is in the way"""
    with open(path, 'wb') as fp:
        fp.write((b'\x5aleft over\0\xa5' * (n // 11 + 1))[:n])


def do_pack(env, op):
    data = lib.gen_data(op['data'])
    kw, req = make_args(env, op)
    before, bdata = frozen(kw), bytes(data)
    entry, f = op.get('entry', 'b2f'), op['f']
    path = env.path(f)
    memory = entry in ('mem', 'memmem')
    if os.path.exists(path):
        os.unlink(path)
    if op.get('over') and not memory:
        leftover(path, op['over'])
    out, src = {}, None

    if entry in ('f2f', 'dep_f2f'):
        src = env.fresh('.dat')
        with open(src, 'wb') as fp:
            fp.write(data)

    def run():
        r = pack_into(entry, data, path, kw, src, env.mem.get(f) if op.get('resink') else None,
                      op.get('around', (0, 0)))
        if memory:
            env.mem[f] = r
        elif r is not None:
            out['b'] = r

    ok, _, err = attempt(run)
    if 'b' in out:
        env.put(f, out['b'])
    e = base('mempack' if memory else 'pack', f=f, entry=entry, ok=ok, err=err,
             data=lib.fp(data), req=req, nd=described(op, data),
             same=frozen(kw) == before and data == bdata)
    if memory:
        e['mval'], e['metaflag'] = '', False
        e['want'] = req['m'].get('val', '')
        e['req'] = dict(req, m={'p': False})
        if ok:
            sink = env.mem[f]
            e['post'] = mem_snapshot(sink)
            e['metaflag'] = bool(sink.bloscpack_header.encode()[5] & 2)
            e['mval'] = lib.short(lib.canon(sink.metadata)) if sink.metadata is not None else ''
            e['oh'] = lib.sha(json.dumps([e['post'], e['mval']]).encode())
            if env.facts:
                e['z'] = setfacts.facts(setfacts.given(op.get('bl') or {}), 8, [c or b'' for c in sink.chunks])
        else:
            e['oh'] = 'err'
    else:
        if ok:
            b = env.bytes(f)
            e['post'] = lib.project(b)
            raw = observed_raw(b)
            if req['m']['p'] and raw is not None:
                sizes(req['m'], raw)
            e['oh'] = e['post']['h']
            if env.facts:
                e['z'] = setfacts.of_container(setfacts.given(op.get('bl') or {}), 8, b, e['post'])
        else:
            if os.path.exists(path) and not op.get('keep_partial'):
                os.unlink(path)
            e['oh'] = 'err'
    outcome_key(e, op)
    env.emit(e)


def mem_source(env, f):
    return memory_io.CompressedMemorySource(env.mem[f])


def do_unpack(env, op):
    f, entry = op['f'], op.get('entry', 'f2b')
    path = env.path(f)
    b = env.bytes(f)

    def run():
        if entry in ('f2b', 'dep_f2b'):
            fn = bp.unpack_bytes_from_file if entry == 'f2b' else bp.unpack_bytes_file
            return fn(path)
        if entry in ('f2f', 'dep_f2f'):
            dst = env.fresh('.out')
            if op.get('over'):
                leftover(dst, op['over'])
            fn = bp.unpack_file_from_file if entry == 'f2f' else bp.unpack_file
            m = fn(path, dst)
            with open(dst, 'rb') as fp:
                d = fp.read()
            os.unlink(dst)
            return d, m
        if entry == 'b2b':
            return bp.unpack_bytes_from_bytes(b)
        if entry == 'cli':
            return cli_unpack(env, path)
        if entry == 'nd':
            a = numpy_io.unpack_ndarray_from_bytes(b)
            return a.tobytes(order='A'), None
        source = mem_source(env, f) if entry.startswith('mem') else \
            file_io.CompressedFPSource(io.BytesIO(b))
        if entry in ('fp', 'memfp'):
            sio = io.BytesIO()
            abstract_io.unpack(source, file_io.PlainFPSink(sio, source.nchunks))
            return sio.getvalue(), source.metadata
        sink = memory_io.PlainMemorySink(
            source.nchunks if entry in ('fpmemn', 'memmemn') and source.nchunks != -1 else None)
        abstract_io.unpack(source, sink)
        return b''.join(sink.chunks), source.metadata

    ok, r, err = attempt(run)
    e = base('unpack', f=f, entry=entry, ok=ok, err=err)
    if ok:
        d, m = r
        e['data'] = lib.fp(d)
        e['val'] = lib.short(lib.canon(m)) if m is not None else ''
        e['oh'] = lib.sha(json.dumps([lib.sha(d), e['val']]).encode())
    else:
        e['data'], e['val'], e['oh'] = lib.NIL, '', 'err'
    if op.get('noval'):
        e['noval'] = True
    outcome_key(e, op)
    env.emit(e)


def cli_unpack(env, path):
    import cliops
    dst = env.fresh('.out')
    rc, out = cliops.run_main(['d', '-e', path, dst])
    if rc != 0:
        raise Died('rc %r' % rc)
    with open(dst, 'rb') as fp:
        d = fp.read()
    os.unlink(dst)
    with open(path, 'rb') as fp:
        m = None
        hdr = fp.read(32)
        # the command prints metadata; its value is C15's business
        if hdr[5:6] and hdr[5] & 2:
            fp.seek(0)
            m = bp.unpack_bytes_from_file(path)[1]
    return d, m


def append_args(env, op):
    a = op.get('a')
    if a is None:
        return None
    mk = (lambda: dict(a['dict'])) if 'dict' in a else (lambda: BloscArgs(**a['obj']))
    # arguments may be shared with packing too
    return reuse(env, op, 'bl' if 'obj' in a else 'a', mk)


def asked_to_append(op):
    """the settings of an append: an object has them all"""
    a = op.get('a') or {'dict': {}}
    return setfacts.given(a['dict'] if 'dict' in a else dict(DEFAULT_BLOSC, **a['obj']))


def do_append(env, op):
    f, entry = op['f'], op.get('entry', 'fp')
    path = env.path(f)
    data = lib.gen_data(op['data'])
    args = append_args(env, op)
    before = frozen({'a': args})
    was = lib.project(env.bytes(f)) if env.facts else None
    lead, more = op.get('around', (0, 0))       # what else there is in the file object

    def run():
        new = io.BytesIO(b'\x5a' * lead + data + b'\xa5' * more)
        new.seek(lead)
        if entry == 'fp':
            with open(path, 'r+b') as o:
                return append_mod.append_fp(o, new, len(data), args)
        if entry == 'bio':
            with open(path, 'rb') as o:
                bio = io.BytesIO(o.read())
            try:
                return append_mod.append_fp(bio, new, len(data), args)
            finally:
                env.put(f, bio.getvalue())
        src = env.fresh('.dat')
        with open(src, 'wb') as fp:
            fp.write(data)
        if entry == 'cli':
            import cliops
            rc, out = cliops.run_main(['a', '-e', path, src])
            if rc != 0:
                raise Died('rc %r' % rc)
            return None
        append_mod.append(path, src, args)
        return None

    ok, ret, err = attempt(run)
    b = env.bytes(f)
    e = base('append', f=f, entry=entry, ok=ok, err=err, data=lib.fp(data),
             valid=op.get('valid', True), post=lib.project(b),
             ret=-1 if ret is None or isinstance(ret, bool) or not isinstance(ret, int) else
             max(-2, min(ret, lib.MAXINT)),
             same=frozen({'a': args}) == before)
    if ok and entry in ('fp', 'bio') and e['ret'] == -1:
        e['ret'] = -2          # must report a number
    if ok and env.facts and not was['bad']:
        e['z'] = setfacts.of_container(asked_to_append(op), 8 if entry == 'cli' else was['hdr'][7], b, e['post'],
                                       len(was['ch']) - 1)
    e['oh'] = e['post']['h'] if ok else 'err'
    outcome_key(e, op)
    env.emit(e)


def do_rewrite(env, op):
    f = op['f']
    path = env.path(f)
    kw = dict(op.get('kw', {}))
    if 'magic_format' in kw and kw['magic_format'] is not None:
        kw['magic_format'] = kw['magic_format'].encode()
    meta = json.loads(json.dumps(op['meta']))
    pre = env.bytes(f)

    def run():
        with open(path, 'r+b') as fp:
            append_mod._seek_to_metadata(fp)
            append_mod._rewrite_metadata_fp(fp, meta, **kw)

    ok, _, err = attempt(run)
    b = env.bytes(f)

    def idx(table, v):
        return -1 if v is None else table.index(v) if v in table else 99
    q = {'val': lib.short(lib.canon(op['meta'])),
         'csum': idx(lib.CHECKSUMS, kw.get('checksum')),
         'codec': idx(lib.CODECS, kw.get('codec', 'zlib')),
         'level': -1 if kw.get('level', 6) is None else
         (kw.get('level', 6) if 0 <= kw.get('level', 6) <= 9 else 99),
         'fmt': kw.get('magic_format') in (None, b'JSON')}
    raw = (observed_raw(b) if ok else None) or json.dumps(op['meta'], separators=(',', ':')).encode()
    lvl = q['level'] if q['level'] != -1 else (pre[43] if len(pre) > 43 else 6)
    q['raw'] = len(raw)
    q['z'] = len(zlib.compress(raw, lvl if 0 <= lvl <= 9 else 6))
    e = base('rewrite', f=f, ok=ok, err=err, q=q, post=lib.project(b), nd=described(op, None),
             same=lib.canon(meta) == lib.canon(op['meta']))
    e['oh'] = e['post']['h'] if ok else 'err'
    outcome_key(e, op)
    env.emit(e)


def sections(b):
    """where the parts of a container are: name -> (first, past the last)"""
    s = lib.project(b)
    if s['bad'] or not s['ch']:
        return {}
    out = {'header': (0, 32)}
    if s['m']:
        comp, mx = int.from_bytes(b[52:56], 'little'), int.from_bytes(b[48:52], 'little')
        dl = lib.DIGEST[b[41]]
        out.update(metaheader=(32, 64), metadata=(64, 64 + comp), metapad=(64 + comp, 64 + mx),
                   metadigest=(64 + mx, 64 + mx + dl))
    dl = lib.DIGEST[b[6]]
    first = s['ch'][0]['pos']
    n = 8 * (len(s['tab']) + s['resv'])
    out['offsets'] = (first - n, first)
    ends = [c['pos'] for c in s['ch'][1:]] + [len(b) - s['trail']]
    for i, (c, end) in enumerate(zip(s['ch'], ends)):
        for name in {0: ['firstchunk', 'firstdigest']}.get(i, []) + \
                {len(ends) - 1: ['lastchunk', 'lastdigest']}.get(i, []) + \
                ({len(ends) // 2: ['midchunk', 'middigest']}.get(i, [])):
            out[name] = (c['pos'], end - dl) if name.endswith('chunk') else (end - dl, end)
    return out


def blosc_field(was, at, to):
    """a field of the header of a chunk with another value"""
    n = 1 if at < 4 else 4
    v = int.from_bytes(was[at:at + n], 'little')
    v = {'zero': 0, 'one': 1, 'dec': v - 1, 'inc': v + 1, 'max': 2**(8 * n - 1) - 1, 'half': v // 2, 'dbl': 2 * v,
         'neg': 2**(8 * n) - 1}[to] % 2**(8 * n)
    return was[:at] + v.to_bytes(n, 'little') + was[at + n:]


def wholly(was, b, lo, hi, op):
    """all of a part replaced"""
    old = was[lo:hi]
    k = op['as']
    if k == 'field':
        return blosc_field(old, op['field'], op['to']) if len(old) >= 16 else old
    if k in ('plain', 'other', 'empty'):        # a digest, but of something else
        code = was[41] if op['in'].startswith('meta') else was[6]
        what = b''
        parts = sections(was)
        if k == 'other':
            a, z = parts['firstchunk' if op['in'] != 'firstdigest' else 'lastchunk']
            what = was[a:z]
        elif k == 'plain' and op['in'] != 'metadigest':
            a, z = parts[op['in'].replace('digest', 'chunk')]
            ok, what, _ = attempt(lambda: blosc.decompress(was[a:z]))
            what = what or b''
        return lib.digest(code, what)
    n = len(old)
    return {'zero': lambda: bytes(n), 'ones': lambda: b'\xff' * n, 'rev': lambda: old[::-1], 'rot': lambda: old[1:] + old[:1],
            'swap': lambda: b''.join(old[i:i + 2][::-1] for i in range(0, n, 2)), 'inc': lambda: bytes((x + 1) % 256 for x in old),
            'not': lambda: bytes(x ^ 255 for x in old), 'spaces': lambda: b' ' * n, 'upper': lambda: old.upper()}[k]()


def do_damage(env, op):
    """g := f with some bytes changed: one at pos, or a stretch of a section"""
    f, g = op['f'], op.get('g', op['f'])
    was = env.bytes(f)
    b = bytearray(was)
    if 'in' in op:
        parts = sections(was)
        lo, hi = parts.get(op['in'], (0, 0))
        if lo >= hi:
            return
        if 'upto' in op:
            hi = max(hi, parts.get(op['upto'], (0, 0))[1])
        k = min(op.get('len', 1), hi - lo, 64)
        pos = lo + min(hi - lo - k, int(op['frac'] * (hi - lo - k + 1)))
        if op.get('as') and hi - lo <= (100000 if op['as'] in ('zero', 'ones', 'spaces') else 3000):
            new = wholly(was, b, lo, hi, op)
            if len(new) == hi - lo:
                b[lo:hi] = new
                k, pos = 0, lo
    else:
        k = 1
        pos = op['pos'] if 'pos' in op else min(len(b) - 1, int(op['frac'] * len(b)))
        if pos < 0:
            pos += len(b)
        if not 0 <= pos < len(b):
            return
    for j in range(pos, pos + k):
        b[j] = op['fill'] if 'fill' in op else b[j] ^ op.get('xor', 0xff)
    b = bytes(b)
    at = [j for j in range(pos, pos + k if k else hi) if b[j] != was[j]]
    if not at:
        return
    old = lib.project(was)
    new = lib.project(b)
    # a checksum that happens to agree with the damaged bytes can not tell
    coll = False
    if new['bad'] == '' and old['bad'] == '' and len(new['ch']) == len(old['ch']):
        coll = all(c['dg'] for c in new['ch']) and (not new['m'] or new['m']['dg']) \
            and any(x['raw'] != y['raw'] for x, y in zip(new['ch'], old['ch']))
        if new['m'] and new['m']['bytes'] != old['m']['bytes']:
            coll = new['m']['dg']
    env.put(g, b)
    env.emit(base('damage', f=f, g=g, at=at, h=new['h'], collides=coll))


def wholly_mem(sink, i, was, op):
    n = len(was)
    if op['as'] == 'field':
        return blosc_field(was, op['field'], op['to']) if op['what'] == 'chunk' and n >= 16 else None
    return {'zero': bytes(n), 'ones': b'\xff' * n, 'rev': was[::-1], 'cut': was[:-1], 'none': b'', 'long': was + b'\0',
            'next': sink.checksums[(i + 1) % len(sink.checksums)]}.get(op['as'])


def do_memhurt(env, op):
    """g := the in-memory container f with a stored chunk or a digest altered"""
    f, g = op['f'], op['g']
    sink = env.mem.get(f)
    if sink is None or not sink.chunks:
        return
    new = copy.copy(sink)
    new.chunks = list(sink.chunks)
    csum = sink.bloscpack_header.encode()[6]
    if csum:
        new.checksums = list(sink.checksums)
    i = min(len(new.chunks) - 1, int(op['at'] * len(new.chunks)))
    what = op['what']
    if what == 'digest' and not csum:
        what = 'chunk'
    if what == 'before':                # the chunk before it in its place
        was, now = new.chunks[i], new.chunks[i - 1]
        new.chunks[i] = now
    else:
        parts = new.chunks if what == 'chunk' else new.checksums
        was = parts[i]
        b = bytearray(was)
        if op.get('as') and (what == 'digest' or op['as'] == 'field'):
            b = wholly_mem(new, i, was, op) or b
        else:
            b[min(len(b) - 1, int(op['frac'] * len(b)))] ^= op.get('xor', 1)
        now = parts[i] = bytes(b)
    if was == now:
        return
    coll = not csum or lib.digest(csum, new.chunks[i]) == new.checksums[i]
    env.mem[g] = new
    env.emit(base('memhurt', f=f, g=g, i=i + 1, what=what, collides=coll))


def do_trunc(env, op):
    f, g = op['f'], op.get('g', op['f'])
    b = env.bytes(f)
    n = op['len'] if 'len' in op else int(op['frac'] * len(b))
    if n < 0:
        n += len(b)
    if not 0 <= n < len(b):
        return
    env.put(g, b[:n])
    env.emit(base('trunc', f=f, g=g, len=n, h=lib.sha(b[:n])))


def do_copy(env, op):
    env.put(op['g'], env.bytes(op['f']))
    env.emit(base('copy', f=op['f'], g=op['g']))


def do_set(env, op):
    """change something that must not matter"""
    if 'nthreads' in op:
        blosc.set_nthreads(op['nthreads'])
    if 'level' in op:
        log.LEVEL = op['level']


OPS = {'pack': do_pack, 'unpack': do_unpack, 'append': do_append,
       'rewrite': do_rewrite, 'damage': do_damage, 'trunc': do_trunc, 'memhurt': do_memhurt,
       'copy': do_copy, 'set': do_set}


def run_scenario(sc, dir_, emit):
    emit({'op': 'begin', 's': sc['id']})
    env = Env(dir_, emit)
    env.facts = sc.get('facts', False)
    blosc.set_nthreads(1)
    log.LEVEL = log.NORMAL
    for op in sc['ops']:
        OPS[op['op']](env, op)
