"""Sources and sinks of one's own, that note how they are driven."""
import io
import os

import blosc

import lib
import ops
from ops import abstract_io, args_mod, base, file_io, log, memory_io, quiet

from bloscpack.args import BloscArgs, MetadataArgs
from bloscpack.checksums import CHECKSUMS_LOOKUP
from bloscpack.exceptions import ChecksumMismatch


class Own(BaseException):
    pass


EXCS = {c.__name__: c for c in (ValueError, TypeError, KeyError, IndexError, AttributeError, StopIteration, EOFError,
                                NotImplementedError, MemoryError, OSError, KeyboardInterrupt, GeneratorExit, SystemExit,
                                ZeroDivisionError, AssertionError, ChecksumMismatch, Own)}


class Recorder(object):
    """the calls of one session; one of them may fail, or run another session"""

    def __init__(self, env, op, parts):
        self.env, self.op, self.parts = env, op, parts
        self.calls, self.fired, self.exc = [], False, None
        self.chunk = self.comp = self.puts = 0
        self.made, self.hdr = [], None
        self.got = []
        self.nested = False

    def call(self, c, i=0):
        self.calls.append({'c': c, 'i': i})
        here = lambda x: x and x['c'] == c and x['i'] in (i, 0)
        nest, fail = self.op.get('nest'), self.op.get('fail')
        if here(nest) and not self.nested:
            self.nested = True
            OPS['drive'](self.env, nest['op'])
        if here(fail) and not self.fired:
            self.fired = True
            self.exc = EXCS[fail['exc']]('planned')
            raise self.exc


def source_class(rec, kind, style):
    base_ = abstract_io.PlainSource if kind == 'pack' else abstract_io.CompressedSource

    def produce(r):
        for k, item in enumerate(r.items):
            r.chunk = k + 1
            r.call('chunk', k + 1)
            yield item
        r.call('end')

    class Steps(object):
        def __init__(self, r):
            self.r, self.k = r, 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.k >= len(self.r.items):
                self.r.call('end')
                raise StopIteration
            self.k += 1
            self.r.call('chunk', self.k)
            return self.r.items[self.k - 1]

    class Source(base_):
        rec = None

        def __iter__(self):
            r = self.rec
            i = 0
            if kind == 'pack' and style['configure'] != 'own':
                r.call('conf source', 0)      # that of the base class was to keep the values
                i = 0 if (self.chunk_size, self.last_chunk, self.nchunks) == r.geometry else -1
            r.call('iter', i)
            return Steps(r) if style['iterator'] else produce(r)

    if style['falsy']:
        Source.__len__ = lambda self: 0
    if kind == 'pack':
        if style['configure'] == 'own':
            def configure(self, chunk_size, last_chunk, nchunks):
                self.rec.call('conf source', 0 if (chunk_size, last_chunk, nchunks) == self.rec.geometry else -1)
            Source.configure = configure
        if style['compress'] != 'base':
            def compress_func(self):
                r = self.rec

                def squeeze(chunk, blosc_args):
                    k = len(r.made)
                    same = k < len(r.items) and bytes(chunk) == r.items[k] and dict(blosc_args) == r.blosc
                    r.call('comp', k + 1 if same else -1)
                    if style['compress'] == 'settings':
                        kw = dict(blosc_args)
                    else:
                        kw = dict(typesize=[4, 1, 8][k % 3], clevel=[9, 0, 1][k % 3], shuffle=False, cname='lz4')
                    b = blosc.compress(bytes(chunk), **kw)
                    r.made.append(b)
                    return b
                return squeeze
            Source.compress_func = property(compress_func)
    return Source


def sink_class(rec, kind, style):
    if kind == 'unpack':
        class Sink(abstract_io.PlainSink):
            rec = None

            def put(self, compressed):
                r = self.rec
                k = len(r.got)
                same = k < len(r.stored) and compressed == r.stored[k]
                r.call('put', k + 1 if same else -1)
                r.got.append(blosc.decompress(compressed))
                return len(r.got[-1])
    else:
        class Sink(abstract_io.CompressedSink):
            rec = None

            def configure(self, blosc_args, bloscpack_header):
                r = self.rec
                r.hdr = lib.project(bloscpack_header.encode())
                i = 0 if dict(blosc_args) == r.blosc else -1
                if style['configure'] != 'own':
                    super(Sink, self).configure(blosc_args, bloscpack_header)
                    if self.bloscpack_header != bloscpack_header or self.blosc_args != blosc_args:
                        i = -1
                r.call('conf sink', i)

            def write_bloscpack_header(self):
                self.rec.call('header')

            def write_metadata(self, metadata, metadata_args):
                r = self.rec
                same = lib.canon(metadata) == lib.canon(r.op['meta']) and dict(metadata_args) == r.meta_args
                r.call('meta', 0 if same else -1)

            def init_offsets(self):
                self.rec.call('offsets')

            def finalize(self):
                self.rec.call('final')

            def put(self, i, compressed):
                r = self.rec
                k = len(r.got)
                if r.made:
                    same = k < len(r.made) and compressed == r.made[k]
                else:
                    same = k < len(r.parts) and blosc.decompress(bytes(compressed)) == r.parts[k]
                if style['configure'] != 'own' and (self.do_checksum(compressed) or b'') != lib.digest(r.csum, compressed):
                    same = False
                r.got.append(compressed)
                r.call('put', i + 1 if same and i == k else -1)
                return style['returns']
    if style['falsy']:
        Sink.__len__ = lambda self: 0
    return Sink


class Rolling(object):
    """a checksum of one's own"""
    name, size = 'rolling', 5

    def __call__(self, data):
        x = 7
        for c in bytes(data):
            x = (x * 31 + c) % 1099511627689
        return x.to_bytes(5, 'big')


STYLE = {'configure': 'base', 'iterator': False, 'falsy': False, 'compress': 'base', 'returns': None, 'shape': 'bytes'}


def hurt(d, how):
    if how == 'flip':
        return bytes([d[0] ^ 1]) + d[1:]
    if how == 'last':
        return d[:-1] + bytes([d[-1] ^ 0x80])
    if how == 'short':
        return d[:-1]
    if how == 'long':
        return d + b'\0'
    if how == 'empty':
        return b''
    if how == 'none':
        return None
    return bytes(len(d)) if d != bytes(len(d)) else b'\1' * len(d)


def wrong(kind, right):
    if kind == 'other':
        return object()
    if kind == 'list':
        return [b'abc']
    if kind == 'class':
        return type(right)
    if kind == 'none':
        return None
    return {'plain source': lambda: memory_io.PlainMemorySource([b'abc']),
            'plain sink': lambda: memory_io.PlainMemorySink(),
            'compressed sink': lambda: memory_io.CompressedMemorySink(),
            'compressed source': lambda: file_io.CompressedFPSource(io.BytesIO(
                ops.bp.pack_bytes_to_bytes(b'abc')))}[kind]()


def run(f):
    try:
        with quiet():
            f()
        return True, None
    except BaseException as e:
        return False, e


def leveled(op, f):
    was = log.LEVEL
    log.LEVEL = (log.NORMAL, log.VERBOSE, log.DEBUG)[op.get('level', 0)]
    try:
        return run(f)
    finally:
        log.LEVEL = was


def attach(env, op, which, rec, mk):
    """an object of one's own, perhaps the one of an earlier session"""
    k = ('drive', which, op.get('again'))
    o = env.objs.get(k) if op.get('again') else None
    if o is None:
        o = mk()
        if op.get('again'):
            env.objs[k] = o
    if rec is not None:
        o.rec = rec
    return o


def event(op, rec, ok, exc, **kw):
    r = {'dir': op['dir'], 'n': len(rec.parts), 'meta': op['dir'] == 'pack' and 'meta' in op, 'bad': [],
         'src': op['src'] == 'own', 'snk': op['snk'] == 'own', 'cmp': False}
    r.update(kw.pop('r', {}))
    e = base('drive', r=r, calls=rec.calls, ok=ok, err='' if ok else type(exc).__name__, fired=rec.fired,
             surfaced=exc is rec.exc, wrong=op.get('wrong', ['', ''])[0] + op.get('wrong', ['', ''])[1],
             parts=[lib.fp(p) for p in rec.parts], data=lib.fp(b''.join(rec.parts)), f=op.get('f', ''),
             hdr={}, post={}, got={}, val='', where='', req={})
    e.update(kw)
    return e


def do_pack(env, op):
    data = lib.gen_data(op['data'])
    kw, req = ops.make_args(env, op)
    cs = kw.pop('chunk_size')
    n = max(1, -(-len(data) // cs))
    geometry = (n, min(cs, len(data)) if n == 1 else cs, len(data) - (n - 1) * cs)
    parts = ops.chunks_of(data, geometry)
    rec = Recorder(env, op, parts)
    style = dict(STYLE, **op.get('style', {}))
    shape = {'bytes': bytes, 'memoryview': memoryview, 'bytearray': bytearray}[style['shape']]
    rec.items = [shape(p) for p in parts]
    rec.geometry = (geometry[1], geometry[2], geometry[0])
    rec.blosc = dict(kw['blosc_args']) if 'blosc_args' in kw else dict(BloscArgs())
    rec.meta_args = dict(kw['metadata_args']) if 'metadata_args' in kw else dict(MetadataArgs())
    rec.csum = req['csum']
    own = {}
    path = env.path(op['f']) if op.get('f') else None
    if op['src'] == 'own':
        source = attach(env, op, 'source', rec, lambda: source_class(rec, 'pack', style)())
    elif op['src'] == 'fp':
        source = file_io.PlainFPSource(io.BytesIO(data))
    else:
        source = memory_io.PlainMemorySource(parts)
    fp = None
    if op['snk'] == 'own':
        sink = attach(env, op, 'sink', rec, lambda: sink_class(rec, 'pack', style)())
    elif op['snk'] == 'mem':
        sink = attach(env, op, 'memsink', None, memory_io.CompressedMemorySink)
    else:
        fp = open(path, 'wb') if op['snk'] == 'file' else io.BytesIO()
        sink = file_io.CompressedFPSink(fp)
    w = op.get('wrong')
    if w:
        source, sink = (wrong(w[1], source), sink) if w[0] == 'source' else (source, wrong(w[1], sink))
    ok, exc = leveled(op, lambda: abstract_io.pack(source, sink, *geometry, **kw))
    b = None
    if fp is not None:
        b = fp.getvalue() if op['snk'] == 'fp' else None
        fp.close()
        if b is None:
            b = env.bytes(op['f'])
        elif path:
            env.put(op['f'], b)
    elif op['snk'] == 'mem' and ok and op.get('f'):
        env.mem[op['f']] = sink
    e = event(op, rec, ok, exc, req=req, where='file' if fp is not None else 'memory' if op['snk'] == 'mem' else '',
              r={'cmp': op['src'] == 'own' and style['compress'] != 'base'},
              val=lib.short(lib.canon(op['meta'])) if 'meta' in op else '', hdr=rec.hdr or {})
    if ok and fp is not None:
        e['post'] = lib.project(b)
    elif ok and op['snk'] == 'mem':
        e['post'], e['req'] = ops.mem_snapshot(sink), dict(req, m={'p': False})
        e['mval'] = lib.short(lib.canon(sink.metadata)) if sink.metadata is not None else ''
    env.emit(e)


def do_unpack(env, op):
    style = dict(STYLE, **op.get('style', {}))
    if op['src'] == 'own':
        data = lib.gen_data(op['data'])
        n, cs = op['n'], op['cs']
        parts = [data[i * cs:(i + 1) * cs] for i in range(n)]
        rec = Recorder(env, op, parts)
        rec.stored = [blosc.compress(p, typesize=[1, 4, 8][i % 3], clevel=[5, 9, 0][i % 3], shuffle=i % 2,
                                     cname=['lz4', 'zlib', 'blosclz'][i % 3]) for i, p in enumerate(parts)]
        impl = Rolling() if op['csum'] == 'rolling' else CHECKSUMS_LOOKUP[op['csum']]
        mk = (lambda b: Rolling()(b)) if op['csum'] == 'rolling' else \
            (lambda b: lib.digest(lib.CHECKSUMS.index(op['csum']), b))
        digests = [mk(b) for b in rec.stored]
        bad = []
        if impl.size:
            for i in op.get('bad', []):
                if i <= n:
                    if op['how'] == 'chunk':       # the chunk is, not its digest
                        b = rec.stored[i - 1]
                        rec.stored[i - 1] = b[:-1] + bytes([b[-1] ^ 1])
                    else:
                        digests[i - 1] = hurt(digests[i - 1], op['how'])
                    bad.append(i)
        else:
            digests = [[b'', None, ''][i % 3] for i in range(n)]
        rec.items = list(zip(rec.stored, digests))

        def mk_source():
            return source_class(rec, 'unpack', style)()
        source = attach(env, op, 'source', rec, mk_source)
        source.checksum_impl = impl
        source.nchunks = None if op.get('nonum') else n
        source.metadata = None
    else:
        f = op['f']
        if op['src'] == 'mem':
            if f not in env.mem:
                return
            source = memory_io.CompressedMemorySource(env.mem[f])
            stored = list(env.mem[f].chunks)
        else:
            ok, source = run2(lambda: file_io.CompressedFPSource(io.BytesIO(env.bytes(f))))
            if not ok:
                return
            stored = stored_chunks(env.bytes(f))
        rec = Recorder(env, op, [lib.decompress(b) for b in stored])
        rec.stored, bad = stored, []
    out, fp = None, None
    if op['snk'] == 'own':
        sink = attach(env, op, 'sink', rec, lambda: sink_class(rec, 'unpack', style)())
    elif op['snk'] == 'mem':
        sink = memory_io.PlainMemorySink(*([len(rec.parts)] if style['iterator'] else []))
    else:
        path = env.fresh('.plain')
        fp = open(path, 'wb') if op['snk'] == 'file' else io.BytesIO()
        sink = file_io.PlainFPSink(fp)
    w = op.get('wrong')
    if w:
        source, sink = (wrong(w[1], source), sink) if w[0] == 'source' else (source, wrong(w[1], sink))
    ok, exc = leveled(op, lambda: abstract_io.unpack(source, sink))
    if op['snk'] == 'own':
        out = b''.join(rec.got)
    elif w:
        out = b''
    elif op['snk'] == 'mem':
        out = b''.join(c for c in sink.chunks if c is not None)
    elif op['snk'] == 'fp':
        out = fp.getvalue()
    else:
        fp.close()
        with open(path, 'rb') as q:
            out = q.read()
        os.unlink(path)
    env.emit(event(op, rec, ok, exc, r={'bad': bad}, got=lib.fp(out)))


def run2(f):
    try:
        with quiet():
            return True, f()
    except BaseException:
        return False, None


def stored_chunks(b):
    """the chunks in the container b"""
    import struct
    s = lib.project(b)
    return [b[c['pos']:c['pos'] + c['k']] for c in s['ch']]


def do_drive(env, op):
    return (do_pack if op['dir'] == 'pack' else do_unpack)(env, op)


OPS = ops.OPS
ops.OPS['drive'] = do_drive
