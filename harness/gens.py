"""Scenario generators.

Histories come from the specification (TLC prints one for every transition of
the abstract graph); this module makes them concrete: it picks sizes so that
the concrete operations take the same abstract transitions, and settings,
entry points and data from the domains the properties quantify over.
"""
import ast
import glob
import json
import os
import random
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')

PACK_FILE = ['b2f', 'f2f', 'b2b', 'fp', 'memfp', 'dep_f2f', 'dep_b2f']
PACK_MEM = ['mem', 'memmem']
UNPACK = ['f2b', 'f2f', 'b2b', 'fp', 'fpmem', 'fpmemn', 'dep_f2b', 'dep_f2f']
UNPACK_MEM = ['memfp', 'memmem', 'memmemn']
APPEND = ['fp', 'bio', 'path']
CNAMES = ['blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd']
CHECKSUMS = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256',
             'sha384', 'sha512']
TYPESIZES = [1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 64, 100, 127, 128, 200, 254, 255]
CHUNKS = [1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255,
          256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32768,
          65535, 65536, 65537, 100000]
CHUNKS_STR = ['1B', '100B', '0.5K', '1K', '1.5K', '2.25K', '1.1K', '4K', '16K', '64K', '1.7K', '0.3K', '3.999K', '2.71K', '10.07K',
              '33.6B', '7.99B', '0.0009765625M', '0.001M', '.5K', '0.05M', '12.50K', '007K']
METAS = [{}, [], 0, 1, True, False, '', 'x', 'None', {'a': 1}, {'a': [1, 2.5, None]}, [[]], [None],
         {'': ''}, {'dtype': 'f8', 'shape': [10, 10], 'others': []}, {'k': {'l': {'m': [1, [2, [3]]]}}},
         {'u': u'\u00e9\u4e2d\U0001f600', 'z': '\x00\x01"\\/\n'}, 1e300, -5, 2**70, 0.1, 'a' * 300,
         list(range(200)), {'key%d' % i: 'v' * (i % 13) for i in range(40)},
         'no \x7f\x80\xff', ['true', 'null', '{}'], {'nested': [{'a': [{}]}] * 20},
         ''.join(chr(33 + (i * 7919 % 90)) for i in range(700)), {'x': 'y' * 5000}]
KINDS = ['mix', 'rnd', 'zero', 'seq', 'text', 'ff']


def fold(node, env):
    """the value of a constant expression"""
    if isinstance(node, ast.Constant) and isinstance(node.value, int) \
            and not isinstance(node.value, bool):
        return node.value
    if isinstance(node, (ast.Name, ast.Attribute)):
        return env.get(node.id if isinstance(node, ast.Name) else node.attr)
    if isinstance(node, ast.BinOp):
        a, b = fold(node.left, env), fold(node.right, env)
        if a is None or b is None:
            return None
        op = type(node.op).__name__
        try:
            if op == 'Pow' and 0 <= b < 64 and abs(a) < 1000:
                return a ** b
            if op == 'Mult':
                return a * b
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'LShift' and 0 <= b < 64:
                return a << b
        except Exception:
            return None
    return None


def mentions(repo):
    """{file: {function: {'i': integers, 's': strings it mentions, with repetitions}}}"""
    trees, env, out = {}, {}, {}
    for f in sorted(glob.glob(os.path.join(repo, 'bloscpack', '*.py'))):
        try:
            with open(f) as fp:
                trees[os.path.basename(f)] = ast.parse(fp.read())
        except Exception:
            continue
    for _ in range(2):
        for tree in trees.values():
            for n in tree.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v = fold(n.value, env)
                    if v is not None:
                        env[n.targets[0].id] = v

    def walk(node, name, res):
        me = res.setdefault(name, {'i': [], 's': []})
        v = fold(node, env)
        if v is not None and v >= 1:
            me['i'].append(v)
        if isinstance(node, ast.Constant) and isinstance(node.value, str) \
                and len(node.value) <= 24 and '\n' not in node.value:
            me['s'].append(node.value)
        for c in ast.iter_child_nodes(node):
            inner = isinstance(c, (ast.FunctionDef, ast.ClassDef))
            walk(c, name + '.' + c.name if inner else name, res)

    for f, tree in trees.items():
        walk(tree, '', out.setdefault(f, {}))
    return out


def literals():
    """integers and strings that occur in the sources of the code under test:
    a condition on a particular value is likely to name it; and those that were
    not there, or not in that function, when this was written"""
    now = mentions(REPO)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'literals.json')) as fp:
        then = json.load(fp)
    every, new = {'i': set(), 's': set()}, {'i': set(), 's': set()}
    for f, fns in now.items():
        for fn, ms in fns.items():
            for k in 'is':
                old = list(then.get(f, {}).get(fn, {}).get(k, []))
                for v in ms[k]:
                    every[k].add(v)
                    if v in old:
                        old.remove(v)
                    else:
                        new[k].add(v)
    return sorted(every['i']), sorted(every['s']), sorted(v for v in new['i'] if v > 2), sorted(new['s'])


def near(vals):
    return sorted({v + d for v in vals for d in (-1, 0, 1) if v + d >= 1})


class G(object):

    def __init__(self, seed, tier, histories=None):
        self.rnd = random.Random(seed)
        self.tier = tier
        self.full = tier == 'thorough'
        self.ints, self.strs, self.newints, self.newstrs = literals()
        self.strs = self.newstrs + [s for s in self.strs if s not in self.newstrs]
        self.histories = histories or {}
        self.counters = {}

    # ---------------------------------------------------------- choosing

    def cycle(self, name, pool):
        """every element once per round, in an order of its own"""
        st = self.counters.setdefault(name, [])
        pool = list(pool)
        if not st:
            st.extend(range(len(pool)))
            self.rnd.shuffle(st)
        return pool[st.pop() % len(pool)]

    def scale(self, quick, thorough):
        """how many there are in the two tiers"""
        return thorough if self.full else quick if quick < 5 else min(4 * quick, thorough)

    def lits(self, lo, hi):
        return [v for v in near(self.ints) if lo <= v <= hi]

    def chunk(self, hi=100000):
        pool = sorted(set(CHUNKS + self.lits(1, hi)))
        return self.cycle('chunk%d' % hi, [c for c in pool if c <= hi])

    def cs_value(self, cs):
        if isinstance(cs, str):
            return int(Fraction(cs[:-1]) * {'B': 1, 'K': 1024, 'M': 2**20, 'G': 2**30}[cs[-1]])
        return cs

    def length(self, cs, cap=400000, maxn=90):
        """an input length around the boundaries of chunk size cs"""
        k = self.cycle('nch', [0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 33, 64, 65, 80])
        k = min(k, maxn, max(1, cap // cs))
        d = self.cycle('dlt', [-1, 0, 1, 'half', 'third', 0, 1, -1])
        d = cs // 2 if d == 'half' else cs // 3 if d == 'third' else d
        return max(0, k * cs + d)

    def data(self, n):
        return {'k': self.cycle('kind', KINDS), 'n': n, 's': self.rnd.randrange(1000)}

    def meta(self):
        pool = METAS + [{s: i} for i, s in enumerate(self.strs[:60])] + \
            [[s] for s in self.strs[:60]]
        return self.cycle('meta', pool)

    def blosc(self, p_none=0.15):
        if self.rnd.random() < p_none:
            return None
        d = {}
        for k, pool in (('typesize', TYPESIZES + self.lits(1, 255)),
                        ('clevel', list(range(10))), ('shuffle', [True, False]),
                        ('cname', CNAMES)):
            if self.rnd.random() < 0.85:
                d[k] = self.cycle(k, pool)
        return d

    def bp(self, offsets=None, cap=None):
        d = {'checksum': self.cycle('csum', CHECKSUMS)}
        if offsets is None:
            offsets = self.cycle('offs', [True, True, True, False])
        d['offsets'] = offsets
        if cap is None:
            cap = self.cycle('cap', [0, 1, 2, 3, 5, 10, 31, 100, {'mul': 1, 'add': 0},
                                     {'mul': 0, 'add': 7}, {'mul': 10, 'add': 0},
                                     {'mul': 2, 'add': 1}, 'default'])
        if cap != 'default':
            d['max_app'] = cap
        if self.rnd.random() < 0.1:
            d.pop('checksum')
        return d

    def ma(self):
        r = self.rnd.random()
        if r < 0.2:
            return None
        d = {}
        if self.rnd.random() < 0.8:
            d['meta_checksum'] = self.cycle('mcsum', CHECKSUMS)
        if self.rnd.random() < 0.8:
            d['meta_codec'] = self.cycle('mcodec', ['None', 'zlib'])
        if self.rnd.random() < 0.8:
            d['meta_level'] = self.cycle('mlevel', list(range(10)))
        if self.rnd.random() < 0.7:
            d['max'] = self.cycle('mmax', [{'mul': 1, 'add': 0}, {'mul': 2, 'add': 3}, 6000,
                                           {'mul': 1, 'add': 1}, {'mul': 0, 'add': 700}, 60,
                                           {'mul': 1, 'add': -1}, 10, {'mul': 10, 'add': 0}])
        return d

    def settings(self, op, meta=0.5, offsets=None, cap=None):
        b = self.blosc()
        if b is not None:
            op['bl'] = b
        if self.rnd.random() < 0.9 or offsets is not None or cap is not None:
            op['bp'] = self.bp(offsets, cap)
        if self.rnd.random() < meta:
            op['meta'] = self.meta()
            m = self.ma()
            if m is not None:
                op['ma'] = m
        return op

    def pack(self, f='A', entry=None, cs=None, n=None, **kw):
        if cs is None:
            r = self.rnd.random()
            cs = self.chunk() if r < 0.82 else self.cycle('cstr', CHUNKS_STR) if r < 0.95 \
                else self.rnd.choice(['%.1fK', '%.2fK', '%.3fK', '%.1fB', '%.0fB']) % (2 + self.rnd.random() * 90)
        v = self.cs_value(cs)
        if n is None:
            n = self.length(v)
        op = {'op': 'pack', 'f': f, 'entry': entry or self.cycle('pe', PACK_FILE),
              'cs': cs, 'data': self.data(n)}
        if self.rnd.random() < 0.3:
            op['around'] = self.cycle('around', [[0, 5], [3, 0], [7, 100], [0, 1], [1000, 5000], [0, 70000]])
        if self.rnd.random() < 0.25:
            op['data'].update(k='blk', b=max(min(v, n), n // 2000, 1))
        if op['entry'] in ('b2f', 'f2f', 'dep_f2f', 'dep_b2f') and self.rnd.random() < 0.3:
            op['over'] = self.cycle('over', [1, 32, 100, 3 * n + 5000, n, 200000])
        return self.settings(op, **kw)

    def append(self, n, f='A'):
        op = {'op': 'append', 'f': f, 'entry': self.cycle('ae', APPEND), 'data': self.data(n)}
        if self.rnd.random() < 0.4:
            op['around'] = self.cycle('around', [[0, 5], [3, 0], [7, 100], [0, 1], [1000, 5000], [0, 70000]])
        r = self.rnd.random()
        if r < 0.35:
            op['a'] = {'obj': self.blosc(0) or {}}
        elif r < 0.55:
            d = dict(self.blosc(0) or {})
            op['a'] = {'dict': {k: d.get(k) for k in ('typesize', 'clevel', 'shuffle', 'cname')}}
        return op

    def reads(self, f='A', k=1, mem=False):
        ops = [{'op': 'unpack', 'f': f,
                'entry': self.cycle('ume' if mem else 'ue', UNPACK_MEM if mem else UNPACK)}
               for _ in range(k)]
        for op in ops:
            if op['entry'] in ('f2f', 'dep_f2f') and self.rnd.random() < 0.3:
                op['over'] = self.cycle('uover', [1, 100, 5000, 200000])
        return ops

    def all_reads(self, f='A', mem=False):
        return [{'op': 'unpack', 'f': f, 'entry': e} for e in (UNPACK_MEM if mem else UNPACK)]

    def sample(self, hs, k):
        return hs if k >= len(hs) else self.rnd.sample(hs, k)

    # ---------------------------------------------------------- histories

    def concrete_len(self, total, c, C, mid):
        """concrete size of an abstract content of `total` units, for chunks of
        c units that stand for C bytes; the classes modulo c are kept apart"""
        q, r = divmod(total, c)
        if r == 0:
            x = 0
        elif c == 2:
            x = mid
        else:
            x = 1 if r == 1 else C - 1 if r == c - 1 else C // 2
        return q * C + x

    def history(self, h, scales=None, meta=0.4):
        """one history of Ops (without metadata replacement) made concrete"""
        p = h[0]
        n, cs = p['len'], p['cs']
        c = min(cs, n) or 1
        C = self.cycle('scale', scales or [3, 4, 8, 16, 17, 100, 255, 256, 257, 1000, 1024, 4096,
                                           65536])
        C = max(C, 2 * c)
        mid = self.cycle('mid', [1, C - 1, C // 2]) % C or 1
        f = lambda t: self.concrete_len(t, c, C, mid)
        total = n
        conc = f(n)
        # a chunk size above the length is lowered to it
        req = C if n >= cs else conc + self.cycle('above', [1, 2, 1000, C])
        if n < cs:
            C2 = conc
            f = lambda t: self.concrete_len(t, c, C2, mid % C2 or 1) if C2 > 1 else t
            conc = f(n) if n else 0
        if n == 0:
            f = lambda t: t * C
            conc, req = 0, C
        op = self.pack(cs=req, n=conc, offsets=p['offs'], cap=p['cap'], meta=meta)
        # in a history the metadata must fit
        if 'ma' in op:
            op['ma']['max'] = {'mul': 3, 'add': 30}
        out = [op] + self.reads()
        at = conc
        for a in h[1:]:
            total += a['len']
            new = f(total)
            out.append(self.append(max(0, new - at)))
            at = max(at, new)
            out += self.reads()
        return out


def scenario(sid, ops):
    return {'id': sid, 'ops': ops}


# ------------------------------------------------------------------ C01 .. C04

def roundtrip(g, count=None, reads=None, meta=0.5):
    """packing entry points x settings x sizes around chunk boundaries"""
    out = []
    for i in range(count or g.scale(260, 3000)):
        mem = i % 8 == 7
        op = g.pack(entry=g.cycle('pm', PACK_MEM) if mem else None, meta=meta)
        rd = g.all_reads(mem=mem) if reads == 'all' or i % 10 == 0 or mem else g.reads(k=2)
        out.append(scenario('rt%d' % i, [op] + rd))
    return out


def corners(g):
    """sizes that deserve every entry point: empty, one byte, exact, just past"""
    out = []
    for n in (0, 1, 2, 15, 16, 17, 1000, 1024, 1025, 2048, 3000):
        for e in PACK_FILE + PACK_MEM:
            mem = e in PACK_MEM
            cs = g.cycle('ccs', [1024, 1000, 16, 512, '1K'])
            if n // g.cs_value(cs) > 200:
                cs = 16
            op = g.pack(entry=e, cs=cs, n=n)
            out.append(scenario('corner-%d-%s' % (n, e), [op] + (
                g.all_reads(mem=mem) if g.full else g.reads(k=3, mem=mem))))
    return out


def many_chunks(g):
    """more chunks than a byte counts, and more than one offsets block"""
    out = []
    for i, (n, cs) in enumerate([(300, 1), (257 * 16, 16), (1023 * 4 + 1, 4), (2050, 2)] +
                                ([(70000, 1)] if False else []) +
                                ([(3999 * 3, 3), (65537, 64), (4000, 1)] if g.full else [])):
        out.append(scenario('many%d' % i, [g.pack(cs=cs, n=n, cap=g.cycle('mc', [0, 5, 300]))] +
                            g.reads(k=2)))
    return out


def big(g):
    """chunk sizes that do not fit 16 bits, and default sizes"""
    out = []
    sizes = [('1M', 2**20), ('1M', 2**20 + 1), ('2M', 3 * 2**20 - 1), (2**20 - 1, 2**21),
             (2147483631, 100000), ('1G', 300000), (2**24, 2**24 + 5), (700000, 2100000)]
    if g.full:
        sizes += [('16M', 2**25 + 7), (2**22 + 3, 3 * 2**22), (8388607, 8388609), ('1.5M', 2**23)]
    for v in g.lits(150000, 5000000):
        sizes.append((v, min(2 * v + 1, 6000000)))
    for i, (cs, n) in enumerate(sizes):
        op = g.pack(cs=cs, n=n)
        op['data']['k'] = g.cycle('bigk', ['seq', 'zero', 'mix'])
        out.append(scenario('big%d' % i, [op] + g.reads(k=2)))
    for i in range(2):
        op = g.pack(cs='1M', n=g.cycle('dfl', [1500000, 1048576]))
        op.pop('cs')                 # the default chunk size
        op['data']['k'] = 'seq'
        out.append(scenario('default%d' % i, [op] + g.reads(k=2)))
    return out


def literal_sizes(g):
    """lengths and chunk sizes named in the sources, and their neighbours"""
    out = []
    for v in g.lits(1, 150000):
        cs = g.cycle('lcs', [v, max(1, v // 2), max(1, v // 3), 2 * v])
        while v // cs > 300:
            cs *= 7
        out.append(scenario('lit%d' % v, [g.pack(cs=cs, n=v)] + g.reads(k=2)))
    return g.sample(out, g.scale(60, 400))


def looks(g):
    """chunks of every look (zeros, ones, noise, like the one before, like a
    header) in every position, for ordinary chunk sizes"""
    out = []
    sizes = [1, 16, 100, 128, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 1048576]
    sizes = sizes + [v for v in g.lits(1, 300000) if v not in sizes]
    kinds = 'zfrsthcpqmaxvk'
    todo = [(cs, a + b) for cs in sizes[:16] for a in 'zrt' for b in kinds if cs < 200000 or a + b in ('rz', 'tz', 'zr')]
    todo += [(cs, a + b) for cs in sizes[16:] for a, b in (('t', 'z'), ('z', 'r'), ('r', 's'))]
    keep = [x for x in todo if x[0] in (4096, 1024, 65536) and x[1] in ('rz', 'tz', 'zf', 'zr', 'rf')]
    for i, (cs, look) in enumerate(keep + g.sample([x for x in todo if x not in keep], g.scale(110, 900))):
        k = g.cycle('lkn', [2, 2, 3, 2])
        n = k * cs + g.cycle('lkd', [0, 0, -1, 0, 1, 0, cs // 2])
        op = g.pack(cs=cs, n=max(1, n), meta=0.2)
        if look[-1] in 'ax' and g.rnd.random() < 0.8:       # stored as it is
            op.setdefault('bl', {})['clevel'] = 0
            op.setdefault('bp', {})['checksum'] = {'a': 'adler32', 'x': 'crc32'}[look[-1]]
        op['data'].update(k='blk', b=cs, l=look * 3 if k == 2 or g.rnd.random() < 0.5 else look[0] + look)
        out.append(scenario('look%d' % i, [op] + g.reads(k=2) + (
            [{'op': 'unpack', 'f': 'A', 'entry': 'f2f'}] if i % 2 else [])))
    return out


def settings_grid(g):
    """all pairs of (codec, level), (checksum, offsets), ..."""
    out = []
    i = 0
    for cn in CNAMES:
        for cl in range(10):
            op = g.pack(cs=g.cycle('gcs', [64, 1000, 5000]), n=g.cycle('gn', [999, 2000, 5001]))
            op['bl'] = {'cname': cn, 'clevel': cl, 'shuffle': bool(i % 2),
                        'typesize': g.cycle('gts', TYPESIZES)}
            out.append(scenario('grid%d' % i, [op] + g.reads(k=1)))
            i += 1
    for cs in CHECKSUMS:
        for offs in (True, False):
            for m in (True, False):
                op = g.pack(cs=100, n=g.cycle('gn2', [0, 99, 100, 250, 1001]), meta=1 if m else 0)
                op['bp'] = {'checksum': cs, 'offsets': offs}
                out.append(scenario('grid%d' % i, [op] + g.reads(k=1)))
                i += 1
    return out


def metadata(g):
    """every metadata value x codec, level, checksum, reserve"""
    out = []
    for i, m in enumerate(METAS + [{s: s} for s in g.strs[:40]]):
        for j in range(g.scale(2, 8)):
            op = g.pack(cs=g.cycle('mcs', [1000, 7, 64]), n=g.cycle('mn', [0, 5, 100, 129]), meta=0)
            op['meta'] = m
            ma = g.ma()
            if ma is not None:
                op['ma'] = ma
            out.append(scenario('meta%d-%d' % (i, j), [op] + g.reads(k=2)))
        if i % 3 == 0:
            op = g.pack(entry=g.cycle('pm', PACK_MEM), cs=100, n=250, meta=0)
            op['meta'] = m
            out.append(scenario('metamem%d' % i, [op] + g.reads(k=1, mem=True)))
    # fits exactly, misses by one; the serialized size is what JSON makes of it
    for n in (2, 3, 10, 255, 256, 1000, 65536):
        for codec in ('None', 'zlib'):
            for mx in ({'mul': 1, 'add': 0}, {'mul': 1, 'add': -1}, {'mul': 1, 'add': 1},
                       {'mul': 0, 'add': n}, {'mul': 0, 'add': 20}):
                op = g.pack(cs=50, n=60, meta=0)
                op['meta'] = 'q' * (n - 2)
                op['ma'] = {'meta_codec': codec, 'max': mx,
                            'meta_checksum': g.cycle('mcsum', CHECKSUMS)}
                out.append(scenario('metafit%d%s%r' % (n, codec, mx), [op] + g.reads(k=1)))
    # reserves and values that do not fit 8 or 16 bits
    for i, mx in enumerate([255, 256, 257, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 70000, 131072, 200000, 1048576,
                            1500001] + g.sample(g.lits(1000, 2000000), 6)):
        op = g.pack(cs=50, n=g.cycle('mbn', [0, 60, 130]), meta=0)
        op['meta'] = g.cycle('mbm', [{'a': 1}, 'q' * 200, [], 'w' * min(mx - 2, 70000)])
        op['ma'] = {'meta_codec': g.cycle('mbc', ['None', 'zlib', 'zlib']), 'max': {'mul': 0, 'add': mx},
                    'meta_checksum': g.cycle('mbk', CHECKSUMS)}
        out.append(scenario('metabig%d' % mx, [op] + g.reads(k=2)))
    for i in range(3):
        op = g.pack(cs=50, n=120, meta=0)
        op['meta'] = {'k%d' % k: ['v' * (k % 17), k * 0.5, None] for k in range(g.cycle('mlk', [300, 3000, 9000]))}
        op['ma'] = {'meta_codec': g.cycle('mlc', ['zlib', 'None', 'zlib']), 'max': {'mul': 2 + i, 'add': 0}}
        out.append(scenario('metalong%d' % i, [op] + g.reads(k=2)))
    return out


# ------------------------------------------------------------------ C05, C06, C07, C23

def append_histories(g):
    hs = [h for h in g.histories.get('OpsGeo', []) if len(h) > 1]
    out = []
    for i, h in enumerate(g.sample(hs, g.scale(420, 100000))):
        out.append(scenario('hist%d' % i, g.history(h)))
    return out


def append_deep(g):
    """long histories at one scale, default reserve, mixed settings"""
    out = []
    for i in range(g.scale(25, 400)):
        cs = g.cycle('dcs', [7, 16, 100, 1000, 4096, 65536] + g.lits(1, 5000)[:20])
        n = max(1, g.length(cs, maxn=20))
        op = g.pack(cs=cs, n=n, offsets=True, cap=g.cycle('dcap', [
            {'mul': 10, 'add': 0}, 40, {'mul': 3, 'add': 2}, 12, 'default']))
        if 'ma' in op:
            op['ma']['max'] = {'mul': 3, 'add': 30}
        ops = [op] + g.reads()
        c = min(cs, n)
        for _ in range(g.rnd.randrange(4, 10)):
            k = g.cycle('dapp', [0, 1, c - 1, c, c + 1, c // 2, 2 * c, 3 * c - 1, 5, 9 * c + 3])
            ops.append(g.append(min(k, 300000)))
            ops += g.reads()
        ops += g.all_reads()
        out.append(scenario('deep%d' % i, ops))
    return out


def append_many(g):
    """appending to and beyond 256 chunks"""
    out = []
    for i, (cs, n, ks) in enumerate([(2, 500, [9, 20, 1]), (16, 255 * 16, [16, 16, 5, 60]),
                                     (1, 256, [1, 254, 3]), (64, 64 * 5, [64 * 300 + 1, 63, 1])]):
        op = g.pack(cs=cs, n=n, offsets=True, cap={'mul': 0, 'add': 700}, meta=0.3)
        if 'ma' in op:
            op['ma']['max'] = {'mul': 3, 'add': 30}
        ops = [op]
        for k in ks:
            ops += [g.append(k)] + g.reads()
        out.append(scenario('appmany%d' % i, ops))
    return out


def append_last_slots(g):
    """many chunks, and next to nothing reserved: down to the last slot"""
    out = []
    sizes = [(1, 90), (1, 101), (3, 128), (1, 200), (2, 255), (1, 256), (5, 300), (16, 511), (1, 1000), (2, 1024)]
    for i, (cs, k) in enumerate(sizes if g.full else g.sample(sizes, 6)):
        cap = g.cycle('lscap', [1, 2, 3, 5, 9])
        op = g.pack(cs=cs, n=cs * k - g.cycle('lsn', [0, cs // 2]), offsets=True, cap={'mul': 0, 'add': cap}, meta=0.3)
        if 'ma' in op:
            op['ma']['max'] = {'mul': 3, 'add': 30}
        ops = [op]
        for j in range(cap + 2):
            ops += [g.append(g.cycle('lsk', [cs, 1, cs, 2 * cs, cs])), g.append(0)] + g.reads()
        out.append(scenario('slots%d' % i, ops))
    return out


def huge(g):
    """positions that do not fit 31, and 32 bits"""
    out = []
    for i, (k, more) in enumerate([(17, 100), (9, 7), (17, 0), (25, 1000)] if g.full else
                                  [(17, 100), g.cycle('huge', [(16, 0), (8, 0)])]):
        op = {'op': 'hugepack', 'f': 'A', 'k': k, 'more': more, 'bl': {'clevel': 0, 'typesize': 8},
              'bp': {'checksum': 'None', 'offsets': True, 'max_app': 3}}
        if i % 2:
            op['meta'] = g.meta()
        ops = [op, {'op': 'hugeappend', 'f': 'A', 'data': g.data(50), 'entry': 'path'},
               {'op': 'hugeappend', 'f': 'A', 'data': g.data(500)}]
        out.append(scenario('huge%d' % i, ops))
    return out


def append_arguments(g):
    """partial, full, invalid argument objects and dictionaries"""
    out = []
    good = [{'typesize': 4, 'clevel': 9, 'shuffle': False, 'cname': 'lz4'},
            {'typesize': None, 'clevel': None, 'shuffle': None, 'cname': None},
            {'typesize': 1, 'clevel': None, 'shuffle': None, 'cname': 'zstd'},
            {'typesize': None, 'clevel': 0, 'shuffle': None, 'cname': None},
            {'typesize': None, 'clevel': None, 'shuffle': False, 'cname': None}]
    bad = [{'clevel': 10}, {'clevel': -1}, {'cname': 'nope'}, {'typesize': 256}, {'typesize': 0},
           {'typesize': -3}, {'clevel': 99, 'cname': 'lz4'}, {'cname': 'snappyy'}]
    for i, a in enumerate(good + bad):
        for entry in APPEND:
            for kind in ('obj', 'dict'):
                d = {'typesize': 8, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'}
                d.update(a)
                n = g.cycle('aan', [1, 30, 70, 500])
                op = {'op': 'append', 'f': 'A', 'entry': entry, 'data': g.data(n),
                      'a': {kind: d}, 'valid': i < len(good)}
                pk = g.pack(cs=100, n=g.cycle('apn', [250, 300, 50]), offsets=True, cap=20, meta=0.3)
                if 'ma' in pk:
                    pk['ma']['max'] = {'mul': 3, 'add': 30}
                out.append(scenario('arg%d%s%s' % (i, entry, kind),
                                    [pk, op] + g.reads() + [g.append(40)] + g.reads()))
    if not g.full:
        out = g.sample(out, 50)
    return out


def rewrite_histories(g):
    hs = [h for h in g.histories.get('OpsMeta', [])
          if any(o['op'] == 'rewrite' for o in h)]
    out = []
    by = {}
    for h in hs:        # keep the variety: by shape of history and last request
        q = [o for o in h if o['op'] == 'rewrite'][-1]['q']
        by.setdefault((len(h), h[0]['m'].get('max'), json.dumps(q)), []).append(h)
    keys = sorted(by, key=str)
    g.rnd.shuffle(keys)
    for i, k in enumerate(keys[:g.scale(420, 100000)]):
        out.append(scenario('rw%d' % i, meta_history(g, g.rnd.choice(by[k]))))
    return out


# values with the sizes the model gives them: 2, 8 and 40 bytes
def meta_value(v, salt):
    return {'a': [5, 7, 8][salt % 3] * 1 if salt % 2 else [], 'b': 'bb%04d' % (salt % 10000),
            'c': 'c%037d' % salt}[v]


def meta_history(g, h):
    salt = g.rnd.randrange(1000) * 2        # fixed per scenario: same value, same text
    names = {0: 'None', 1: 'zlib', 99: 'nope', -1: None}
    sums = dict(enumerate(CHECKSUMS))
    twins = {1: ['adler32', 'crc32'], 2: ['crc32', 'adler32'], 3: ['md5', 'sha256', 'sha512', 'sha1']}
    out = []
    p = h[0]
    cs = g.cycle('rcs', [10, 100, 1000, 64])
    m = p['m']
    op = g.pack(cs=cs, n=p['len'] * cs // 2 + (p['len'] % 2), offsets=p['offs'],
                cap=p['cap'] * 4, meta=0)
    if m['p']:
        op['meta'] = meta_value(m['val'], salt)
        op['ma'] = {'meta_codec': names[m['codec']], 'meta_level': m['level'],
                    'meta_checksum': sums[m['csum']], 'max': m['max']}
    out.append(op)
    out += g.reads()
    for o in h[1:]:
        if o['op'] == 'append':
            out.append(g.append(o['len'] * cs // 2))
        else:
            q = o['q']
            kw = {'codec': names[q['codec']],
                  'level': {-1: None, 6: g.cycle('rl', list(range(10))), 99: g.cycle('rlb', [10, -1, 99])}[q['level']],
                  'checksum': None if q['csum'] == -1 else 'nope' if q['csum'] == 99 else
                  g.rnd.choice(twins[q['csum']])}
            if not q['fmt']:
                kw['magic_format'] = g.cycle('fmtb', ['XML', 'json', 'JSON2', 'PICKLE'])
            elif g.rnd.random() < 0.3:
                kw['magic_format'] = 'JSON'
            # leave defaults alone sometimes
            if kw['codec'] == 'zlib' and g.rnd.random() < 0.5:
                del kw['codec']
            out.append({'op': 'rewrite', 'f': 'A', 'meta': meta_value(q['val'], salt), 'kw': kw})
        out += g.reads()
    return out


def rewrite_sizes(g):
    """growing and shrinking by single bytes around the reserve; real codecs"""
    out = []
    for i in range(g.scale(60, 800)):
        n0 = g.cycle('z0', [2, 3, 12, 50, 200, 1000])
        mx = g.cycle('zm', [n0, n0 + 1, 2 * n0 + 5, n0 + 20, 3 * n0])
        csum = g.cycle('zc', CHECKSUMS)
        op = g.pack(cs=64, n=g.cycle('zn', [0, 10, 64, 200]), meta=0, offsets=True, cap=6)
        op['meta'] = 'q' * (n0 - 2)
        codec = g.cycle('zk', ['None', 'zlib'])
        op['ma'] = {'meta_codec': codec, 'max': max(mx, 25), 'meta_checksum': csum,
                    'meta_level': g.cycle('zl', list(range(10)))}
        ops = [op] + g.reads()
        for _ in range(5):
            n = max(2, g.cycle('zz', [mx, mx + 1, mx - 1, 2, 3, n0, n0 + 1, n0 // 2, 5 * mx, 30]))
            v = g.cycle('zv', ['q', 'rnd', 'rnd'])
            txt = 'q' * (n - 2) if v == 'q' else \
                ''.join(g.rnd.choice('abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(n - 2))
            kw = {}
            if g.rnd.random() < 0.6:
                kw['codec'] = g.cycle('zk2', ['None', 'zlib', None])
            if g.rnd.random() < 0.4:
                kw['level'] = g.cycle('zl2', [None] + list(range(10)))
            if g.rnd.random() < 0.4:
                kw['checksum'] = g.cycle('zc2', [None, csum, 'adler32', 'crc32', 'None'])
            ops.append({'op': 'rewrite', 'f': 'A', 'meta': txt, 'kw': kw})
            ops += g.reads()
            if g.rnd.random() < 0.3:
                ops += [g.append(g.cycle('zap', [1, 30, 64, 100]))] + g.reads()
        out.append(scenario('rwsize%d' % i, ops))
    return out


def refusals(g):
    """operations that must be refused, on every kind of container"""
    out = []
    for i in range(g.scale(60, 600)):
        cs = g.cycle('fcs', [10, 100, 1000])
        n = g.cycle('fn', [0, 5, cs, 3 * cs, 3 * cs + 1])
        op = g.pack(cs=cs, n=n, offsets=g.cycle('fo', [True, True, False]),
                    cap=g.cycle('fcap', [0, 1, 2, 5]), meta=0.6)
        if 'ma' in op:
            op['ma']['max'] = {'mul': 2, 'add': 30}
        ops = [op]
        for _ in range(4):
            ops.append(g.append(g.cycle('fa', [0, 1, cs, cs + 1, 2 * cs, 6 * cs, 50 * cs])))
        if 'meta' in op:
            ops.append({'op': 'rewrite', 'f': 'A', 'meta': op['meta'], 'kw': {}})
            ops.append({'op': 'rewrite', 'f': 'A', 'meta': 'x' * 9000, 'kw': {'codec': 'None'}})
            ops.append({'op': 'rewrite', 'f': 'A', 'meta': 'y', 'kw': {
                g.cycle('fk', ['checksum', 'codec', 'magic_format']): g.cycle('fv', ['nope', 'ZLIB', 'x'])}})
        ops += g.reads(k=2)
        out.append(scenario('ref%d' % i, ops))
    return out


# ------------------------------------------------------------------ C08, C09

SECTIONS = ['header', 'metaheader', 'metadata', 'metadata', 'metapad', 'metadigest', 'offsets', 'firstchunk',
            'firstdigest', 'midchunk', 'middigest', 'lastchunk', 'lastdigest']


def hurt(g, meta):
    """one damaging step: some bytes of one part of the container"""
    d = {'op': 'damage', 'f': 'A', 'g': 'B', 'in': g.cycle('dmw', SECTIONS), 'frac': g.rnd.random()}
    if not meta and d['in'].startswith('meta'):
        d['in'] = g.cycle('dmo', SECTIONS[7:])
    d['frac'] = g.cycle('dmf', [0, 1, g.rnd.random(), g.rnd.random()])
    d['len'] = g.cycle('dml', [1, 1, 1, 2, 1, 4, 1, 8, 1, 1000])
    k = g.cycle('dmk', ['xor', 'xor', 'xor', 'fill', 'xor'])
    d[k] = g.cycle('dmx', [1, 0x80, 0xff, 2, 0x10, 0x55, 0x20]) if k == 'xor' else g.cycle('dmv', [0, 255, 32, 48])
    if g.rnd.random() < 0.35:       # all of the part
        d['as'] = g.cycle('dma', ['zero', 'zero', 'ones', 'rev', 'rot', 'swap', 'inc', 'not', 'spaces', 'upper'])
    if d['in'].endswith('chunk') and g.rnd.random() < 0.4:
        d['as'] = 'field'
        d['field'] = g.cycle('dmfi', [0, 1, 2, 3, 4, 4, 8, 12, 12])
        d['to'] = g.cycle('dmft', ['zero', 'one', 'dec', 'inc', 'max', 'half', 'dbl', 'neg'])
    if d['in'].endswith('digest') and g.rnd.random() < 0.3:
        d['as'] = g.cycle('dmd', ['plain', 'other', 'empty'])
    return d


def damage(g):
    """damage to every region of every kind of container"""
    out = []
    for i in range(g.scale(110, 1000)):
        csum = CHECKSUMS[1 + i % 8] if i % 9 else 'None'
        op = g.pack(cs=g.cycle('hcs', [40, 100, 1000, 20000]), meta=0.7,
                    n=g.cycle('hn', [1, 39, 100, 250, 1000, 3001, 20001]), offsets=True, cap=5)
        op['bp']['checksum'] = csum
        if 'meta' in op:
            op['ma'] = {'meta_checksum': g.cycle('hmc', CHECKSUMS[1:]), 'max': {'mul': 2, 'add': 30},
                        'meta_codec': g.cycle('hmk', ['zlib', 'None', 'zlib'])}
            if g.rnd.random() < 0.5:        # metadata that does shrink
                op['meta'] = g.cycle('hmm', [{'x': 'y' * 500}, [0] * 100, 'abc' * 50, {'k%d' % k: 'v' for k in range(30)}])
        ops = [op] + g.reads()
        for j in range(g.scale(8, 20)):
            ops.append(hurt(g, 'meta' in op))
            ops += g.reads('B', 2)
            if g.rnd.random() < 0.5:
                ops.append(g.append(g.cycle('hap', [0, 1, 10, 500]), 'B'))
            elif 'meta' in op and g.rnd.random() < 0.5:
                ops.append({'op': 'rewrite', 'f': 'B', 'meta': 'other', 'kw': {}})
        out.append(scenario('dmg%d' % i, ops))
    return out


def damage_exhaustive(g):
    """every byte of small containers, every checksum"""
    out = []
    for i, csum in enumerate(CHECKSUMS[1:]):
        op = g.pack(cs=20, n=g.cycle('en', [41, 25, 60]), meta=0, offsets=bool(i % 2), cap=1,
                    entry='b2b')
        op['bp']['checksum'] = csum
        op['meta'] = {'k': i}
        op['ma'] = {'meta_checksum': CHECKSUMS[1 + (i * 3) % 8], 'max': 12, 'meta_codec': 'None'}
        size = 600
        for lo in range(0, size, 100):
            ops = [op]
            for pos in range(lo, lo + 100):
                ops.append({'op': 'damage', 'f': 'A', 'g': 'B', 'pos': pos,
                            'xor': g.cycle('ex', [1, 2, 4, 8, 16, 32, 64, 128, 255])})
                ops.append({'op': 'unpack', 'f': 'B', 'entry': g.cycle('ee', UNPACK)})
                if pos % 7 == 0:
                    ops.append(g.append(3, 'B'))
            out.append(scenario('every%s-%d' % (csum, lo), ops))
    if not g.full:
        out = g.sample(out, 26)
    return out


def truncation(g):
    out = []
    for i in range(g.scale(36, 300)):
        op = g.pack(cs=g.cycle('tcs', [10, 30, 100, 1000]), n=g.cycle('tn', [0, 1, 29, 100, 300]),
                    meta=0.6, offsets=bool(i % 3), cap=g.cycle('tcap', [0, 2]))
        op['bp']['checksum'] = CHECKSUMS[i % 9]
        if 'meta' in op:
            op['meta'] = g.cycle('tmeta', [{'a': 1}, [], 'xyz', 5])
            op['ma'] = {'meta_checksum': CHECKSUMS[(i // 2) % 9], 'max': {'mul': 1, 'add': 6},
                        'meta_codec': 'None'}
        pre = [op]
        if i % 4 == 0 and op['bp']['offsets']:
            pre.append(g.append(5))
        # every prefix of small containers: the step visits them all over the run
        for part in range(g.scale(2, 8)):
            ops = list(pre)
            for j in range(60):
                if part == 0 and j < 30:
                    ln = -1 - j
                else:
                    ln = None
                t = {'op': 'trunc', 'f': 'A', 'g': 'B'}
                if ln is None:
                    t['frac'] = g.rnd.random()
                else:
                    t['len'] = ln
                ops.append(t)
                ops += g.reads('B')
            out.append(scenario('trunc%d-%d' % (i, part), ops))
    return out


def truncation_exhaustive(g):
    """every prefix of a container of every kind"""
    out = []
    kinds = [(o, c, m) for o in (True, False) for c in ('None', 'adler32', 'sha512')
             for m in (None, 'None', 'md5')]
    for i, (offs, csum, m) in enumerate(kinds):
        op = {'op': 'pack', 'f': 'A', 'entry': 'b2b', 'cs': 20, 'data': g.data(g.cycle('xn', [45, 20, 33])),
              'bp': {'offsets': offs, 'checksum': csum, 'max_app': 1 if i % 2 else 0}}
        if m:
            op['meta'] = {'a': 1}
            op['ma'] = {'meta_checksum': m, 'max': 9, 'meta_codec': 'None'}
        for lo in range(0, 420, 140):
            ops = [op]
            for ln in range(lo, lo + 140):
                ops.append({'op': 'trunc', 'f': 'A', 'g': 'B', 'len': ln})
                ops.append({'op': 'unpack', 'f': 'B', 'entry': g.cycle('xe', UNPACK)})
            out.append(scenario('prefix%d-%d' % (i, lo), ops))
    return out


# ------------------------------------------------------------------ C10, C11, C22

def crash_settings(g, op):
    """metadata must fit; few enough reserved slots to keep the tables small"""
    if 'ma' in op:
        op['ma']['max'] = {'mul': 3, 'add': 30}
    return op


def crash_packs(g):
    """the packs of Store, interrupted at every write and with every fault"""
    hs = [h for h in g.histories.get('Store', []) if len(h) == 1]
    out = []
    for i, h in enumerate(g.sample(hs, g.scale(70, 400))):
        p = h[0]
        C = g.cycle('kscale', [1, 5, 16, 100, 1000, 5000])
        op = g.pack(cs=p['cs'] * C, n=max(0, p['len'] * C - g.cycle('kless', [0, 0, 1]) % C),
                    cap=p['cap'], offsets=g.cycle('koff', [True, True, True, False]))
        crash_settings(g, op)
        op['bp']['checksum'] = g.cycle('kc', CHECKSUMS[1:]) if p['dg'] else 'None'
        op.update(op='crashpack', fentry=g.cycle('kfe', ['f2f', 'b2f', 'fp', 'f2f']), seed=i,
                  cuts=g.scale(30, 200), faults=g.scale(8, 40))
        out.append(scenario('kpack%d' % i, [op] + g.reads()))
    # many chunks, long metadata
    for i in range(g.scale(6, 60)):
        op = g.pack(cs=g.cycle('kbc', [1, 7, 64]), n=g.cycle('kbn', [130, 300, 900]), meta=0.7,
                    offsets=True, cap=g.cycle('kcap', [0, 3, 50]))
        crash_settings(g, op)
        op.update(op='crashpack', fentry=g.cycle('kfe', ['f2f', 'b2f', 'fp', 'f2f']), seed=1000 + i,
                  cuts=g.scale(25, 300), faults=g.scale(8, 60))
        out.append(scenario('kbig%d' % i, [op] + g.reads()))
    return out


def crash_appends(g):
    """the append histories of Store, the last one interrupted everywhere"""
    hs = [h for h in g.histories.get('Store', []) if len(h) > 1]
    out = []
    for i, h in enumerate(g.sample(hs, g.scale(90, 1200))):
        hh = [dict(x, offs=True) for x in h]
        ops = g.history(hh, scales=[2, 5, 16, 100, 1000, 5000])
        ops[0]['bp']['checksum'] = g.cycle('kc', CHECKSUMS[1:]) if h[0]['dg'] else 'None'
        last = [o for o in ops if o['op'] == 'append'][-1]
        # chunks that shrink or grow when they are rewritten
        sq = {'typesize': 8, 'shuffle': True, 'cname': g.cycle('kcn', CNAMES)}
        ops[0]['bl'] = dict(sq, clevel=g.cycle('kl1', [0, 9]))
        last['a'] = {'obj': dict(sq, clevel=g.cycle('kl2', [0, 0, 9, 9]))}
        last.update(op='crashappend', entry=g.cycle('kae', ['path', 'fp']), seed=i,
                    cuts=g.scale(25, 200), faults=g.scale(8, 40))
        out.append(scenario('kapp%d' % i, ops))
    for i in range(g.scale(8, 100)):
        cs = g.cycle('kdc', [7, 16, 100])
        op = crash_settings(g, g.pack(cs=cs, n=g.cycle('kdn', [cs * 3, cs * 2 + 3, 5]), offsets=True,
                                      cap=60, meta=0.6))
        ap = g.append(g.cycle('kda', [cs * 30, cs * 12 + 5, 3 * cs]))
        ap.update(op='crashappend', entry=g.cycle('kae', ['path', 'fp']), seed=2000 + i,
                  cuts=g.scale(30, 300), faults=g.scale(10, 60))
        out.append(scenario('kappbig%d' % i, [op, g.append(3), ap] + g.reads()))
    return out


def streaming(g):
    """the reads and writes of whole operations"""
    out = []
    for i in range(g.scale(40, 500)):
        cs = g.cycle('ics', [1, 3, 16, 100, 1000, 4096, 65536] + g.lits(2, 20000)[:60])
        k = g.cycle('ik', [0, 1, 2, 5, 9, 20, 60, 200])
        k = min(k, max(1, 3000000 // cs))
        n = max(0, k * cs + g.cycle('id', [0, 0, -1, 1]) if k else g.cycle('id0', [0, 1]))
        op = crash_settings(g, g.pack(cs=cs, n=n, offsets=True, cap=300, meta=0.3))
        op.update(op='io', kind='pack', fentry=g.cycle('kfe2', ['f2f', 'fp', 'f2f']))
        ops = [op] + g.reads()
        un = {'op': 'io', 'kind': 'unpack', 'f': 'A'}
        ops.append(dict(un, entry=g.cycle('iue', ['f2f', 'fp'])))
        if n:
            c = min(cs, n)
            for _ in range(2):
                a = g.append(min(200 * c, g.cycle('ia', [0, 1, c, 2 * c + 1, 12 * c, 70 * c])))
                a.update(op='io', kind='append', entry=g.cycle('kae', ['path', 'fp']))
                ops += [a] + g.reads()
            ops.append(dict(un, entry=g.cycle('iue', ['f2f', 'fp'])))
        out.append(scenario('io%d' % i, ops))
    # long inputs
    for i, (cs, n) in enumerate([(2**16, 2**23 + 1), (1000, 999999)] + ([(2**20, 2**26)] if g.full else [])):
        op = g.pack(cs=cs, n=n, offsets=True, cap=0, meta=0)
        op['data']['k'] = 'seq'
        op.update(op='io', kind='pack', fentry='f2f')
        out.append(scenario('iolong%d' % i, [op, {'op': 'io', 'kind': 'unpack', 'f': 'A', 'entry': 'f2f'}]))
    return out
