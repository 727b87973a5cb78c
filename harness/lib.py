"""Projection of containers and data to what the specification talks about.

Nothing here imports bloscpack: the container format is parsed independently
(struct, zlib, hashlib and blosc only), so that a defect of the code under test
does not also blind the observer.
"""
import hashlib
import json
import random
import struct
import zlib

import blosc

PRIMES = (46337, 46327, 46309)
MAXINT = 2**31 - 1


def sha(b):
    return hashlib.sha256(b).hexdigest()[:12]


def fp(b):
    """Homomorphic fingerprint of a byte string: length, then for each prime
    the value of the string as a base 256 number and 256**length, modulo it."""
    b = bytes(b)
    n = int.from_bytes(b, 'big')
    out = [len(b)]
    for p in PRIMES:
        out += [n % p, pow(256, len(b), p)]
    return out


NIL = fp(b'')


def i64(n):
    """the eight bytes of a 64 bit integer (saturated when out of range)"""
    n = max(-2**63, min(2**63 - 1, n))
    return list(struct.pack('<q', n))


def canon(v):
    """canonical text of a JSON value (object keys as JSON sees them)"""
    v = json.loads(json.dumps(v))
    return json.dumps(v, sort_keys=True, separators=(',', ':'))


def short(text):
    """strings in traces are compared for equality only: keep them short"""
    return text if len(text) <= 24 else 'h' + sha(text.encode('utf8', 'surrogatepass'))


CHECKSUMS = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256',
             'sha384', 'sha512']
CODECS = ['None', 'zlib']
DIGEST = [0, 4, 4, 16, 20, 28, 32, 48, 64]


def digest(i, b):
    if i == 0:
        return b''
    if i == 1:
        return struct.pack('<I', zlib.adler32(b) & 0xffffffff)
    if i == 2:
        return struct.pack('<I', zlib.crc32(b) & 0xffffffff)
    return hashlib.new(CHECKSUMS[i], b).digest()


def decompress(b):
    """what a stored chunk contains, or None"""
    if len(b) < 16:
        return None
    nb, _, ct = struct.unpack('<III', b[4:16])
    if ct != len(b) or nb > 2**30:
        return None
    try:
        r = blosc.decompress(b)
    except Exception:
        return None
    return r


def project_chunk(stored, dg, csum, pos):
    nb = struct.unpack('<I', stored[4:8])[0] if len(stored) >= 16 else 0
    plain = decompress(stored)
    return {'pos': pos, 'k': len(stored),
            'nb': min(nb, MAXINT), 'bts': stored[3] if len(stored) > 3 else 0,
            'fl': stored[2] if len(stored) > 3 else 0,
            'raw': sha(stored + b'|' + dg),
            'dg': digest(csum, stored) == dg,
            'dec': plain is not None,
            'd': fp(plain if plain is not None else b'')}


def project_meta(mh, stored, pad, dg):
    """facts about a metadata section"""
    csum, codec, level = mh[9], mh[10], mh[11]
    raw, mx, comp = struct.unpack('<III', bytes(mh[12:24]))
    m = {'mh': list(mh), 'stored': len(stored),
         'pad': pad.count(0) == len(pad), 'padlen': len(pad),
         'dg': csum < 9 and digest(csum, stored) == dg,
         'bytes': sha(bytes(mh) + stored + pad + dg)}
    plain, val = None, None
    try:
        plain = stored if codec == 0 else zlib.decompress(stored)
        val = canon(json.loads(plain.decode()))
    except Exception:
        pass
    m['dec'] = val is not None
    m['rawlen'] = len(plain) if plain is not None else -1
    m['val'] = short(val) if val is not None else '?'
    return m


MAXCHUNKS = 4000


def project(b):
    """Snapshot of the bytes of a container."""
    s = {'h': sha(b), 'size': len(b), 'bad': '', 'hdr': list(b[:32]),
         'm': {}, 'tab': [], 'resv': 0, 'resvok': True, 'ch': [], 'trail': 0}
    if len(b) < 32:
        s['bad'] = 'short header'
        return s
    magic, fv, opt, csum, ts, chunk, last, n, cap = \
        struct.unpack('<4sBBBBiiqq', b[:32])
    if magic != b'blpk' or fv != 3 or opt > 3 or csum > 8 or n < -1 or cap < 0 or (n < 0 and (opt & 1 or cap)):
        s['bad'] = 'header'
        return s
    p = 32
    if opt & 2:
        mh = b[p:p+32]
        if len(mh) < 32 or mh[9] > 8 or mh[10] > 1:
            s['bad'] = 'metadata header'
            return s
        raw, mx, comp = struct.unpack('<III', mh[12:24])
        dl = DIGEST[mh[9]]
        if comp > mx or len(b) < p + 32 + mx + dl:
            s['bad'] = 'metadata section'
            return s
        p += 32
        s['m'] = project_meta(mh, b[p:p+comp], b[p+comp:p+mx], b[p+mx:p+mx+dl])
        p += mx + dl
    if opt & 1:
        if (n + cap) * 8 > len(b) - p:
            s['bad'] = 'offsets'
            return s
        used = b[p:p + 8*n]
        rest = b[p + 8*n:p + 8*(n+cap)]
        if n <= MAXCHUNKS:
            s['tab'] = [list(used[i:i+8]) for i in range(0, len(used), 8)]
        s['resv'] = len(rest) // 8
        s['resvok'] = rest.count(255) == len(rest)
        s['tabh'] = sha(used)
        p += 8*(n+cap)
    if n > MAXCHUNKS:
        s['bad'] = 'too many chunks to look at'
        return s
    dl = DIGEST[csum]
    i = -1
    # they go on to the end if nobody counted them
    while p < len(b) if n < 0 else i + 1 < n:
        i += 1
        if p + 16 > len(b):
            s['bad'] = 'chunk %d missing' % i
            return s
        ct = struct.unpack('<I', b[p+12:p+16])[0]
        if ct < 16 or p + ct + dl > len(b):
            s['bad'] = 'chunk %d short' % i
            return s
        s['ch'].append(project_chunk(b[p:p+ct], b[p+ct:p+ct+dl], csum, p))
        p += ct + dl
    s['trail'] = len(b) - p
    return s


# ---------------------------------------------------------------- input data

def other(b, i):
    return b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]


def adler_twin(b):
    """other bytes with the same Adler-32 if they are stored as they are"""
    for i in range(len(b) // 2, len(b) - 2):
        if b[i] < 255 and b[i + 1] >= 2 and b[i + 2] < 255:
            return b[:i] + bytes([b[i] + 1, b[i + 1] - 2, b[i + 2] + 1]) + b[i + 3:]
    return b


CRC32 = sum(1 << i for i, c in enumerate(format(0x104C11DB7, 'b')) if c == '1').to_bytes(5, 'little')


def crc_twin(b):
    """other bytes with the same CRC-32 if they are stored as they are"""
    if len(b) < 5:
        return b
    i = (len(b) - 5) // 2
    return b[:i] + bytes(x ^ y for x, y in zip(b[i:i + 5], CRC32)) + b[i + 5:]


def gen_data(spec):
    """Deterministic bytes from {'k': kind, 'n': length, 's': seed}."""
    n, s, k = spec['n'], spec.get('s', 0), spec.get('k', 'mix')
    if k == 'hex':
        return bytes.fromhex(spec['x'])
    if k == 'zero':
        return bytes(n)
    if k == 'ff':
        return b'\xff' * n
    rnd = random.Random(s * 1000003 + 17)
    if k == 'rnd':
        return rnd.randbytes(n)
    if k == 'seq':
        step = 1 + s % 7
        cnt = n // 8 + 1
        return struct.pack('<%dq' % cnt, *range(s, s + step * cnt, step))[:n]
    if k == 'text':
        words = [b'blpk', b'\x02\x01', b'lorem ', b'ipsum\n', b'\x00\x00', b'dolor',
                 b'\xff' * 8, b'JSON', b'sit amet ', bytes([s % 256])]
        out = bytearray()
        while len(out) < n:
            out += rnd.choice(words)
        return bytes(out[:n])
    if k == 'blk':
        # blocks of one size (the chunks), each with a look of its own
        size, out, looks = max(1, spec.get('b', 64)), bytearray(), spec.get('l') or 'zfrstchpqmaxvk'
        for i in range(n // size + 1):
            t = looks[i % len(looks)] if spec.get('l') else rnd.choice(looks)
            out += {'z': lambda: bytes(size), 'f': lambda: b'\xff' * size,
                    'c': lambda: bytes([rnd.randrange(256)]) * size, 'r': lambda: rnd.randbytes(size),
                    's': lambda: bytes(out[-size:]) or bytes(size),
                    # the one before, but for a byte
                    'p': lambda: other(bytes(out[-size:]) or bytes(size), size - 1),
                    'q': lambda: other(bytes(out[-size:]) or bytes(size), 0),
                    'm': lambda: other(bytes(out[-size:]) or bytes(size), size // 2),
                    # with the same checksum, or the same bytes in another order
                    'a': lambda: adler_twin(bytes(out[-size:]) or bytes(size)),
                    'x': lambda: crc_twin(bytes(out[-size:]) or bytes(size)),
                    'v': lambda: bytes(out[-size:])[::-1] or bytes(size),
                    'k': lambda: (bytes(out[1 - size:]) + bytes(out[-size:1 - size or None]))[:size] or bytes(size),
                    't': lambda: (b'lorem ipsum dolor sit amet, %d ' % i * (size // 20 + 1))[:size],
                    # what looks like the headers of a container and of a chunk
                    'h': lambda: ((b'blpk\x03\x01\x02\x08' + bytes(24) + b'\x02\x01\x13\x08' + bytes(12)) *
                                  (size // 48 + 1))[:size]}[t]()
        return bytes(out[:n])
    # a mixture of runs, counters and noise: compressible in parts
    out = bytearray()
    while len(out) < n:
        t = rnd.randrange(4)
        ln = rnd.choice((3, 17, 100, 1000, 20000))
        if t == 0:
            out += bytes([rnd.randrange(256)]) * ln
        elif t == 1:
            out += rnd.randbytes(ln)
        elif t == 2:
            a = rnd.randrange(10**6)
            out += struct.pack('<%dq' % (ln // 8 + 1), *range(a, a + ln // 8 + 1))
        else:
            out += (b'%d,' % rnd.randrange(10**9)) * (ln // 8 + 1)
    return bytes(out[:n])
