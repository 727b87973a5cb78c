"""Commands on the command line, run in a process of their own, with what is
in the directory before and after."""
import ast
import json
import os
import re
import signal
import subprocess
import sys
import zlib

import lib
import ops
import setfacts
from ops import base

import bloscpack
from bloscpack import cli, log                                   # noqa: F401

PREFIX = 'blpk: '
NAMES = {'c': 'compress', 'compress': 'compress', 'd': 'decompress', 'decompress': 'decompress',
         'a': 'append', 'append': 'append', 'i': 'info', 'info': 'info'}


def run_main(argv, real=False):
    """-> (exit status, standard output); an uncaught exception is status 1"""
    if real:
        p = subprocess.run([sys.executable, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'blpk')] + argv,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.dup2(w, 1)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            sys.stdout = os.fdopen(1, 'w', closefd=False)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            sys.argv = ['blpk'] + argv
            try:
                cli.main()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                code = 1
            sys.stdout.flush()
        finally:
            os._exit(code & 0xff)
    os.close(w)
    out = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        out += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    rc = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
    return rc, out.decode('utf8', 'replace')


def listing(dir_):
    out = []
    for root, dirs, files in os.walk(dir_):
        rel = os.path.relpath(root, dir_)
        for n in dirs + files:
            p = os.path.join(root, n)
            name = n if rel == '.' else os.path.join(rel, n)
            try:
                s = os.stat(p)
            except OSError:
                continue
            isdir = n in dirs
            h = ''
            if not isdir:
                with open(p, 'rb') as fp:
                    h = lib.sha(fp.read())
            out.append({'n': name, 't': 'dir' if isdir else 'file', 'id': s.st_ino, 'h': h})
    return sorted(out, key=lambda x: x['n'])


# ------------------------------------------------------------------ output

HDR = ['format_version', 'offsets', 'metadata', 'checksum', 'typesize', 'chunk_size', 'last_chunk',
       'nchunks', 'max_app_chunks']
MHDR = ['magic_format', 'meta_options', 'meta_checksum', 'meta_codec', 'meta_level', 'meta_size',
        'max_meta_size', 'meta_comp_size', 'user_codec']
BHDR = ['version', 'versionlz', 'flags', 'typesize', 'nbytes', 'blocksize', 'ctbytes']
FLAGS = ['byte_shuffle', 'pure_memcpy', 'bit_shuffle', 'split_blocks', 'codec']
# what a flag byte calls its codec
FLAGCODECS = ['blosclz', 'lz4', 'snappy', 'zlib', 'zstd']
MISSING = -99


def number(text, names):
    m = re.search(r'\((-?\d+)B\)$', text)
    if m:
        return int(m.group(1))
    try:
        v = ast.literal_eval(text)
    except Exception:
        return MISSING
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, str) and v in names:
        return names.index(v)
    return MISSING


def literal(lines):
    """the first complete literal at the beginning of lines; -> (found, value, lines used)"""
    for k in range(1, len(lines) + 1):
        try:
            return True, ast.literal_eval('\n'.join(lines[:k])), k
        except Exception:
            continue
    return False, None, 0


def clamp(v):
    return max(-2**31 + 1, min(lib.MAXINT, v))


def parse(out):
    """what was printed: metadata, headers, and how many other lines"""
    lines = [l[len(PREFIX):] for l in out.split('\n') if l.startswith(PREFIX)]
    r = {'pmeta': False, 'val': '', 'hdr': [], 'mhdr': [], 'offs': [], 'bhdr': [], 'flags': [],
         'other': len([l for l in out.split('\n') if l and not l.startswith(PREFIX)])}
    i = 0
    while i < len(lines):
        l = lines[i]
        if l == 'Metadata:':
            ok, v, k = literal(lines[i + 1:])
            if ok:
                r['pmeta'] = True
                try:
                    r['val'] = lib.short(lib.canon(v))
                except Exception:
                    r['val'] = '?'
                i += k
            else:
                r['other'] += 1
        elif l in ('BloscpackHeader:', 'MetadataHeader:'):
            keys = HDR if l.startswith('B') else MHDR
            d = {}
            while i + 1 < len(lines) and lines[i + 1].startswith('    '):
                k, _, v = lines[i + 1].strip().partition(': ')
                d[k] = v
                i += 1
            if keys is HDR:
                r['hdr'] = [clamp(number(d.get(k, ''), lib.CHECKSUMS)) for k in keys]
            else:
                r['mhdr'] = [d.get('magic_format', '?'), d.get('user_codec', '?')]
                r['mnum'] = [clamp(number(d.get(k, ''), lib.CHECKSUMS if k == 'meta_checksum' else lib.CODECS))
                             for k in MHDR[2:8]]
        elif l == "'offsets':" and i + 1 < len(lines):
            r['offs'] = [clamp(int(x)) for x in re.findall(r'-?\d+', lines[i + 1])]
            i += 1
        elif l == 'First chunk blosc header:' and i + 1 < len(lines):
            d = dict(re.findall(r"'(\w+)'[:,] (\d+)", lines[i + 1]))
            r['bhdr'] = [clamp(int(d.get(k, MISSING))) for k in BHDR]
            i += 1
        elif l.startswith('First chunk blosc flags:') and i + 1 < len(lines):
            d = dict(re.findall(r"'(\w+)'[:,] (True|False|'\w+')", lines[i + 1]))
            r['flags'] = [{'True': 1, 'False': 0}.get(d.get(k), MISSING) for k in FLAGS[:4]]
            c = d.get('codec', '').strip("'")
            r['flags'].append(FLAGCODECS.index(c) if c in FLAGCODECS else MISSING)
            i += 1
        else:
            r['other'] += 1
        i += 1
    r.setdefault('mnum', [])
    r['mhdr'] = [m.replace('\\x00', '') for m in r['mhdr']]
    return r


def first_chunk(b):
    """the first sixteen bytes of the first chunk, or nothing"""
    s = lib.project(b)
    if not s['ch']:
        return [0] * 16
    p = s['ch'][0]['pos']
    return list(b[p:p + 16])


# ------------------------------------------------------------------ commands

def text(x):
    """a tagged parameter as it is written on the command line"""
    import domops
    v = domops.value(x)
    return str(v)


OPTION = {'ts': '-t', 'clevel': '-l', 'cname': '-c', 'csum': '-k', 'cs': '-z', 'nt': '-n'}
LONG = {'ts': '--typesize', 'clevel': '--clevel', 'cname': '--codec', 'csum': '--checksum',
        'cs': '--chunk-size', 'nt': '--nthreads'}


def arguments(op):
    o = op.get('opts', {})
    names = LONG if op.get('long') else OPTION
    argv = []
    if op.get('level') == 'verbose':
        argv.append('--verbose' if op.get('long') else '-v')
    elif op.get('level') == 'debug':
        argv.append('--debug' if op.get('long') else '-d')
    if op.get('force'):
        argv.append('--force' if op.get('long') else '-f')
    glob_, local = [], []
    for p, x in o.items():
        a = names[p] + '=' + text(x) if op.get('long') else None
        (glob_ if p == 'nt' else local).extend([a] if a else [names[p], text(x)])
    argv += glob_
    if op['cmd']:
        argv.append(op['cmd'])
    argv += local
    if op.get('noshuffle'):
        argv.append('--no-shuffle' if op.get('long') else '-s')
    if op.get('nooffsets'):
        argv.append('--no-offsets' if op.get('long') else '-o')
    if op.get('noext'):
        argv.append('--no-check-extension' if op.get('long') else '-e')
    if op.get('m'):
        argv += ['-m', op['m']]
    if op.get('in'):
        argv.append(op['in'])
    if op.get('out'):
        argv.append(op['out'])
    return argv + op.get('extra', [])


def read(env, name):
    try:
        with open(os.path.join(env.dir, name), 'rb') as fp:
            return fp.read()
    except (OSError, ValueError):
        return b''


def metadata_file(env, name):
    """what the file given as metadata says"""
    r = {'given': bool(name), 'ok': False, 'null': False, 'val': '', 'raw': 1, 'z': 1}
    if name:
        try:
            with open(os.path.join(env.dir, name), 'r') as fp:
                v = json.loads(fp.read().strip())
        except Exception:
            return r
        raw = json.dumps(v, separators=(',', ':')).encode()
        r.update(ok=True, null=v is None, val=lib.short(lib.canon(v)), raw=len(raw), z=len(zlib.compress(raw, 6)))
        r['json'] = v
    return r


def asked(plain, op):
    """the settings that the options ask for"""
    return setfacts.given({'typesize': plain.get('ts'), 'clevel': plain.get('clevel'), 'cname': plain.get('cname'),
                           'shuffle': False if op.get('noshuffle') else None})


def do_cmd(env, op):
    cmd = NAMES.get(op['cmd'], 'none')
    if op.get('bogus'):
        cmd = 'none'
    os.chdir(env.dir)
    argv = arguments(op)
    meta = metadata_file(env, op.get('m'))
    o = op.get('opts', {})
    valid = {p: x for p, x in o.items()}
    # what a library call with these parameters would be asked for
    lop = {'cs': '1M', 'bl': {}, 'bp': {'offsets': not op.get('nooffsets')}}
    plain = {}
    for p, x in valid.items():
        try:
            plain[p] = int.from_bytes(bytes(x['n']), 'little', signed=True) if x['t'] == 'int' else text(x)
        except Exception:
            pass
    if 'cs' in plain:
        lop['cs'] = plain['cs'] if plain['cs'] != 'max' else 2147483631
        if isinstance(lop['cs'], int) and not 0 <= lop['cs'] <= lib.MAXINT:
            lop['cs'] = 1
        x = valid['cs']
        if x['t'] == 'size' and x['num'] * ops.SIZES[x['suf']] > lib.MAXINT:
            lop['cs'] = lib.MAXINT      # far above any input here
        elif x['t'] not in ('size', 'int', 'name'):
            lop['cs'] = 1
    if isinstance(plain.get('ts'), int) and 0 <= plain['ts'] < 256:
        lop['bl']['typesize'] = plain['ts']
    if plain.get('csum') in lib.CHECKSUMS:
        lop['bp']['checksum'] = plain['csum']
    if meta['ok'] and not meta['null']:
        lop['meta'] = meta['json']
    _, req = ops.make_args(env, lop)
    meta.pop('json', None)
    src = op.get('in') if cmd == 'compress' else op.get('out') if cmd == 'append' else ''
    data = read(env, src) if src else b''
    first = max(0, len(lib.project(read(env, op.get('in') or ''))['ch']) - 1) if env.facts and cmd == 'append' else 0
    pre = listing(env.dir)
    cin = read(env, op.get('in') or '') if cmd in ('info', 'decompress') else b''
    rc, out = run_main(argv, op.get('real', False))
    post = listing(env.dir)
    e = base('cmd', rc=max(-1000, min(1000, rc)), err='' if rc == 0 else 'status', ok=rc == 0,
             c={'cmd': cmd, 'in': op.get('in') or '', 'out': op.get('out') or '',
                'force': bool(op.get('force')), 'noext': bool(op.get('noext'))},
             m=meta, ps=valid, req=req, data=lib.fp(data), pre=pre, post=post,
             level=op.get('level', 'normal'), argv=' '.join(argv)[:200])
    if ops.SAID is not None:
        ops.SAID.extend(out.split('\n'))
    p = parse(out)
    e['out'] = p
    e['silent'] = out == ''
    written = [x['n'] for x in post if x not in pre]
    e['tpost'] = lib.project(b'')
    e['odata'] = lib.NIL
    if len(written) == 1 and written[0]:
        b = read(env, written[0])
        e['odata'] = lib.fp(b)
        if cmd in ('compress', 'append'):
            e['tpost'] = lib.project(b)
            if env.facts and rc == 0:
                e['z'] = setfacts.of_container(asked(plain, op), 8, b, e['tpost'], first, plain.get('nt', 0))
            raw = ops.observed_raw(b)
            if raw is not None and meta['given'] and meta['ok']:
                lvl = 6
                meta['raw'], meta['z'] = len(raw), len(zlib.compress(raw, lvl))
                if req['m'].get('p'):
                    ops.sizes(req['m'], raw)
                if cmd == 'append' and len(b) > 43:
                    meta['z'] = len(zlib.compress(raw, 6))
    elif cmd == 'append' or (cmd in ('compress', 'decompress') and rc == 0):
        # unchanged, or written with the content that was there before
        t = op.get('in') if cmd == 'append' else op.get('out') or (
            (op.get('in') or '') + '.blp' if cmd == 'compress' else (op.get('in') or '')[:-4])
        b = read(env, t) if t else b''
        e['odata'] = lib.fp(b)
        if cmd in ('compress', 'append'):
            e['tpost'] = lib.project(b)
    e['first'] = first_chunk(cin) if cmd == 'info' else [0] * 16
    if rc == 0:
        if cmd == 'info':
            e['oh'] = lib.sha(json.dumps({k: v for k, v in p.items() if k != 'other'}, sort_keys=True).encode())
        else:
            e['oh'] = e['tpost']['h'] if cmd in ('compress', 'append') else \
                lib.sha(json.dumps([e['odata'], p['val']]).encode())
    else:
        e['oh'] = 'err'
    ops.outcome_key(e, op)
    env.emit(e)


def do_file(env, op):
    """make a file: plain data, metadata, a directory, a link"""
    p = os.path.join(env.dir, op['n'])
    if op.get('rm'):
        if os.path.lexists(p):
            os.unlink(p)
        kind = 'gone'
    elif op.get('dir'):
        os.makedirs(p)
        kind = 'dir'
    elif 'sym' in op:
        os.symlink(op['sym'], p)
        kind = 'link'
    elif 'hard' in op:
        os.link(os.path.join(env.dir, op['hard']), p)
        kind = 'link'
    else:
        b = lib.gen_data(op['data']) if 'data' in op else op['text'].encode()
        if os.path.lexists(p):
            os.unlink(p)
        with open(p, 'wb') as fp:
            fp.write(b)
        kind = 'plain' if lib.project(b)['bad'] else 'unknown'
    env.emit(base('file', f=op['n'], kind=kind, to=op.get('sym') or op.get('hard') or ''))


ops.OPS['cmd'] = do_cmd
ops.OPS['file'] = do_file
