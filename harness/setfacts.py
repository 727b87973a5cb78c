"""Facts about the compression settings that chunks were written with."""
import struct

import blosc

import lib

SHOWN = 12 * 2**20      # as much of the content is compressed again


def given(a):
    """settings as the specification writes them: -1 or "" when not given"""
    n = lambda k: -1 if a.get(k) is None else int(a[k])
    return {'ts': n('typesize'), 'lv': n('clevel'), 'sh': n('shuffle'), 'cn': a.get('cname') or ''}


def used(g, ts):
    return {'ts': ts if g['ts'] == -1 else g['ts'], 'lv': 7 if g['lv'] == -1 else g['lv'],
            'sh': 1 if g['sh'] == -1 else g['sh'], 'cn': g['cn'] or 'blosclz'}


def facts(g, ts, chunks, threads=None):
    """chunks: what is stored; al: each is what Blosc makes of its content with
    these settings.  Blocks that were compressed by several threads are in no
    particular order: that can not be told."""
    u = used(g, ts)
    one = (blosc.nthreads if threads is None else threads) == 1
    al, left = [], SHOWN
    for b in chunks:
        plain = lib.decompress(b)
        if plain is None:
            al.append(False)
            continue
        if left < len(plain) or not (one or len(plain) <= struct.unpack('<I', b[8:12])[0]):
            al.append(True)
            continue
        left -= len(plain)
        try:
            al.append(blosc.compress(plain, typesize=u['ts'], clevel=u['lv'], shuffle=u['sh'], cname=u['cn']) == b)
        except Exception:
            al.append(False)
    return {'g': g, 'u': u, 'al': al}


def of_container(g, ts, b, post, first=0, threads=None):
    """first: the chunks before are not looked at"""
    chunks = [b[c['pos']:c['pos'] + c['k']] for c in post['ch']]
    r = facts(g, ts, chunks[first:], threads)
    r['al'] = [True] * min(first, len(chunks)) + r['al']
    return r
