"""Any bytes whatever."""
import gens2 as g2
import gens9 as g9
from gens import CHECKSUMS, scenario

NOISE = [{'noise': 1}, {'noise': 2}, {'noise': 5}, {'splice': 'gone'}, {'splice': 'twice'}, {'splice': 'any'}, {'splice': 'moved'},
         {'splice': 'any', 'noise': 2}, {'cut': 1, 'bytes': 1}, {'cut': 16, 'bytes': 1}, {'nest': '['}, {'nest': '{"a":'}, {'nest': '-'},
         {'at': 1, 'by': 'huge', 'field': [4, 8, 0]}, {'at': 2, 'by': 'more', 'field': [4]}, {'at': 1, 'by': 'less', 'field': [4]},
         {'at': 1, 'by': 'zero', 'field': [4, 8]}, {'noise': 30},
         {'inside': 1}, {'inside': 1}, {'inside': 2}]


def hostile(g, i, xs):
    return {'op': 'hostile', 'f': 'A', 'seed': i, 'xs': xs}


def models(g):
    """what is done to the containers of the model, done to real ones"""
    by = {}
    for h in g.histories.get('Hostile', []):
        t = h['t']
        by.setdefault((t['n'], t['m'], t['offs']), []).append(dict(h['x'], cut=h['cut']))
    out = []
    for k in sorted(by):
        n, m, offs = k
        xs = by[k]
        if not g.full:
            xs = g.sample(xs, 330)
        for j in range(0, len(xs), 25):
            cs = g.cycle('hcs', [1, 16, 100, 3000])
            if n == 0 or j % 2:
                op = g9.written(g, {'chunk': 'stated' if n else 'unknown', 'last': 'stated' if n else 'unknown',
                                    'offs': 'known' if offs else 'none', 'cap': 1 if offs else 0,
                                    'csum': g.cycle('hck', [0, 0, 1, 2, 4])}, [cs] * n)
                if m:
                    op['meta'], op['m'] = g9.value(g), g9.section(g)
            else:
                op = g.pack(cs=cs, n=n * cs, offsets=offs, cap=g.cycle('hcap', [1, 0, 20]), meta=1 if m else 0)
                op['bp']['checksum'] = g.cycle('hc', ['None', 'None', 'adler32', 'crc32', 'sha1'])
            out.append(scenario('hm%d%d%d-%d' % (n, m, offs, j), [op, hostile(g, j, xs[j:j + 25])]))
    return out


def noise(g):
    """bytes changed, missing, there twice"""
    out = []
    for i in range(g.scale(60, 2500)):
        cs = g.cycle('hncs', [1, 20, 128, 1000, 20000])
        op = g.pack(cs=cs, n=g.cycle('hnn', [cs, 3 * cs, 2 * cs + 1, 5, 40 * cs if cs < 200 else cs]), offsets=g.cycle('hno', [True, True, False]),
                    cap=g.cycle('hnp', [0, 3, 100]), meta=0.6)
        op['bp']['checksum'] = g.cycle('hnc', ['None', 'None', 'None', 'adler32', 'sha512'])
        if 'meta' in op and i % 3:
            op.setdefault('ma', {}).update(meta_checksum='None', meta_codec=g.cycle('hmc', ['None', 'zlib', 'None']), max={'mul': 2, 'add': g.cycle('hna', [10, 60000])})
        out.append(scenario('hn%d' % i, [op, hostile(g, 50 + i, [dict(x) for x in g.sample(NOISE, len(NOISE))])]))
    return out


def arrays(g):
    out = []
    for i in range(g.scale(20, 600)):
        op = g2.nd_op(g, g.cycle('hat', ['f8', 'i2', 'rec', 'u1', 'S3']), g.cycle('has', [[10], [3, 4], [100], [0], [40, 5]]), entry='file')
        out.append(scenario('ha%d' % i, [op, hostile(g, 90 + i, [dict(x) for x in g.sample(NOISE, 12)])]))
    return out


HOSTILE = [models, noise, arrays]
