"""Unpacking that fails."""
import gens2 as g2
from gens import CHECKSUMS, scenario

ENTRY = ['f2f', 'fp', 'cmd', 'f2b', 'f2f', 'cmd']


def fails(g, i, wrong=0, entry=None):
    return {'op': 'deliver', 'f': 'A', 'entry': entry or g.cycle('de', ENTRY), 'seed': i, 'wrong': wrong,
            'faults': 60 if g.full else 9}


def containers(g):
    """the containers of the model, with every failure"""
    by = {}
    for h in g.histories.get('Deliver', []):
        c = h['con']
        by.setdefault((c['n'], c['m'], c['o'], c['d'], h['wrong']), h)
    out = []
    keys = sorted(by)
    for i, k in enumerate(keys * (20 if g.full else 2)):
        n, m, o, d, wrong = k
        cs = g.cycle('dcs', [1, 16, 100, 1000, 5000])
        op = g.pack(cs=cs, n=max(0, n * cs - (g.rnd.randrange(cs) if n else 0)), offsets=o, cap=g.cycle('dcap', [0, 3]),
                    meta=1 if m else 0)
        if 'ma' in op:
            op['ma']['max'] = {'mul': 3, 'add': 30}
        op['bp']['checksum'] = g.cycle('dc', CHECKSUMS[1:]) if d else 'None'
        out.append(scenario('dl%d' % i, [op, fails(g, i, wrong)] + g.reads(k=1)))
    return out


def grown(g):
    """longer ones, and after appends"""
    out = []
    for i in range(g.scale(30, 600)):
        cs = g.cycle('dgc', [7, 64, 1000])
        op = g.pack(cs=cs, n=g.cycle('dgn', [3 * cs, 10 * cs + 1, 30 * cs, 5]), offsets=True, cap=60, meta=0.4)
        ops = [op, g.append(g.cycle('dga', [0, 1, cs, 3 * cs])), fails(g, 100 + i, g.cycle('dgw', [0, 0, 1, 2, 3])), *g.reads(k=1)]
        out.append(scenario('dg%d' % i, ops))
    return out


def arrays(g):
    out = []
    for i in range(g.scale(20, 400)):
        op = g2.nd_op(g, g.cycle('dat', ['f8', 'i2', 'rec', 'u1', 'S3']), g.cycle('das', [[10], [3, 4], [100], [0], [40, 5]]),
                      entry='file')
        out.append(scenario('da%d' % i, [op, {'op': 'ndunpack', 'f': 'A', 'entry': 'file'},
                                         fails(g, 300 + i, g.cycle('daw', [0, 0, 1]), 'nd')]))
    return out


DELIVERED = [containers, grown, arrays]
