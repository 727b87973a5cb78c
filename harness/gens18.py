"""What operations leave behind (Leave)."""
from gens import scenario

# which files the operation opens itself, and which its caller has opened
ENTRY = {('own', 'own'): ['pack_ff', 'unpack_ff', 'append_ff', 'compress', 'decompress', 'append_cmd'],
         ('none', 'own'): ['pack_bf', 'ndpack'], ('own', 'none'): ['unpack_fb', 'ndunpack', 'info'],
         ('callers', 'callers'): ['pack_fp', 'unpack_fp', 'append_fp'], ('none', 'callers'): ['ndpack_fp'],
         ('callers', 'none'): ['ndsource', 'unpack_mem', 'pack_mem'], ('none', 'none'): ['pack_bb', 'unpack_bb', 'ndpack_b', 'unpack_nb']}


def leaves(g):
    hs = g.histories.get('LeaveMC', []) + g.histories.get('LeaveDeep', [])
    seen, runs = set(), []
    for h in sorted(hs, key=str):
        k = (h['in'], h['out'], h['fate'], h['at'])
        if k in seen:
            continue
        seen.add(k)
        for e in ENTRY.get((h['in'], h['out']), []):
            runs.append({'entry': e, 'fate': h['fate'], 'at': h['at'],
                         'own': [n for n in ('in', 'out') if h[n] == 'own'], 'theirs': [n for n in ('in', 'out') if h[n] == 'callers']})
    out = []
    for j in range(g.scale(8, 40)):
        rs = g.sample(runs, len(runs))
        for i in range(0, len(rs), 25):
            out.append(scenario('leave%d-%d' % (j, i), [{'op': 'leave', 'seed': g.rnd.randrange(10**6), 'runs': rs[i:i + 25]}]))
    return out
