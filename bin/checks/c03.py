"""C03: compiled selectors against written ones."""
import json, random
import gen, lib, pinned

ASSUMPTIONS = ['compiled and written polynomials are compared at two pseudo-random cell assignments per row (31-bit field)',
               'selector column contents are checked through their exact commitments over the transparent curve']
P = gen.P


def pattern(kinds, act, degs, mindeg, k=4, fp='simple', extra=(), lookups=(), bad=()):
    """probe gates for each selector, plus a gate of degree 1+degs[i] for selector i; honest value of a_0 is 0"""
    ns = len(kinds)
    gates, probes = [], []
    npoly = 0
    for i in range(ns):
        if degs[i] is None:
            continue
        gates.append(dict(polys=[['*', ['s', i], ['a', 0, 0]]], sel=[]))
        probes.append([i, npoly])
        npoly += 1
        e = ['a', 0, 0]
        for _ in range(degs[i] - 1):
            e = ['*', e, ['+', ['a', 1, 0], ['c', 3]]]
        gates.append(dict(polys=[e], sel=['s', i]))
        npoly += 1
    for g in extra:
        gates.append(g)
        npoly += len(g['polys'])
    rows = sorted({r for _, r in act} | {0, 1})
    acts = [['sel', s, r] for s, r in act]
    nv = 1 + len(bad)
    for r in rows:
        acts.append(['adv', 0, r, [0] + [9 if b == r else 0 for b in bad]])
        acts.append(['adv', 1, r, [5] * nv])
    cols = ['a', 'a'] + list(kinds) + (['f'] if extra else []) + ['t'] * len(lookups)
    return dict(k=k, fp=fp, cols=cols, eq=[], consts=[], mindeg=mindeg, gates=gates, lookups=list(lookups),
                ops=[dict(op='table', cells=[[c + (1 if extra else 0), 0, 0]]) for c in range(len(lookups))] + [dict(op='region', acts=acts)], inst=[[]] * nv), probes


def rnd(rng):
    ns = rng.randint(2, 9)
    kinds = [rng.choice('ssssx') for _ in range(ns)]
    degs = [rng.choice([None, 1, 1, 2, 3, 4, 5]) for _ in range(ns)]
    k = rng.choice([4, 4, 5])
    nr = 2 ** k - 6
    act = []
    mode = rng.random()
    for s in range(ns):
        if mode < .4:       # mostly disjoint
            act += [[s, r] for r in range(nr) if r % ns == s and rng.random() < .8]
        else:
            act += [[s, r] for r in range(nr) if rng.random() < .25]
    if mode < .4 and rng.random() < .5:
        s = rng.randrange(ns)
        act.append([s, rng.randrange(nr)])
    act = [list(x) for x in sorted({tuple(a) for a in act})]
    extra = []
    simple = [i for i in range(ns) if kinds[i] == 's' and degs[i]]
    cx = [i for i in range(ns) if kinds[i] == 'x' and degs[i]]
    if simple and cx and rng.random() < .6:
        i, j = rng.choice(simple), rng.choice(cx)
        extra.append(dict(polys=[['*', ['*', ['s', i], ['s', j]], ['a', 0, 0]]], sel=[]))
    if simple and rng.random() < .5:
        extra.append(dict(polys=[['*', ['k', ['*', ['f', 0], ['s', rng.choice(simple)]], 11], ['a', 1, -1]], ['*', ['a', 0, 1], ['s', rng.choice(simple)]]], sel=[]))
    lookups = []
    if cx and rng.random() < .7:
        s = rng.choice(cx)
        lookups.append([[['*', ['s', s], ['a', 0, 0]], 1 if extra else 0]])
        extra.append(dict(polys=[['*', ['+', ['c', 1], ['-', ['s', s]]], ['*', ['s', rng.choice(cx + simple)], ['a', 0, 0]]]], sel=[]))
        lookups[0][0][1] = 1
    bad = [r for r in rng.sample(range(nr), 2)]
    p, probes = pattern(kinds, act, degs, rng.choice([0, 0, 4, 6, 9]), k, rng.choice(['simple', 'v1']), extra, lookups, bad)
    return p, probes


def run(ctx):
    ctx.build()
    cases, probes = [], []

    def add(p, pr, proof=False):
        nv = len(p['inst'])
        c = dict(id=len(cases), want=['rec', 'mock', 'vk'] + (['proof'] if proof else []), prog=p, seed=len(cases))
        if proof:
            c['proofs'] = [dict(vs=[v]) for v in range(nv)]
        cases.append(c)
        probes.append(pr)
    r = ctx.tlc('SelGen', 'CONSTANTS NS = 3 NR = 3\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n')
    pats = [json.loads(g[4:]) for g in r['prints'] if g.startswith('GEN|')]
    assert len(pats) == 512
    rng = random.Random(f'C03-{ctx.seed}')
    confs = [('sss', [2, 2, 2], 0), ('sss', [1, 1, 3], 0), ('ssx', [1, 2, 1], 5), ('sss', [4, 1, 2], 5), ('sxs', [1, 1, 1], 0), ('sss', [1, None, 1], 4)]
    if not ctx.thorough:
        confs = confs[:1] + [rng.choice(confs[1:])]
    for kinds, degs, md in confs:
        for a in pats:
            p, pr = pattern(kinds, a, degs, md, bad=[1])
            add(p, pr)
    for i in range(3000 if ctx.thorough else 350):
        add(*rnd(rng), proof=i % 3 == 0)
    for i in range(300 if ctx.thorough else 60):
        p = gen.Gen(rng, k=5, nregions=2, nlook=rng.randint(0, 1), nsel=rng.randint(2, 6), ngates=rng.randint(2, 5), fp='simple').make()
        add(p, [])
    outs = ctx.harness('circuit', cases)
    good, npf = [], 0
    for c, pr, o in zip(cases, probes, outs):
        if 'crash' in o or 'conferr' in o or o['vkres'] != 'ok':
            ctx.violation(f'case {c["id"]}: {o.get("crash") or o.get("conferr") or o.get("vkres")}', c)
            continue
        x = dict(id=c['id'], prog=c['prog'], probes=pr, ev=o['rec'][0]['ev'], params=dict(gl=o['params']['gl'], w=o['params']['w']), vk=pinned.vk(o['vk']['pinned']), verdicts=[])
        if pr:
            for v, m in enumerate(o['mock']):
                pf = 'none'
                if 'proofs' in o:
                    q = o['proofs'][v]
                    pf = q['vres'] if q['res'] == 'ok' else q['res']
                    npf += 1
                ok = m['res'] == 'ok' and all(f.startswith('CellNotAssigned') for f in m['fail'])
                x['verdicts'].append(dict(ev=o['rec'][v]['ev'], inst=c['prog']['inst'][v], mock=ok, proof=pf))
        good.append(x)
    for i, why in ctx.tlc_cases('SelTrace', good, jobs=6):
        ctx.violation(f'case {i} {why}', cases[i])
    ctx.extra.update(patterns=len(pats) * len(confs), real_proofs=npf)
    ctx.samples.append(dict(prog=good[0]['prog'], vk=good[0]['vk']))
