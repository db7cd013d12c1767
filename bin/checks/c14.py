"""C14: row-bound violations are refused, never silently wrapped or dropped."""
import json, random
import gen, lib

P = gen.P
ASSUMPTIONS = ['transparent toy curve; circuits of 2^3..2^6 rows (the row checks depend only on 2^k and on the number of blinding rows)']

SHAPES = [
    # rotations of advice column 2 in a gate that is never activated, in a lookup, minimum degree
    dict(rots=[0], look=[], k=4),
    dict(rots=[0, 1, 2, 3], look=[], k=4),
    dict(rots=[-3, -2, -1, 0, 1, 2], look=[], k=4),
    dict(rots=[0, 1], look=[2, 3, -1], k=5),
    dict(rots=[0], look=[], k=3),
    dict(rots=[-1, 0, 1, 2, 3, 4, 5, 6, 7], look=[-2], k=4),
    dict(rots=[0, 1, 2, 3, 4], look=[], k=3),
]


def build(c, shape, off, rng, nv=1):
    rots, look = shape['rots'], shape['look']
    gates = [dict(polys=[['+', ['a', 0, 0], ['-', ['a', 1, 0]]]], sel=['s', 0])]
    q = ['a', 2, rots[0]]
    for r in rots[1:]:
        q = ['+', q, ['a', 2, r]]
    gates.append(dict(polys=[q], sel=['s', 1]))
    lookups = [[[['*', ['s', 2], ['a', 0, 0]], 1]]]
    for r in look:
        lookups.append([[['*', ['s', 2], ['*', ['a', 2, r], ['c', 0]]], 1]])
    prog = dict(k=shape['k'], fp=c['fp'], cols=['a', 'a', 'a', 'f', 't', 'i', 's', 's', 'x'], eq=[['a', 0], ['a', 1], ['f', 0], ['i', 0]], consts=[], mindeg=0,
                gates=gates, lookups=lookups, ops=[], inst=[])
    n = 2 ** prog['k']
    u = gen.usable(prog)
    r = n + off - 91 if off >= 90 else u + off
    if r < 0:
        r = 0
    pre = min(c['pre'], r)
    inb = r < u
    o = r - pre
    v = rng.randrange(1, P)
    w = v if rng.random() < .6 else v + 1
    acts, ops, ilen, asked = [], [], rng.choice([0, 1, max(u, 0)]), []
    ival = {}
    k = c['kind']
    if k == 'adv':
        acts = [['adv', 0, o, [v]]] + ([['adv', 1, o, [w]], ['sel', 0, o]] if inb else [])
    elif k == 'sel':
        acts = ([['adv', 0, o, [v]], ['adv', 1, o, [w]]] if inb else []) + [['sel', 0, o]]
        if inb and rng.random() < .3:
            acts = [['sel', 0, o]]
    elif k == 'fix':
        acts = [['fix', 0, o, v], ['adv', 0, 0, [w]], ['eq', ['l', 0], ['l', 1]]] if inb and rng.random() < .5 else [['fix', 0, o, v]]
    elif k == 'copy':
        e = [['l', 0], ['l', 1]]
        if rng.random() < .5:
            e.reverse()
        acts = [['adv', 0, o, [v]], ['adv', 1, 0, [w]], ['eq'] + e]
    elif k == 'fcopy':
        acts = [['fix', 0, o, v], ['adv', 1, 0, [w]], ['eq', ['l', 1], ['l', 0]]]
    elif k == 'inst':
        acts = [['adv', 0, 0, [v]]]
        if r < u:
            ilen = rng.choice([u, r + 1])
            ival[r] = w
    elif k == 'advi':
        acts = [['advi', 0, 0, 0, r], ['adv', 1, 0, [v]], ['sel', 0, 0]]
        asked = [r]
        if r < u:
            ilen = rng.choice([u, r + 1, r, 0])
            ival[r] = w
            if ilen <= r and rng.random() < .5:
                acts[1] = ['adv', 1, 0, [0]]
    elif k == 'ival':
        acts = [['ival', 0, r], ['adv', 0, 0, [v]], ['adv', 1, 0, [w]], ['sel', 0, 0]]
        asked = [r]
        if r < u:
            ilen = rng.choice([u, r + 1, r, 0])
    elif k == 'table':
        acts = [['adv', 0, 0, [rng.choice([5, 6, r + 4, r + 5])]], ['sel', 2, 0]]
    else:
        ilen = max(r, 0)
    tab = dict(op='table', cells=[[1, i, 5 + i if k == 'table' else 0] for i in range(max(1, r) if k == 'table' else 1)])
    if k == 'table' and u > 0 and r < u:
        # rows that do not use the lookup read 0
        tab['cells'][-1][2] = 0
    if pre:
        ops.append(dict(op='region', acts=[[kind, cc, pre - 1, [0]] if kind == 'adv' else [kind, cc, pre - 1, 0] for kind, cc in (('adv', 0), ('adv', 1), ('fix', 0))] + [['sel', 0, pre - 1]]))
    ng = 3 if pre else 0
    ops.append(tab)
    if acts:
        ops.append(dict(op='region', acts=acts))
    if k == 'inst':
        ops.append(dict(op='inst', cell=ng, c=0, row=r))
    col = [ival.get(i, 0) for i in range(max(0, ilen))]
    prog['ops'] = ops
    prog['inst'] = [[col]]
    # other shapes of the public inputs
    if k not in ('advi', 'ival') and u > 0:
        prog['inst'] += [[(col + [0] * n)[:u]], [(col + [0] * n)[:u + 1]], [col, []], []]
        if c['kind'] == 'ilen':
            prog['inst'] += [[(col + [0] * 2 * n)[:n]], [(col + [0] * 2 * n)[:n + 1]], [[]]]
    return prog, asked


def run(ctx):
    ctx.build()
    shapes = len(SHAPES)
    r = ctx.tlc('BoundGen', f'CONSTANTS Shapes = {{{", ".join(map(str, range(shapes)))}}}\nOffs = {{8, 9, 10, 11, 90, 91, 92}}\nPres = {{0, 2}}\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
    recs = [json.loads(p[4:]) for p in r['prints'] if p.startswith('GEN|')]
    recs.sort(key=lambda x: json.dumps(x, sort_keys=True))
    rng = random.Random(f'C14-{ctx.seed}')
    if not ctx.thorough:
        # every kind/offset/planner; the other two dimensions sampled
        rng.shuffle(recs)
        recs = recs[:760]
    cases = []
    for rep in range(3 if ctx.thorough else 1):
        for rec in recs:
            i = len(cases)
            c = random.Random(f'C14-{ctx.seed}-{i}')
            prog, asked = build(rec, SHAPES[rec['shape']], rec['off'] - (10 if rec['off'] < 90 else 0), c)
            c2 = dict(rec, kind=rec['kind'] if c.random() < .5 else c.choice(['adv', 'sel', 'fix', 'copy', 'inst', 'advi', 'ival', 'table']))
            prog2, asked2 = build(c2, SHAPES[rec['shape']], c.choice([-2, -1, 0, 1, 91]), c)
            sets = [dict(vs=[0], inst=[x]) for x in prog['inst']]
            x0 = prog['inst'][0]
            x1 = c.choice(prog['inst'])
            sets += [dict(vs=[0, 0], inst=[x0, x1]), dict(vs=[0, 0], inst=[x1, x0]), dict(vs=[0, 0], inst=[x0]), dict(vs=[0], inst=[x0, x0])]
            if not ctx.thorough:
                sets = sets[:1] + c.sample(sets[1:], min(3, len(sets) - 1))
            cases.append(dict(id=i, prog=prog, prog2=prog2, asked=asked, asked2=asked2, proofs=sets, seed=i))
    # ordinary circuits on too few rows
    for j in range(400 if ctx.thorough else 120):
        i = len(cases)
        c = random.Random(f'C14r-{ctx.seed}-{j}')
        p = gen.Gen(c, k=4, mutants=0, inst=False, consts=False).make()
        p['k'] = c.choice([3, 4, 4, 5])
        cases.append(dict(id=i, prog=p, prog2=dict(k=0), asked=[], asked2=[], proofs=[dict(vs=[0], inst=[p['inst'][0]])], seed=i))
    outs = ctx.harness('bound', [dict(c, prog2=c['prog2'] if c['prog2']['k'] else None) for c in cases])
    good, st = [], {}
    for c, o in zip(cases, outs):
        if 'crash' in o or 'conferr' in o:
            ctx.violation(f'case {c["id"]}: {o.get("crash") or o.get("conferr")}', c)
            continue
        x = dict(id=c['id'], prog=lib.specprog(c['prog']), prog2=lib.specprog(c['prog2']) if c['prog2']['k'] else dict(k=0), asked=c['asked'], asked2=c['asked2'], sets=c['proofs'], cs=o['cs'], rec=o['rec'], rec2=o.get('rec2', dict(res='', ev=[])),
                 vk=o['vk'], pk=o.get('pk', 'none'), pk2=o.get('pk2', 'none'), prove2=o.get('prove2', 'none'), mock=o['mock'], mock2=o.get('mock2', []), proofs=o['proofs'])
        good.append(x)
        for key in [f'key {o["vk"]}'] + [f'mock {m["res"]}' for m in o['mock']] + [f'prove {p["prove"]}' for p in o['proofs']] + [f'verify {p["other"]}' for p in o['proofs']]:
            st[key] = st.get(key, 0) + 1
    for i, why in ctx.tlc_cases('BoundTrace', good, jobs=7, workers=1):
        ctx.violation(f'case {i} {why}', cases[i])
    ctx.extra['outcomes'] = st
    ctx.samples.append(good[0])
