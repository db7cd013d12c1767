"""C10: lookup tables are assigned completely, once, with a consistent default."""
import json, random
import lib, pinned

ASSUMPTIONS = ['values of table cells are known constants; circuits scripted through the public API',
               'a table that fills every usable row is refused, as there is no row left for the default (stated in the property)']


def program(rng, tables, fp, ncols, shape=0):
    """tables: list of lists of (column, row); looked up by one lookup over the first columns"""
    k = 4
    nv = 5
    ops = []
    for t in tables:
        cells = []
        for c, r in t:
            v = rng.choice([0, 1, rng.randrange(1, 50), rng.randrange(1, 50)])
            cells.append([c, r, v])
        ops.append(dict(op='table', cells=cells))
    width = rng.choice([1, 2]) if ncols > 1 else 1
    lcols = sorted(rng.sample(range(ncols), width))
    look = [[['+', ['*', ['s', 0], ['a', j, 0]], ['*', ['+', ['c', 1], ['-', ['s', 0]]], ['a', j, 0]]], c] for j, c in enumerate(lcols)]
    # every row of the advice columns looks up the same pair, the default row keeps the rest in the table
    vals = {}
    for o in ops:
        for c, r, v in o['cells']:
            vals.setdefault(c, {}).setdefault(r, v)
            vals[c][r] = v
    rows = [tuple(vals.get(c, {}).get(r, vals.get(c, {}).get(0, 0)) for c in lcols) for r in range(4)]
    pairs = []
    for i in range(nv):
        p = list(rng.choice(rows))
        if rng.random() < .35:
            p[rng.randrange(width)] = rng.choice([0, 51, rng.randrange(60)])
        pairs.append(p)
    bf = 5
    u = 2 ** k - bf - 1
    acts = []
    for r in range(u):
        for j in range(width):
            acts.append(['adv', j, r, [p[j] for p in pairs]])
    acts.append(['sel', 0, rng.randrange(u)])
    reg = dict(op='region', acts=acts)
    ops.insert(rng.choice([0, len(ops)]), reg)
    fp = fp
    return dict(k=k, fp=fp, cols=['t'] * ncols + ['a'] * width + ['x'], eq=[], consts=[], mindeg=0, gates=[], lookups=[look], ops=ops, inst=[[]] * nv), lcols, pairs


def run(ctx):
    ctx.build()
    hists = []
    T = ctx.thorough
    for cols, rows, mc, mt in [('{0, 1}', '{0, 1, 2}', 5 if T else 4, 1), ('{0, 1, 2}', '{0, 1}', 5 if T else 4, 3), ('{0}', '{0, 1, 2, 3}', 5, 2)]:
        g = ctx.tlc('TableGen', f'CONSTANTS Cols = {cols}\nRows = {rows}\nMaxCells = {mc}\nMaxTables = {mt}\nINIT Init\nNEXT Next\nINVARIANT NoGapBeforeNextTable\nCHECK_DEADLOCK FALSE\n', workers=4)
        if g['violated']:
            ctx.violation('specification: ' + str(g['violated']))
        hists += [json.loads(p[4:]) for p in g['prints'] if p.startswith('GEN|')]
    hists = sorted({json.dumps(h) for h in hists})
    rng = random.Random(f'C10-{ctx.seed}')
    if not T:
        # every history of at most three cells, a sample of the longer ones
        short = [h for h in hists if h.count(',') <= 6]
        hists = short + rng.sample([h for h in hists if h.count(',') > 6], 1100)
    hists = [json.loads(h) for h in hists]
    # larger ones: full prefixes in odd orders, up to and beyond the usable rows
    for _ in range(3000 if T else 500):
        nc = rng.randint(1, 4)
        cs = list(range(nc))
        rng.shuffle(cs)
        tabs = []
        while cs:
            m = rng.randint(1, len(cs))
            grp, cs = cs[:m], cs[m:]
            n = rng.choice([1, 2, 3, 8, 9, 10, 10, 11])
            cells = [[c, r] for c in grp for r in range(n)]
            x = rng.random()
            if x < .4:
                rng.shuffle(cells)
            y = rng.random()
            if y < .15:
                cells.pop(rng.randrange(len(cells)))
            elif y < .3:
                cells.append([rng.choice(grp), rng.choice([0, n - 1, n, n + 1])])
            elif y < .36:
                cells.insert(rng.randrange(len(cells)), [rng.randrange(nc), rng.choice([0, 1, 9, 10, 30])])
            if cells:
                tabs.append(cells)
        if tabs:
            hists.append(tabs)
    cases, meta = [], []
    for i, h in enumerate(hists):
        ncols = 1 + max(c for t in h for c, _ in t)
        fps = ['simple', 'v1'] if T or i % 3 == 0 else [['simple', 'v1'][i % 2]]
        for fp in fps:
            p, lcols, pairs = program(rng, h, fp, ncols)
            nv = len(pairs)
            cases.append(dict(id=len(cases), want=['rec', 'vk', 'mock'] + (['proof'] if len(cases) % 9 == 0 else []), prog=p, seed=i, proofs=[dict(vs=[v]) for v in range(nv)]))
            meta.append((lcols, pairs))
    outs = ctx.harness('circuit', cases)
    good = []
    for c, o, (lcols, pairs) in zip(cases, outs, meta):
        if 'crash' in o or 'conferr' in o:
            ctx.violation(f'case {c["id"]}: {o.get("crash") or o.get("conferr")}', c)
            continue
        good.append(dict(id=c['id'], prog=lib.specprog(dict(c['prog'])), rec=o['rec'], params=o['params'], vkres=o['vkres'], pkres=o.get('pkres', 'ok'),
                         fixed=o['vk']['fixed'] if 'vk' in o else [], mock=[dict(res=m['res'], n=len(m['fail'])) for m in o['mock']],
                         lcols=lcols, pairs=pairs, proofs=[('ok' if q['res'] == 'ok' and q.get('vres') == 'ok' else 'no') for q in o.get('proofs', [])]))
    byid = {c['id']: c for c in cases}
    for i, w in ctx.tlc_cases('TableTrace', good, jobs=7, workers=1):
        ctx.violation(f'case {i} {w}', byid[i])
    kinds = {}
    for g in good:
        k = g['vkres'].split(':')
        kinds[k[1] if len(k) > 1 else k[0]] = kinds.get(k[1] if len(k) > 1 else k[0], 0) + 1
    ctx.extra['outcomes'] = kinds
    ctx.samples.append(dict(prog=good[0]['prog']['ops'], vkres=good[0]['vkres']))
