"""C02: copy constraints are the requested equivalence classes."""
import json, random
import lib, mockparse, gen

ASSUMPTIONS = ['permutation commitments are compared as exact discrete logs over the transparent toy curve']
P = gen.P


def prog(cells, reqs, eqorder, k, extra_cols, nvar, vals, mindeg, fp, noeq=None):
    """cells: list of (kind, col, row); reqs: index pairs; vals: nvar lists of values"""
    na = max([c for t, c, _ in cells if t == 'a'] + [-1]) + 1
    nf = max([c for t, c, _ in cells if t == 'f'] + [-1]) + 1
    ni = max([c for t, c, _ in cells if t == 'i'] + [-1]) + 1
    cols = ['a'] * (na + extra_cols) + ['f'] * nf + ['i'] * ni
    acts, gi = [], {}
    order = [i for i, c in enumerate(cells) if c[0] != 'i']
    lo = min([cells[i][2] for i in order] + [0])
    for i in order:
        t, c, r = cells[i]
        gi[i] = len(gi)
        acts.append(['adv' if t == 'a' else 'fixv', c, r, [v[i] for v in vals]])
    # pin the region at row 0
    ops = [dict(op='region', acts=acts)]
    for a, b in reqs:
        if cells[a][0] == 'i' or cells[b][0] == 'i':
            if cells[a][0] == 'i':
                a, b = b, a
            ops.append(dict(op='inst', cell=gi[a], c=cells[b][1], row=cells[b][2]))
        else:
            ops.append(dict(op='region', acts=[['eq', ['g', gi[a]], ['g', gi[b]]]]))
    inst = []
    for v in vals:
        cs = []
        for c in range(ni):
            rows = {cells[i][2]: v[i] for i in range(len(cells)) if cells[i][0] == 'i' and cells[i][1] == c}
            cs.append([rows.get(r, 0) for r in range(max(rows) + 1)] if rows else [])
        inst.append(cs)
    # one probe gate so the circuit also has something else to prove; copies are the subject
    return dict(k=k, fp=fp, cols=cols, eq=[list(e) for e in eqorder], consts=[], mindeg=mindeg, gates=[], lookups=[], ops=ops, inst=inst)


def make(rng, cells, reqs, k, proof, noeq=False):
    n = len(cells)
    eqs = sorted({(t, c) for t, c, _ in cells})
    rng.shuffle(eqs)
    want = ''
    if noeq:
        used = sorted({(cells[i][0], cells[i][1]) for r in reqs for i in r})
        if used:
            eqs.remove(rng.choice(used))
            want = 'ColumnNotInPermutation'
    # variants: 0 = constant on classes, 1.. indicators, then random value patterns
    par = list(range(n))
    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for a, b in reqs:
        par[find(a)] = find(b)
    pats = [[1 if j == i else 0 for j in range(n)] for i in range(n)]
    base = [rng.randrange(2, P) for _ in range(n)]
    # fixed cells keep their key-generation value in every variant that is really proved
    honest = [base[find(i)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            if cells[j][0] == 'f' and find(i) == find(j):
                honest[i] = base[find(j)]
    vals = [honest]
    fake = []
    for i in range(n):
        if cells[i][0] != 'f':
            b = list(honest)
            b[i] = (b[i] + rng.randrange(1, P)) % P
            fake.append(b)
    if len(fake) > 2:
        fake = rng.sample(fake, 2)
    same = [base[find(i)] * 7 % P if not any(cells[j][0] == 'f' and find(j) == find(i) for j in range(n)) else honest[i] for i in range(n)]
    vals += fake + [same]
    nv = len(vals)
    vals += pats
    p = prog(cells, reqs, eqs, k, rng.choice([0, 0, 1]), len(vals), vals, rng.choice([0, 0, 5, 6, 9]), rng.choice(['simple', 'v1']))
    case = dict(want=['rec', 'mock', 'vk'] + (['proof'] if proof else []), prog=p, seed=rng.randrange(1 << 30))
    if proof:
        case['proofs'] = [dict(vs=[v]) for v in range(nv)] + [dict(vs=[0, nv - 1])]
    return case, dict(cells=cells, reqs=reqs, nv=nv, vals=vals, want=want)


def run(ctx):
    ctx.build()
    cases, metas = [], []
    # 1. the algorithm itself, every history over a few cells
    for nc in ((4, 5, 6) if ctx.thorough else (4, 5)):
        r = ctx.tlc('PermAssembly', f'CONSTANTS NC = {nc} Fused = {{}} MaxLen = 1 KeepHist = FALSE\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                    'INVARIANTS CyclesAreClasses RepsIdentifyCycles SizesRight\n', name=f'PermAssembly{nc}', workers=6)
        if r['violated']:
            raise lib.ToolError('the assembly model itself is wrong: ' + str(r['violated']))
    # 2. every short history, replayed
    quad = [('a', 0, 2), ('a', 1, 9), ('f', 0, 0), ('i', 0, 4)]
    r = ctx.tlc('PermAssembly', f'CONSTANTS NC = 4 Fused = {{3}} MaxLen = {4 if ctx.thorough else 2} KeepHist = TRUE\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', name='PermGen')
    hists = [json.loads(g[4:]) for g in r['prints'] if g.startswith('GEN|')]
    rng = random.Random(f'C02-{ctx.seed}')
    if len(hists) > 4000:
        hists = rng.sample(hists, 4000)
    ctx.extra['generated_histories'] = len(hists)
    def add(c, m):
        c['id'] = len(cases)
        cases.append(c)
        metas.append(m)
    for h in hists:
        add(*make(rng, quad, [tuple(x) for x in h], 4, False))
    # 3. longer random histories over more cells and columns, with proofs
    for i in range(1500 if ctx.thorough else 160):
        k = rng.choice([4, 4, 5])
        usable = 2 ** k - 6
        nc = rng.randint(2, 9 if k == 4 else 14)
        cells = set()
        na, nf, ni = rng.randint(1, 5), rng.randint(0, 2), rng.randint(0, 2)
        while len(cells) < nc:
            t, c = rng.choice([('a', x) for x in range(na)] * 2 + [('f', x) for x in range(nf)] + [('i', x) for x in range(ni)])
            cells.add((t, c, rng.choice([0, usable - 1, rng.randrange(usable)])))
        cells = sorted(cells)
        # column numbers must be gap-free
        for t in 'afi':
            m = {c: j for j, c in enumerate(sorted({c for tt, c, _ in cells if tt == t}))}
            cells = [(tt, m[c], r_) if tt == t else (tt, c, r_) for tt, c, r_ in cells]
        # a region is pinned at row 0 by a cell there
        reqs = []
        for _ in range(rng.choice([1, 2, 4, 8, 16])):
            x = rng.random()
            if reqs and x < .25:
                a, b = rng.choice(reqs)
                a, b = rng.choice([(a, b), (b, a), (a, a)])
            elif reqs and x < .5:
                a, b = rng.choice(reqs)[rng.randrange(2)], rng.randrange(nc)
            else:
                a, b = rng.randrange(nc), rng.randrange(nc)
            if cells[a][0] == 'i' and cells[b][0] == 'i':
                continue
            reqs.append((a, b))
        # at most one fixed cell in a class whose honest values are proved
        par = list(range(nc))
        def find(x):
            while par[x] != x:
                x = par[x]
            return x
        keep = []
        for a, b in reqs:
            ra, rb = find(a), find(b)
            fa = sum(1 for i in range(nc) if find(i) == ra and cells[i][0] == 'f')
            fb = sum(1 for i in range(nc) if find(i) == rb and cells[i][0] == 'f')
            if ra != rb and fa and fb:
                continue
            par[ra] = rb
            keep.append((a, b))
        add(*make(rng, cells, keep, k, i % 2 == 0, noeq=(i % 9 == 4)))
    outs = ctx.harness('circuit', cases)
    good, stats = [], dict(proofs=0, verdicts=0, refused=0)
    for c, m, o in zip(cases, metas, outs):
        if 'crash' in o or 'conferr' in o:
            ctx.violation(f'case {c["id"]}: {o.get("crash") or o.get("conferr")}', c)
            continue
        x = dict(id=c['id'], prog=dict(k=c['prog']['k'], eq=c['prog']['eq'], consts=[]), wanterr=m['want'], err='')
        errs = [r['res'] for r in o['mock'] if r['res'] != 'ok'] + ([o['vkres']] if o['vkres'] != 'ok' else [])
        if errs:
            x['err'] = errs[0] if len(set(errs)) == 1 and len(errs) == len(o['mock']) + 1 else 'mixed ' + str(sorted(set(errs)))
            stats['refused'] += 1
        cells = m['cells']
        ev = o['rec'][0]['ev']
        st = mockparse.region_starts(ev)
        s0 = st.get(0, 0) - min([r for t, _, r in cells if t != 'i'] + [1 << 20])
        ab = lambda t, cc, r: [t, cc, r + (s0 if t != 'i' and s0 > -1000 else 0)]
        x['cells'] = [ab(*y) for y in cells]
        x['req'] = [[ab(*cells[a]), ab(*cells[b])] for a, b in m['reqs']]
        x['params'] = dict(gl=o['params']['gl'], w=o['params']['w'])
        x['sigma'] = o.get('vk', {}).get('sigma', [])
        def blamed(mk):
            out = []
            for f in mk['fail']:
                t = mockparse.parse(f)
                if t[0] != 'perm':
                    return [['?', 0, 0]] * 3
                out.append([t[1], t[2], t[3][1] if t[3][0] == 'out' else st.get(t[3][1], 0) + t[3][2]])
            return out
        x['ind'] = [[x['cells'][i], blamed(o['mock'][m['nv'] + i])] for i in range(len(cells))]
        x['vals'] = []
        pr = o.get('proofs')
        for v in range(m['nv']):
            pv = 'none'
            if pr:
                stats['proofs'] += 1
                pv = pr[v]['vres'] if pr[v]['res'] == 'ok' else pr[v]['res']
                if v == 0 and pv == 'ok':
                    both = pr[m['nv']]
                    pv = both.get('vres', both['res'])
            stats['verdicts'] += 1
            x['vals'].append(dict(vals=[[x['cells'][i], m['vals'][v][i]] for i in range(len(cells))],
                                  mock=o['mock'][v]['res'] == 'ok' and not o['mock'][v]['fail'], proof=pv))
        if x['err']:
            x['vals'] = []
        good.append(x)
    for i, why in ctx.tlc_cases('PermTrace', good, jobs=6):
        ctx.violation(f'case {i} {why}', cases[i])
    ctx.extra.update(stats)
    ctx.samples.append(dict(case=good[-1]))
