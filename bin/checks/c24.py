"""C24: what a proof reveals: every message is blinded by randomness of its own."""
import random
import gen, lib, pinned

ASSUMPTIONS = ['challenges are held fixed while one draw at a time is changed (the messages are affine in the blinding draws, so differences decide uniformity)',
               'transparent toy curve: a commitment is its discrete logarithm; a coincidental dependency has probability about 2^-25 per proof',
               'hiding of the real Pasta commitments given a uniform blinding factor is taken from the group structure']


def handcrafted():
    base = dict(k=5, fp='simple', cols=['a'], eq=[], consts=[], mindeg=0, gates=[], lookups=[], ops=[], inst=[[]])
    row = lambda na, off, v: [['adv', c, off, [v + c]] for c in range(na)]
    out = []
    # many columns, many permutation products
    n = 11
    out.append((dict(base, cols=['a'] * n + ['i', 's'], eq=[['a', c] for c in range(n)] + [['i', 0]], gates=[dict(polys=[['*', ['s', 0], ['+', ['a', c, 0], ['-', ['a', c, 0]]]] for c in range(n)], sel=[])],
                     ops=[dict(op='region', acts=[['sel', 0, 0]] + row(n, 0, 5) + [['eq', ['l', 0], ['l', 0]]])], inst=[[[1, 2]]]), [[0]]))
    # a column read at many rotations next to one that is never read
    rots = [-3, -1, 0, 1, 2, 4]
    e = ['a', 0, rots[0]]
    for r in rots[1:]:
        e = ['+', e, ['k', ['a', 0, r], 7]]
    out.append((dict(base, cols=['a', 'a', 's'], eq=[['a', 0]], gates=[dict(polys=[e], sel=['s', 0])], ops=[dict(op='region', acts=row(2, 0, 0)[:1])]), [[0], [0, 0]]))
    # three lookups over two tables, one of them of two columns
    out.append((dict(base, cols=['a', 'a', 't', 't'], lookups=[[[['a', 0, 0], 0]], [[['a', 0, 0], 0], [['a', 1, 0], 1]], [[['a', 1, 0], 0]]],
                     ops=[dict(op='table', cells=[[c, r, r] for r in range(4) for c in range(2)]), dict(op='region', acts=[['adv', 0, 0, [2]], ['adv', 1, 0, [2]], ['adv', 0, 1, [0]], ['adv', 1, 1, [0]]])]), [[0]]))
    # more circuits in one proof
    small = dict(base, k=4, cols=['a', 'a'], eq=[['a', 0], ['a', 1]], gates=[dict(polys=[['*', ['a', 0, 0], ['+', ['a', 1, 0], ['-', ['a', 1, 0]]]]], sel=[])],
                 ops=[dict(op='region', acts=row(2, 0, 3) + row(2, 1, 9))])
    out.append((small, [[0] * 6]))
    # no column at all but an instance; a longer circuit
    out.append((dict(base, k=4, cols=['i', 'a'], eq=[['i', 0], ['a', 0]], ops=[dict(op='region', acts=[['advi', 0, 0, 0, 0]])], inst=[[[7]]]), [[0]]))
    out.append((dict(small, k=7), [[0]]))
    return out


def run(ctx):
    ctx.build()
    P = gen.P
    n = 300 if ctx.thorough else 48
    cases = []
    def make(i, k=None):
        r = random.Random(f'C24-{ctx.seed}-{i}')
        prog = gen.Gen(r, mutants=0, k=k).make()
        nv = len(prog['inst'])
        sets = [[r.randrange(nv)]]
        if i % 2:
            sets.append([0, 0] if i % 4 == 1 or nv == 1 else r.choice([[0, 1], [1, 0], [0, nv - 1, 0]]))
        return dict(id=i, prog=prog, sets=sets, seed=r.randrange(1 << 40), threads=r.choice([1, 1, 3]), threads2=r.choice([2, 4, 5]))
    cases = [make(i) for i in range(n)]
    for i in range(n, n + (60 if ctx.thorough else 16)):        # openings on their own
        r = random.Random(f'C24o-{ctx.seed}-{i}')
        k, np, nx = r.choice([1, 2, 3, 3, 4]), r.randint(1, 4), r.randint(1, 3)
        q = [[p, x] for p in range(np) for x in range(nx) if r.random() < .6] or [[0, 0]]
        np = max(p for p, _ in q) + 1
        poly = lambda: r.choice([[0] * 2 ** k, [r.randrange(P)] + [0] * (2 ** k - 1), [r.randrange(P) for _ in range(2 ** k)]])
        cases.append(dict(id=i, k=k, polys=[poly() for _ in range(np)], blinds=[r.choice([0, r.randrange(P)]) for _ in range(np)], points=r.sample(range(2, P), nx),
                          queries=q, seed=r.randrange(1 << 40), threads=r.choice([1, 1, 3]), threads2=r.choice([2, 4, 5])))
    for prog, sets in handcrafted():
        cases.append(dict(id=len(cases), prog=prog, sets=sets, seed=ctx.seed + 17, threads=2, threads2=3, fixed=True))
    outs = ctx.harness('blind', cases)
    for _ in range(2):      # circuits that do not fit are made again, larger
        redo = [i for i, o in enumerate(outs) if 'prog' in cases[i] and 'fixed' not in cases[i] and not o.get('crash') and not any(s['res'] == 'ok' for s in o.get('sets', []))]
        for i in redo:
            cases[i] = make(i, cases[i]['prog']['k'] + 1)
        for i, o in zip(redo, ctx.harness('blind', [cases[i] for i in redo], name='g')):
            outs[i] = o
    m = ctx.tlc('BlindModel', 'INIT Init\nNEXT Next\nINVARIANT Criterion\nINVARIANT Count\nCHECK_DEADLOCK FALSE\n', workers=4)
    if m['violated']:
        raise lib.ToolError('BlindModel: the criterion is not the definition: ' + str(m['violated']))
    good, draws, msgs = [], 0, 0
    for c, o in zip(cases, outs):
        if o.get('crash'):
            ctx.violation(f'case {c["id"]}: {o["crash"]}', c)
            continue
        if 'fixed' in c and not all(s['res'] == 'ok' and s['rows'] for s in o.get('sets', [dict(res='')])):
            ctx.violation(f'case {c["id"]}: a satisfied circuit is not proved: {[s["res"] for s in o.get("sets", [])]}', c)
            continue
        if 'sets' not in o:
            continue        # the circuit does not fit: C14's business
        if 'prog' in c:
            x = dict(id=c['id'], kind='proof', prog=lib.specprog(c['prog']), params=o['params'], vk=pinned.vk(o['vk']['pinned']), rec=[], proofs=[])
        else:
            x = dict(id=c['id'], kind='open', k=c['k'], nsets=len({frozenset(x for p2, x in c['queries'] if p2 == p) for p, _ in c['queries']}), proofs=[])
        for s in o['sets']:
            q = dict(vs=s.get('vs', []), res=s['res'], same=s['same'], bad=s['bad'], inst=[c['prog']['inst'][v] for v in s.get('vs', [])], vev=s['ev'], cols=[], supp=[], first=[])
            if s['rows'] and not s['bad']:
                q['cols'] = [[0] * s['draws'] for _ in s['ev']]
                for j, row in enumerate(s['rows']):
                    for m, d in row:
                        q['cols'][m - 1][j] = d
                q['supp'] = [[m for m, _ in row] for row in s['rows'] if len(row) in (1, 2)]
                q['first'] = [row[0][0] if row else 0 for row in s['rows']]
                draws += s['draws']
                msgs += len(s['ev'])
            if s['res'] == 'ok':
                x['proofs'].append(q)
        if x['proofs']:
            good.append(x)
    for i, w in ctx.tlc_cases('Blinding', good, cfg='INIT BInit\nNEXT BNext\nCHECK_DEADLOCK FALSE\n', jobs=7, workers=1):
        ctx.violation(f'case {i} proof {w}', cases[i])
    if good:
        ctx.samples.append(dict(prog=good[0].get('prog'), draws=len(good[0]['proofs'][0]['first'])))
    ctx.extra.update(proofs=sum(len(x['proofs']) for x in good), draws=draws, messages=msgs)
