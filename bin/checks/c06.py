"""C06: multi-point opening is complete, and sound for every query set."""
import json, random

ASSUMPTIONS = ['transparent toy curve: the final group equation is evaluated exactly from the recorded transcript']
P = 2013265921


def run(ctx):
    ctx.build()
    r = random.Random(f'C06-{ctx.seed}')
    g = ctx.tlc('OpenGen', f'CONSTANTS NP = 3\nNX = 3\nMax = {5 if ctx.thorough else 4}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', workers=1)
    sets = [json.loads(p[4:]) for p in g['prints'] if p.startswith('GEN|')]
    ctx.extra['query_sets_enumerated'] = len(sets)
    r.shuffle(sets)
    sets = sets[:6000 if ctx.thorough else 260]
    for _ in range(400 if ctx.thorough else 40):        # larger random ones
        n, m = r.randint(2, 8), r.randint(1, 6)
        q = [[p, x] for p in range(n) for x in range(m) if r.random() < .4]
        r.shuffle(q)
        if q:
            sets.append(q)
    cases = []
    for i, q in enumerate(sets):
        k = r.choice([2, 3, 3]) if len({x for _, x in q}) < 4 else r.choice([3, 4])
        N = 2 ** k
        np = max(a for a, _ in q) + 1
        nx = max(b for _, b in q) + 1
        pts = r.sample([0, 1, P - 1] + [r.randrange(2, P) for _ in range(nx)], nx)
        polys = [[r.choice([0, 1, r.randrange(P)]) if r.random() < .2 else r.randrange(P) for _ in range(N)] for _ in range(np)]
        if np > 1 and r.random() < .15:
            polys[1] = list(polys[0])        # equal contents, distinct commitments
        if r.random() < .1:
            polys[0] = [0] * N
        nsets = len({frozenset(x for p2, x in q if p2 == p) for p, _ in q})
        words = 1 + nsets + 1 + 2 * k + 2
        muts = [['eval', j, r.choice([1, P - 1, r.randrange(1, P)])] for j in range(min(len(q), 6))]
        muts += [['com', r.randrange(len(q)), r.randrange(1, P)]]
        # move one point: to a fresh one, or onto another point in use
        j = r.randrange(len(q))
        tgt = r.choice([r.randrange(P), pts[r.randrange(nx)]])
        d = (tgt - pts[q[j][1]]) % P
        if d:
            muts.append(['point', j, d])
        muts += [['add', r.randrange(words), r.choice([1, r.randrange(1, P)])] for _ in range(5)] + [['cut', r.randrange(64)]]
        cases.append(dict(id=i, k=k, polys=polys, blinds=[r.choice([0, 1, r.randrange(P)]) for _ in range(np)], points=pts, queries=q,
                          msm=[r.random() < .3 for _ in range(np)], seed=r.randrange(1 << 40), muts=muts, threads=r.choice([1, 1, 3])))
    outs = ctx.harness('open', cases, threads=None)
    good = []
    for c, o in zip(cases, outs):
        if o.get('crash'):
            ctx.violation(f'case {c["id"]}: {o["crash"]}', c)
        else:
            good.append(dict({k: c[k] for k in ('id', 'polys', 'blinds', 'points', 'queries')}, **{k: o[k] for k in ('params', 'coms', 'evals', 'pres', 'pev', 'runs')}))
    for i, w in ctx.tlc_cases('OpenTrace', good, jobs=7, workers=1):
        ctx.violation(f'case {i}: queries {cases[i]["queries"]}: {w}', cases[i])
    ctx.samples += [cases[0]]
    ctx.extra.update(openings=len(good), verifications=sum(len(x['runs']) for x in good))
