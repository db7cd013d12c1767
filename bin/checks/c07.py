"""C07: commitments open only to the committed polynomial's evaluation."""
import random

ASSUMPTIONS = ['transparent toy curve: discrete logarithms of every commitment are visible, so the opening equation is evaluated exactly',
               'binding and the discrete-log assumption are outside the model: a rejection is what the verifier equation gives']
P = 2013265921


def run(ctx):
    ctx.build()
    r = random.Random(f'C07-{ctx.seed}')
    cases = []
    n = 600 if ctx.thorough else 90
    for i in range(n):
        k = r.choice([1, 2, 3, 4]) if i % 10 else r.choice([5, 6])
        N = 2 ** k
        kind = r.choice(['rand', 'rand', 'zero', 'const', 'unit', 'sparse'])
        val = dict(rand=lambda j: r.randrange(P), zero=lambda j: 0, const=lambda j: 5, unit=lambda j: int(j == N - 1), sparse=lambda j: r.choice([0, 0, 1, P - 1]))[kind]
        vals = [val(j) for j in range(N)]
        om = pow(31, 15 * 2 ** (27 - k), P)
        muts = [['v', r.choice([1, P - 1, r.randrange(1, P)])], ['x', r.choice([1, r.randrange(1, P)])], ['c', r.choice([1, r.randrange(1, P)])]]
        words = 1 + 2 * k + 2
        muts += [['add', w, r.choice([1, P - 1, r.randrange(1, P)])] for w in range(words)]
        muts += [['cut', r.randrange(40)], ['swap', 1, 2] if k else ['cut', 0]]
        # a constant polynomial has the same value everywhere: moving the point is then no alteration of the claim's truth,
        # but the transcript binds it all the same
        cases.append(dict(id=i, k=k, values=vals, blind=r.choice([0, 1, r.randrange(P)]) if any(vals) else r.choice([1, r.randrange(1, P)]),
                          x=r.choice([0, 1, P - 1, pow(om, r.randrange(N), P), r.randrange(P), r.randrange(P)]), seed=r.randrange(1 << 40), muts=muts,
                          threads=r.choice([1, 1, 2, 3, 8])))
    outs = ctx.harness('ipa', cases, threads=None)
    good = []
    for c, o in zip(cases, outs):
        if o.get('crash'):
            ctx.violation(f'case {c["id"]}: {o["crash"]}', c)
            continue
        good.append(dict(id=c['id'], x=c['x'], blind=c['blind'], values=c['values'], **{k: o[k] for k in ('params', 'cc', 'cl', 'coeffs', 'v', 'pres', 'pev', 'runs')}))
    for i, w in ctx.tlc_cases('IpaTrace', good, jobs=7, workers=1):
        ctx.violation(f'case {i}: {w}', cases[i])
    # parameters: round trip, and the same on every run and thread count
    pc = [dict(id=i, k=k, threads=t) for i, (k, t) in enumerate((k, t) for k in range(0, 9 if ctx.thorough else 8) for t in (1, 2, 3, 5, 8))]
    po = ctx.harness('params', pc, name='p', threads=None)
    seen = {}
    for c, o in zip(pc, po):
        if o.get('crash'):
            ctx.violation(f'parameters for k={c["k"]}: {o["crash"]}', c)
            continue
        f = seen.setdefault(c['k'], o['params'])
        if o['params'] != f or o['g'] != f['g'] or o['kk'] != c['k'] or o['params']['k'] != c['k']:
            ctx.violation(f'parameters for k={c["k"]} depend on more than k (threads {c["threads"]})', c)
        if not o['roundtrip'] or o['short']:
            ctx.violation(f'parameters for k={c["k"]}: write/read round trip {o["roundtrip"]}, truncated inputs accepted or panicking {o["short"]}', c)
        if c['k'] and c['k'] - 1 in seen and seen[c['k'] - 1]['g'] != o['g'][:2 ** (c['k'] - 1)]:
            ctx.violation(f'generators for k={c["k"]} do not extend those for the smaller k', c)
    ctx.samples += [cases[0]]
    ctx.extra.update(openings=len(good), verifications=sum(len(g['runs']) for g in good), parameter_sets=len(pc))
