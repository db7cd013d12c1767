"""C19: conditional swap and multiplexer."""
import gadget

ASSUMPTIONS = ['exhaustive over every witness for the field with 97 elements; adversarial search from honest witnesses over the Pallas base field']
PF = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001


def run(ctx):
    ctx.build('gharness', 'gv_util')
    r, q = ctx.rng, not ctx.thorough
    cases, cid = [], 0

    def add(**k):
        nonlocal cid
        cid += 1
        cases.append(dict(id=cid, g='swap', w=0, **k))
    def op(kind, a, b, s):
        return dict(op=kind, v=['%x' % a, '%x' % b, '%x' % s])
    pick = lambda p: r.choice([0, 1, 2, p - 1, p - 2, r.randrange(p), r.randrange(p)])
    # honest runs and refused choices, many operations per circuit
    for field, p, k, n in [('f97', 97, 5, 3), ('bb', 2013265921, 6, 12), ('fp', PF, 6, 12)]:
        for _ in range(10 if q else 60):
            add(field=field, k=k, brief=True, ops=[op(r.choice(['swap', 'mux']), pick(p), pick(p), r.randrange(2)) for _ in range(n)])
        for _ in range(6 if q else 30):
            add(field=field, k=k, brief=True, ops=[op('mux', pick(p), pick(p), r.choice([2, p - 1, p - 2, r.randrange(2, p)]))])
        x = pick(p)
        add(field=field, k=k, brief=True, ops=[op('mux', x, x, s) for s in (0, 1)] + [op('swap', x, x, s) for s in (0, 1)])
    # attacked circuits
    for field, p, k in [('bb', 2013265921, 6), ('fp', PF, 6)]:
        for s in ([0, 1], [1, 0], [1, 1]):
            add(field=field, k=k, ops=[op('swap', pick(p), pick(p), s[0]), op('mux', pick(p), pick(p), s[1])], per_var=8, pairs=30)
    outs = gadget.record(ctx, cases)
    ready, meta = gadget.prepare(ctx, cases, outs)
    gadget.probe(ctx, ready, meta, per=8)
    gadget.forced_check(ctx, 120 if q else 1000)
    gadget.forced(ctx, ready)
    gadget.attack(ctx, ready, meta, jobs=6)
    # every witness over F_97
    small = [dict(id=1, g='swap', w=0, field='f97', k=5, ops=[op('mux', 3, 7, 1)]), dict(id=2, g='swap', w=0, field='f97', k=5, ops=[op('swap', 3, 7, 1)])]
    gadget.exhaust(ctx, small, {1: 97 * 97 * 2, 2: 97 * 97 * 2})
    gadget.circcheck(ctx, 60 if q else 400)
    ctx.samples.append(dict(case=ready[-1]['ops'], constraints=ready[-1]['sys']['c'][:6]))
