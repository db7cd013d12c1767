"""C18: range checks and running sums accept exactly the in-range values.

Honest runs (in and out of range), every witness over a small field (Exhaust.tla), a dishonest prover
over larger ones (Adversary.tla), and the native bit helpers (NativeTrace.tla)."""
import gadget

ASSUMPTIONS = ['exhaustive over every witness for fields with 97 and 7681 elements; adversarial search from honest witnesses over BabyBear and the Pallas base field']
PF = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
BB = 2013265921


def run(ctx):
    ctx.build('gharness', 'gv_util')
    r, q = ctx.rng, not ctx.thorough
    cases, cid = [], 0

    def add(**k):
        nonlocal cid
        cid += 1
        cases.append(dict(id=cid, **k))

    def near(p, bits):
        """values around a boundary"""
        b = 1 << bits
        v = r.choice([0, 1, b - 1, b, b + 1, b - 2, 2 * b - 1, p - 1, p - b, (p - 1) // 2, r.randrange(p), r.randrange(b), r.randrange(b), (b * r.randrange(1, 50)) % p])
        return v % p
    H = lambda x: '%x' % x

    def range_op(p, K, cap, good=True, tagged=False):
        kind = r.choice(['copy', 'witness', 'copyshort', 'short', 'range'])
        if kind in ('copy', 'witness'):
            n = r.choice([x for x in [1, 2, 3, 5, 13, 25, cap // K] if x * K <= cap])
            strict = r.random() < 0.6
            v = r.choice([near(p, n * K), near(p, min((n - 1) * K + 1, cap))])
            if strict and good:
                v %= 1 << (n * K)
            return dict(op=kind, v=H(v), n=n, strict=strict)
        lim = K if kind == 'short' else K - 1
        n = r.choice([0, 1, lim, lim // 2, r.randrange(lim + 1)] + [x for x in ((4, 5) if tagged else ()) if x <= lim] * 2)
        if kind == 'range':
            n = max(n, 1)
            return dict(op=kind, v=H(r.randrange(p)), n=n, s=r.randrange(0, max(1, cap - n)))
        v = near(p, n)
        if good:
            v %= 1 << n
        return dict(op=kind, v=H(v), n=n)

    def sum_op(p, W, cap, good=True):
        n = r.randrange(1, max(2, cap // W))
        if r.random() < 0.3:
            n = min(n, 4)
        bits = r.randrange(W * n - W + 1, W * n + 1)
        strict = r.random() < 0.6
        top = min(bits, W * n)
        v = near(p, top)
        if (strict and good) or (not strict and W * n > bits):
            v %= 1 << top
        return dict(op=r.choice(['copy', 'witness']), v=H(v), n=n, bits=bits, off=r.choice([0, 0, 1, 3]), strict=strict)
    conf = [('range', 'bb2', BB, 2, 30, 6), ('range', 'bb3', BB, 3, 30, 6), ('range', 'bb8', BB, 8, 30, 9), ('range', 'fp', PF, 10, 254, 11), ('range', 'f97', 97, 2, 6, 5),
            ('range45', 'bb6', BB, 6, 30, 8), ('range45', 'fp', PF, 10, 254, 11), ('range45', 'f7681', 7681, 6, 12, 8)]
    sums = [(f, p, W, cap, k) for f, p, cap, k in (('bb', BB, 30, 7), ('fp', PF, 254, 9), ('f97', 97, 6, 5)) for W in (1, 2, 3)]
    room = {5: 1, 6: 2, 7: 2, 8: 8, 9: 8, 11: 10}
    for g, f, p, K, cap, k in conf:
        for _ in range((12 if k < 11 else 6) if q else 60):
            add(g=g, field=f, w=K, k=k, brief=True, ops=[range_op(p, K, cap, True, g == 'range45') for _ in range(room[k])])
        for _ in range((14 if k < 11 else 8) if q else 60):     # a single value that may be out of range
            add(g=g, field=f, w=K, k=k, brief=True, ops=[range_op(p, K, cap, False, g == 'range45')])
    for f, p, W, cap, k in sums:
        for _ in range(10 if q else 50):
            add(g='sum', field=f, w=W, k=k, brief=True, ops=[sum_op(p, W, cap) for _ in range(1 if k < 9 else 2)])
        for _ in range(10 if q else 50):
            add(g='sum', field=f, w=W, k=k, brief=True, ops=[sum_op(p, W, cap, False)])
    # attacked circuits
    att = q and 1 or 4
    for g, f, p, K, cap, k in conf:
        if f == 'f97':
            continue
        for _ in range(att):
            ops = [range_op(p, K, cap, True, g == 'range45') for _ in range(3 if k > 7 else 1)]
            if g == 'range45':
                ops = [dict(op='short', v=H(r.randrange(16)), n=4), dict(op='copyshort', v=H(r.randrange(32)), n=5)] + ops
            ops.append(dict(op='witness', v=H(r.randrange(1 << (2 * K))), n=2, strict=True))
            add(g=g, field=f, w=K, k=k, ops=ops, per_var=6, limit=250 if q else 1500, pairs=20)
    for f, p, W, cap, k in sums:
        if f != 'f97':
            for _ in range(att):
                add(g='sum', field=f, w=W, k=k, forks=1, ops=[sum_op(p, W, cap)], per_var=5, limit=120 if q else 1000, pairs=20)
                add(g='sum', field=f, w=W, k=k, forks=3, ops=[dict(sum_op(p, W, 9))], per_var=6, limit=100, pairs=20)
    # every word count and every length: what the constraints enforce for all witnesses (ForcedTrace.tla)
    for g, f, p, K, cap, k in conf:
        if f == 'f97':
            continue
        ops = [dict(op=r.choice(['copy', 'witness']), v=H(r.randrange(1 << (n * K))), n=n, strict=True) for n in range(1, cap // K + 1)]
        ops += [dict(op='copyshort', v=H(r.randrange(1 << n)), n=n) for n in range(K)]
        ops += [dict(op='short', v=H(r.randrange(1 << n)), n=n) for n in range(K + 1)]
        for ch in range(0, len(ops), 12):
            add(g=g, field=f, w=K, k=max(k, 9 if f != 'fp' else 11), ops=ops[ch:ch + 12], nodev=True, nomock=True)
    for f, p, W, cap, k in sums:
        if f == 'f97':
            continue
        ns = list(range(1, 9)) + r.sample(range(9, cap // W), min(2, max(0, cap // W - 9)))
        ops = []
        for n in ns:
            bits = r.randrange(W * n - W + 1, W * n + 1)
            ops.append(dict(op=r.choice(['copy', 'witness']), v=H(r.randrange(1 << bits)), n=n, bits=bits, off=r.choice([0, 0, 1, 3]), strict=True))
        for ch in (ops[:6], ops[6:]):
            add(g='sum', field=f, w=W, k=11, ops=ch, nodev=True, nomock=True)
    outs = gadget.record(ctx, cases)
    ready, meta = gadget.prepare(ctx, cases, outs)
    gadget.probe(ctx, ready, meta, per=6)
    gadget.forced_check(ctx, 120 if q else 1000)
    gadget.forced(ctx, ready)
    gadget.attack(ctx, ready, meta, jobs=8, heap='2g')

    # every witness of small circuits
    small, counts = [], {}

    def sm(n, **k):
        small.append(dict(id=len(small) + 1, **k))
        counts[len(small)] = n
    base = dict(g='range', field='f97', w=2, k=5)
    for n in (1, 2, 3):
        sm(4 ** n, **base, ops=[dict(op='copy', v='1', n=n, strict=True)])
    sm(97, **base, ops=[dict(op='witness', v='1', n=2, strict=False)])
    for n in (0, 1):
        sm(2 ** n, **base, ops=[dict(op='copyshort', v='0', n=n)])
        sm(2 ** n, **base, ops=[dict(op='short', v='0', n=n)])
    sm(4, **base, ops=[dict(op='short', v='0', n=2)])
    for n in range(0, 7):
        sm(2 ** n, g='range45', field='f7681', w=6, k=8, ops=[dict(op='short', v='0', n=n)])
        if n < 6:
            sm(2 ** n, g='range45', field='f7681', w=6, k=8, ops=[dict(op='copyshort', v='0', n=n)])
    sm(64, g='range45', field='f7681', w=6, k=8, ops=[dict(op='copy', v='0', n=1, strict=True)])
    for W, n in ((1, 3), (1, 6), (2, 2), (2, 3), (3, 1), (3, 2)):
        sm(2 ** (W * n), g='sum', field='f97', w=W, k=5, ops=[dict(op='copy', v='1', n=n, bits=min(W * n, 6), off=1, strict=True)])
        if n <= 3:
            sm(97, g='sum', field='f97', w=W, k=5, ops=[dict(op='witness', v='1', n=n, bits=W * n, off=0, strict=False)])
    gadget.exhaust(ctx, small, counts)

    # native helpers
    nat = []
    for i in range(12 if q else 60):
        f, p, nb = r.choice([('bb', BB, 31), ('fp', PF, 255)])
        ops = []
        for _ in range(60):
            v = r.choice([0, 1, p - 1, p // 2, r.randrange(p), r.randrange(p)])
            kind = r.choice(['bitrange', 'words', 'lebs'])
            if kind == 'bitrange':
                b = r.choice([nb, nb + 1, r.randrange(nb + 1)]) if r.random() < 0.4 else r.randrange(nb + 1)
                ops.append(dict(op=kind, v=H(v), a=r.randrange(min(b, nb) + 1), b=b))
            elif kind == 'words':
                ops.append(dict(op=kind, v=H(v), n=r.randrange(1, nb + 1), w=r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])))
            else:
                ops.append(dict(op=kind, v=H(r.choice([0, (1 << 64) - 1, 1 << 63, r.getrandbits(64), r.getrandbits(64), r.getrandbits(11)]))))
        nat.append(dict(id=i + 1, g='native', field=f, ops=ops))
    outs = ctx.harness('x', nat, name='nat')
    ready2 = [dict(c, out=o['out'], p=o['p']) for c, o in zip(nat, outs)]
    by = {c['id']: c for c in nat}
    for i, why in ctx.tlc_cases('NativeTrace', ready2, jobs=4):
        ctx.violation(f'native helper: {why[:300]}', by[i])
    x = [x for x in ready if x['flat']][-1:]
    ctx.samples += [dict(case=x['ops'], constraints=x['sys']['c'][:6]) for x in x]
