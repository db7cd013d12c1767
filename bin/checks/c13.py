"""C13: polynomial arithmetic is exact at every size and thread count."""
import random
import gen, proofs

ASSUMPTIONS = ['field: p = 15*2^27+1 and the transparent curve over it; multi-scalar multiplication also over Pallas and Vesta',
               'l_i_range is checked at points outside the domain; rotations by at most the domain size']
P = gen.P
THREADS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33]
PALLAS = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
VESTA = 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001
ZETA = None


def root(k):
    return pow(31, 15 * 2 ** (27 - k), P)


def vec(r, n):
    kind = r.randrange(6)
    if kind == 0:
        return [r.choice([0, 1, P - 1]) for _ in range(n)]
    if kind == 1:
        j = r.randrange(max(1, n))
        return [r.randrange(P) if i == j else 0 for i in range(n)]
    return [r.randrange(P) for _ in range(n)]


def scalar(r, p):
    kind = r.randrange(8)
    if kind == 0:
        return r.choice([0, 1, 2, p - 1, p - 2, (p - 1) // 2])
    if kind == 1:
        return r.randrange(256) << (8 * r.randrange(31))
    if kind == 2:
        return (1 << r.randrange(254)) - r.randrange(2)
    if kind == 3:
        return (p - 1) - (1 << r.randrange(200))
    return r.randrange(p)


def case(r, t, cid, quick):
    ops = []
    add = lambda op, **k: ops.append(dict(op=op, **k))
    sizes = sorted({0, 1, 2, 3, 4, 5, 7, 31, 32, 33, t - 1, t, t + 1, t * t - 1, t * t, t * t + 1, t * t + t, 3 * t * t - 1, 2 * t * t + 1, r.randrange(2, 400), r.randrange(2, 200)})
    sizes = [s for s in sizes if 0 <= s <= 1200]
    for n in sizes:
        if n:
            add('par', n=n)
    some = r.sample(sizes, 6)
    for n in some + [1, 2, 3, 4, 31, 32]:
        # (the toy field has few bytes; full-width scalars go to the real curves below)
        add('msm', c=vec(r, n), m=[r.choice([0, 1, r.randrange(P)]) for _ in range(n)])
        add('inner', a=vec(r, n), b=vec(r, n))
        add('eval', a=vec(r, n), x=r.choice([0, 1, P - 1, r.randrange(P)]))
        if n:
            add('kate', a=vec(r, n), x=r.choice([0, 1, P - 1, r.randrange(P)]))
        if n <= 40:
            xs = r.sample(range(P), n)
            if n > 2:
                xs[0] = 0
            add('interp', x=xs, y=vec(r, n))
    for k in range(0, 8):
        w = root(k)
        add('fft', k=k, a=vec(r, 2 ** k), w=r.choice([w, pow(w, P - 2, P)]))
        if k < 7:
            add('fftg', k=k, a=vec(r, 2 ** k), w=r.choice([w, pow(w, P - 2, P)]))
    add('fft', k=8, a=vec(r, 256), w=root(8))
    for k in r.sample(range(0, 7), 4):
        for j in r.sample([1, 2, 3, 4, 5, 6, 7, 9, 10], 3):
            n = 2 ** k
            ek = k
            while 2 ** ek < n * (j - 1):
                ek += 1
            ne = 2 ** ek
            x = r.choice([0, r.randrange(P), r.randrange(P)])
            add('dom', j=j, k=k, x=x, r=[0, 1, -1] + [r.randrange(-n, n + 1) for _ in range(3)] + [-n, n, -(3 * n + 1), 2 ** 20 + 1])
            add('l2c', j=j, k=k, a=vec(r, n))
            add('c2e', j=j, k=k, a=vec(r, n))
            add('e2c', j=j, k=k, a=vec(r, ne))
            add('van', j=j, k=k, a=vec(r, ne))
            for rr in (0, 1, -1, r.randrange(-n, n + 1)):
                add('rote', j=j, k=k, a=vec(r, ne), r=rr)
                add('rotl', j=j, k=k, a=vec(r, n), r=rr)
            add('lin', j=j, k=k, a=vec(r, n), b=vec(r, n), x=r.choice([0, 1, r.randrange(P)]))
    # the real curves: scalars of full width, windows of every size
    for name, q in (('pallas', VESTA), ('vesta', PALLAS)):
        for n in ([r.choice([1, 2, 3]), r.choice([4, 5, 9, t + 1])] if quick else [0, 1, 2, 3, 4, 5, 9, 31, 32, t, t + 1]):
            add(name, c=['%x' % scalar(r, q) for _ in range(min(n, 34))], m=[r.choice([0, 1, 1, 2, r.randrange(1, 1 << 32)]) for _ in range(min(n, 34))])
        # many terms: the windows grow with the logarithm of the number of terms
        if t in (1, 3, 8):
            for n in r.sample([60, 150, 400, 1100, 2990], 1 if quick else 4) + ([r.choice([8110, 8400, 9001])] if t != 1 or not quick else []) + ([r.choice([22100, 22650])] if t == 8 else []) + ([] if quick or t != 8 else [60000]):
                ms = [r.choice([0, 1, 1, 2, r.randrange(1, 1 << 30)]) for _ in range(r.choice([5, 11]))]
                add(name + 'big', c=['%x' % scalar(r, q) for _ in range(r.choice([7, 13, 24]))], m=ms, h=['%x' % m for m in ms], n=n)
    if t in (1, 8):
        for name, q in (('pallas', VESTA), ('vesta', PALLAS)):
            add(name, c=['%x' % scalar(r, q) for _ in range(33)], m=[r.choice([0, 1, 1, 2, r.randrange(1, 1 << 32)]) for _ in range(33)])
    return dict(id=cid, threads=t, ops=ops)


def run(ctx):
    ctx.build()
    res = ctx.tlc('BigCheck', 'INIT Init\nNEXT Next\nINVARIANT Agree Laws\nCHECK_DEADLOCK FALSE\n')
    if res['violated']:
        raise Exception('the big-integer overrides disagree with their definition')
    cases = []
    for i in range((8 if ctx.thorough else 1) * len(THREADS)):
        t = THREADS[i % len(THREADS)]
        cases.append(case(random.Random(f'C13-{ctx.seed}-{i}'), t, i, not ctx.thorough))
    outs = ctx.harness('arith', cases, threads=None)
    good = []
    for c, o in zip(cases, outs):
        if o.get('crash'):
            ctx.violation(f'case {c["id"]} ({c["threads"]} threads): {o["crash"]}', c)
            continue
        z = next((x['ok'][7] for p, x in zip(c['ops'], o['out']) if p['op'] == 'dom' and 'ok' in x), 0)
        good.append(dict(c, out=o['out'], zeta=z))
    for i, w in ctx.tlc_cases('ArithTrace', good, jobs=7, workers=1):
        ctx.violation(f'case {i}: {w}', cases[i])
    ctx.extra.update(operations=sum(len(c['ops']) for c in good), thread_counts=THREADS)
    # the constraint evaluator: real proofs at several thread counts
    pc = []
    for i in range(200 if ctx.thorough else 28):
        def make(k=None, i=i):
            return gen.Gen(random.Random(f'C13p-{ctx.seed}-{i}'), k=k).make()
        c = proofs.case(random.Random(f'C13q-{ctx.seed}-{i}'), make(), i, tamper=1, alt=1)
        c['grow'] = make
        c['threads'] = [2, 3, 5, 7, 8, 16, 33][i % 7]
        pc.append(c)
    proofs.run(ctx, pc)
