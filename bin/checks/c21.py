"""C21: the elliptic curve gadgets compute and constrain the group operations of Pallas."""
import gadget

ASSUMPTIONS = ['circuits attacked from honest witnesses: single and double changes repaired in order of computation, substituted decompositions, and first-order freedom of the outputs']
P = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
Q = 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001
G = (P - 1, 2)
SECOND = 0x1234567
TQ = Q - (1 << 254)


def add(a, b):
    if a is None or b is None:
        return a or b
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P)
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P)
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def mul(n, a):
    n %= Q
    r = None
    while n:
        if n & 1:
            r = add(r, a)
        a = add(a, a)
        n >>= 1
    return r


def neg(a):
    return a and (a[0], (P - a[1]) % P)


H = lambda x: '%x' % x
PT = lambda a: [H(a[0]), H(a[1])] if a else []
# cube roots of unity: points with related coordinates
ZETA = next(z for z in (pow(g, (P - 1) // 3, P) for g in range(2, 20)) if z != 1)


gadget.TIES['base'] = lambda c, s: tie_base(c, s)
MULKEY = 'ecc-mul-untied-base'


def tie_base(c, s):
    """Known finding: the base that variable-base multiplication adds in its incomplete additions is
    not tied to the base it was given.  Everything else is decided with this one tie added."""
    w, pos = s['w'], 0
    s['t'].append([['+', ['v', 1], ['-', ['v', 2]]]])
    for o in c['ops']:
        if o['op'] == 'mul':
            for j in range(len(o['v']) - 1):
                for i in (pos + 1 + 4 * j, pos + 2 + 4 * j):
                    v = s['io'][i]
                    u = next((u for u in range(1, s['n'] + 1) if u != v and u not in s['io'] and w[u - 1] == w[v - 1]), None)
                    if u:
                        s['c'].append([len(s['t']), 0, [v, u]])
            pos += 1 + 4 * (len(o['v']) - 1)
        else:
            raise ValueError('only multiplications in these circuits')


def run(ctx):
    ctx.build('gharness', 'gv_ecc')
    r, q = ctx.rng, not ctx.thorough
    cases, cid = [], 0

    def case(ops, **k):
        nonlocal cid
        cid += 1
        cases.append(dict(dict(id=cid, g='ecc', field=r.choice(['r10', 'r10', 'r45']), k=11, p=H(P), brief=True, ops=ops), **k))

    def rnd():
        return mul(r.randrange(1, Q), G)

    def pair():
        """two points in one of the special positions, or in general position"""
        a = rnd()
        return r.choice([lambda: (a, rnd()), lambda: (a, a), lambda: (a, neg(a)), lambda: (None, a), lambda: (a, None), lambda: (None, None),
                         lambda: (a, (a[0] * ZETA % P, a[1])), lambda: (a, (a[0] * ZETA % P, P - a[1])), lambda: (a, mul(2, a)), lambda: (a, mul(-2, a)), lambda: (G, mul(r.randrange(Q), G))])()
    PAIRS = [lambda a: (a, rnd()), lambda a: (a, a), lambda a: (a, neg(a)), lambda a: (None, a), lambda a: (a, None), lambda a: (None, None),
             lambda a: (a, (a[0] * ZETA % P, a[1])), lambda a: (a, (a[0] * ZETA % P, P - a[1])), lambda a: (a, mul(2, a)), lambda a: (a, mul(-2, a))]

    def ty(*ps):
        return ''.join('p' if x is None else r.choice('np') for x in ps)

    def scal(p):
        """scalars around the boundaries of the decompositions"""
        c = [0, 1, 2, 3, 7, 8, p - 1, p - 2, 1 << 253, (1 << 254) - 1, 1 << 254, (1 << 254) + 1, (1 << 254) - TQ, (1 << 254) - TQ - 1, (1 << 254) - TQ + 1, p - TQ, p - TQ - 1, TQ, TQ - 1, (1 << 130) - 1, 1 << 130, (1 << 130) - TQ,
             (p - 1) // 2, (p + 1) // 2, int('2' * 63, 16), int('1' * 63, 16), int('7' * 84, 8), int('6' + '6' * 83, 8), (1 << 252) - 1, 1 << 252, (1 << 253) - TQ % (1 << 253), r.randrange(p), r.randrange(p), r.randrange(1 << 64), r.randrange(1 << 130), p - r.randrange(1 << 64),
             (1 << 254) + r.randrange(1 << 100), (1 << r.randrange(254)) - 1, 1 << r.randrange(254)]
        return r.choice(c) % p

    def short():
        return r.choice([0, 1, 2, 7, 8, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 2, int('2' * 16, 16), r.randrange(1 << 64), r.randrange(1 << 64), r.randrange(1 << 20), (1 << r.randrange(64)) - 1]), r.choice([1, P - 1])
    O = lambda op, *v, **k: dict(dict(op=op, v=[PT(x) if x is None or isinstance(x, tuple) else H(x) for x in v]), **dict(k, t=list(k.get('t', ''))))

    def light():
        kind = r.choice(['pt', 'nonid', 'const', 'add', 'add', 'add', 'add', 'addself', 'addinc', 'eq', 'x', 'sign', 'mux', 'mux'])
        a, b = pair()
        if kind in ('pt', 'const'):
            return O(kind, a)
        if kind == 'nonid':
            return O(kind, a or b or G)
        if kind == 'add':
            return O(kind, a, b, t=ty(a, b))
        if kind in ('addself', 'x'):
            return O(kind, a, t=ty(a))
        if kind == 'eq':
            return O(kind, a, a, t=ty(a, a))
        if kind == 'sign':
            return O(kind, a, r.choice([1, P - 1]))
        if kind == 'mux':
            n = a and b and r.random() < .5
            return O(kind, r.choice([0, 1]), a, b, t='n' if n else 'p')
        while a is None or b is None or a[0] == b[0]:
            a, b = pair()
        return O(kind, a, b)
    # honest runs: every special position of the light operations, then the multiplications
    for f in PAIRS:
        case([O('add', *f(rnd()), t='pp') for _ in range(2)] + [O('add', *(lambda a, b: (b, a))(*f(rnd())), t='pp')])
    for _ in range(16 if q else 100):
        case([light() for _ in range(12)], k=r.choice([11, 11, 12]))
    for s in (0, 1, 2, P - 1, P - 2, 1 << 254, (1 << 254) - TQ, (1 << 254) - TQ - 1, P - TQ, P - TQ - 1):
        case([O('mul', s, rnd())])
    for s in (0, 1, P - 1, 1 << 254, (1 << 254) - 1):
        case([O('base', s, bases=[r.choice([1, 2])])])
    for s in (0, 1, Q - 1, Q - 2, 1 << 254, int('2' * 63, 16)):
        case([O('full', s, bases=[1, 2])])
    for m in (0, 1, (1 << 64) - 1):
        for sg in (1, P - 1):
            case([O('short', m, sg, bases=[1, 2])])
    for _ in range(14 if q else 150):
        case([O('mul', scal(P), *[r.choice([G, rnd(), rnd()]) for _ in range(r.choice([1, 1, 2]))])] + [light()])
        case([O('base', scal(P), bases=r.choice([[1], [2], [1, 2]])), light()])
        case([O('full', scal(Q), bases=r.choice([[1], [1, 2], [2, 1], [1, 1]])), light()])
        case([O('short', *short(), bases=r.choice([[1], [2], [1, 2]])) for _ in range(3)] + [light()])
    # inputs outside the domain
    a = rnd()
    for ops in ([O('nonid', None)], [O('addinc', a, a)], [O('addinc', a, neg(a))], [O('addinc', a, None)], [O('eq', a, neg(a), t='pn')], [O('eq', a, None, t='pp')],
                [O('sign', a, 0)], [O('sign', a, 2)], [O('sign', None, 5)], [O('mux', 2, a, rnd(), t='n')], [O('mux', P - 1, a, None, t='p')],
                [O('short', 1 << 64, 1, bases=[1])], [O('short', (1 << 66) - 1, P - 1, bases=[2])], [O('short', P - 1, 1, bases=[1])], [O('short', 5, 2, bases=[1])], [O('short', 0, 0, bases=[1])],
                [O('short', r.randrange(1 << 64, 1 << 66), 1, bases=[1])], [O('short', 1 << 65, 1, bases=[1])], [O('mul', 5, None)], [O('add', None, a, t='nn')]):
        case(ops)
    # attacked circuits
    att = 1 if q else 4
    for _ in range(att):
        for f in PAIRS:
            x, y = f(rnd())
            case([O('add', x, y, t='pp')], brief=False, nomock=True, per_var=6, limit=200, pairs=30)
        case([O('pt', rnd()), O('pt', None), O('nonid', rnd()), O('const', rnd()), O('addinc', rnd(), rnd()), O('x', rnd(), t='p')], brief=False, per_var=6, limit=200, pairs=20)
        x = rnd()
        case([O('eq', x, x, t='np'), O('sign', rnd(), 1), O('sign', rnd(), P - 1), O('sign', None, 1)], brief=False, per_var=6, limit=200, pairs=20)
        case([O('mux', 0, rnd(), rnd(), t='n'), O('mux', 1, rnd(), None, t='p'), O('addself', rnd(), t='n')], brief=False, per_var=6, limit=200, pairs=20)
        for f in ('r10', 'r45'):
            m = [O('mul', scal(P), rnd())]
            case(m, brief=False, per_var=3, limit=240 if q else 2500, pairs=10, field=f, probes=3, tie='base')
            case(m, brief=False, nodev=True, nomock=True, field=f, known=MULKEY)
            case([O('base', scal(P), bases=[1])], brief=False, per_var=3, limit=240 if q else 2500, pairs=10, field=f, probes=3)
        case([O('full', scal(Q), bases=[1, 2])], brief=False, per_var=3, limit=240 if q else 2500, pairs=10, probes=3)
        case([O('short', *short(), bases=[1])], brief=False, per_var=4, limit=300 if q else 2000, pairs=10, probes=3)
    outs = gadget.record(ctx, cases)
    ready, meta = gadget.prepare(ctx, cases, outs)
    gadget.probe(ctx, ready, meta, per=5)
    gadget.attack(ctx, ready, meta, jobs=8, heap='2g')

    # every witness of the operations without tables, their constraints read modulo small primes
    small, counts = [], {}
    for p2, n in ((7, 7), (37, 37)):
        for op, typ, want in (('pt', '', n), ('nonid', '', n - 1), ('add', 'pp', n * n), ('add', 'np', (n - 1) * n), ('add', 'pn', (n - 1) * n), ('add', 'nn', (n - 1) ** 2), ('addinc', '', (n - 1) * (n - 3)), ('addself', 'p', n), ('addself', 'n', n - 1),
                              ('eq', 'pp', n), ('eq', 'np', n - 1), ('x', 'p', n), ('sign', '', 2 * n), ('mux', 'p', 2 * n * n), ('mux', 'n', 2 * (n - 1) ** 2)):
            if p2 > 7 and op in ('add', 'addself', 'mux') or q and typ in ('np', 'pn'):
                continue
            a, b = rnd(), rnd()
            v = dict(pt=[a], nonid=[a], add=[a, b], addinc=[a, b], addself=[a], eq=[a, a], x=[a], sign=[a, 1], mux=[0, a, b])[op]
            small.append(dict(id=len(small) + 1, g='ecc', field='r10', k=11, p=H(P), p2=p2, ops=[O(op, *v, t=typ)], nomock=True))
            counts[len(small)] = want
    gadget.exhaust_small(ctx, small, counts, jobs=8, name='Small')

    # tables
    tabs = []
    for b in (1, 2):
        for n in (85, 22):
            ws = [(n - 1, n)] + [(w, w + 1) for w in (sorted(r.sample(range(n - 1), 4)) if q else range(n - 1))]
            tabs += [dict(id=0, g='ecctables', base=b, n=n, to=t, **{'from': f}) for f, t in ws]
    tabs += [dict(g='ecctables', base=1, n=2, find=True, to=2, **{'from': 0})]
    for i, t in enumerate(tabs):
        t['id'] = i + 1
    outs = ctx.harness('x', tabs, name='tab', timeout=600)
    by = {t['id']: t for t in tabs}
    for i, why in ctx.tlc_cases('EccTables', [dict(c, **o, b=c['base']) for c, o in zip(tabs, outs)], jobs=8):
        ctx.violation(f'fixed-base tables: {why[:300]}', by[i])
    x = [x for x in ready if x['flat']][-1:]
    ctx.samples += [dict(case=x['ops'], constraints=x['sys']['c'][:6]) for x in x]
