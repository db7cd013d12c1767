"""C22: the Sinsemilla gadgets compute the hash, commitments and Merkle paths of their definition."""
import copy
import gadget
from checks.c21 import P, Q, G, H, PT, mul, add, neg, ZETA
import json, os

ASSUMPTIONS = ['the Sinsemilla generators are those of the sinsemilla crate', 'inputs for which the chain of incomplete additions meets an exceptional case are excluded, as in the definition of the hash',
               'circuits attacked from honest witnesses: single and double changes repaired in order of computation, recombinations of honest witnesses, and first-order freedom of the outputs']
TABLE = [tuple(int(c, 16) for c in p) for p in json.load(open(os.path.join(os.path.dirname(__file__), '..', '..', 'spec', 'sinsemilla_s.json')))]


def run(ctx):
    ctx.build('gharness', 'gv_sins')
    r, q = ctx.rng, not ctx.thorough
    cases, cid = [], 0

    def case(ops, **k):
        nonlocal cid
        cid += 1
        x = dict(dict(id=cid, g='sins', field=r.choice(['r10', 'r45']), k=11, p=H(P), brief=True, priv=any(o['op'] in ('priv', 'parts') for o in ops), ops=ops), **k)
        cases.append(x)
        return x
    rnd = lambda: mul(r.randrange(1, Q), G)
    DOM = [rnd() for _ in range(3)]

    def val(n):
        """a value of n words, in one of the special shapes"""
        b = 10 * n
        return r.choice([0, 1, (1 << b) - 1, 1 << (b - 1), 1023, r.randrange(1 << b), r.randrange(1 << b), r.randrange(1 << b), (1 << b) - 1 - r.randrange(1 << min(b, 20)), r.randrange(1 << b) >> 10 << 10, r.randrange(1 << b) & ((1 << max(1, b - 10)) - 1)])

    def piece(n=None):
        n = n or r.choice([1, 1, 2, 2, 3, 5, 24, 25])
        return dict(kind='v', v=H(val(n)), n=n)

    def sub():
        """a piece put together from bit ranges (each starting below bit 64)"""
        parts, left = [], 10 * r.choice([1, 2, 2, 3, 6])
        n = left // 10
        while left:
            k = left if len(parts) > 4 or left == 1 else r.randrange(1, left + 1)
            k = min(k, 255)
            a = r.choice([0, 0, r.randrange(0, 255 - k + 1), 255 - k])
            parts.append([H(r.randrange(P)), a, a + k, 'w' if k < 10 and r.random() < .5 else 'b'])
            left -= k
        return dict(kind='sub', sub=parts, n=n, v='0')

    def pieces(m=None, subs=True):
        ps = []
        for i in range(m or r.choice([1, 1, 2, 3, 4])):
            x = r.random()
            if x < .1 and ps:
                j = r.randrange(len(ps))
                while ps[j]['kind'] == 'ref':
                    j = ps[j]['ref']
                ps.append(dict(kind='ref', ref=j, n=ps[j]['n'], v='0'))
            elif x < .3 and subs:
                ps.append(sub())
            else:
                ps.append(piece())
        return ps

    def op(kind, ps=None, **k):
        o = dict(dict(op=kind, set=r.randrange(2), Q=PT(rnd() if kind in ('priv', 'parts') else r.choice(DOM)), x=r.random() < .3 and kind == 'hash'), **k)
        if kind in ('hash', 'priv', 'commit', 'short', 'parts'):
            o['pieces'] = ps or pieces()
        if kind in ('commit', 'short', 'parts'):
            o.setdefault('b', r.choice([1, 2]))
            o.setdefault('r', H(r.choice([0, 1, Q - 1, r.randrange(Q), r.randrange(Q)])))
        return o
    E = [0, 1, 31, 32, P - 1, P - 2, (1 << 254) - 1, 1 << 254, (1 << 254) - (P - (1 << 254)), (1 << 254) - (P - (1 << 254)) - 1, (1 << 250) - 1, 1 << 250, (1 << 240) - 1, 1 << 240, 1 << 249, 1 << 253, (1 << 5) - 1, P >> 1]
    node = lambda: r.choice(E + [r.randrange(P)] * len(E)) % P
    layer = lambda a=None, b=None, l=None: op('layer', l=r.choice([0, 1, 2, 31, 1023, r.randrange(1024)]) if l is None else l, v=[H(node() if a is None else a), H(node() if b is None else b)])
    SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3), (5, 2), (5, 4)]

    def path(shape=None, pos=None):
        n, par = shape or r.choice(SHAPES)
        return op('path', leaf=H(node()), pos=r.randrange(1 << n) if pos is None else pos, sibs=[H(node()) for _ in range(n)], par=par)

    # honest runs
    for _ in range(14 if q else 150):
        case([op('hash'), op('hash', set=1), op(r.choice(['hash', 'commit', 'short']))])
        case([op('priv'), op(r.choice(['priv', 'hash'])), op(r.choice(['parts', 'hash', 'commit']))])
    for n in (1, 2, 24, 25):
        case([op('hash', [piece(n)]), op('hash', [dict(kind='v', v=H((1 << 10 * n) - 1), n=n)]), op('hash', [dict(kind='v', v='0', n=n), piece(n)])])
    # the longest message (253 words), with every piece as long as it may be
    case([op('hash', [piece(25) for _ in range(10)] + [piece(2)])])
    case([op('hash', [piece(25) for _ in range(10)] + [piece(3)])])
    for _ in range(6 if q else 60):
        case([op(k, pieces(2)) for k in ('commit', 'short')])
        case([op('parts', pieces(2), b=2), op('parts', b=1)])
    for i, e in enumerate(E if not q else E[:12]):
        case([layer(e, node()), layer(node(), e), layer()])
    for s in SHAPES:
        case([path(s)])
        case([path(s, pos=r.choice([0, (1 << s[0]) - 1]))])
    for _ in range(2 if q else 10):
        case([op('path', leaf=H(node()), pos=r.randrange(1 << 31), sibs=[H(node()) for _ in range(32)], par=2)], k=12)
    # outside the domain: pieces that are too long
    for n in (1, 2, 25):
        for v in (1 << 10 * n, P - 1, r.randrange(1 << 10 * n, P)):
            case([op(r.choice(['hash', 'commit']), [dict(kind='v', v=H(v), n=n)] + r.choice([[], [piece(1)]]))])
            case([op('hash', [piece(1), dict(kind='v', v=H(v), n=n)])])

    # attacked circuits, each with a twin that differs in one input
    def other(ops):
        o2 = copy.deepcopy(ops)
        o = r.choice(o2)
        if 'pieces' in o:
            w = r.choice([p for p in o['pieces'] if p['kind'] == 'v'])
            if o['op'] in ('priv', 'parts') and r.random() < .4:
                o['Q'] = PT(rnd())
            elif o['op'] in ('commit', 'short', 'parts') and r.random() < .4:
                o['r'] = H(r.randrange(Q))
            else:
                w['v'] = H(r.randrange(1 << 10 * w['n']))
        elif o['op'] == 'layer':
            o['v'][r.randrange(2)] = H(node())
        else:
            c = r.randrange(3)
            if c == 0:
                o['leaf'] = H(node())
            elif c == 1:
                o['sibs'][r.randrange(len(o['sibs']))] = H(node())
            else:
                o['pos'] ^= 1 << r.randrange(len(o['sibs']))
        return o2

    def attack(ops, **k):
        k = dict(dict(per_var=4, limit=160 if q else 1200, pairs=15, probes=3, forks=1), **k)
        x = case(ops, brief=False, **k)
        y = case(other(ops), brief=False, nodev=True, nomock=True, priv=x['priv'], field=x['field'])
        x['twin'], y['twin'] = y['id'], x['id']
    for _ in range(1 if q else 5):
        attack([op('hash', [piece(3), piece(2)], x=False), op('hash', [piece(1)], x=True)])
        attack([op('hash', [piece(1), piece(1), sub()], x=False)])
        attack([op('priv', [piece(2), piece(3)]), op('hash', [piece(2)])])
        attack([op('commit', [piece(2)])], limit=100 if q else 1200)
        attack([op('short', [piece(1)]) ], limit=60 if q else 1200)
        attack([op('parts', [piece(2)])], limit=60 if q else 1200)
        attack([layer()], limit=240 if q else 2000, field='r10')
        attack([layer()], limit=160 if q else 2000, field='r45')
        attack([layer(r.randrange(1 << 253), r.randrange(1 << 253))], limit=120 if q else 2000)
        attack([path((2, 2))])
        attack([path((3, 1))], limit=80 if q else 2000)
    outs = gadget.record(ctx, cases)
    ready, meta = gadget.prepare(ctx, cases, outs, extra=extra)
    gadget.probe(ctx, ready, meta, per=4)
    gadget.attack(ctx, ready, meta, jobs=8, heap='2g')
    x = [x for x in ready if x['flat']][-1:]
    ctx.samples += [dict(case=x['ops'], constraints=x['sys']['c'][:6]) for x in x]


def extra(c, s, m, o):
    return []
