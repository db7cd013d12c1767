"""C11: MockProver verdicts against the specification's meaning of the circuit."""
import random
import gen, mockparse

ASSUMPTIONS = ['circuits are scripted (public API) over the 31-bit field; blinding-row contents are unknown values (POISON)']


def mkcases(ctx, n, **o):
    return [dict(id=i, want=['rec', 'mock'], threads=(1, 2, 1, 3, 8)[i % 5], prog=gen.Gen(random.Random(f'{ctx.pid}-{ctx.seed}-{i}'), **o).make()) for i in range(n)]


def attach(c, o):
    """case for the specification: program + recordings + parsed mock results"""
    x = dict(id=c['id'], prog=c['prog'], rec=o['rec'][:-1], mock=[])
    for v, m in enumerate(o['mock']):
        ev = o['rec'][v]['ev']
        st = mockparse.region_starts(ev)
        x['mock'].append(dict(res=m['res'], fail=[mockparse.parse(f) for f in m['fail']],
                              vals=[w for f in m['fail'] for w in mockparse.values(f, st, gen.P)]))
    return x


def handcrafted():
    base = dict(k=4, fp='simple', cols=['a', 'a', 's', 's', 'x', 't', 'i'], eq=[['a', 0], ['a', 1]], consts=[], mindeg=0, gates=[], lookups=[], ops=[], inst=[[[]]])
    out = []
    # a sum whose poisoned part is switched off, violated on a row next to the blinding rows
    for off in range(0, 10):
        out.append(dict(base, gates=[dict(polys=[['+', ['a', 0, 0], ['*', ['s', 2], ['a', 1, 1]]]], sel=[]),],
                        ops=[dict(op='region', acts=[['adv', 0, off, [5]], ['adv', 1, off, [1]]])]))
        out.append(dict(base, gates=[dict(polys=[['*', ['s', 2], ['+', ['a', 0, 0], ['-', ['a', 1, 1]]]]], sel=[])],
                        ops=[dict(op='region', acts=[['sel', 2, off], ['adv', 0, off, [5]], ['adv', 1, max(off - 1, 0), [1]]])]))
    # activated gate in a region that assigns nothing
    out.append(dict(base, gates=[dict(polys=[['*', ['s', 0], ['a', 0, 1]]], sel=[])],
                    ops=[dict(op='region', acts=[['adv', 0, 0, [5]]]), dict(op='region', acts=[['sel', 0, 0]])]))
    # gate on the last usable row looking back / at row 0 looking back (wraps into blinding rows)
    for rot in (-3, -1, 1, 3):
        for off in (0, 1, 8, 9):
            out.append(dict(base, gates=[dict(polys=[['*', ['s', 0], ['a', 0, rot]]], sel=[]), dict(polys=[['i', 0, rot]], sel=['s', 1])],
                            ops=[dict(op='region', acts=[['sel', 0, off], ['sel', 1, off], ['adv', 0, off, [0]]])], inst=[[[0, 0, 7]]]))
    return out


def run(ctx):
    ctx.build()
    n = 2500 if ctx.thorough else 420
    cases = mkcases(ctx, n)
    for p in handcrafted():
        cases.append(dict(id=len(cases), want=['rec', 'mock'], prog=p))
    outs = ctx.harness('circuit', cases)
    good, stats = [], {}
    for c, o in zip(cases, outs):
        if 'crash' in o or 'conferr' in o:
            ctx.violation(f'case {c["id"]}: {o.get("crash") or o.get("conferr")}', c)
            continue
        good.append(attach(c, o))
        for m in o['mock']:
            for f in (m['fail'] or [m['res'] if m['res'] != 'ok' else 'satisfied']):
                k = f.split(' ')[0]
                stats[k] = stats.get(k, 0) + 1
    rej = ctx.tlc_cases('MockTrace', good)
    byid = {c['id']: c for c in cases}
    for i, why in rej:
        ctx.violation(f'case {i} variant {why}', byid[i])
    ctx.extra['outcomes'] = stats
    ctx.samples.append(dict(prog=cases[0]['prog'], mock=outs[0].get('mock')))
