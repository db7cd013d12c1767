"""C01: floor planners against the nondeterministic planner of spec/FloorTrace.tla."""
import random
import gen, lib

ASSUMPTIONS = ['circuits are scripted through the public API; the backend is a recording Assignment with unbounded rows']
CFG = 'INIT Init\nNEXT Next\nINVARIANT NoOverlap\nCHECK_DEADLOCK FALSE\n'


def dense(rng):
    """circuits about layout only: many regions of odd shapes, constants, instance copies"""
    na, nf, ns = rng.randint(1, 4), rng.randint(0, 2), rng.randint(0, 3)
    nc = rng.choice([1, 1, 1, 1, 1, 2, 2, 0])
    ni = rng.randint(0, 2)
    cols = ['a'] * na + ['f'] * (nf + nc) + [rng.choice('sx') for _ in range(ns)] + ['i'] * ni
    fc = list(range(nf + nc))
    rng.shuffle(fc)
    consts = fc[:nc]
    if rng.random() < .3:
        fuse = fc            # regions may also use the constants columns
    else:
        fuse = fc[nc:]
    sel = [c for c in cols if c in 'sx']
    rest = [c for c in cols if c not in 'sx']
    cols = rest + sel
    eq = [['a', c] for c in range(na)] + [['f', c] for c in fuse] + [['i', c] for c in range(ni)]
    inst = [[[rng.randrange(1000) for _ in range(rng.randint(0, 5))] for _ in range(ni)] for _ in range(2)]
    ops, nglob, kinds = [], 0, []
    for _ in range(rng.randint(1, 8)):
        acts, used, loc = [], set(), []
        span = rng.choice([1, 1, 2, 3, 5])
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 8])):
            x = rng.random()
            off = rng.randrange(span) + (rng.randint(1, 3) if rng.random() < .1 else 0)
            c = rng.randrange(na)
            if x < .12 and ns:
                acts.append(['sel', rng.randrange(ns), off])
            elif x < .22 and fuse:
                c = rng.choice(fuse)
                if ('f', c, off) not in used:
                    used.add(('f', c, off))
                    acts.append(['fix', c, off, rng.randrange(50)])
                    loc.append('f')
            elif x < .3 and loc + kinds:
                r = rng.choice([['l', i] for i in range(len(loc))] + [['g', i] for i in range(len(kinds))])
                if rng.random() < .5:
                    acts.append(['cc', r, rng.randrange(50)])
                else:
                    q = rng.choice([['l', i] for i in range(len(loc))] + [['g', i] for i in range(len(kinds))])
                    acts.append(['eq', r, q])
            elif x < .34 and ni:
                acts.append(['ival', rng.randrange(ni), rng.randrange(5)])
            elif ('a', c, off) not in used:
                used.add(('a', c, off))
                src = [['l', i] for i in range(len(loc)) if loc[i] == 'a'] + [['g', i] for i in range(len(kinds)) if kinds[i] == 'a']
                if x < .45:
                    acts.append(['advc', c, off, rng.choice([rng.randrange(50), [rng.randrange(50), rng.randrange(1, 50)]])])
                    loc.append('n')
                elif x < .55 and ni:
                    acts.append(['advi', c, off, rng.randrange(ni), rng.randrange(5)])
                    loc.append('n')
                elif x < .68 and src:
                    acts.append(['copy', rng.choice(src), c, off])
                    loc.append('a')
                else:
                    acts.append(['adv', c, off, [rng.randrange(1000) for _ in range(2)]])
                    loc.append('a')
        ops.append(dict(op='region', acts=acts))
        kinds += loc
        if ni and kinds and rng.random() < .3:
            ops.append(dict(op='inst', cell=rng.randrange(len(kinds)), c=rng.randrange(ni), row=rng.randrange(6)))
    return dict(k=5, fp=rng.choice(['simple', 'v1']), cols=cols, eq=eq, consts=consts, mindeg=0, gates=[], lookups=[], ops=ops, inst=inst)


def run(ctx):
    ctx.build()
    n = 6000 if ctx.thorough else 900
    cases = []
    for i in range(n):
        rng = random.Random(f'C01-{ctx.seed}-{i}')
        p = gen.Gen(rng).make() if i % 3 == 0 else dense(rng)
        p['traced'] = i % 4 == 1          # through TracingFloorPlanner
        cases.append(dict(id=i, want=['rec'], prog=p))
    # every small sequence of region shapes, enumerated by TLC
    r = ctx.tlc('FloorGen', 'CONSTANT MaxRegions = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n' % (3 if ctx.thorough else 2))
    import json
    for g in r['prints']:
        if g.startswith('GEN|'):
            ops = json.loads(g[4:])
            for fp in ('simple', 'v1'):
                cases.append(dict(id=len(cases), want=['rec'], prog=dict(
                    k=5, fp=fp, cols=['a', 'a', 'f', 's'], eq=[['a', 0], ['a', 1], ['f', 0]], consts=[0], mindeg=0, gates=[], lookups=[],
                    ops=[dict(op='region', acts=a) for a in ops], inst=[[]])))
    ctx.extra['generated_programs'] = len(cases) - n
    outs = ctx.harness('circuit', cases)
    good = []
    for c, o in zip(cases, outs):
        if 'crash' in o or 'conferr' in o:
            ctx.violation(f'case {c["id"]}: {o.get("crash") or o.get("conferr")}', c)
        else:
            good.append(dict(id=c['id'], prog=lib.specprog(c['prog']), rec=o['rec']))
    byid = {c['id']: c for c in cases}
    for i, why in ctx.tlc_cases('FloorTrace', good, cfg=CFG, jobs=6):
        ctx.violation(f'case {i} ({byid[i]["prog"]["fp"]}) run {why}', byid[i])
    ctx.samples.append(dict(prog=good[1]['prog'], rec=good[1]['rec'][0]))
