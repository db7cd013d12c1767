"""C17: Poseidon parameters, primitive and circuit against the definition in Poseidon.tla."""
import gadget, lib

ASSUMPTIONS = ['circuits attacked from honest witnesses: single and double changes repaired in order of computation, and first-order freedom of the outputs']
FIELDS = {'fp': 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001, 'fq': 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001, 'bb': 2013265921, 'f97': 97}
# name: width, rate, full rounds, partial rounds, matrices skipped
SPECS = {'t2r2p2': (2, 1, 2, 2, 0), 't2r4p2m1': (2, 1, 4, 2, 1), 't3r2p4': (3, 2, 2, 4, 0), 't3r6p10m2': (3, 2, 6, 10, 2), 't3r8p56': (3, 2, 8, 56, 0),
         't3r8p57': (3, 2, 8, 57, 0), 't3q1r4p3': (3, 1, 4, 3, 0), 't4r4p6': (4, 3, 4, 6, 0), 't5r4p0': (5, 4, 4, 0, 0), 't5q2r8p6m1': (5, 2, 8, 6, 1), 'p128': (3, 2, 8, 56, 0)}
CIRCUITS = {'bb': ['t2r2p2', 't2r4p2m1', 't3r2p4', 't4r4p6', 't5r4p0'], 'fp': ['t3r6p10m2', 'p128'], 'fq': ['p128']}


def run(ctx):
    ctx.build('gharness', 'gv_pos')
    r, q = ctx.rng, not ctx.thorough
    H = lambda x: '%x' % x

    def pick(p):
        return H(r.choice([0, 1, p - 1, r.randrange(p), r.randrange(p), r.randrange(p)]))

    # parameters and primitive
    prim, cid = [], 0
    for f, p in FIELDS.items():
        for s, (t, rate, rf, rp, m) in SPECS.items():
            if s == 'p128' and f in ('bb', 'f97'):
                continue
            cid += 1
            ops = [dict(op='hash', v=[pick(p) for _ in range(L)]) for L in (1, 2, 3, 4, 5, 6, 7)] + [dict(op='permute', v=[pick(p) for _ in range(t)]) for _ in range(3 if q else 20)]
            if not q:
                ops += [dict(op='hash', v=[pick(p) for _ in range(r.randrange(1, 8))]) for _ in range(20)]
            prim.append(dict(id=cid, g='pos', prim=True, field=f, spec=s, t=t, rate=rate, rf=rf, rp=rp, m=m, ops=ops))
    outs = ctx.harness('x', prim, name='prim', timeout=600)
    ready, q_of = [], {}
    for c, o in zip(prim, outs):
        x = dict(c, p=o['p'], nbits=o['nbits'], consts=o['consts'], rc=o.get('rc', []), mds=o.get('mds', []), inv=o.get('inv', []), out=o.get('out', []))
        if o['consts']:
            if (o['rf'], o['rp']) != (c['rf'], c['rp']):
                ctx.violation(f'{c["spec"]} over {c["field"]}: {o["rf"]} full and {o["rp"]} partial rounds', None)
            q_of[c['field'], c['spec']] = dict(t=c['t'], rate=c['rate'], rf=c['rf'], rp=c['rp'], rc=o['rc'], mds=o['mds'], p=o['p'])
        ready.append(x)
    ctx.extra['parameter_sets'] = len(q_of)
    # the long ones first in each job
    ready.sort(key=lambda x: -(x['rf'] + x['rp']) * x['t'] * x['nbits'])
    names = {x['id']: x for x in ready}
    for i, why in ctx.tlc_cases('PoseidonTrace', ready, jobs=8, workers=1, heap='2g'):
        ctx.violation(f'{names[i]["spec"]} over {names[i]["field"]}: {why[:300]}', None)

    if ctx.tlc('PoseidonCheck', 'INIT Init\nNEXT Next\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n')['violated']:
        raise lib.ToolError('Poseidon.java disagrees with Poseidon.tla')

    # circuits
    cases, cid = [], 0

    def op(f, s, kind=None):
        p, (t, rate, *_x) = FIELDS[f], SPECS[s]
        kind = kind or r.choice(['hash', 'hash', 'permute', 'sponge'])
        if kind == 'hash':
            return dict(op=kind, v=[pick(p) for _ in range(r.randrange(1, 6))])
        if kind == 'permute':
            return dict(op=kind, v=[pick(p) for _ in range(t)])
        n = rate * r.choice([1, 1, 2])
        return dict(op=kind, v=[pick(p) for _ in range(n)], pad=sorted(r.sample(range(n), r.randrange(0, n))), n=r.randrange(1, 2 * rate + 2))

    def add(f, s, k, ops, **x):
        nonlocal cid
        cid += 1
        cases.append(dict(id=cid, g='pos', field=f, spec=s, k=k, ops=ops, q=q_of[f, s], **x))
    for f in CIRCUITS:
        for s in CIRCUITS[f]:
            if (f, s) not in q_of:
                continue
            big = s == 'p128'
            for _ in range((2 if big else 3) if q else 15):
                add(f, s, 11 if big else 9, [op(f, s) for _ in range(4)], brief=True)
            for kind in ('hash', 'permute', 'sponge'):
                for _ in range(1 if q else 4):
                    add(f, s, 9 if big else 8, [op(f, s, kind)], per_var=2 if q else 4, limit=(60 if big else 100) if q else 600, pairs=20 if q else 200)
            # several hashes, permutations and sponges in one circuit: determined for all witnesses
            for _ in range(1 if q else 5):
                add(f, s, 11 if big else 9, [op(f, s, kd) for kd in ('hash', 'sponge', 'hash', 'permute', 'sponge')], nodev=True, nomock=True)
    outs = gadget.record(ctx, cases)
    ready, meta = gadget.prepare(ctx, cases, outs)
    gadget.probe(ctx, ready, meta, per=4)
    gadget.forced_check(ctx, 120 if q else 1000)
    gadget.forced(ctx, ready)
    gadget.attack(ctx, ready, meta, jobs=8, heap='2g')
    small = [dict(id=1, g='pos', field='f97', spec='t2r2p2', k=5, ops=[dict(op='hash', v=['3'])], q=q_of.get(('f97', 't2r2p2')))]
    if small[0]['q']:
        gadget.exhaust(ctx, small, {1: 97}, jobs=1)
    x = [x for x in ready if x['flat']][-1:]
    ctx.samples += [dict(case=x['ops'], spec=x['spec'], field=x['p'], constraints=x['sys']['c'][:6]) for x in x]
