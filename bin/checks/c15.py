"""C15: deferred inversion computes the same values as eager inversion."""
import random
import gen, proofs, lib

ASSUMPTIONS = ['operators are exercised over a 97-element field (every operand shape; trees over random operands)',
               'batched evaluation in key generation and proving is observed through fixed commitments and through copies of advice cells to public inputs']
U = [-1]


def run(ctx):
    ctx.build()
    r = ctx.tlc('Assigned', f'CONSTANT Q = {13 if ctx.thorough else 7}\nINIT Init\nNEXT Next\nINVARIANT Homomorphic\nCHECK_DEADLOCK FALSE\n', workers=4)
    if r['violated']:
        ctx.violation('specification: ' + str(r['violated']))
    nums = [0, 1, 2, 5, 96] if not ctx.thorough else [0, 1, 2, 3, 5, 48, 49, 95, 96]
    tri = [[x] for x in nums]
    ops = [[]] + tri + [[x, y] for x in nums for y in nums]
    items = []
    for op in '+-*':
        A = ['aa', 'ar', 'as', 'asr'] + (['ra', 'rr'] if op != '*' else [])
        V = ['vaa', 'var', 'vab'] + (['vrr', 'vba', 'vra'] if op != '*' else [])
        for a in ops + [U]:
            for b in ops + [U]:
                if U not in (a, b):
                    items += [[op, f, a, b] for f in A]
                items += [[op, f, a, b] for f in V]
            for b in tri + [U]:
                fs = ['vaf', 'vrf']
                if b != U:
                    fs += ['va1', 'vr1']
                    if a != U:
                        fs += ['af', 'rf']
                if len(a) == 1:
                    fs.append('vff')
                items += [[op, f, a, b] for f in fs]
    for a in ops:
        for b in ops:
            items += [['eq', '', a, b], ['ne', '', a, b]]
    two = [U] + ops
    for a in two:
        if a != U:
            items += [['zero', '', a, []], ['parts', '', a, []], ['neg', 'a', a, []], ['neg', 'r', a, []]]
            items += [[o, 'a', a, []] for o in ('double', 'square', 'cube', 'invert')]
        items += [[o, 'v', a, []] for o in ('neg', 'double', 'square', 'cube', 'invert')]
        items += [['id', f, a, []] for f in ('evaluate', 'to', 'copied', 'cloned', 'andthen', 'mut')]
        if len(a) == 1:
            items += [['id', f, a, []] for f in ('into', 'from')]
        items += [[o, '', a, []] for o in ('thenunknown', 'assert', 'errif')]
        for b in two:
            items += [[o, '', a, b] for o in ('zip1', 'zip2', 'unzip1', 'unzip2', 'tarr', 'tvec', 'collect')]
    rng = random.Random(f'C15-{ctx.seed}')

    def leaf():
        x = lambda: rng.choice([0, 0, 1, 96, rng.randrange(97)])
        return ['leaf', rng.choice([[], [x()], [x(), x()], [x(), x()]])]

    def tree(d):
        if d == 0 or rng.random() < .15:
            return leaf()
        if rng.random() < .35:
            return [rng.choice(['neg', 'double', 'square', 'cube', 'invert', 'invert']), tree(d - 1)]
        return [rng.choice('+-*'), tree(d - 1), tree(d - 1)]
    for _ in range(40000 if ctx.thorough else 4000):
        t = tree(rng.randint(1, 5))
        items += [['tree', '', t, []], ['treezero', '', t, []], ['treeeq', '', t, tree(2)], ['treeeq', '', t, ['-', ['+', t, t], t]]]
    n = 500
    cases = [dict(id=i, items=items[j:j + n]) for i, j in enumerate(range(0, len(items), n))]
    outs = ctx.harness('asg', cases)
    good = [dict(c, outs=o['outs']) for c, o in zip(cases, outs) if 'outs' in o]
    for c, o in zip(cases, outs):
        if 'crash' in o:
            ctx.violation(f'case {c["id"]}: {o["crash"]}', c)
    for i, w in ctx.tlc_cases('AssignedTrace', good, jobs=4, workers=1):
        ctx.violation(f'{w}', dict(id=i))
    ctx.extra['operations'] = len(items)
    batched(ctx, rng)


def batched(ctx, rng):
    """Rational assignments evaluated together: fixed columns in keygen, advice columns in proving."""
    P = gen.P
    cases = []
    for i in range(300 if ctx.thorough else 40):
        na, nf = rng.randint(1, 3), rng.randint(1, 3)
        val = lambda: rng.choice([[0, 0], [5, 0], [0, 7], [rng.randrange(P), rng.randrange(1, P)], [rng.randrange(P), rng.randrange(1, P)], [rng.randrange(P), 1], [rng.randrange(P)], [0]])
        pl = lambda v: v[0] if len(v) == 1 else v
        ev = lambda v: v[0] if len(v) == 1 else v[0] * pow(v[1], P - 2, P) % P
        acts, pub, cells = [], [], 0
        ops = []
        inst = [[]]
        for r in range(rng.randint(1, 7)):
            for c in range(na):
                if rng.random() < .7:
                    v = val()
                    acts.append(['adv', c, r, [pl(v)] * 2])
                    pub.append((cells, ev(v)))
                    cells += 1
            for c in range(nf):
                if rng.random() < .7:
                    v = val()
                    acts.append(['fix', c, r, pl(v)])
                    pub.append((cells, ev(v)))
                    cells += 1
        if not acts:
            continue
        rng.shuffle(pub)
        pub = pub[:8]
        for row, (cell, v) in enumerate(pub):
            ops.append(dict(op='inst', cell=cell, c=0, row=row))
        good = [v for _, v in pub]
        bad = list(good)
        if bad:
            j = rng.randrange(len(bad))
            bad[j] = (bad[j] + rng.choice([1, P - 1, rng.randrange(1, P)])) % P
        p = dict(k=5, fp=rng.choice(['simple', 'v1']), cols=['a'] * na + ['f'] * nf + ['i'], eq=[['a', c] for c in range(na)] + [['f', c] for c in range(nf)] + [['i', 0]],
                 consts=[], mindeg=0, gates=[], lookups=[], ops=[dict(op='region', acts=acts)] + ops, inst=[[good], [bad]])
        cases.append(dict(id=i, want=['rec', 'vk', 'proof', 'mock'], prog=p, seed=i, proofs=[dict(vs=[0]), dict(vs=[1] if bad != good else [0])]))
    outs = ctx.harness('circuit', cases, name='b')
    good = []
    for c, o in zip(cases, outs):
        e = o.get('crash') or o.get('conferr') or next((o[k] for k in ('vkres', 'pkres') if o.get(k) != 'ok'), None)
        if e:
            ctx.violation(f'rational assignments, case {c["id"]}: {e}', c)
            continue
        fixed = {}
        p = c['prog']
        for a in p['ops'][0]['acts']:
            if a[0] == 'fix':
                fixed[(a[1], a[2])] = a[3]
        good.append(dict(id=c['id'], gl=o['params']['gl'], w=o['params']['w'], fixed=o['vk']['fixed'], cells=[[c_, r, v if isinstance(v, list) else [v]] for (c_, r), v in fixed.items()],
                         mock=[m['res'] + str(len(m['fail'])) for m in o['mock']], verdict=[q.get('vres', q['res']) for q in o['proofs']],
                         same=c['proofs'][1]['vs'] == [0]))
    for i, w in ctx.tlc_cases('BatchTrace', good, jobs=2, workers=1):
        ctx.violation(f'rational assignments, case {i}: {w}', next(c for c in cases if c['id'] == i))

