"""C23: the predicted proof size equals the size of real proofs."""
import random
import gen, lib, pinned, proofs
from checks import c04

P = gen.P
ASSUMPTIONS = ['points and scalars are encoded in 32 bytes on the toy curve, as on the real ones', 'query rotations smaller than the number of rows']


def run(ctx):
    ctx.build()
    n = 2400 if ctx.thorough else 700
    cases = []
    for j in range(n):
        r = random.Random(f'C23-{ctx.seed}-{j}')
        if j % 4 == 3:
            p = c04.lookups(r)
        else:
            o = {}
            if r.random() < .35:
                o['nlook'] = 0
            if r.random() < .3:
                o.update(eq=False, consts=False)
            if r.random() < .2:
                o['ngates'] = 0
            if r.random() < .3:
                o['nadv'] = r.choice([1, 5, 7])
            p = gen.Gen(r, k=r.choice([5, 6, 7]), mutants=1, mindeg=r.choice([0, 0, 3, 4, 5, 7]), **o).make()
            # some programs with nothing but columns
            if r.random() < .1:
                p['ops'] = []
                p['gates'], p['lookups'] = [], []
        cases.append(dict(id=j, prog=p, sets=[[0], [0, 0], [0] * r.randint(3, 5)] if r.random() < .3 else [[0], [0] * r.randint(2, 4)]))
    outs = ctx.harness('size', cases)
    good, st = [], dict(proofs=0, with_lookups=0, with_permutation=0, neither=0)
    for c, o in zip(cases, outs):
        if 'crash' in o:
            if 'NotEnoughRows' in o['crash'] or 'NotEnoughColumns' in o['crash']:
                continue
            ctx.violation(f'case {c["id"]}: {o["crash"]}', c)
            continue
        # a missing lookup input (C04) or a circuit that does not fit (C14) stops the prover
        keep = [i for i, x in enumerate(o['real']) if x['ver'] not in ('ConstraintSystemFailure', 'NotEnoughRowsAvailable')]
        if not keep:
            continue
        good.append(dict(id=c['id'], prog=lib.specprog(c['prog']), vk=pinned.vk(o['pinned']), sets=[c['sets'][i] for i in keep], real=[o['real'][i] for i in keep],
                         predicted=[o['predicted'][i] for i in keep], marginal=o['marginal']))
        st['proofs'] += len(keep)
        l, q = bool(c['prog']['lookups']), bool(c['prog']['eq'] or c['prog']['consts'])
        st['with_lookups'] += l
        st['with_permutation'] += q
        st['neither'] += not l and not q
    if len(good) < len(cases) // 2:
        raise lib.ToolError(f'only {len(good)} of {len(cases)} circuits made a proof')
    for i, why in ctx.tlc_cases('SizeTrace', good, jobs=6, workers=1):
        ctx.violation(f'case {i} {why}', cases[i])
    ctx.extra.update(st)
    ctx.samples.append(good[0])
