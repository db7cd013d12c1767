"""C09: batch verification accepts exactly the batches of valid proofs."""
import json
ASSUMPTIONS = ['transparent toy curve, so that members whose errors cancel can be made at will; real Blake2b transcripts and OsRng',
               'a bad batch passing by chance (about 2^-31 each) is ignored',
               'schedules: rayon pools of 1, 2, 4 and 8 threads on the real code; every fold tree in the model']


def run(ctx):
    ctx.build()
    r = ctx.tlc('BatchVerify', f'CONSTANTS Q = {7 if ctx.thorough else 5}\nMaxLen = {4 if ctx.thorough else 3}\nINIT Init\nNEXT Next\nINVARIANTS Sound Progress\nCHECK_DEADLOCK FALSE\n', workers=6)
    if r['violated']:
        ctx.violation('specification: ' + str(r['violated']))
    long_ = '{5, 9, 17, 33}' if ctx.thorough else '{5, 9}'
    g = ctx.tlc('BatchGen', f'CONSTANTS MaxLen = {4 if ctx.thorough else 3}\nMaxSmall = {5 if ctx.thorough else 4}\nLong = {long_}\nTier = {65536 if ctx.thorough else 600}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', workers=2)
    gen = [json.loads(p[4:]) for p in g['prints'] if p.startswith('GEN|')]
    if len(gen) < 500:
        raise RuntimeError('generator produced too little')
    shapes = [1, 2, 1, 3, 1]
    cases = []
    n = 40
    gen.sort(key=lambda x: (len(x['b']), json.dumps(x['b'])))
    # cheap and expensive batches spread over the cases
    parts = [gen[j::max(1, len(gen) // n)] for j in range(max(1, len(gen) // n))]
    for i, p in enumerate(parts):
        cases.append(dict(id=i, k=4, seed=ctx.seed * 1000 + i, shapes=shapes, threads=[1, 2, 4, 8],
                          batches=[[[j, k, a] for j, (k, a) in enumerate(x['b'])] for x in p]))
    outs = ctx.harness('batch', cases, name='b')
    nb = 0
    for c, o, p in zip(cases, outs, parts):
        if 'crash' in o:
            ctx.violation(f'case {c["id"]}: {o["crash"]}', c)
            continue
        for x, y, b in zip(p, o['out'], c['batches']):
            nb += 1
            one = dict(c, batches=[b])
            valid = [k[0] in ('ok', 'tail') for k in x['b']]
            if y['single'] != valid:
                ctx.violation(f'single verification of {b} gives {y["single"]}', one)
            for t, got in zip(c['threads'], y['got']):
                if got is not x['want']:
                    ctx.violation(f'batch {b} on {t} threads: {got}, every member valid: {x["want"]}', one)
    ctx.traces += nb
    ctx.extra['batches'] = nb
    ctx.samples.append(dict(batch=gen[len(gen) // 2]))
    m = 16 if ctx.thorough else 8
    cases = [dict(id=i, seed=ctx.seed * 77 + i * 10, flip=i % 2 == 1) for i in range(m)]
    outs = ctx.harness('predict', cases, name='p')
    for c, o in zip(cases, outs):
        if 'crash' in o:
            ctx.violation(f'randomness case {c["id"]}: {o["crash"]}', c)
        elif any(a > 1 for _, a in o['hits']) or len(o['hits']) > 40:
            ctx.violation(f'a batch of two invalid proofs passes repeatedly (or far too often): {o["hits"][-1]}, {len(o["hits"])} passes', c)
    ctx.traces += m
