"""C08: the deferred multi-scalar accumulator denotes the sum it was given."""
import json

ASSUMPTIONS = ['transparent toy curve: points are discrete logarithms, so the value held is known exactly',
               'the value is observed through evaluation of the accumulator with a probe term added']
P = 2013265921


def run(ctx):
    ctx.build()
    pr = ctx.harness('params', [dict(id=0, k=2)])[0]['params']
    def cfg(n, na, big):
        return f'CONSTANTS MaxLen = {n}\nNAcc = {na}\nBig = {big}\nINIT Init\nNEXT Next\nINVARIANT Refines\nCHECK_DEADLOCK FALSE\n'
    runs = [('a', cfg(3, 2, 'FALSE'), None), ('b', cfg(3, 1, 'TRUE'), None), ('c', cfg(14, 3, 'TRUE'), (3000 if ctx.thorough else 150, 14))]
    if ctx.thorough:
        runs.append(('d', cfg(4, 2, 'FALSE'), None))
        runs.append(('e', cfg(4, 1, 'TRUE'), None))
    cases = []
    for n, c, sim in runs:
        r = ctx.tlc('Msm', c, {'params.json': pr}, name='Msm_' + n, workers=6, simulate=sim, timeout=800)
        if r['violated']:
            ctx.violation(f'specification: {r["violated"]} violated', r['out'][-3000:])
        seqs = {p[4:] for p in r['prints'] if p.startswith('GEN|')}
        cases += [dict(k=2, n=3 if n == 'c' else 2 if n in 'ad' else 1, ops=json.loads(s)) for s in sorted(seqs)]
    for i, c in enumerate(cases):
        c['id'] = i
    outs = ctx.harness('msm', cases)
    for c, o in zip(cases, outs):
        if o.get('crash') or o['bad']:
            ctx.violation(f'sequence {[s[:-1] for s in c["ops"]]}: accumulators should hold {[s[-1] for s in c["ops"]]}; differs at {o.get("crash") or o["bad"][0]}', c)
    ctx.traces += len(cases)
    ctx.samples += [cases[0], cases[-1]]
    ctx.extra['sequences'] = len(cases)
