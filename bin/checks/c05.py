"""C05: every challenge depends on everything sent before it, identically for prover and verifier."""
import json, random
import gen, proofs

ASSUMPTIONS = ['Blake2b is collision resistant: two different encodings are taken to give different challenges, and equal challenges to mean equal encodings',
               'histories of up to 4 (thorough 5) operations are replayed; the encoding itself is model-checked over a small alphabet']
INV = 'INIT Init\nNEXT Next\nINVARIANT EncodingInjective\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.build()
    r = ctx.tlc('Transcript', f'CONSTANTS Weak = "none"\nMaxLen = 3\nPoints <- {"All" if ctx.thorough else "Some"}Points\n' + INV, workers=6)
    if r['violated']:
        ctx.violation('specification: ' + str(r['violated']))
    for w in ('tags', 'nosqueeze', 'notag', 'xonly'):
        if not ctx.tlc('Transcript', f'CONSTANTS Weak = "{w}"\nMaxLen = 3\nPoints <- SomePoints\n' + INV, workers=4, name='T' + w)['violated']:
            ctx.violation(f'specification: damaged encoding {w} not told apart')
    g = ctx.tlc('TranscriptGen', f'CONSTANTS MaxLen = {4 if ctx.thorough else 3}\nMaxCommon = {5 if ctx.thorough else 4}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', workers=4)
    seqs = [json.loads(p[4:]) for p in g['prints'] if p.startswith('GEN|')]
    seqs.sort(key=lambda s: json.dumps(s))
    cases = []
    for cv in ('pallas', 'vesta', 'toy'):
        cases.append(dict(id=len(cases), curve=cv, neg=True))
        part = seqs if cv == 'vesta' else seqs[::7]
        for j in range(8):
            if part[j::8]:
                cases.append(dict(id=len(cases), curve=cv, seqs=[s['o'] for s in part[j::8]], h=[s['h'] for s in part[j::8]]))
    outs = ctx.harness('transcript', cases, name='t')
    ch, hs = {}, {}
    for c, o in zip(cases, outs):
        if 'crash' in o:
            ctx.violation(f'transcript {c["curve"]}: {o["crash"]}')
            continue
        for b in o['bad'][:3]:
            ctx.violation(f'transcript on {c["curve"]}: {b}', dict(seq=c['seqs'][b[0]]) if 'seqs' in c else None)
        if c.get('neg'):
            ctx.extra['encodings'] = ctx.extra.get('encodings', 0) + o['n']
        if o['bad'] or c.get('neg') or c['curve'] == 'toy':
            continue
        for s, h, x in zip(c['seqs'], c['h'], o['ch']):
            a = ch.setdefault((c['curve'], h), x)
            if a != x:
                ctx.violation(f'{c["curve"]}: {s} gives another challenge than the same history absorbed differently', dict(seq=s))
            b = hs.setdefault((c['curve'], x), h)
            if b != h:
                ctx.violation(f'{c["curve"]}: different histories give one challenge: {b} and {h}', dict(seq=s))
    ctx.extra['transcript_sequences'] = len(seqs)
    ctx.traces += len(seqs)
    n = 500 if ctx.thorough else 90
    cs = []
    for i in range(n):
        def make(k=None, i=i):
            return gen.Gen(random.Random(f'C05-{ctx.seed}-{i}'), mutants=1, k=k, nlook=[0, 1, 2][i % 3]).make()
        o = dict(tamper=0, alt=2)
        c = proofs.case(random.Random(f'C05p-{ctx.seed}-{i}'), make(), i, **o)
        c['grow'], c['o'] = make, o
        cs.append(c)
    proofs.run(ctx, cs)
