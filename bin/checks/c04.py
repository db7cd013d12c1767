"""C04: a lookup holds exactly when every input tuple is a row of the table."""
import random
import gen, lib, mockparse, proofs
from checks import c11

P = gen.P
ASSUMPTIONS = ['transparent toy curve, real transcripts; verdicts that hinge on random blinding-row contents are only checked for consistency with the verifier equation',
               'soundness failures of probability about 2^-25 per proof (31-bit field) are ignored']


def lookups(rng, k=None):
    """One region covering the usable rows; the table is made of (most of) the tuples looked up."""
    k = k or rng.choice([4, 4, 5])
    nl = rng.choice([1, 1, 2, 3])
    na = rng.randint(1, 3)
    nf = rng.randint(0, 1)
    ni = rng.choice([0, 0, 1])
    cols = ['a'] * na + ['f'] * nf + ['i'] * ni + ['x'] * rng.randint(1, 2)
    nx = sum(c == 'x' for c in cols)
    rots = rng.choice([(0,), (0,), (-1, 0, 1), (0, 2)])
    small = rng.random() < .5
    vals = [rng.randrange(4) for _ in range(4)] if small else [rng.randrange(P) for _ in range(4)] + [0, 1]
    nt = rng.randint(1, 4)
    shared = rng.random() < .3

    def inp():
        q = lambda: ['a', rng.randrange(na), rng.choice(rots)]
        x = rng.random()
        s = ['s', rng.randrange(nx)]
        if x < .3:
            e = ['*', s, q()]
        elif x < .55:
            e = ['+', ['*', s, q()], ['*', ['+', ['c', 1], ['-', s]], ['c', rng.choice(vals)]]]
        elif x < .65:
            e = ['*', s, ['+', ['*', q(), q()], ['k', q(), rng.choice(vals)]]]
        elif x < .75 and ni:
            e = ['*', s, ['+', q(), ['i', 0, rng.choice(rots)]]]
        elif x < .85 and nf:
            e = ['+', ['f', 0], ['*', s, q()]]
        elif x < .9:
            e = ['c', rng.choice(vals)]
        else:
            e = q() if rots == (0,) else ['*', s, q()]
        return e
    lks, width = [], []
    tcount = 0
    for l in range(nl):
        w = rng.choice([1, 1, 2, 2, 3, 4])
        if shared and l and rng.random() < .7 and width[0] <= tcount:
            ts = list(range(width[0]))
            rng.shuffle(ts)
        else:
            ts = list(range(tcount, tcount + w))
            tcount += w
        lks.append([[inp(), nf + t] for t in ts])
        width.append(len(ts))
    cols = cols[:na + nf] + ['t'] * tcount + cols[na + nf:]
    prog = dict(k=k, fp=rng.choice(['simple', 'v1']), cols=cols, eq=[], consts=[], mindeg=rng.choice([0, 0, 6, 9]), gates=[], lookups=lks, ops=[], inst=[[]])
    u = gen.usable(prog)
    n = 2 ** k
    if ni:
        prog['inst'] = [[[rng.choice(vals) for _ in range(rng.choice([u, 3, 0]))]]]
    inst = (prog['inst'][0][0] if ni else []) + [0] * n
    adv = [[rng.choice(vals) for _ in range(u)] for _ in range(na)]
    sparse = rng.random() < .5
    given = [[not (sparse and rng.random() < .3) for _ in range(u)] for _ in range(na)]
    for c in range(na):
        for r in range(u):
            if not given[c][r]:
                adv[c][r] = 0
    fix = [[rng.choice(vals) if rng.random() < .6 else 0 for _ in range(u)] for _ in range(nf)]
    density = rng.choice([.1, .4, .9])
    lo, hi = max(0, -min(rots)), u - max(0, max(rots))
    sel = [[1 if lo <= r < hi and rng.random() < density else 0 for r in range(u)] for _ in range(nx)]

    def get(r):
        def g(t, c, rt):
            if t == 's':
                return sel[c][r]
            if t == 'f':
                return fix[c][r]
            if t == 'i':
                return inst[(r + rt) % n]
            return adv[c][(r + rt) % n] if (r + rt) % n < u else 0
        return g
    # table contents: groups of lookups sharing columns share rows
    groups = {}
    for lk in lks:
        groups.setdefault(tuple(sorted(t for _, t in lk)), []).append(lk)
    tops = []
    for ts, lkg in groups.items():
        rows = []
        for lk in lkg:
            for r in range(u):
                d = {t: gen.ev(e, get(r)) for e, t in lk}
                rows.append(tuple(d[t] for t in ts))
        uniq = list(dict.fromkeys(rows))
        rng.shuffle(uniq)
        if len(uniq) >= u:
            uniq = uniq[:u - 1]
        x = rng.random()
        if x < .2 and len(uniq) > 1:
            uniq.pop()                                    # one tuple is missing
        pad = [tuple(rng.choice(vals) for _ in ts) for _ in range(rng.randint(0, 2))] + [rng.choice(uniq) for _ in range(rng.randint(0, 2)) if uniq]
        rows = (uniq + pad)[:u - 1] or [tuple(0 for _ in ts)]
        if rng.random() < .5:
            rng.shuffle(rows)
        if rng.random() < .2:                             # fill right up to the last usable row but one
            rows = (rows + [rows[0]] * u)[:u - 1]
        cells = [[t, i, row[j]] for i, row in enumerate(rows) for j, t in enumerate(ts)]
        if rng.random() < .3:
            rng.shuffle(cells)
            z = [c for c in cells if c[1] == 0]
        tops.append(dict(op='table', cells=cells))
    nv = 4
    acts = []
    for c in range(na):
        for r in range(u):
            if given[c][r]:
                acts.append(['adv', c, r, [adv[c][r]] * nv])
    advs = [a for a in acts]
    for v in range(1, nv):
        if not advs:
            break
        a = rng.choice(advs)
        x = rng.random()
        a[3] = list(a[3])
        if x < .5:
            a[3][v] = rng.choice(adv[a[1]])               # a value of another row of the column
        elif x < .8:
            a[3][v] = rng.choice(vals + [0])
        else:
            a[3][v] = (a[3][v] + rng.choice([1, P - 1])) % P
    for c in range(nf):
        acts += [['fix', c, r, fix[c][r]] for r in range(u) if fix[c][r]]
    for s in range(nx):
        acts += [['sel', s, r] for r in range(u) if sel[s][r]]
    reg = dict(op='region', acts=acts)
    prog['ops'] = tops + [reg] if rng.random() < .5 else [reg] + tops
    prog['inst'] = prog['inst'] * nv
    return prog


def run(ctx):
    ctx.build()
    q, nr = (11, 4) if ctx.thorough else (7, 3)
    vs = '{0, 1, 2}'
    r = ctx.tlc('LookupArg', f'CONSTANTS Q = {q}\nNRows = {nr + 1}\nV = {vs}\nMode = "prover"\nINIT Init\nNEXT Next\nINVARIANT Complete\nCHECK_DEADLOCK FALSE\n', workers=6)
    r2 = ctx.tlc('LookupArg', f'CONSTANTS Q = {q}\nNRows = {3 if ctx.thorough else 2}\nV = {vs}\nMode = "any"\nINIT Init\nNEXT Next\nINVARIANTS Sound ProductSound\nCHECK_DEADLOCK FALSE\n', workers=6, name='LookupSound')
    r3 = ctx.tlc('LookupArg', f'CONSTANTS Q = {q}\nNRows = {3 if not ctx.thorough else 4}\nV = {"{0, 1}" if ctx.thorough else vs}\nMode = "any"\nINIT Init\nNEXT Next\nINVARIANTS Sound\nCHECK_DEADLOCK FALSE\n', workers=6, name='LookupSound3')
    for x in (r, r2, r3):
        if x['violated']:
            ctx.violation('specification: ' + str(x['violated']))
    n = 900 if ctx.thorough else 170
    cases = []
    for i in range(n):
        p = lookups(random.Random(f'C04-{ctx.seed}-{i}'))
        o = dict(tamper=2, alt=2)
        cases.append(proofs.case(random.Random(f'C04p-{ctx.seed}-{i}'), p, i, **o))
    proofs.run(ctx, cases)
    mock = [dict(id=i, want=['rec', 'mock'], threads=(1, 2, 5)[i % 3], prog=c['prog']) for i, c in enumerate(cases)]
    for i in range(n, 2 * n):
        mock.append(dict(id=i, want=['rec', 'mock'], threads=(1, 3)[i % 2], prog=lookups(random.Random(f'C04-{ctx.seed}-{i}'))))
    outs = ctx.harness('circuit', mock, name='m')
    good, st = [], {}
    for c, o in zip(mock, outs):
        if 'crash' in o or 'conferr' in o:
            ctx.violation(f'case {c["id"]}: {o.get("crash") or o.get("conferr")}', c)
            continue
        good.append(c11.attach(c, o))
        for m in o['mock']:
            k = m['res'] if m['res'] != 'ok' else 'holds' if not m['fail'] else 'missing'
            st[k] = st.get(k, 0) + 1
    for i, why in ctx.tlc_cases('MockTrace', good, jobs=7, workers=1):
        ctx.violation(f'case {i} variant {why}', mock[i])
    ctx.extra['mock'] = st
