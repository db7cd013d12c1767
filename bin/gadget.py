"""Shared driver of the gadget checks: record circuits, attack them in TLA+, confirm on the MockProver."""
import ast, json, re
import concurrent.futures as cf
import flat
from lib import ToolError

TIES = {}      # ties added to a recorded circuit because of a known finding


def ints(h):
    return int(h, 16)


def deviations(r, sys, per_var, limit, also=()):
    """Single changes: every variable when the budget allows, otherwise a sample that favours the
    first variables (inputs) and the last ones (outputs)."""
    p, w, n = ints(sys['p']), [ints(x) for x in sys['w']], sys['n']
    out = []
    vs = list(range(1, n + 1))
    if len(vs) * per_var > limit:
        keep = max(1, limit // per_var)
        ends = vs[:keep // 8] + vs[-(keep // 8):] if keep >= 16 else []
        mid = [v for v in vs if v not in set(ends)]
        vs = sorted(set(ends + r.sample(mid, min(len(mid), keep - len(ends)))))
    for v in vs:
        h = w[v - 1]
        c = [(h + 1) % p, 1 - h if h in (0, 1) else 0, (-h) % p, 2, (h - 1) % p, r.randrange(p), 2 * h % p, 1]
        c = [x % p for x in c if x % p != h]
        c = list(dict.fromkeys(c))
        first, rest = c[:1], c[1:]
        r.shuffle(rest)
        for x in (first + rest)[:per_var]:
            out.append([[v, '%x' % x]])
    return out + list(also)


def record(ctx, cases, name='rec', timeout=600):
    outs = ctx.harness('x', cases, name=name, timeout=timeout)
    return outs


def prepare(ctx, cases, outs, per_var=4, limit=400, pairs=0, extra=None):
    """Join cases and recordings into cases of Adversary.tla; returns (cases, meta by id)."""
    ready, meta = [], {}
    for c, o in zip(cases, outs):
        if 'crash' in o or 'conf' in o:
            ctx.violation(f'case {c["id"]}: {o.get("crash") or o.get("conf")}', c)
            continue
        x = dict(c)
        for k in ('k', 'brief', 'nomock', 'field'):
            x.pop(k, None)
        syn = o.get('syn', '?')
        x.update(syn=syn, mock=o.get('mock', ''), inst=o.get('inst', []), io=o.get('io', []), same=o.get('same', False), p=o.get('p', c.get('p', '0')),
                 flat=False, torn=[], devs=[], probes=[], splices=[], forks=c.get('forks', 2))
        if syn == 'ok' and 'cs' in o:
            try:
                s, m = flat.flatten(o, c['k'])
            except flat.Inconsistent as e:
                x.update(mock='rejected: ' + str(e))
                ready.append(x)
                continue
            if c.get('tie'):
                TIES[c['tie']](c, s)
            x.update(flat=True, sys=s, torn=m['bad'])
            x.pop('tie', None)
            meta[c['id']] = (c, o, s, m)
            if not c.get('nodev'):
                x['devs'] = deviations(ctx.rng, s, c.get('per_var', per_var), c.get('limit', limit), extra(c, s, m, o) if extra else ())
                for _ in range(c.get('pairs', pairs)):
                    a = ctx.rng.choice(x['devs'])[0]
                    b = ctx.rng.choice(x['devs'])[0]
                    if a[0] < b[0]:
                        x['devs'].append([a, b])
        ready.append(x)
    for x in ready:
        if x.get('twin') in meta and x['flat']:
            splice(x, meta[x['twin']][2], 24, ctx.rng)
            ctx.extra['splices'] = ctx.extra.get('splices', 0) + len(x['splices'])
    return ready, meta


def splice(x, s2, limit, r):
    """Recombinations of two honest witnesses of the same circuit.  The variables in which they differ fall
    into components that no constraint connects; any set of components can be taken from the second one."""
    s1 = x['sys']
    key = lambda s: [[t, tab, [a if a <= s['n'] else s['w'][a - 1] for a in xs]] for t, tab, xs in s['c']]
    if s1['n'] != s2['n'] or key(s1) != key(s2):
        return
    d = [s1['w'][v] != s2['w'][v] for v in range(s1['n'])]
    par = list(range(s1['n'] + 1))

    def find(a):
        while par[a] != a:
            par[a] = par[par[a]]
            a = par[a]
        return a
    for _, _, xs in s1['c']:
        vs = [a for a in xs if a <= s1['n'] and d[a - 1]]
        for a, b in zip(vs, vs[1:]):
            par[find(a)] = find(b)
    comp = {}
    for v in range(1, s1['n'] + 1):
        if d[v - 1]:
            comp.setdefault(find(v), []).append(v)
    comps = list(comp.values())
    picks = [c for c in comps] if len(comps) <= limit else r.sample(comps, limit)
    picks += [sorted(sum(r.sample(comps, r.randrange(2, len(comps))), [])) for _ in range(limit // 4) if len(comps) > 2]
    x['splices'] += [[[v, s2['w'][v - 1]] for v in c] for c in picks]


def tampered(c, s, m, o, dev):
    """The request that makes gv run the mock prover on the honest witness changed by dev (None if
    a changed variable has a cell the circuit does not assign)."""
    d = {v: x for v, x in dev}
    asg = {(a[0], a[1]) for a in o['adv']}
    cells = [[a, b, x] for v, x in d.items() for a, b in m['cells'][v]]
    if any((a, b) not in asg for a, b, _ in cells):
        return None
    return dict(cells=cells, inst=[d.get(v, s['w'][v - 1]) for v in s['io']])


def probe(ctx, ready, meta, per=4, name='probe'):
    """Give some deviations to the real mock prover as well."""
    reqs, where = [], []
    for x in ready:
        if not x['flat'] or not x['devs'] or x['mock'] != 'ok':
            continue
        c, o, s, m = meta[x['id']]
        picks = []
        for d in ctx.rng.sample(x['devs'], min(len(x['devs']), c.get('probes', per))):
            t = tampered(c, s, m, o, d)
            if t:
                picks.append((d, t))
        if picks:
            reqs.append(dict(c, tamper=[t for _, t in picks]))
            where.append((x, [d for d, _ in picks]))
    for (x, ds), r in zip(where, ctx.harness('x', reqs, name=name, timeout=600)):
        if 'crash' in r:
            ctx.violation(f'case {x["id"]}: {r["crash"]}', None)
            continue
        x['probes'] = [dict(dev=d, verdict=v) for d, v in zip(ds, r['verdicts'])]
    ctx.extra['mock_prover_probes'] = ctx.extra.get('mock_prover_probes', 0) + sum(len(x['probes']) for x in ready)


def attack(ctx, ready, meta, jobs=8, heap='3g', workers=1, name='Adversary', timeout=800):
    rej = ctx.tlc_cases('Adversary', ready, jobs=jobs, heap=heap, workers=workers, name=name, timeout=timeout)
    by = {c['id']: c for c in ready}
    seen = {}
    for i, why in rej:
        c = by[i]
        seen[i] = seen.get(i, 0) + 1
        if seen[i] > 2:
            continue
        if 'accepted outside' in why and i in meta:
            d = [[int(a), b] for a, b in re.findall(r'<<(\d+), "([0-9a-f]+)">>', why)]
            cc, o, s, mm = meta[i]
            t = tampered(cc, s, mm, o, d)
            if t:
                r = ctx.harness('x', [dict(cc, tamper=[t])], name='confirm')[0]
                why += f' -- the real mock prover on this witness: {r.get("verdicts")}'
        if why.startswith('t: ') and c.get('known'):
            why = f'[{c["known"]}] ' + why
        ctx.violation(f'case {i} ({c["g"]}): {why[:500]}', dict(case={k: v for k, v in c.items() if k not in ('sys', 'devs')}, why=why))
    ctx.extra['deviations'] = ctx.extra.get('deviations', 0) + sum(len(c['devs']) for c in ready)
    ctx.extra['circuits'] = ctx.extra.get('circuits', 0) + sum(1 for c in ready if c['flat'])
    return rej


def transfer(sys, p2):
    """The constraints read modulo another prime; None unless all constants are small numbers and nothing is looked up."""
    p = ints(sys['p'])

    def num(h):
        x = ints(h)
        x = x if x <= p // 2 else x - p
        if abs(x) > 64:
            raise ValueError
        return '%x' % (x % p2)

    def ex(e):
        return ['c', num(e[1])] if e[0] == 'c' else e if e[0] == 'v' else [e[0]] + [ex(x) for x in e[1:]]
    try:
        if any(tab for _, tab, _ in sys['c']):
            raise ValueError
        used = {t for t, _, _ in sys['c']}
        t = [[ex(e) for e in es] if i + 1 in used else [['c', '0']] for i, es in enumerate(sys['t'])]
        args = {a for _, _, xs in sys['c'] for a in xs} | set(sys['io'])
        w = ['0' if i < sys['n'] or i + 1 not in args else num(x) for i, x in enumerate(sys['w'])]
    except ValueError:
        return None
    return dict(sys, p='%x' % p2, t=t, w=w, tabs=[])


def exhaust_small(ctx, cases, counts, **kw):
    """Exhaust with the constraints of circuits over a large field read modulo small primes."""
    base = {}
    todo = [dict(c) for c in cases]
    for o, c in zip(record(ctx, [dict(c, id=i + 1) for i, c in enumerate(todo)], name='exs'), todo):
        if o.get('syn') != 'ok':
            ctx.violation(f'{c["g"]} {c["ops"]}: synthesis fails: {str(o)[:200]}', c)
            return
        s, _ = flat.flatten(o, c['k'])
        s = transfer(s, c['p2'])
        if s is None:
            ctx.extra['not_transferable'] = ctx.extra.get('not_transferable', 0) + 1
            continue
        base[c['id']] = dict(id=c['id'], g='s' + c['g'], ops=c['ops'], sys=s, io=o['io'], p=s['p'], w=0)
    return exhaust(ctx, [c for c in todo if c['id'] in base], counts, ready=base, **kw)


def exhaust(ctx, cases, counts, jobs=4, name='Exhaust', workers=2, ready=None):
    """Every witness of small circuits (Exhaust.tla); counts: how many satisfying assignments there are."""
    outs = record(ctx, cases, name='ex') if ready is None else cases
    sys_ = []
    for c, o in zip(cases, outs):
        if ready is not None:
            sys_.append(ready[c['id']])
            continue
        if o.get('syn') != 'ok':
            ctx.violation(f'{c["g"]}: synthesis fails: {o}', c)
            return
        s, m = flat.flatten(o, c['k'])
        x = {k: v for k, v in c.items() if k not in ('k', 'field')}
        x.update(sys=s, io=o['io'], p=o['p'])
        sys_.append(x)
    jobs = min(jobs, len(sys_))
    import concurrent.futures as cf

    def go(j):
        return ctx.tlc('Exhaust', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', {'cases.json': sys_[j::jobs]}, name=f'{name}_{j}', workers=workers, timeout=800)
    with cf.ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(go, range(jobs)))
    got, ios = {}, set()
    for r in rs:
        for p in r['prints']:
            if p.startswith('SOL|'):
                _, i, *io = p.split('|')
                # interfaces are counted once where they are printed
                if not io or p not in ios:
                    got[int(i)] = got.get(int(i), 0) + 1
                ios.update([p] if io else [])
        for p in r['rejects'][:3]:
            ctx.violation(f'exhaustive: {p[:300]}', None)
    for c in cases:
        want = counts.get(c['id'])
        if want is not None and got.get(c['id'], 0) < want:
            ctx.violation(f'exhaustive: case {c["id"]} ({c["g"]} {c["ops"]}): {got.get(c["id"], 0)} satisfying witnesses, at least {want} inputs are in the domain', c)
    ctx.traces += len(cases)
    ctx.extra['exhaustive_solutions'] = ctx.extra.get('exhaustive_solutions', 0) + sum(got.values())


def circcheck(ctx, n):
    """Circ.java against the definitions of Circ.tla on random small systems over F_7."""
    r, p = ctx.rng, 7

    def ex(d, h):
        k = r.choice(['c', 'v', 'v', '-', '+', '*', '*']) if d else r.choice(['c', 'v', 'v'])
        return ['c', '%x' % r.randrange(p)] if k == 'c' else ['v', r.randrange(h) + 1] if k == 'v' else ['-', ex(d - 1, h)] if k == '-' else [k, ex(d - 1, h), ex(d - 1, h)]

    def ev(e, a):
        k = e[0]
        return int(e[1], 16) if k == 'c' else a[e[1] - 1] if k == 'v' else -ev(e[1], a) % p if k == '-' else (ev(e[1], a) + ev(e[2], a)) % p if k == '+' else ev(e[1], a) * ev(e[2], a) % p
    data = []
    for i in range(n):
        nv = r.choice([2, 3, 3])
        w = [r.randrange(p) for _ in range(nv + 1)]
        t, c, tabs = [], [], [[[str(x)] for x in sorted(r.sample(range(p), 3))]]
        good = r.random() < 0.7
        for j in range(r.randrange(1, 4)):
            h = r.randrange(1, 4)
            a = [r.randrange(nv + 1) + 1 for _ in range(h)]
            av = [w[x - 1] for x in a]
            if r.random() < 0.3:
                e = ['+', ['*', ['c', str(r.randrange(1, p))], ['v', 1]], ['c', str(r.randrange(p))]] if r.random() < 0.7 else ex(2, h)
                if good:
                    e = ['+', e, ['c', '%x' % ((int(r.choice(tabs[0])[0]) - ev(e, av)) % p)]]
                t.append([e])
                c.append([len(t), 1, a])
            else:
                e = ex(3, h)
                if r.random() < 0.3:
                    e = ['*', ex(2, h), ['*', ['v', 1], ex(1, h)]]
                    if good:
                        e = ['*', ['+', ['v', 1], ['c', '%x' % (-av[0] % p)]], e]
                elif good:
                    e = ['+', e, ['c', '%x' % (-ev(e, av) % p)]]
                t.append([e])
                c.append([len(t), 0, a])
        dev = [[v, '%x' % r.randrange(p)] for v in sorted(r.sample(range(1, nv + 1), r.randrange(0, 3)))]
        data.append(dict(sys=dict(p='7', n=nv, w=['%x' % x for x in w], t=t, c=c, tabs=tabs), dev=dev))
    res = ctx.tlc('CircCheck', 'INIT Init\nNEXT Next\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n', {'cases.json': data})
    if res['violated']:
        from lib import ToolError
        raise ToolError('Circ.java disagrees with Circ.tla, see ' + res['dir'])


def forced_check(ctx, n):
    """Random small systems on which the rules of Forced.java are compared with what is determined."""
    r, p = ctx.rng, 17
    K = lambda x: ['c', '%x' % (x % p)]
    data = []

    def rng(h, vals):
        e = None
        for x in vals:
            f = ['+', ['v', h], K(-x)]
            e = f if e is None else ['*', e, f]
        return e
    for _ in range(n):
        nv = 3
        w = ['0'] * nv
        t, c, tabs = [], [], []
        rows = [[x, x * x % 5, r.randrange(p)] for x in sorted(r.sample(range(p), r.randrange(2, 6)))]
        if r.random() < .4:
            rows += [[rows[0][0], r.randrange(5), r.randrange(p)]]
        tabs.append([['%x' % y for y in x] for x in rows])

        def put(e, a, tab=0):
            t.append(e if tab else [e])
            c.append([len(t), tab, a])
        for v in range(1, nv + 1):
            x = r.random()
            if x < .6:
                put(rng(1, r.choice([[0, 1], [0, 1], [0, 1, 2, 3], [0, 4], [0, 2], [0, 1, 2], [r.randrange(p)], [0, 1, 4, 5], [1, 2]])), [v])
        for _ in range(r.randrange(1, 4)):
            x, a = r.random(), [1, 2, 3]
            r.shuffle(a)
            if x < .5:
                co = r.choice([[1, 4, 1], [1, 2, 4], [1, 4, 16], [1, 2, 16], [4, 1, 16], [r.randrange(p) for _ in a], [1, 4, 0], [1, 16, 0], [3, 12, 14], [1, 1, 16]])
                e = K(r.choice([0, 0, r.randrange(p)]))
                for h, k in enumerate(co):
                    e = ['+', e, ['*', K(k), ['v', h + 1]]]
                put(e, a)
            elif x < .58:
                s = ['+', ['v', 1], ['*', K(r.choice([-2, -4, 4, 2, -3, 1])), ['v', 2]]]
                e = s
                for b in range(1, r.randrange(2, 5)):
                    e = ['*', e, ['+', K(b), ['-', s]]]
                put(e, a)
            elif x < .65:
                put(['+', ['*', ['v', 1], ['v', 2]], ['*', K(-1), ['v', 3]]], a)
            elif x < .9:
                put(r.choice([[['v', 1], ['v', 2], K(r.choice(rows)[2])], [['v', 1], ['v', 2], ['v', 3]], [['+', ['v', 1], K(r.randrange(3))], ['v', 2], ['v', 3]], [['+', ['v', 1], ['v', 2]], ['v', 3], ['v', 1]]]), a, 1)
            else:
                put(['*', ['+', ['v', 1], K(-1)], ['+', ['v', 2], ['*', K(3), ['v', 3]]]], a)
        data.append(dict(sys=dict(p='%x' % p, n=nv, w=w, t=t, c=c, tabs=tabs), fix=r.choice([[], [1], [2], [1, 2], [3]])))

    def go(j):
        return ctx.tlc('ForcedCheck', 'INIT Init\nNEXT Next\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\n', {'cases.json': data[j::4]}, name=f'ForcedCheck_{j}', workers=1)
    with cf.ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(go, range(4)))
    top = [tuple(map(int, p.split('|')[1:])) for x in rs for p in x['prints'] if p.startswith('MAX|')]
    got = [tuple(map(int, p.split('|')[1:])) for x in rs for p in x['prints'] if p.startswith('FOUND|')]
    if any(x['violated'] for x in rs) or not sum(g for g, _ in got):
        raise ToolError('Forced.java finds variables that Forced.tla does not, or none')
    ctx.extra['forced_rules'] = f'{sum(g for g, _ in top)} of {sum(d for _, d in top)} upper bounds exact, {sum(g for g, _ in got)} of {sum(d for _, d in got)} determined variables found in {len(data)} random systems, no other'


def forced(ctx, ready, jobs=8, heap='2g', timeout=600):
    """What the constraints determine whatever the witness is (ForcedTrace.tla)."""
    cs = [dict(id=x['id'], g=x['g'], p=x['p'], w=x.get('w', 0), q=x.get('q', 0), ops=x['ops'], sys=x['sys']) for x in ready if x['flat'] and x['syn'] == 'ok']
    by = {c['id']: c for c in cs}
    for i, why in ctx.tlc_cases('ForcedTrace', cs, jobs=jobs, heap=heap, timeout=timeout):
        ctx.violation(f'case {i} ({by[i]["g"]} {str(by[i]["ops"])[:200]}): {why[:300]}', dict(case={k: v for k, v in by[i].items() if k != 'sys'}))
    ctx.extra['determined_for_all_witnesses'] = ctx.extra.get('determined_for_all_witnesses', 0) + len(cs)
