"""C16: verifying keys identify the circuit and are reproducible."""
import copy, random
import gen, lib
from checks import c04

P = gen.P
ASSUMPTIONS = ['digests are 31-bit scalars on the toy field, so two different circuits collide with probability 2^-31']


def nodes(e, path=()):
    yield path, e
    for i, x in enumerate(e[1:], 1):
        if isinstance(x, list):
            yield from nodes(x, path + (i,))


def setat(e, path, v):
    if not path:
        return v
    e[path[0]] = setat(e[path[0]], path[1:], v)
    return e


def tweak_expr(rng, e, p):
    """change one place of an expression"""
    e = copy.deepcopy(e)
    ns = list(nodes(e))
    rng.shuffle(ns)
    na = p['cols'].count('a')
    for path, n in ns:
        t = n[0]
        if t == 'c':
            return setat(e, path, ['c', (n[1] + 1) % P])
        if t == 'k':
            return setat(e, path, ['k', n[1], (n[2] + 1) % P])
        if t == 'a':
            if rng.random() < .5 or na == 1:
                return setat(e, path, ['a', n[1], n[2] + rng.choice([-1, 1])])
            return setat(e, path, ['a', (n[1] + 1) % na, n[2]])
        if t == 'i':
            return setat(e, path, ['i', n[1], n[2] + rng.choice([-1, 1])])
        if t == '-':
            return setat(e, path, n[1])
        if t == '+' and not any(x[0] == 's' for _, x in nodes(n)):
            return setat(e, path, ['+', n[1], ['-', n[2]]])
    return None


def tweaks(rng, p):
    """programs that differ from p in one place, with a name"""
    out = []

    def add(name, f):
        q = copy.deepcopy(p)
        if f(q) is not False:
            out.append((name, q))
    regs = [i for i, o in enumerate(p['ops']) if o['op'] == 'region']
    acts = [(i, j) for i in regs for j in range(len(p['ops'][i]['acts']))]
    kind = lambda k: [(i, j) for i, j in acts if p['ops'][i]['acts'][j][0] == k]

    def on(k, f):
        def g(q):
            ks = kind(k)
            if not ks:
                return False
            i, j = rng.choice(ks)
            return f(q, q['ops'][i]['acts'], j)
        return g

    def gate(q):
        if not q['gates']:
            return False
        g = rng.choice(q['gates'])
        j = rng.randrange(len(g['polys']))
        e = tweak_expr(rng, g['polys'][j], q)
        if e is None:
            return False
        g['polys'][j] = e
    add('gate expression', gate)
    add('gate expression', gate)
    add('extra gate', lambda q: q['gates'].append(copy.deepcopy(q['gates'][0]) if q['gates'] and rng.random() < .5 else dict(polys=[['*', ['c', 0], ['a', 0, 0]]], sel=[])))
    add('gate dropped', lambda q: (q['gates'] or False) and (q['gates'].pop(rng.randrange(len(q['gates']))) and None))

    def poly(q):
        g = [g for g in q['gates'] if len(g['polys']) > 1]
        if not g:
            return False
        rng.choice(g)['polys'].pop()
    add('polynomial dropped', poly)

    def lk(q):
        if not q['lookups']:
            return False
        l = rng.choice(q['lookups'])
        x = rng.random()
        if x < .4:
            j = rng.randrange(len(l))
            e = tweak_expr(rng, l[j][0], q)
            if e is None:
                return False
            l[j][0] = e
        elif x < .6 and len(l) > 1:
            l[0][1], l[1][1] = l[1][1], l[0][1]
        elif x < .8:
            q['lookups'].remove(l)
        else:
            q['lookups'].append(copy.deepcopy(l))
    add('lookup', lk)
    add('lookup', lk)
    def fx(q, a, j):
        v = a[j][3]
        a[j][3] = (v[0] if isinstance(v, list) else v) + 1
        if a[j][3] == v:
            return False
    add('fixed value', on('fix', fx))
    def ac(q, a, j):
        v = a[j][3]
        a[j][3] = ((v[0] if isinstance(v, list) else v) + 1) % P
    add('constant', on('advc', ac))
    add('selector off', on('sel', lambda q, a, j: a.pop(j) and None))
    def son(q):
        ns = sum(c in 'sx' for c in q['cols'])
        if not ns or not regs:
            return False
        q['ops'][rng.choice(regs)]['acts'].append(['sel', rng.randrange(ns), 0])
    add('selector on', son)
    add('copy dropped', on('eq', lambda q, a, j: a.pop(j) and None))
    def eqn(q):
        # tie two advice cells of one region
        cs = [(i, [n for n, a in enumerate(x for x in q['ops'][i]['acts'] if x[0] in ('adv', 'fix', 'advc', 'advi', 'copy'))
                   if a[0] != 'fix' and ['a', a[1]] in q['eq']]) for i in regs]
        cs = [(i, c) for i, c in cs if len(c) > 1]
        if not cs:
            return False
        i, c = rng.choice(cs)
        x, y = rng.sample(c, 2)
        q['ops'][i]['acts'].append(['eq', ['l', x], ['l', y]])
    add('copy added', eqn)
    add('copy added', eqn)
    def tb(q):
        t = [o for o in q['ops'] if o['op'] == 'table' and o['cells']]
        if not t:
            return False
        c = rng.choice(rng.choice(t)['cells'])
        c[2] = (c[2] + 1) % P
    add('table value', tb)
    add('k', lambda q: q.update(k=q['k'] + 1))
    add('minimum degree', lambda q: q.update(mindeg=max(q['mindeg'], 7) + 1))
    def ncol(k):
        def f(q):
            q['cols'].append(k)
            if k == 'i':
                for x in q['inst']:
                    x.append([])
        return f
    add('advice column', ncol('a'))
    add('instance column', ncol('i'))
    add('fixed column', ncol('f'))
    def eqc(q):
        na = q['cols'].count('a')
        c = [i for i in range(na) if ['a', i] not in q['eq']]
        if not c:
            return False
        q['eq'].append(['a', rng.choice(c)])
    add('equality column', eqc)
    def inst(q):
        o = [o for o in q['ops'] if o['op'] == 'inst']
        if not o:
            return False
        rng.choice(o)['row'] += 1
    add('public row', inst)
    add('nothing', lambda q: None)
    def wit(q):
        for o in q['ops']:
            if o['op'] == 'region':
                for a in o['acts']:
                    if a[0] == 'adv':
                        a[3] = [rng.randrange(P) for _ in a[3]]
    add('witness', wit)
    add('planner', lambda q: q.update(fp='v1' if q['fp'] == 'simple' else 'simple'))
    return out


def run(ctx):
    ctx.build()
    n = 260 if ctx.thorough else 48
    cases, kinds = [], {}
    for j in range(n):
        r = random.Random(f'C16-{ctx.seed}-{j}')
        if j % 4 == 3:
            p = c04.lookups(r, k=4)
        else:
            p = gen.Gen(r, k=6, mutants=1, maxdeg=3, nlook=r.choice([0, 1])).make()
        ts = tweaks(r, p)
        if not ctx.thorough:
            ts = r.sample(ts, min(len(ts), 12))
        cases.append(dict(id=j, progs=[p] + [q for _, q in ts], names=['original'] + [t for t, _ in ts]))
    h = lambda th: ctx.harness('vk', [dict(id=c['id'], progs=c['progs']) for c in cases], name=f'h{th}', threads=th, jobs=8 if th == 1 else 4)
    outs, outs2 = h(1), h(4)
    good, st = [], dict(pairs=0, cross=0)
    for c, o, o2 in zip(cases, outs, outs2):
        if 'crash' in o or 'crash' in o2:
            ctx.violation(f'case {c["id"]}: {o.get("crash") or o2.get("crash")}', c)
            continue
        made = []
        for a, b in zip(o['made'], o2['made']):
            m = dict(res=a['res'], rec=a.get('rec', dict(ev=[])), errs=a.get('errs', []) + b.get('errs', []), digests=a.get('digests', []) + b.get('digests', []),
                     pins=a.get('pins', []) + b.get('pins', []), sameproof=a.get('sameproof', True) and b.get('sameproof', True))
            if b['res'] != a['res']:
                m['errs'].append('differs between runs')
            made.append(m)
        good.append(dict(id=c['id'], progs=[lib.specprog(p) for p in c['progs']], made=made, cross=o['cross']))
        for nme, m in zip(c['names'], made):
            if m['res'] == 'ok':
                d = kinds.setdefault(nme, [0, 0])
                d[0] += 1
                d[1] += m['digests'][0] != made[0]['digests'][0] if made[0]['digests'] else 0
        st['pairs'] += len(made) - 1
        st['cross'] += sum(x[0] != x[1] for x in o['cross'])
    for i, why in ctx.tlc_cases('VkTrace', good, jobs=7, workers=1):
        v = int(why.split(':')[0])
        ctx.violation(f'case {i} ({cases[i]["names"][v]}) {why}', dict(original=cases[i]['progs'][0], changed=cases[i]['progs'][v]))
    st['differences'] = {k: f'{b} of {a} digests differ' for k, (a, b) in kinds.items()}
    ctx.extra.update(st)
    ctx.samples.append(dict(original=cases[0]['progs'][0], names=cases[0]['names']))
