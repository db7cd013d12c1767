"""Cases for spec/ProofTrace.tla: real proofs of scripted circuits, recorded."""
import random
import gen, pinned

P = gen.P


def proof_sets(rng, prog, many=True, tamper=6, alt=4):
    nv = len(prog['inst'])
    sets = [dict(vs=[v]) for v in range(nv)]
    if many:
        sets.append(dict(vs=[0, 0]))
        if nv > 1:
            sets.append(dict(vs=rng.choice([[0, 1], [1, 0], [0, nv - 1, 0]])))
    for s in sets:
        s['tamper'] = [[rng.randrange(1 << 20), rng.choice([1, P - 1, rng.randrange(1, P)])] for _ in range(tamper)]
        s['alt'] = []
        inst = prog['inst'][0]
        u = 2 ** prog['k'] - 6
        for _ in range(alt if inst else 0):
            c = rng.randrange(len(inst))
            pi = rng.randrange(len(s['vs']))
            col = prog['inst'][s['vs'][pi]][c]
            r = rng.choice([rng.randrange(len(col)) if col else 0, len(col)])
            old = col[r] if r < len(col) else 0
            if r < gen.usable(prog):
                s['alt'].append([pi, c, r, rng.choice([old, (old + 1) % P, 0, rng.randrange(P)])])
    return sets


def case(rng, prog, cid, **o):
    return dict(id=cid, want=['rec', 'vk', 'proof'], prog=prog, proofs=proof_sets(rng, prog, **o), seed=rng.randrange(1 << 40),
                threads=(1, 2, 1, 3, 8)[sum(map(ord, str(cid))) % 5])


def attach(c, o):
    x = dict(id=c['id'], prog=c['prog'], rec=o['rec'][:-1], params=o['params'], vk=pinned.vk(o['vk']['pinned']), proofs=[])
    for s, p in zip(c['proofs'], o['proofs']):
        q = dict(vs=p['vs'], res=p['res'], inst=p['inst'], pev=p['pev'], len=p['len'], alt=s.get('alt', []), altres=[], tam=[], vres='', vev=[], vpos=0)
        for k in ('vres', 'vev', 'vpos', 'altres', 'tam'):
            if k in p:
                q[k] = p[k]
        x['proofs'].append(q)
    return x


def strip(c):
    return {k: v for k, v in c.items() if k not in ('grow', 'o')}


def maxrow(rec):
    m = 0
    for r in rec:
        for e in r['ev']:
            m = max([m] + [e[k][2] for k in 'ab' if k in e] + ([e['r']] if 'r' in e else []))
    return m


def fits(prog, o):
    return maxrow(o['rec']) < gen.usable(prog)


def run(ctx, cases, why='proof', count=None):
    outs = ctx.harness('circuit', [strip(c) for c in cases])
    # a circuit that does not fit its k is regrown with a larger one (C14 is about the refusal itself)
    for _ in range(3):
        redo = [i for i, (c, o) in enumerate(zip(cases, outs)) if 'grow' in c and 'rec' in o and not fits(c['prog'], o)]
        if not redo:
            break
        for i in redo:
            c = cases[i]
            cases[i] = case(random.Random(str(c['id'])), c['grow'](c['prog']['k'] + 1), c['id'], **c.get('o', {}))
            cases[i]['grow'] = c['grow']
        new = ctx.harness('circuit', [strip(cases[i]) for i in redo], name='g')
        for i, o in zip(redo, new):
            outs[i] = o
    good, st = [], dict(proofs=0, accepted=0, tampered=0, altered=0)
    for c, o in zip(cases, outs):
        e = o.get('crash') or o.get('conferr') or next((o[k] for k in ('vkres', 'pkres') if o.get(k) != 'ok'), None)
        if e:
            ctx.violation(f'case {c["id"]}: {e}', strip(c))
            continue
        x = attach(c, o)
        good.append(x)
        for p in x['proofs']:
            st['proofs'] += 1
            st['accepted'] += p['vres'] == 'ok'
            st['tampered'] += len(p['tam'])
            st['altered'] += len(p['alt'])
    byid = {c['id']: c for c in cases}
    for i, w in ctx.tlc_cases('ProofTrace', good, jobs=7, workers=1):
        ctx.violation(f'case {i} proof {w}', strip(byid[i]))
    ctx.extra.update(st)
    if good:
        ctx.samples.append(dict(prog=good[0]['prog'], proof=good[0]['proofs'][0]))
    return good
