"""C20: the Table16 chip computes the SHA-256 compression function, and its constraints leave no other output."""
import concurrent.futures as cf
import re
import flat, gadget
from lib import ToolError

ASSUMPTIONS = ['whole blocks: the gadget does not pad, and what it calls the digest is the output of the compression function (known finding)',
               'determinism for all witnesses by rules whose soundness is checked on small random systems; functional agreement on the blocks run']
CFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'


def halves(x):
    return [x >> 16, x & 65535]


def flatten(a):
    o, k = a
    try:
        s, m = flat.flatten(o, k)
        return s, dict(bad=m['bad'], cells={v: c for v, c in m['cells'].items()})
    except flat.Inconsistent as e:
        return str(e), None


def record(ctx):
    """the cases, by shape; the first three of each shape have random words"""
    r, q = ctx.rng, not ctx.thorough
    cases = []

    def case(shape, words, via='chip', chunks=(), **k):
        cases.append(dict(dict(id=len(cases) + 1, g='sha', k=17, via=via, nomock=True, words=list(words), chunks=list(chunks), shape=shape), **k))
    rnd = lambda n: [r.randrange(1 << 32) for _ in range(n)]
    full = (1 << 32) - 1
    for _ in range(3):
        case('one', rnd(16))
    case('one', [0] * 16)
    case('one', [full] * 16)
    case('one', [0x61626380] + [0] * 14 + [24])
    for _ in range(10 if q else 120):
        w = rnd(16)
        for i in range(16):
            x = r.random()
            if x < .3:
                w[i] = r.choice([0, full, 1, 1 << 31, 0x55555555, 0xaaaaaaaa, 0xffff, 0xffff0000, 1 << r.randrange(32), full ^ 1 << r.randrange(32)])
        case('one', w, via=r.choice(['chip', 'digest', 'upd']), chunks=r.choice([[16], [3, 13], [1] * 16, [0, 15, 1]]))
    two = [rnd(32) for _ in range(3)]
    for w, v, ch in zip(two, ['chip', 'digest', 'upd'], [[], [], [16, 16]]):
        case('two', w, via=v, chunks=ch)
        case('one', w[:16])
    for ch in ([5, 27], [16, 3, 13], [32], [31, 1]) if q else ([5, 27], [16, 3, 13], [32], [31, 1], [1] * 32, [15, 2, 15], [16, 0, 16]):
        case('two', rnd(32), via='upd', chunks=ch)
    case('three', rnd(48), via='upd', chunks=[8, 24, 16], plain=True)
    if not q:
        case('three', rnd(48), via='digest', plain=True)
        case('three', rnd(48), via='upd', chunks=[1, 46, 1], plain=True)
        case('four', rnd(64), via='upd', chunks=[16, 32, 16], plain=True)
    case('two', rnd(32), via='upd', chunks=[16, 16], nomock=False)
    # heavy one first, in a process of its own
    order = [cases[-1]] + cases[:-1]
    outs = ctx.harness('x', order, name='rec', timeout=700)
    return cases, {c['id']: o for c, o in zip(order, outs)}


def run(ctx):
    ctx.build('gharness', 'gv_sha')
    gadget.forced_check(ctx, 240 if not ctx.thorough else 3000)
    cases, outs = record(ctx)
    good = []
    for c in cases:
        o = outs[c['id']]
        m = re.findall(r'Some\((\d+)\)', o.get('digest', ''))
        if o.get('syn') != 'ok' or len(m) != 8:
            ctx.violation(f'case {c["id"]} ({c["via"]} {len(c["words"])} words in {c["chunks"]}): no digest: {str(o.get("crash") or o.get("conf") or o.get("syn"))[:200]}', c)
            continue
        if not c['nomock'] and o.get('mock') != 'ok':
            ctx.violation(f'case {c["id"]}: the mock prover rejects an honest run: {str(o.get("mock"))[:300]}', c)
        c['digest'] = [int(x) for x in m]
        good.append(c)
    with cf.ProcessPoolExecutor(8) as ex:
        fl = dict(zip([c['id'] for c in good], ex.map(flatten, [(outs[c['id']], c['k']) for c in good])))
    first = {}
    key = lambda s: (s['n'], s['t'], s['tabs'], [[t, tab, [a if a <= s['n'] else s['w'][a - 1] for a in xs]] for t, tab, xs in s['c']])
    by = {}
    for c in good:
        s, m = fl[c['id']]
        if m is None or m['bad']:
            ctx.violation(f'case {c["id"]}: an honest witness has tied cells of different values: {s if m is None else m["bad"][:3]}', c)
            continue
        k = key(s)
        if first.setdefault(c['shape'], k) != k:
            ctx.violation(f'case {c["id"]}: the circuit for {c["shape"]} block(s) depends on the message or on how it is given', c)
            continue
        by.setdefault(c['shape'], []).append((c, s))
    jobs = []

    def find(shape, f):
        """variables whose value is f(case) in every run of the shape"""
        rs = by[shape]
        out = None
        for c, s in rs:
            x = f(c)
            if x is None:
                continue
            x = '%x' % x
            vs = range(s['n']) if out is None else out
            out = [v for v in vs if s['w'][v] == x]
        return [v + 1 for v in out or []]

    def ask(shape, name, fix, small, want, aid):
        return dict(id=aid, name=f'{shape}: {name}', fix=sorted(fix), small=sorted(small), want=[dict(name=n, any=a) for n, a in want])
    nid = 1000

    for shape, rs in by.items():
        runs = [dict(id=c['id'], words=[halves(x) for x in c['words']], digest=[halves(x) for x in c['digest']], w=s['w']) for c, s in rs]
        sys_ = rs[0][1]
        parts = 6 if shape == 'one' else 2 if len(runs) > 2 else 1
        for j in range(parts):
            jobs.append((f'{shape}_{j}', dict(sys=sys_, runs=runs[j::parts], asks=[], table=shape == 'one' and j == 0)))
        if shape not in ('one', 'two'):
            continue
        nw = len(rs[0][0]['words'])
        W = [find(shape, lambda c: c['words'][i]) for i in range(nw)]
        for i, x in enumerate(W):
            if not x:
                x += find(shape, lambda c: c['words'][i] >> 16) + find(shape, lambda c: c['words'][i] & 65535)
            if not x:
                ctx.violation(f'{shape}: message word {i} is in no cell', None)
        W = set(sum(W, []))
        D = [find(shape, lambda c: c['digest'][i]) for i in range(8)]
        for i in range(8):
            if not D[i]:
                ctx.violation(f'{shape}: digest word {i} is in no cell', None)
        words = lambda: [(f'digest word {i} is not determined by the message', [D[i]]) for i in range(8)]
        asks = [('given the message', W, set(), words())]
        for n, fix, sm, want in asks:
            nid += 1
            jobs.append((f'{shape}_{nid}', dict(sys=sys_, runs=[], asks=[ask(shape, n, fix, sm, want, nid)], table=False)))
    jobs.sort(key=lambda j: (not j[1]['asks'], j[0]))

    def go(j):
        return ctx.tlc('ShaTrace', CFG, {'cases.json': j[1]}, name='Sha_' + j[0], workers=1, timeout=700, heap='3g')
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(go, jobs))
    info = {c['id']: c for c in good}
    for (n, d), r in zip(jobs, rs):
        for p in r['rejects']:
            _, i, why = p.split('|', 2)
            c = info.get(int(i), {})
            ctx.violation(f'{n}: {why[:400]} {c.get("via", "")} {c.get("chunks", "")}', c or None)
        done = sum(1 for p in r['prints'] if p.startswith('DONE|'))
        if done != len(d['runs']) + len(d['asks']) + d['table']:
            raise ToolError(f'ShaTrace {n}: {done} steps done')
        ctx.traces += len(d['runs'])
        for p in r['prints']:
            if p.startswith('FORCED|'):
                _, a, b, t = p.split('|')
                ctx.extra.setdefault('determined', []).append(f'{a}: {b} of {t} variables')
    if good:
        ctx.samples.append(dict(words=good[0]['words'], digest=good[0]['digest']))

