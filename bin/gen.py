"""Seeded generation of scripted circuits (see harness/src/prog.rs for the format)."""
P = 2013265921


def ev(e, get):
    t = e[0]
    if t == 'c':
        return e[1] % P
    if t in ('s', 'f'):
        return get(t, e[1], 0)
    if t in ('a', 'i'):
        return get(t, e[1], e[2])
    if t == '-':
        return -ev(e[1], get) % P
    if t == '+':
        return (ev(e[1], get) + ev(e[2], get)) % P
    if t == '*':
        return ev(e[1], get) * ev(e[2], get) % P
    return ev(e[1], get) * e[2] % P


def queries(e, acc):
    t = e[0]
    if t in ('a', 'i'):
        acc.append((t, e[1], e[2]))
    elif t in ('s', 'f'):
        acc.append((t, e[1], 0))
    elif t in ('+', '*'):
        queries(e[1], acc)
        queries(e[2], acc)
    elif t in ('-', 'k'):
        queries(e[1], acc)
    return acc


class Gen:
    def __init__(self, rng, **o):
        self.r = rng
        self.o = dict(k=None, nadv=None, nfix=None, ngates=None, nsel=None, nlook=None, nregions=None, rots=(-2, -1, 0, 1, 2),
                      maxdeg=4, inst=True, mutants=2, fp=None, eq=True, consts=True, mindeg=None, instq=True)
        self.o.update(o)

    def val(self):
        r = self.r
        return r.choice([0, 1, 2, 3, P - 1, r.randrange(P), r.randrange(P)])

    def rot(self):
        r = self.r
        return r.choice([0, 0, 0, r.choice(self.o['rots'])])

    def opt(self, name, lo, hi):
        v = self.o[name]
        return self.r.randint(lo, hi) if v is None else v

    def make(self):
        r, o = self.r, self.o
        k = o['k'] or r.choice([4, 5, 5, 5])
        na = max(1, self.opt('nadv', 1, 4))
        nf = self.opt('nfix', 0, 2)
        nsel = self.opt('nsel', 1, 4)
        kinds = [r.choice('sx') for _ in range(nsel)]
        nlook = self.opt('nlook', 0, 2)
        ngates = self.opt('ngates', 0, 3)
        ni = r.randint(0, 2) if o['inst'] else 0
        lookups_shape = [r.randint(1, 2) for _ in range(nlook)]
        nt = sum(lookups_shape)
        xsel = [i for i, c in enumerate(kinds) if c == 'x']
        if nlook and not xsel:
            kinds.append('x')
            nsel += 1
            xsel = [nsel - 1]
        consts = o['consts'] and r.random() < .6
        nfree = nf
        cols = ['a'] * na + ['f'] * (nf + (1 if consts else 0)) + ['t'] * nt + ['i'] * ni
        r.shuffle(cols)
        # selectors keep their relative kind order
        pos = sorted(r.randint(0, len(cols)) for _ in kinds)
        for j, (pp, kd) in enumerate(zip(pos, kinds)):
            cols.insert(pp + j, kd)
        fcols, tcols = [], []
        for c in cols:
            if c == 'f':
                fcols.append(len(fcols) + len(tcols))
            elif c == 't':
                tcols.append(len(fcols) + len(tcols))
        cconst = [fcols.pop()] if consts else []
        eqa = [c for c in range(na) if r.random() < .7] if o['eq'] else []
        eqf = [c for c in fcols if r.random() < .3] if o['eq'] else []
        pub = [0] if ni and o['eq'] else []           # instance column for constrain_instance
        cin = list(range(len(pub), ni))               # instance columns used in gates (constant contents)
        eq = [['a', c] for c in eqa] + [['f', c] for c in eqf] + [['i', c] for c in pub]
        r.shuffle(eq)
        cinval = {c: self.val() for c in cin}

        def leaf(exclude):
            x = r.random()
            if x < .62 or not (fcols or (cin and o['instq'])):
                for _ in range(20):
                    q = ('a', r.randrange(na), self.rot())
                    if q not in exclude:
                        return list(q)
                return ['c', self.val()]
            if x < .75 and fcols:
                return ['f', r.choice(fcols)]
            if x < .88 and cin and o['instq']:
                return ['i', r.choice(cin), self.rot()]
            return ['c', self.val()]

        def expr(deg, exclude):
            if deg <= 0:
                return ['c', self.val()]
            x = r.random()
            if deg == 1 or x < .2:
                e = leaf(exclude)
            elif x < .55:
                d = r.randint(1, deg - 1)
                e = ['*', expr(d, exclude), expr(deg - d, exclude)]
            elif x < .85:
                e = ['+', expr(deg, exclude), expr(r.randint(1, deg), exclude)]
            elif x < .93:
                e = ['-', expr(deg, exclude)]
            else:
                e = ['k', expr(deg, exclude), self.val()]
            return e

        gates, gmeta = [], []
        usedsel = set()
        for g in range(ngates):
            outs = []
            npol = r.choice([1, 1, 2])
            allout = []
            for _ in range(npol):
                for _ in range(20):
                    q = ('a', r.randrange(na), self.rot())
                    if q not in allout:
                        allout.append(q)
                        break
            polys = []
            for q in allout:
                later = allout[allout.index(q):]
                e = expr(r.randint(1, o['maxdeg'] - 1), later)
                polys.append(['+', e, ['-', list(q)]] if r.random() < .7 else ['+', list(q), ['-', e]])
                outs.append((q, e))
            c = r.random()
            unused = [i for i in range(nsel) if i not in usedsel]
            si = r.choice(unused) if unused and r.random() < .9 else r.randrange(nsel)
            usedsel.add(si)
            if c < .1 and fcols:
                sel, act = ['f', r.choice(fcols)], None
            elif kinds[si] == 'x' and len(xsel) > 1 and c < .5:
                o2 = r.choice([x for x in xsel if x != si])
                sel = ['*', ['s', si], ['+', ['c', 1], ['-', ['s', o2]]]]
            else:
                sel = ['s', si]
            if r.random() < .5:
                gates.append({'polys': polys, 'sel': sel})
            else:
                gates.append({'polys': [['*', sel, p] if r.random() < .5 else ['*', p, sel] for p in polys], 'sel': []})
            gmeta.append((sel, outs))
        lookups, lmeta, ops = [], [], []
        ti = iter(tcols)
        for m in lookups_shape:
            un = [x for x in xsel if x not in usedsel]
            s = r.choice(un or xsel)
            usedsel.add(s)
            ins, tabs, dflt = [], [], []
            rot_used = set()
            for j in range(m):
                for _ in range(20):
                    q = ('a', r.randrange(na), self.rot())
                    if q not in rot_used:
                        rot_used.add(q)
                        break
                d = r.choice([0, 0, self.val()])
                e = ['*', ['s', s], list(q)]
                if d:
                    e = ['+', e, ['*', ['+', ['c', 1], ['-', ['s', s]]], ['c', d]]]
                t = next(ti)
                ins.append((e, t))
                tabs.append((q, t))
                dflt.append(d)
            rows = [list(dflt)] + [[self.val() for _ in range(m)] for _ in range(r.randint(0, 4))]
            if len(rows) > 2 and r.random() < .4:
                rows.append(list(rows[-1]))
            if r.random() < .6:
                r.shuffle(rows)
            lookups.append([[e, t] for e, t in ins])
            lmeta.append((s, tabs, rows))
            cells = [[t, o_, row[j]] for o_, row in enumerate(rows) for j, (_, t) in enumerate(tabs)]
            ops.append({'op': 'table', 'cells': cells})
        # regions
        glob = []          # values of global cells: (col kind, col, value, is_advice)
        nreg = self.opt('nregions', 1, 5)
        regions = []
        for _ in range(nreg):
            acts, loc = [], []
            adv, fix, selset = {}, {}, set()

            def put(c, off, v=None):
                """assign advice cell; returns value"""
                if (c, off) in adv:
                    return adv[(c, off)]
                x = r.random()
                srcs = [i for i, g in enumerate(glob) if g[3] and g[1] in eqa]
                if v is None and c in eqa and srcs and x < .3:
                    i = r.choice(srcs)
                    acts.append(['copy', ['g', i], c, off])
                    v = glob[i][2]
                elif v is None and c in eqa and cconst and x < .45:
                    v = self.val()
                    acts.append(['advc', c, off, v])
                    loc.append(('a', c, v, False))
                    adv[(c, off)] = v
                    return v
                else:
                    if v is None:
                        v = self.val()
                    if r.random() < .15:
                        d = r.randrange(1, P)
                        acts.append(['adv', c, off, [[v * d % P, d]]])
                    else:
                        acts.append(['adv', c, off, [v]])
                loc.append(('a', c, v, True))
                adv[(c, off)] = v
                return v

            def putfix(c, off, nz=False):
                if (c, off) not in fix:
                    v = self.val()
                    if nz and v == 0:
                        v = 1
                    fix[(c, off)] = v
                    acts.append(['fix', c, off, v])
                    loc.append(('f', c, v, False))
                return fix[(c, off)]

            for _ in range(r.randint(1, 3)):
                ch = r.random()
                if gmeta and ch < .65:
                    gi = r.randrange(len(gmeta))
                    sel, outs = gmeta[gi]
                    qs = []
                    for q, e in outs:
                        queries(e, qs)
                        qs.append(q)
                    lo = min([q[2] for q in qs if q[0] == 'a'] + [0])
                    off = -lo + r.randint(0, 2)
                    if any((q[1], off + q[2]) in adv for q, _ in outs):
                        continue
                    for q, e in outs:
                        for t, c, rt in queries(e, []):
                            if t == 'a':
                                put(c, off + rt)
                            elif t == 'f':
                                putfix(c, off)
                        get = lambda t, c, rt: adv[(c, off + rt)] if t == 'a' else fix[(c, off)] if t == 'f' else cinval[c]
                        v = ev(e, get)
                        if (q[1], off + q[2]) in adv:
                            continue
                        put(q[1], off + q[2], v)
                    if sel[0] == 's' and ('s', sel[1], off) not in selset:
                        acts.append(['sel', sel[1], off])
                        selset.add(('s', sel[1], off))
                    elif sel[0] == 'f':
                        putfix(sel[1], off, True)
                    elif sel[0] == '*':
                        acts.append(['sel', sel[1][1], off])
                elif lmeta and ch < .9:
                    s, tabs, rows = r.choice(lmeta)
                    lo = min([q[2] for q, _ in tabs] + [0])
                    off = -lo + r.randint(0, 2)
                    row = r.choice(rows)
                    if any((q[1], off + q[2]) in adv for q, _ in tabs):
                        continue
                    for (q, _), v in zip(tabs, row):
                        put(q[1], off + q[2], v)
                    acts.append(['sel', s, off])
                else:
                    put(r.randrange(na), r.randint(0, 2))
            # extra equalities between equal cells
            if o['eq']:
                cand = [(['l', i], g) for i, g in enumerate(loc)] + [(['g', i], g) for i, g in enumerate(glob)]
                cand = [(a, g) for a, g in cand if (g[0] == 'a' and g[1] in eqa) or (g[0] == 'f' and g[1] in eqf)]
                for _ in range(r.randint(0, 4)):
                    if len(cand) < 2:
                        break
                    a, ga = r.choice(cand)
                    same = [b for b, gb in cand if gb[2] == ga[2]]
                    acts.append(['eq', a, r.choice(same)])
                if cconst and cand and r.random() < .3:
                    a, ga = r.choice(cand)
                    acts.append(['cc', a, ga[2]])
            if r.random() < .2 and acts:
                pass
            regions.append({'op': 'region', 'acts': acts})
            glob += loc
        ops += regions
        pubvals = []
        if pub:
            for i, g in enumerate(glob):
                if ((g[0] == 'a' and g[1] in eqa) or (g[0] == 'f' and g[1] in eqf)) and len(pubvals) < 3 and r.random() < .4:
                    ops.append({'op': 'inst', 'cell': i, 'c': 0, 'row': len(pubvals)})
                    pubvals.append(g[2])
        if lookups_shape and r.random() < .5:
            r.shuffle(ops)
            # constrain_instance needs its cell; keep those last, and regions in order (global references)
            it = iter(regions)
            ops = [x for x in ops if x['op'] != 'inst'] + [x for x in ops if x['op'] == 'inst']
            ops = [next(it) if x['op'] == 'region' else x for x in ops]
        # number of blinding rows, to size the gate instance columns
        qa = {}
        for g in gates:
            for pl in g['polys']:
                for t, c, rt in queries(pl, []):
                    if t == 'a':
                        qa.setdefault(c, set()).add(rt)
        for l in lookups:
            for e, _ in l:
                for t, c, rt in queries(e, []):
                    if t == 'a':
                        qa.setdefault(c, set()).add(rt)
        for c in eqa:
            qa.setdefault(c, set()).add(0)
        bf = max([3] + [len(v) for v in qa.values()]) + 2
        usable = 2 ** k - bf - 1
        inst0 = []
        for c in range(ni):
            inst0.append(pubvals if c in pub else [cinval[c]] * usable)
        prog = dict(k=k, fp=o['fp'] or r.choice(['simple', 'v1']), cols=cols, eq=eq, consts=cconst, mindeg=o['mindeg'] if o['mindeg'] is not None else r.choice([0, 0, 0, 5, 7]),
                    gates=gates, lookups=lookups, ops=ops)
        nv = 1 + o['mutants']
        advs = [a for op in ops if op['op'] == 'region' for a in op['acts'] if a[0] == 'adv']
        inst = [[list(c) for c in inst0] for _ in range(nv)]
        for a in advs:
            a[3] = [a[3][0]] * nv
        for v in range(1, nv):
            if advs and r.random() < .8:
                for _ in range(r.choice([1, 1, 2])):
                    a = r.choice(advs)
                    a[3][v] = self.val()
            elif ni:
                c = r.randrange(ni)
                if inst[v][c]:
                    i = r.randrange(len(inst[v][c]))
                    inst[v][c][i] = self.val()
        prog['inst'] = inst
        return prog


def sizes(prog):
    return dict(regions=sum(1 for o in prog['ops'] if o['op'] == 'region'), gates=len(prog['gates']), lookups=len(prog['lookups']),
                copies=sum(1 for o in prog['ops'] if o['op'] == 'region' for a in o['acts'] if a[0] in ('eq', 'copy', 'advc', 'advi', 'cc')))


def usable(prog):
    """usable rows of a scripted circuit (mirrors Plonkish!Usable; only used to size inputs)"""
    qa = {}
    na = sum(1 for c in prog['cols'] if c == 'a')
    def add(e):
        for t, c, r in queries(e, []):
            if t == 'a':
                qa.setdefault(c, set()).add(r)
    for g in prog['gates']:
        for p in g['polys']:
            add(p)
        if g['sel']:
            add(g['sel'])
    for l in prog['lookups']:
        for e, _ in l:
            add(e)
    for t, c in prog['eq']:
        if t == 'a':
            qa.setdefault(c, set()).add(0)
    return 2 ** prog['k'] - (max([3] + [len(v) for v in qa.values()]) + 2) - 1
