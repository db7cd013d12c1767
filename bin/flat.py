"""A recorded gadget circuit as a list of equations and table memberships over its equality classes.

Variables are numbered by the first assignment of a cell of the class (the order in which the prover
computes them), so the last variable of a constraint is the one the prover computed from the others."""
import pinned


class Inconsistent(Exception):
    pass


def _fold(e, sel):
    """Replace the selectors by 0/1 and simplify products with 0, sums with 0."""
    k = e[0]
    if k == 's':
        return ['c', 1 if e[1] in sel else 0]
    if k in ('c', 'v', 'a', 'f', 'i'):
        return e
    if k == '-':
        a = _fold(e[1], sel)
        return ['c', 0] if a == ['c', 0] else ['-', a]
    if k == 'k':
        a = _fold(e[1], sel)
        return ['c', 0] if a == ['c', 0] or e[2] == 0 else ['k', a, e[2]]
    a, b = _fold(e[1], sel), _fold(e[2], sel)
    if k == '+':
        return b if a == ['c', 0] else a if b == ['c', 0] else ['+', a, b]
    if a == ['c', 0] or b == ['c', 0]:
        return ['c', 0]
    if a == ['c', 1]:
        return b
    if b == ['c', 1]:
        return a
    return ['*', a, b]


def _sels(e, out):
    if e[0] == 's':
        out.add(e[1])
    elif e[0] in '+*':
        _sels(e[1], out), _sels(e[2], out)
    elif e[0] in '-k':
        _sels(e[1], out)
    return out


def _queries(e, out):
    if e[0] in ('a', 'i'):
        q = (e[0], e[1], e[2])
    elif e[0] == 'f':
        q = ('f', e[1], e[2] if len(e) > 2 else 0)
    elif e[0] in '+*':
        _queries(e[1], out), _queries(e[2], out)
        return out
    elif e[0] in '-k':
        return _queries(e[1], out)
    else:
        return out
    if q not in out:
        out.append(q)
    return out


def _hole(e, qs):
    k = e[0]
    if k in ('a', 'i'):
        return ['v', qs.index((k, e[1], e[2])) + 1]
    if k == 'f':
        return ['v', qs.index(('f', e[1], e[2] if len(e) > 2 else 0)) + 1]
    if k == 'c':
        return ['c', '%x' % e[1]]
    if k in '+*':
        return [k, _hole(e[1], qs), _hole(e[2], qs)]
    if k == '-':
        return ['-', _hole(e[1], qs)]
    if k == 'k':
        return ['*', _hole(e[1], qs), ['c', '%x' % e[2]]]
    raise ValueError(k)


def flatten(o, k):
    """o: output of gv for one case.  Returns the system for Circ.tla, with the cells of each variable."""
    _, cs = pinned.parse(o['cs'])
    n = 1 << k
    aq = [pinned.query(q) for q in cs['advice_queries']]
    per = {}
    for q in aq:
        per[q[1]] = per.get(q[1], 0) + 1
    usable = n - (max(3, max(per.values() or [0])) + 3)

    fixed = {}
    for c, r, v in o['fix']:
        fixed[c, r] = v or '0'
    fill = {c: (r, v or '0') for c, r, v in o['fill']}

    def fx(c, r):
        if (c, r) in fixed:
            return fixed[c, r]
        if c in fill and fill[c][0] <= r < usable:
            return fill[c][1]
        return '0'

    # classes
    par = {}

    def find(x):
        while par.get(x, x) != x:
            par[x] = par.get(par[x], par[x])
            x = par[x]
        return x
    for a, b in o['copy']:
        a, b = find(tuple(a)), find(tuple(b))
        if a != b:
            par[b] = a
    order, val = {}, {}
    for i, (c, r, v) in enumerate(o['adv']):
        x = find(('a', c, r))
        order.setdefault(x, i)
        val.setdefault(x, v or '0')
    const = {}
    for x in dict.fromkeys(tuple(y) for ab in o['copy'] for y in ab):
        if x[0] == 'f':
            y, v = find(x), fx(x[1], x[2])
            if const.setdefault(y, v) != v:
                raise Inconsistent(f'two different fixed values are tied together: {const[y]} and {v} at {x}')
    bad = []          # honest cells whose value differs within a class
    for c, r, v in o['adv']:
        x = find(('a', c, r))
        want = const.get(x, val[x])
        if (v or '0') != want:
            bad.append([c, r])

    var, cells = {}, []
    for x in sorted((x for x in order if x not in const), key=lambda x: order[x]):
        var[x] = len(var) + 1
    w = [val[x] for x in sorted(var, key=var.get)]
    touched = set((c, r) for c, r, _ in o['adv'])

    def arg(q, r):
        kd, c, rot = q
        r = (r + rot) % n
        if kd == 'f':
            return fx(c, r)
        x = find((kd, c, r))
        if x in const:
            return const[x]
        if x not in var:
            if kd == 'i':
                return o['inst'][r] if r < len(o['inst']) else '0'
            var[x] = len(var) + 1
            w.append('0')
        return var[x]

    enabled = {}
    for s, r in o['sel']:
        enabled.setdefault(s, set()).add(r)
    rowsel = {}
    for s, rs in enabled.items():
        for r in rs:
            rowsel.setdefault(r, set()).add(s)
    tmpl, tkey, cons, at = [], {}, [], []

    def template(key, es):
        if key not in tkey:
            qs = []
            for e in es:
                _queries(e, qs)
            tkey[key] = (len(tmpl) + 1, qs)
            tmpl.append([_hole(e, qs) for e in es])
        return tkey[key]

    gates = [pinned.expr(g) for g in cs['gates']]
    for gi, g in enumerate(gates):
        ss = _sels(g, set())
        idle = _fold(g, set())
        rows = range(usable) if idle != ['c', 0] else sorted(set().union(*[enabled.get(s, set()) for s in ss]) if ss else [])
        for r in rows:
            on = frozenset(ss & rowsel.get(r, set()))
            key = ('g', gi, on)
            if key not in tkey:
                e = _fold(g, on)
                if e == ['c', 0]:
                    tkey[key] = None
                else:
                    template(key, [e])
            if tkey[key] is None:
                continue
            t, qs = tkey[key]
            cons.append([t, 0, [arg(q, r) for q in qs]])
            at.append(['gate', gi, r])
    tabs, tabkey = [], {}
    for li, l in enumerate(cs['lookups']):
        l = l[1]
        ins, outs = [pinned.expr(e) for e in l['input_expressions']], [pinned.expr(e) for e in l['table_expressions']]
        key = repr(outs)
        if key not in tabkey:
            if any(e[0] != 'f' for e in outs):
                raise ValueError('table expression that is not a fixed column')
            rows = dict.fromkeys(tuple(fx(e[1], r) for e in outs) for r in range(usable))
            tabs.append([list(x) for x in rows])
            tabkey[key] = (len(tabs), set(rows))
        tab, tset = tabkey[key]
        ss = set()
        qs0 = []
        for e in ins:
            _sels(e, ss)
            _queries(e, qs0)
        ra = [q[2] for q in qs0 if q[0] == 'a']
        cols = {}
        for q in qs0:
            if q[0] == 'a':
                cols.setdefault(q[1], set()).add(q[2])
        rows = sorted({(r - d) % n for c, r in touched for d in cols.get(c, ())} & set(range(usable)))
        for r in rows:
            on = frozenset(ss & rowsel.get(r, set()))
            key = ('l', li, on)
            if key not in tkey:
                template(key, [_fold(e, on) for e in ins])
            t, qs = tkey[key]
            if all(e[0] == 'c' for e in tmpl[t - 1]) and tuple(e[1] for e in tmpl[t - 1]) in tset:
                continue
            cons.append([t, tab, [arg(q, r) for q in qs]])
            at.append(['lookup', li, r])
    # a constraint identical to another one says nothing more
    seen, c2, a2 = set(), [], []
    for c, a in zip(cons, at):
        key = (c[0], c[1], tuple(c[2]))
        if key not in seen:
            seen.add(key)
            c2.append(c)
            a2.append(a)
    io = []
    for i in range(len(o['io'])):
        x = find(('i', 0, i))
        io.append(const[x] if x in const else var[x])
    rep = {}
    for x in list(order) + [x for x in par if x[0] == 'a']:
        y = find(x)
        if y in var:
            rep.setdefault(var[y], set())
    for c, r in touched:
        y = find(('a', c, r))
        if y in var:
            rep.setdefault(var[y], set()).add((c, r))
    for x, i in var.items():
        if x[0] == 'a':
            rep.setdefault(i, set()).add((x[1], x[2]))
    # constants are numbered after the variables
    nv, w2, idx = len(w), list(w), {}
    def num(a):
        if isinstance(a, int):
            return a
        if a not in idx:
            w2.append(a)
            idx[a] = len(w2)
        return idx[a]
    c2 = [[t, tab, [num(a) for a in xs]] for t, tab, xs in c2]
    io = [num(a) for a in io]
    return dict(p=o['p'], n=nv, w=w2, t=tmpl, c=c2, tabs=tabs, io=io), dict(at=a2, cells={v: sorted(c) for v, c in rep.items()}, bad=bad, usable=usable)
