"""Parser for Rust Debug text, and reading of a pinned verifying key."""
import re

TOK = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(<\d+>)|(0x[0-9a-f]+)|(-?\d+)|([A-Za-z_]\w*)|([\[\](){},:]))')


def tokens(s):
    i, out = 0, []
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise ValueError(s[i:i + 60])
        i = m.end()
        out.append(m)
    return out


def parse(s):
    """Name{..} -> (Name, dict), Name(..) -> (Name, list), [..] -> list, (..) -> tuple, numbers -> int"""
    t = tokens(s)
    pos = 0

    def seq(end):
        nonlocal pos
        out = []
        while t[pos].group(6) != end:
            out.append(val())
            if t[pos].group(6) == ',':
                pos += 1
        pos += 1
        return out

    def val():
        nonlocal pos
        m = t[pos]
        pos += 1
        if m.group(1):
            return m.group(1)[1:-1]
        if m.group(2):
            return int(m.group(2)[1:-1])
        if m.group(3):
            return int(m.group(3), 16)
        if m.group(4):
            return int(m.group(4))
        if m.group(5):
            n = m.group(5)
            if pos < len(t) and t[pos].group(6) == '{':
                pos += 1
                d = {}
                while t[pos].group(6) != '}':
                    k = t[pos].group(5)
                    pos += 2
                    d[k] = val()
                    if t[pos].group(6) == ',':
                        pos += 1
                pos += 1
                return (n, d)
            if pos < len(t) and t[pos].group(6) == '(':
                pos += 1
                return (n, seq(')'))
            return (n, None)
        c = m.group(6)
        if c == '[':
            return seq(']')
        if c == '(':
            return tuple(seq(')'))
        if c == '{':          # map
            return seq('}')
        raise ValueError(c)
    return val()


def expr(x):
    n, a = x
    if n == 'Constant':
        return ['c', a[0]]
    if n in ('Fixed', 'Advice', 'Instance'):
        r = a['rotation'][1][0]
        k = {'Fixed': 'f', 'Advice': 'a', 'Instance': 'i'}[n]
        if k == 'f' and r == 0:
            return ['f', a['column_index']]
        return [k, a['column_index'], r]
    if n == 'Negated':
        return ['-', expr(a[0])]
    if n == 'Sum':
        return ['+', expr(a[0]), expr(a[1])]
    if n == 'Product':
        return ['*', expr(a[0]), expr(a[1])]
    if n == 'Scaled':
        return ['k', expr(a[0]), a[1]]
    if n == 'Selector':
        return ['s', a[0][1][0] if isinstance(a[0], tuple) else a[0]]
    raise ValueError(n)


def query(q):
    c, r = q
    k = {'Advice': 'a', 'Fixed': 'f', 'Instance': 'i'}[c[1]['column_type'][0]]
    return [k, c[1]['index'], r[1][0]]


def vk(text):
    _, d = parse(text)
    cs = d['cs'][1]
    return dict(
        k=d['domain'][1]['k'], ek=d['domain'][1]['extended_k'], omega=d['domain'][1]['omega'],
        nfix=cs['num_fixed_columns'], nadv=cs['num_advice_columns'], ninst=cs['num_instance_columns'],
        gates=[expr(g) for g in cs['gates']],
        aq=[query(q) for q in cs['advice_queries']], iq=[query(q) for q in cs['instance_queries']], fq=[query(q) for q in cs['fixed_queries']],
        perm=[query((c, ('Rotation', [0])))[:2] for c in cs['permutation'][1]['columns']],
        lookups=[dict(i=[expr(e) for e in l[1]['input_expressions']], t=[expr(e) for e in l[1]['table_expressions']]) for l in cs['lookups']],
        fixed=d['fixed_commitments'], sigma=d['permutation'][1]['commitments'])
