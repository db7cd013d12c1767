"""VerifyFailure (Debug text of a public enum) -> tuples the specification uses."""
import re
KIND = {'Advice': 'a', 'Fixed': 'f', 'Instance': 'i'}


def col(s):
    m = re.search(r'column: Column(?:Mid)? \{ (?:index: (\d+), column_type: (\w+)|column_type: (\w+), index: (\d+)) \}', s)
    if m.group(1) is not None:
        return KIND[m.group(2)], int(m.group(1))
    return KIND[m.group(3)], int(m.group(4))


def loc(s):
    m = re.search(r'location: InRegion \{ region: Region \{ index: (\d+), name: "[^"]*" \}, offset: (\d+) \}', s)
    if m:
        return ['in', int(m.group(1)), int(m.group(2))]
    return ['out', int(re.search(r'location: OutsideRegion \{ row: (\d+) \}', s).group(1))]


def gate(s):
    return int(re.search(r'gate: Gate \{ index: (\d+)', s).group(1))


def cons(s):
    m = re.search(r'constraint: Constraint \{ gate: Gate \{ index: (\d+), name: "[^"]*" \}, index: (\d+)', s)
    return int(m.group(1)), int(m.group(2))


def parse(s):
    if s.startswith('CellNotAssigned'):
        k, c = col(s)
        m = re.search(r'region: Region \{ index: (\d+)', s)
        return ['cna', gate(s), int(m.group(1)), int(re.search(r'gate_offset: (\d+)', s).group(1)), k, c, int(re.search(r'[^_]offset: (-?\d+) \}$', s).group(1))]
    if s.startswith('InstanceCellNotAssigned'):
        m = re.search(r'region: Region \{ index: (\d+)', s)
        c = int(re.search(r'column: Column \{ index: (\d+)', s).group(1))
        return ['icna', gate(s), int(m.group(1)), int(re.search(r'gate_offset: (\d+)', s).group(1)), c, int(re.search(r'[ ,]row: (\d+)', s).group(1))]
    if s.startswith('ConstraintNotSatisfied'):
        g, p = cons(s)
        return ['gate', g, p, loc(s)]
    if s.startswith('ConstraintPoisoned'):
        g, p = cons(s)
        return ['poison', g, p]
    if s.startswith('Lookup'):
        return ['lookup', int(re.search(r'lookup_index: (\d+)', s).group(1)), loc(s)]
    if s.startswith('Permutation'):
        k, c = col(s)
        return ['perm', k, c, loc(s)]
    raise ValueError(s)


def values(s, starts, P):
    """cell values printed with a failed constraint: [gate, poly, row, kind, col, rot, value]"""
    if not s.startswith('ConstraintNotSatisfied'):
        return []
    g, p = cons(s)
    l = loc(s)
    row = l[1] if l[0] == 'out' else starts.get(l[1], -1) + l[2]
    out = []
    for m in re.finditer(r'\(VirtualCell \{ name: "[^"]*", column: Column \{ column_type: (\w+), index: (\d+) \}, rotation: (-?\d+) \}, "([^"]+)"\)', s):
        t = m.group(4)
        v = int(t, 16) if t.startswith('0x') else P - 1 if t == '-1' else int(t) if re.fullmatch(r'\d+', t) else -1
        out.append([g, p, row, KIND[m.group(1)], int(m.group(2)), int(m.group(3)), v])
    return out


def region_starts(ev):
    starts, i, cur = {}, -1, None
    for e in ev:
        if e['e'] == 'enter':
            i += 1
            cur = i
        elif e['e'] == 'exit':
            cur = None
        elif cur is not None and e['e'] in ('adv', 'fix'):
            starts[cur] = min(starts.get(cur, 1 << 30), e['r'])
    return starts
