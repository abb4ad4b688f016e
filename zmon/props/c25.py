"""Periods against sets of instants: every pair of a small domain, embedded at random places of the time line, in every unit."""
import itertools, pickle
import numpy as np
from ..gen import chance, pick

CASES = {"quick": 780, "thorough": 13000}
UNITS = ('as', 'fs', 'ps', 'ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y')
ORDER = ('is_before', 'is_after', 'contains', 'is_before_overlapping', 'is_after_overlapping', 'is_inside')


def admissible(b1, l1, b2, l2):
    """Names whose picture (see PeriodRelation) matches; several may match when a period holds a single instant."""
    out = set()
    if l2 < b1:
        out.add('AFTER')
    if l1 < b2:
        out.add('BEFORE')
    if out:
        return out
    if b1 == b2 and l1 == l2:
        return {'EXACT_MATCH'}
    if b1 == l2:
        out.add('START_TOUCHING')
    if l1 == b2:
        out.add('END_TOUCHING')
    if b2 < b1 < l2 < l1:
        out.add('START_INSIDE')
    if b1 < b2 < l1 < l2:
        out.add('END_INSIDE')
    if b1 == b2 and l1 < l2:
        out.add('INSIDE_START_TOUCHING')
    if b1 == b2 and l2 < l1:
        out.add('ENCLOSING_START_TOUCHING')
    if b1 < b2 and l2 < l1:
        out.add('ENCLOSING')
    if b1 < b2 and l1 == l2:
        out.add('ENCLOSING_END_TOUCHING')
    if b2 < b1 and l1 < l2:
        out.add('INSIDE')
    if b2 < b1 and l1 == l2:
        out.add('INSIDE_END_TOUCHING')
    return out


def place(rng, unit, n):
    """n increasing positions keeping some of the neighbours adjacent."""
    base = int(pick(rng, [0, -1, -3, 1, 10**4, -10**4, 2**40, -2**40, 2**52])) if unit in UNITS[:6] else int(pick(rng, [0, -2, 1, 1000, -1000, 10**6]))
    pos = [base]
    for _ in range(n - 1):
        pos.append(pos[-1] + int(pick(rng, [1, 1, 1, 2, 3, 50, 10**5])))
    return pos


def check_relation(ctx, what, p, q, b1, l1, b2, l2):
    rel = p.get_relation(q)
    want = admissible(b1, l1, b2, l2)
    ctx.check(rel.name in want, f'{what}: relation', got=rel.name, expected=sorted(want), p=(b1, l1), q=(b2, l2))
    ctx.count(f'rel_{rel.name}')
    flags = [n for n in ORDER if getattr(rel, n)()]
    ctx.check(len(flags) == 1, f'{what}: predicates of {rel.name}', got=flags)
    kind = flags[0]
    ctx.check((kind == 'is_before') == (l1 < b2) and (kind == 'is_after') == (l2 < b1), f'{what}: {rel.name} is {kind}', p=(b1, l1), q=(b2, l2))
    if b1 < l1 and b2 < l2:
        ctx.check(len(want) == 1, 'harness: several relations')
        ctx.check((kind == 'contains') == (b1 <= b2 and l2 <= l1), f'{what}: {rel.name}.contains', p=(b1, l1), q=(b2, l2))
        ctx.check((kind == 'is_inside') == (b2 < b1 and l1 < l2), f'{what}: {rel.name}.is_inside', p=(b1, l1), q=(b2, l2))
        # what remains of the second period lies on one side
        if kind == 'is_before_overlapping':
            ctx.check(b1 <= b2 <= l1 < l2, f'{what}: {rel.name} is_before_overlapping', p=(b1, l1), q=(b2, l2))
        if kind == 'is_after_overlapping':
            ctx.check(b2 < b1 <= l2 <= l1, f'{what}: {rel.name} is_after_overlapping', p=(b1, l1), q=(b2, l2))
    return rel.name


def run(ctx, e):
    from zcollection.merging.period import Period, PeriodRelation
    rng = ctx.rng
    unit = UNITS[ctx.case % len(UNITS)] if hasattr(ctx, 'case') else pick(rng, UNITS)
    n = 5
    pos = place(rng, unit, n)
    t = lambda v: np.datetime64(v, unit)
    d = lambda v: np.timedelta64(v, unit)
    items = []
    for i, j in itertools.combinations_with_replacement(range(n), 2):
        b, l = pos[i], pos[j]
        kind = pick(rng, ['open', 'within', 'duration'])
        p = {'open': lambda: Period(t(b), t(l + 1)), 'within': lambda: Period(t(b), t(l), within=True),
             'duration': lambda: Period.from_duration(t(b), d(l + 1 - b))}[kind]()
        ctx.count(kind)
        items.append((p, b, l))
        ctx.check(p.begin == t(b) and p.last == t(l) and p.end() == t(l + 1), 'limits of a period', got=repr(p), expected=(b, l))
        ctx.check(p.length() == d(l + 1 - b) and p.is_null() is False, 'length of a period', got=str(p.length()), expected=l + 1 - b)
        ctx.check(p == Period(t(b), t(l + 1)) and p == Period(t(b), t(l), within=True) and not p != Period(t(b), t(l + 1)), 'equal periods differ')
        for v in sorted({b - 1, b, b + 1, l - 1, l, l + 1, (b + l) // 2}):
            ctx.check(p.contains(t(v)) == (b <= v <= l), 'containment of an instant', v=v, p=(b, l))
            ctx.check(p.is_before(t(v)) == (l < v), 'is_before an instant', v=v, p=(b, l))
            ctx.check(p.is_after(t(v)) == (v < b), 'is_after an instant', v=v, p=(b, l))
            ctx.count('instants')
        q = pickle.loads(pickle.dumps(p))
        ctx.check(q == p and q.end() == p.end() and q.length() == p.length(), 'a pickled period differs')
        k = int(pick(rng, [0, 1, -1, 7, -10**3]))
        q.shift(d(k))
        ctx.check((q.begin, q.last, q.end(), q.length()) == (t(b + k), t(l + k), t(l + k + 1), p.length()), 'shifted period', got=repr(q), by=k)
        k = abs(k)
        q = Period(t(b), t(l + 1))
        q.expand(d(k))
        ctx.check((q.begin, q.last, q.length()) == (t(b - k), t(l + k), d(l - b + 1 + 2 * k)), 'expanded period', got=repr(q), by=k)
    for i, j in itertools.combinations_with_replacement(range(n), 2):
        b, en = pos[j], pos[i]
        for p in (Period(t(b), t(en)), Period.from_duration(t(b), d(en - b))):
            ctx.check(p.is_null() is True and p.length() == d(en - b), 'an empty period', got=repr(p), length=str(p.length()))
            for v in (b - 1, b, en - 1, en, b + 1):
                ctx.check(not p.contains(t(v)) and not p.is_before(t(v)) and not p.is_after(t(v)), 'an instant of an empty period', v=v, p=(b, en))
        ctx.count('empty_periods')
    for (p, b1, l1), (q, b2, l2) in itertools.product(items, items):
        state = (p.__getstate__(), q.__getstate__())
        name = check_relation(ctx, unit, p, q, b1, l1, b2, l2)
        ov = max(b1, b2) <= min(l1, l2)
        ctx.check(p.intersects(q) is ov, 'intersects', p=(b1, l1), q=(b2, l2))
        ctx.check(p.contains(q) is (b1 <= b2 and l2 <= l1), 'containment of a period', p=(b1, l1), q=(b2, l2))
        ctx.check(bool(p.is_adjacent(q)) is (l1 + 1 == b2 or l2 + 1 == b1), 'adjacency', p=(b1, l1), q=(b2, l2))
        ctx.check((p < q) is (l1 < b2), 'order', p=(b1, l1), q=(b2, l2))
        ctx.check(bool(p == q) is ((b1, l1) == (b2, l2)) and bool(p != q) is ((b1, l1) != (b2, l2)), 'equality', p=(b1, l1), q=(b2, l2))
        x = p.intersection(q)
        if ov:
            ctx.check((x.begin, x.last, x.end()) == (t(max(b1, b2)), t(min(l1, l2)), t(min(l1, l2) + 1)), 'intersection', got=repr(x), p=(b1, l1), q=(b2, l2))
        else:
            ctx.check(x.is_null(), 'intersection of disjoint periods', got=repr(x), p=(b1, l1), q=(b2, l2))
        x = p.merge(q)
        if ov:
            ctx.check((x.begin, x.last, x.length()) == (t(min(b1, b2)), t(max(l1, l2)), d(max(l1, l2) + 1 - min(b1, b2))), 'union', got=repr(x), p=(b1, l1), q=(b2, l2))
        else:
            ctx.check(x.is_null(), 'union of disjoint periods', got=repr(x), p=(b1, l1), q=(b2, l2))
        x = p.span(q)
        ctx.check((x.begin, x.last) == (t(min(b1, b2)), t(max(l1, l2))), 'span', got=repr(x), p=(b1, l1), q=(b2, l2))
        ctx.check(state == (p.__getstate__(), q.__getstate__()), 'an operation changed its operands')
        ctx.count('pairs')
        ctx.sig(unit, name, b1 == l1, b2 == l2, l1 + 1 == b2 or l2 + 1 == b1)
    # periods in different units: the relation follows the order of their first and last instants
    for _ in range(25):
        fine, coarse = pick(rng, [('s', 'D'), ('ms', 's'), ('ns', 'us'), ('us', 'D'), ('s', 'm'), ('h', 'D')])
        ratio = int(np.timedelta64(1, coarse) / np.timedelta64(1, fine))
        b1, b2 = (int(rng.integers(-3, 4)) * ratio + int(pick(rng, [0, 0, 1, -1])) * f for f in (0, 1))
        l1 = b1 + int(rng.integers(0, 4)) * ratio
        l2 = b2 + int(rng.integers(0, 4)) * ratio + int(pick(rng, [0, 0, 1]))
        p = Period(np.datetime64(b1 // ratio, coarse), np.datetime64(l1 // ratio, coarse), within=True)
        q = Period(np.datetime64(b2, fine), np.datetime64(l2, fine), within=True)
        check_relation(ctx, f'{coarse} and {fine}', p, q, b1, l1, b2, l2)
        check_relation(ctx, f'{fine} and {coarse}', q, p, b2, l2, b1, l1)
        ctx.check(p.intersects(q) is (max(b1, b2) <= min(l1, l2)) and (p < q) is (l1 < b2), 'periods in different units', p=(b1, l1), q=(b2, l2))
        # limits in different units: the finest one counts
        x = Period(np.datetime64(b1 // ratio, coarse), np.datetime64(l2, fine))
        ctx.check(x.last == np.datetime64(l2 - 1, fine) and x.end() == np.datetime64(l2, fine) and x.length() == np.timedelta64(l2 - b1, fine), 'limits in different units',
                  got=repr(x))
        x = Period(np.datetime64(b2, fine), np.datetime64(l1 // ratio, coarse))
        ctx.check(x.last == np.datetime64(l1 - 1, fine) and x.end() == np.datetime64(l1, fine), 'limits in different units', got=repr(x))
        ctx.count('mixed_units')
    ctx.sample({'unit': unit, 'positions': pos})
