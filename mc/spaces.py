'''Bounded spaces of pairs of boundary strings, partitioned into jobs.

A case is ('pair', a, b) with a string written as a tuple of sorted tuples of types, or
('sparse', length, ((position, type, side), ...)) with side 0 or 1, or ('periodic', length, pa, pb).
'''
from itertools import combinations, product

_STRINGS = {}


def strings(types, length):
    '''All boundary strings of a length over a set of types, simplest first.'''
    key = (types, length)
    if key not in _STRINGS:
        subsets = [tuple(t for i, t in enumerate(types) if mask >> i & 1) for mask in range(1 << len(types))]
        subsets.sort(key=lambda subset: (len(subset), subset))
        _STRINGS[key] = [tuple(s) for s in product(subsets, repeat=length)]
    return _STRINGS[key]


_FROZEN = {}


def frozen(string):
    result = _FROZEN.get(string)
    if result is None:
        result = tuple(frozenset(position) for position in string)
        if len(_FROZEN) < 100000:
            _FROZEN[string] = result
    return result


PERIODIC = [(1, 0), (2, 0), (2, 1), (3, 1), (5, 2), (7, 3), (11, 0), (13, 12), (37, 5), (256, 0), (257, 0)]


def periodic(length, pattern, types):
    '''Every pattern[0]-th position from pattern[1] on has a boundary; types take turns irregularly.'''
    period, offset = pattern
    return tuple(frozenset([types[(i * 7 // max(1, period)) % len(types)]]) if i % period == offset
                 else frozenset() for i in range(length))


def decode(case):
    '''The two boundary strings of a case.'''
    if case[0] == 'pair':
        return frozen(case[1]), frozen(case[2])
    if case[0] == 'sparse':
        _, length, cells = case
        pair = {}
        for position, boundary_type, side in cells:
            pair.setdefault((side, position), set()).add(boundary_type)
        empty = frozenset()
        result = []
        for side in (0, 1):
            string = [empty] * length
            for (cell_side, position), members in pair.items():
                if cell_side == side:
                    string[position] = frozenset(members)
            result.append(tuple(string))
        return tuple(result)
    if case[0] == 'periodic':
        _, length, first, second, types = case
        return periodic(length, first, types), periodic(length, second, types)
    raise ValueError(case)


def full(types, length, chunk=16):
    '''Jobs over all ordered pairs.'''
    count = len(strings(types, length))
    step = max(1, count // chunk)
    return [('full', types, length, low, min(count, low + step)) for low in range(0, count, step)]


def lone(types, length):
    '''Jobs over all pairs of strings with at most one type per position.'''
    return [('lone', types, length)]


def few(types, length, most, positions=None):
    '''Jobs over all pairs with at most ``most`` boundaries in total.'''
    positions = tuple(range(length)) if positions is None else tuple(sorted(set(
        p for p in positions if 0 <= p < length)))
    cells = len(positions) * len(types) * 2
    whole = 2 if length <= 40 else 1
    jobs = [('few', types, length, size, positions, None) for size in range(0, min(whole, most) + 1)]
    for size in range(whole + 1, most + 1):
        jobs.extend(('few', types, length, size, positions, first) for first in range(cells - size + 1))
    return jobs


def dense(length, types, patterns=None):
    patterns = PERIODIC if patterns is None else patterns
    return [('dense', length, types, first, tuple(patterns)) for first in patterns]


def cases(job):
    kind = job[0]
    if kind == 'full':
        _, types, length, low, high = job
        everything = strings(types, length)
        for a in everything[low:high]:
            for b in everything:
                yield ('pair', a, b)
    elif kind == 'lone':
        _, types, length = job
        everything = [tuple((t,) if t is not None else () for t in chosen) for chosen in product((None,) + types, repeat=length)]
        for a in everything:
            for b in everything:
                yield ('pair', a, b)
    elif kind == 'few':
        _, types, length, size, positions, first = job
        cells = [(p, t, side) for p in positions for t in types for side in (0, 1)]
        if first is None:
            for chosen in combinations(cells, size):
                yield ('sparse', length, chosen)
        else:
            for chosen in combinations(cells[first + 1:], size - 1):
                yield ('sparse', length, (cells[first],) + chosen)
    elif kind == 'dense':
        _, length, types, first, patterns = job
        for second in patterns:
            yield ('periodic', length, first, second, types)
    else:
        raise ValueError(job)


def anchors(length):
    return [p for p in (0, 1, 2, length // 2, length // 2 + 1, 254, 255, 256, 257, 258, length - 2, length - 1)
            if 0 <= p < length]
