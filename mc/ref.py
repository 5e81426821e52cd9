'''Reference model: what the package is documented to compute, written over exact fractions and kept
boring. Nothing here imports the package under test.'''
from __future__ import division
from fractions import Fraction
from itertools import combinations, product

F = Fraction


# -- encodings of a single-type segmentation ---------------------------------------------
# A segmentation of n units is a tuple of n - 1 bits; bit i is 1 if a segment ends after unit i.
def masses(bits):
    result = [1]
    for bit in bits:
        if bit:
            result.append(1)
        else:
            result[-1] += 1
    return tuple(result)


def positions(bits, labels=None):
    '''One label per unit; labels[i] (default i + 1) for the i-th segment.'''
    index, result = 0, []
    for bit in (0,) + tuple(bits):
        index += bit
        result.append(index + 1 if labels is None else labels[index])
    return tuple(result)


def nltk(bits, symbol='1', other='0'):
    return ''.join(symbol if bit else other for bit in bits)


def sets(bits):
    return tuple(frozenset([1]) if bit else frozenset() for bit in bits)


def bits_of_masses(segment_masses):
    bits = []
    for mass in segment_masses:
        bits.extend([0] * (mass - 1) + [1])
    return tuple(bits[:-1])


def all_bits(length):
    return product((0, 1), repeat=length)


# -- boundary edit distance -----------------------------------------------------------------
class Edits(object):
    '''What boundary edit distance must report.'''

    def __init__(self, transpositions, rest, matches, misses, types, total, length):
        self.transpositions = transpositions    # sorted list of (start, end, type)
        self.rest = rest                        # per position: (types only a has, types only b has)
        self.matches = matches                  # sorted list of types
        self.misses = misses                    # sorted list of types
        self.types = types                      # types present
        self.total = total                      # boundaries of both
        self.length = length
        self.substitutions = sum(min(len(a), len(b)) for a, b in rest)
        self.additions_a = sum(max(0, len(a) - len(b)) for a, b in rest)
        self.additions_b = sum(max(0, len(b) - len(a)) for a, b in rest)
        self.distance = sum(pair_cost(a, b) for a, b in rest if a and b)
        self.spans = sum(end - start for start, end, _ in transpositions)

    @property
    def count(self):
        return (self.additions_a + self.additions_b + self.substitutions + len(self.transpositions))

    def default_cost(self, n_t):
        cost = F(self.additions_a + self.additions_b)
        if self.substitutions:
            cost += F(self.distance, max(self.types) - min(self.types) + 1)
        return cost + F(self.spans, n_t)

    def potential(self):
        return self.length * max(1, len(self.types))

    def b_parts(self, n_t):
        denominator = self.count + len(self.matches)
        return denominator - self.default_cost(n_t), denominator

    def s_parts(self, n_t):
        return self.potential() - self.default_cost(n_t), self.potential()


def pair_cost(first, second):
    '''Least total distance of pairing all of the smaller set with different elements of the other.'''
    small, large = sorted((sorted(first), sorted(second)), key=len)
    best = {0: 0}        # number of small elements already paired -> least cost
    for value in large:
        new = dict(best)
        for paired, cost in best.items():
            if paired < len(small):
                cost += abs(small[paired] - value)
                if paired + 1 not in new or new[paired + 1] > cost:
                    new[paired + 1] = cost
        best = new
    return best[len(small)]


def bed(a, b, n_t):
    '''Edits between two equally long sequences of frozensets of types.'''
    length = len(a)
    only_a = [set(x - y) for x, y in zip(a, b)]
    only_b = [set(y - x) for x, y in zip(a, b)]
    transpositions = []
    differing = [i for i in range(length) if only_a[i] or only_b[i]]
    ever = set(differing)
    for span in range(1, n_t):
        for i in differing:
            j = i + span
            if j not in ever:
                continue
            for t in sorted(only_a[i] | only_b[i]):
                opposite = ((t in only_a[i] and t in only_b[j]) or
                            (t in only_b[i] and t in only_a[j]))
                if not opposite:
                    continue
                if only_a[i] and only_b[i] and only_a[j] and only_b[j]:
                    continue        # would break up substitutions at both positions
                transpositions.append((i, j, t))
                for side in (only_a, only_b):
                    side[i].discard(t)
                    side[j].discard(t)
    matches, misses, total = [], [], 0
    types = set()
    for x, y in zip(a, b):
        matches.extend(x & y)
        misses.extend(x ^ y)
        total += len(x) + len(y)
        types |= x | y
    rest = [(frozenset(x), frozenset(y)) for x, y in zip(only_a, only_b) if x or y]
    return Edits(sorted(transpositions), rest, sorted(matches), sorted(misses), types, total, length)


def optimal_edits(only_a, only_b):
    '''All (additions, substitutions) of one position that are as many and as cheap as possible, each as
    sorted tuples of (type, side) and (type_a, type_b).'''
    side, small, large = 'a', only_b, only_a
    if len(only_a) < len(only_b):
        side, small, large = 'b', only_a, only_b
    least = pair_cost(only_a, only_b)
    found = set()
    small = sorted(small)

    def extend(index, free, pairs, cost):
        if cost > least:
            return
        if index == len(small):
            if cost == least:
                substitutions = tuple(sorted((x, y) if side == 'a' else (y, x) for x, y in pairs))
                found.add((tuple(sorted((t, side) for t in free)), substitutions))
            return
        for t in sorted(free):
            extend(index + 1, free - {t}, pairs + ((t, small[index]),), cost + abs(t - small[index]))

    extend(0, frozenset(large), (), 0)
    return sorted(found)


def explained(rest, additions, substitutions):
    '''Whether the reported additions and substitutions are the sum of one optimal choice per position.'''
    if len(additions) != sum(abs(len(a) - len(b)) for a, b in rest):
        return False
    if len(substitutions) != sum(min(len(a), len(b)) for a, b in rest):
        return False
    wanted_a, wanted_s = {}, {}
    for entry in additions:
        wanted_a[entry] = wanted_a.get(entry, 0) + 1
    for entry in substitutions:
        wanted_s[entry] = wanted_s.get(entry, 0) + 1
    choices = []
    for only_a, only_b in rest:
        options = optimal_edits(only_a, only_b)
        if len(options) == 1:
            if not _take(wanted_a, options[0][0]) or not _take(wanted_s, options[0][1]):
                return False
        else:
            choices.append(options)

    def search(index):
        if index == len(choices):
            return True
        for added, paired in choices[index]:
            if _take(wanted_a, added):
                if _take(wanted_s, paired):
                    if search(index + 1):
                        return True
                    _give(wanted_s, paired)
                _give(wanted_a, added)
        return False

    return search(0)


def _take(counts, entries):
    for index, entry in enumerate(entries):
        if not counts.get(entry):
            _give(counts, entries[:index])
            return False
        counts[entry] -= 1
    return True


def _give(counts, entries):
    for entry in entries:
        counts[entry] = counts.get(entry, 0) + 1


def ratio(parts):
    '''Value of a (numerator, denominator) of B or S.'''
    return F(parts[0]) / parts[1] if parts[1] else F(1)


# -- window metrics (over boundary bits) --------------------------------------------------------
def cumulative(bits):
    total, result = 0, [0]
    for bit in bits:
        total += bit
        result.append(total)
    return result


def pk_parts(hyp, ref, k):
    ch, cr = cumulative(hyp), cumulative(ref)
    windows = max(0, len(ch) - k)
    differ = sum(1 for i in range(windows) if (ch[i] == ch[i + k]) != (cr[i] == cr[i + k]))
    return differ, windows


def wd_parts(hyp, ref, k):
    ch, cr = cumulative(hyp), cumulative(ref)
    windows = max(0, len(ch) - k)
    differ = sum(1 for i in range(windows) if ch[i + k] - ch[i] != cr[i + k] - cr[i])
    return differ, windows


def wd_fix_parts(hyp, ref, k):
    pad = (0,) * (k - 1)
    differ, windows = wd_parts(pad + (1,) + tuple(hyp) + (1,) + pad, pad + (1,) + tuple(ref) + (1,) + pad, k)
    return differ, windows + 1


def quotient(parts):
    return F(parts[0], parts[1]) if parts[1] > 0 else F(0)


def window_size(all_masses, fnc=None):
    half = F(sum(all_masses), len(all_masses)) / 2
    return max(2, int((fnc or round)(half)))


# -- agreement --------------------------------------------------------------------------------------
def agreement(dataset, parts, pbs):
    '''dataset: {item: {coder: segmentation}}; parts(a, b) -> (numerator, denominator); pbs(a, b) ->
    (boundaries of a, boundaries of b, potential boundaries). Returns A_a, pi A_e, kappa A_e.'''
    coders = sorted(set(c for codings in dataset.values() for c in codings))
    numerator = denominator = F(0)
    ratios, pooled = [], {}
    for m, n in combinations(coders, 2):
        for item in sorted(dataset):
            a, b = dataset[item][m], dataset[item][n]
            x, y = parts(a, b)
            numerator += x
            denominator += y
            boundaries_a, boundaries_b, potential = pbs(a, b)
            for coder, boundaries in ((m, boundaries_a), (n, boundaries_b)):
                ratios.append(F(boundaries, potential))
                sums = pooled.setdefault(coder, [0, 0])
                sums[0] += boundaries
                sums[1] += potential
    actual = numerator / denominator if denominator else None
    pi_e = (sum(ratios) / len(ratios)) ** 2
    products = [F(pooled[m][0], pooled[m][1]) * F(pooled[n][0], pooled[n][1])
                for m, n in combinations(coders, 2)]
    return actual, pi_e, sum(products) / len(products)


# -- machine learning metrics over {(predicted, actual): count} -----------------------------------------
def classes(cells, rows=()):
    found = set(rows)
    for predicted, actual in cells:
        found.add(predicted)
        found.add(actual)
    return found


def precision_parts(cells, label):
    return cells.get((label, label), 0), sum(v for (p, _), v in cells.items() if p == label)


def recall_parts(cells, label):
    return cells.get((label, label), 0), sum(v for (_, a), v in cells.items() if a == label)


def hit(parts):
    return F(parts[0]) / F(parts[1]) if parts[0] else F(0)


def f_parts(cells, label, beta):
    p, r = hit(precision_parts(cells, label)), hit(recall_parts(cells, label))
    return (1 + beta ** 2) * p * r, beta ** 2 * p + r


def micro(all_parts):
    numerator = sum(F(x) for x, _ in all_parts)
    denominator = sum(F(y) for _, y in all_parts)
    return numerator / denominator if numerator else F(0)


def macro(values):
    return sum(values) / len(values) if values else F(0)
