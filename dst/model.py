"""Reference models: small, obviously-right versions of everything the library
computes.  Nothing here imports the library under test.

A relation is a list of rows; a row is an int bit mask over attribute
positions.  Sets of attributes / objects are int bit masks over positions.
"""


def popcount(x):
    return bin(x).count('1')


def bits(x):
    i = 0
    while x:
        if x & 1:
            yield i
        x >>= 1
        i += 1


def mask(indices):
    out = 0
    for i in indices:
        out |= 1 << i
    return out


class Rel:
    """A binary relation between n objects and m attributes."""

    def __init__(self, rows, m):
        self.rows = list(rows)
        self.n = len(self.rows)
        self.m = m
        self.M = (1 << m) - 1
        self.G = (1 << self.n) - 1

    @classmethod
    def from_bools(cls, table, m):
        return cls([mask(j for j in range(m) if r[j]) for r in table], m)

    def cols(self):
        return [mask(i for i in range(self.n) if self.rows[i] >> j & 1)
                for j in range(self.m)]

    def transposed(self):
        return Rel(self.cols(), self.n)

    def intent(self, objs):
        out = self.M
        for i in bits(objs):
            out &= self.rows[i]
        return out

    def extent(self, atts):
        return mask(i for i in range(self.n) if self.rows[i] & atts == atts)

    def aclosure(self, atts):
        return self.intent(self.extent(atts))

    def oclosure(self, objs):
        return self.extent(self.intent(objs))

    def intents(self):
        """Every concept intent: the intersections of rows."""
        out = {self.M}
        for r in self.rows:
            out |= {x & r for x in out}
        return out

    def concepts(self):
        """Set of (extent, intent) pairs."""
        return {(self.extent(b), b) for b in self.intents()}

    def covering(self):
        """intent -> set of the intents directly above (strictly smaller)."""
        return covering_of(self.intents())

    def holds(self, premise, conclusion):
        return self.aclosure(premise) & conclusion == conclusion

    def pseudo_intents(self, background=(), limit=12):
        """Pseudo-intents relative to `background` (pairs of masks), by
        definition: P is closed under the background, P is not an intent, and
        the intent closure of every smaller relative pseudo-intent inside P is
        contained in P."""
        assert self.m <= limit
        found = []
        for p in sorted(range(self.M + 1), key=lambda s: (popcount(s), s)):
            if close(p, background) != p:
                continue
            pc = self.aclosure(p)
            if pc == p:
                continue
            if all(not (q & p == q and q != p) or qc & p == qc
                   for q, qc in found):
                found.append((p, pc))
        return found

    def pseudo_intents_by_order(self, background=(), limit=20000):
        """The same for many attributes: all sets closed under what has been
        found so far (applied to proper supersets) and the background, in
        lectic order.  None if there are more than *limit*."""
        found = []

        def closed(s):
            changed = True
            while changed:
                changed = False
                for p, c in background:
                    if p & s == p and c & s != c:
                        s |= c
                        changed = True
                for p, c in found:
                    if p & s == p and p != s and c & s != c:
                        s |= c
                        changed = True
            return s
        a = closed(0)
        for _ in range(limit):
            c = self.aclosure(a)
            if c != a:
                found.append((a, c))
            if a == self.M:
                return found
            for j in range(self.m - 1, -1, -1):
                if a >> j & 1:
                    a &= ~(1 << j)
                else:
                    b = closed(a | 1 << j)
                    # nothing smaller than j may have been added
                    if not b & ~a & ((1 << j) - 1):
                        a = b
                        break
        return None


def covering_of(intents):
    """For a family of sets: set -> its maximal proper subsets in the family."""
    out = {}
    fam = sorted(intents, key=popcount)
    for b in fam:
        below = [a for a in fam if a & b == a and a != b]
        out[b] = {a for a in below
                  if not any(a & c == a and a != c for c in below)}
    return out


def close(s, imps):
    """Least superset of s closed under imps (pairs premise, conclusion)."""
    changed = True
    while changed:
        changed = False
        for p, c in imps:
            if p & s == p and c & s != c:
                s |= c
                changed = True
    return s


def respects(s, imp):
    p, c = imp
    return p & s != p or c & s == c


def lattice_of_closures(m, imps):
    return {s for s in range(1 << m) if close(s, imps) == s}
