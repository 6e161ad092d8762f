"""Bit slices: where the bits of an integer go in an expression of shifts, masks and ors.

A slice (src, lo, width, shift) says: bits lo .. lo+width-1 of src stand at bit `shift` upwards. lo, width and shift
are linear terms of the flow analysis. The constant 2**k is the slice (None, 0, 1, k)."""
from .flow import lin_parts, lin, add, lt
from .oblig import strip_epoch

ZERO = ('const', 0)


def log2(n):
    if isinstance(n, bool) or not isinstance(n, int) or n <= 0 or n & (n - 1):
        return None
    return n.bit_length() - 1


def power(t):
    """k when the term is 2**k"""
    if t[0] == 'const':
        k = log2(t[1])
        return None if k is None else ('const', k)
    if t[0] == 'bin' and t[1] == 'LShift' and t[2] == ('const', 1):
        return t[3]
    if t[0] == 'bin' and t[1] == 'Pow' and t[2] == ('const', 2):
        return t[3]
    return None


def mask(t):
    """k when the term is 2**k - 1"""
    if t[0] == 'const' and isinstance(t[1], int) and not isinstance(t[1], bool):
        k = log2(t[1] + 1)
        return None if k is None else ('const', k)
    if t[0] == 'lin' and t[1] == -1 and len(t[2]) == 1 and t[2][0][1] == 1:
        return power(t[2][0][0])
    return None


class Slices:
    """widths: {term: width term} of the integers whose bits are followed"""

    def __init__(self, widths):
        self.widths = {strip_epoch(k): v for k, v in widths.items()}

    def of(self, t):
        """list of slices, or None"""
        t = strip_epoch(t)
        if t in self.widths:
            return [(t, ZERO, self.widths[t], ZERO)]
        if t == ZERO:
            return []
        k = power(t)
        if k is not None:
            return [(None, ZERO, ('const', 1), k)]
        if t[0] == 'lin':
            out = []
            if t[1]:
                return None
            for x, c in t[2]:
                s = self.of(x)
                k = log2(c)
                if s is None or k is None:
                    return None
                out += self.left(s, ('const', k))
            return out
        if t[0] == 'call' and t[1] in (('ext', 'builtins.int'),) and len(t[2]) == 1:
            return self.of(t[2][0])
        if t[0] != 'bin':
            return None
        op, a, b = t[1:4]
        if op in ('BitOr', 'BitXor', 'Add'):
            x, y = self.of(a), self.of(b)
            return None if x is None or y is None else x + y
        if op == 'LShift':
            s = self.of(a)
            return None if s is None else self.left(s, b)
        if op == 'RShift':
            s = self.of(a)
            return None if s is None else self.right(s, b)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                k = power(y)
                if k is not None:
                    s = self.of(x)
                    return None if s is None else self.left(s, k)
            return None
        if op == 'FloorDiv':
            k = power(b)
            s = self.of(a)
            return None if s is None or k is None else self.right(s, k)
        if op == 'Mod':
            k = power(b)
            s = self.of(a)
            return None if s is None or k is None else self.low(s, k)
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                k = mask(y)
                if k is not None:
                    s = self.of(x)
                    return None if s is None else self.low(s, k)
        return None

    def left(self, s, k):
        return [(src, lo, w, add(sh, k)) for src, lo, w, sh in s]

    def right(self, s, k):
        out = []
        for src, lo, w, sh in s:
            if sh != ZERO:
                return None
            out.append((src, add(lo, k), add(w, k, -1), sh))
        return out

    def low(self, s, k):
        """the low k bits (k is taken as not larger than the width)"""
        out = []
        for src, lo, w, sh in s:
            w2 = add(k, sh, -1)
            d = add(w, w2, -1)
            if d[0] == 'const' and d[1] < 0:
                w2 = w
            out.append((src, lo, w2, sh))
        return out


def equal(a, b, zero=()):
    """the two linear terms are equal; zero: terms known to be 0 on the path. True, False or None"""
    d = add(strip_epoch(a), strip_epoch(b), -1)
    c, parts = lin_parts(d)
    if not parts:
        return c == 0
    for z in zero:
        zc, zp = lin_parts(z)
        for sign in (1, -1):
            e = add(d, z, -sign)
            if e == ZERO:
                return True
    return False
