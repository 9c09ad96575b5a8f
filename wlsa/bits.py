"""
Affine bit-vector domain: integers as vectors of bits, each bit an XOR of input bits (an affine form over GF(2)).

A table look-up is followed when the table itself is an affine map of its index bits, which is decided by inspecting
all of its entries.  Sums are kept as integer combinations of bits until the weights are distinct powers of two, so that
shifts, masks, `//`, `%` and `*` by powers of two are exact.
"""
from fractions import Fraction

from . import terms as tm
from .terms import AnalysisError

ONE = 'one'


def var(name, n):
    return [frozenset([(name, i)]) for i in range(n)]


def const_bits(v):
    return [frozenset([ONE]) if v >> i & 1 else frozenset() for i in range(v.bit_length())]


def trim(bs):
    bs = list(bs)
    while bs and not bs[-1]:
        bs.pop()
    return bs


def xor(a, b):
    n = max(len(a), len(b))
    z = frozenset()
    return trim([(a[i] if i < len(a) else z) ^ (b[i] if i < len(b) else z) for i in range(n)])


def lc_of(bs):
    """Integer combination of bits: {form: weight}; the constant form is ONE alone."""
    d = {}
    for i, f in enumerate(bs):
        if f:
            d[f] = d.get(f, 0) + Fraction(1 << i)
    return norm(d)


def norm(d):
    return {f: w for f, w in d.items() if w}


def add(a, b, k=1):
    d = dict(a)
    for f, w in b.items():
        d[f] = d.get(f, 0) + k * w
    return norm(d)


def bits_of(d):
    """Back to a bit vector: the weights must not overlap."""
    out = {}
    for f, w in d.items():
        if w < 0 or w.denominator != 1:
            raise AnalysisError('not a bit vector: weight %s' % w)
        w = int(w)
        i = 0
        while w:
            if w & 1:
                if i in out:
                    raise AnalysisError('overlapping bits in a sum')
                out[i] = f
            w >>= 1
            i += 1
    n = max(out) + 1 if out else 0
    return trim([out.get(i, frozenset()) for i in range(n)])


class Evaluator(object):
    def __init__(self, env):
        self.env = env      # term -> bit vector
        self.memo = {}
        self.tables = 0

    def bits(self, t):
        return bits_of(self.lc(t))

    def lc(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._lc(t)
            self.memo[t] = r
        return r

    def _lc(self, t):
        if t in self.env:
            return lc_of(self.env[t])
        if t.op == 'num':
            v = t.args[0]
            if v.denominator != 1:
                raise AnalysisError('fraction in a bit computation')
            return {frozenset([ONE]): Fraction(v)} if v else {}
        if t.op == 'poly':
            r = {}
            for mono, c in t.args[0]:
                if not mono:
                    r = add(r, {frozenset([ONE]): Fraction(1)}, Fraction(c))
                elif len(mono) == 1 and mono[0][1] == 1:
                    r = add(r, self.lc(mono[0][0]), Fraction(c))
                else:
                    raise AnalysisError('product in a bit computation')
            return r
        if t.op == 'app':
            n, xs = t.args
            if n in ('floor', 'trunc'):
                d = self.lc(xs[0])
                low = sum(w for w in d.values() if w.denominator != 1 or w < 1)
                if any(w < 0 for w in d.values()):
                    raise AnalysisError('floor of a negative weight')
                out = {}
                frac = Fraction(0)
                for f, w in d.items():
                    k = w.numerator // w.denominator
                    if k:
                        out[f] = Fraction(k)
                    frac += w - k
                if frac >= 1:
                    raise AnalysisError('floor with carries')
                return out
            if n == 'xor':
                r = []
                for x in xs:
                    r = xor(r, self.bits(x))
                return lc_of(r)
            if n == 'and':
                m = [x for x in xs if x.op == 'num']
                o = [x for x in xs if x.op != 'num']
                if m and len(o) == 1 and int(m[0].args[0]) >= 0:
                    k = int(m[0].args[0])
                    return lc_of([f if k >> i & 1 else frozenset() for i, f in enumerate(self.bits(o[0]))])
            if n == 'or':
                v = [self.bits(x) for x in xs]
                w = max([len(b) for b in v] or [0])
                out = []
                for i in range(w):
                    c = [b[i] for b in v if i < len(b) and b[i]]
                    if len(c) > 1:
                        raise AnalysisError('or of overlapping bits')
                    out.append(c[0] if c else frozenset())
                return lc_of(out)
            if n == 'table':
                return lc_of(self.table(xs[0], self.bits(xs[1])))
            raise AnalysisError('operation %s in a bit computation' % n)
        if t.op == 'ite':
            c = self.cond(t.args[0])
            if not c or c == frozenset([ONE]):
                return self.lc(t.args[1] if c else t.args[2])
            a, b = self.bits(t.args[1]), self.bits(t.args[2])
            x = xor(a, b)
            if any(f and f != frozenset([ONE]) for f in x):
                raise AnalysisError('a conditional that is not affine')
            return lc_of(xor(b, [c if f else frozenset() for f in x]))
        raise AnalysisError('term %s in a bit computation' % t.op)

    def cond(self, a):
        """An atom as one bit."""
        one = frozenset([ONE])
        if a.op == 'thr':
            d = dict(self.lc(a.args[0]))
            k = d.pop(one, Fraction(0)) if one in d else Fraction(0)
            if not d:
                return one if (k <= a.args[1] if a.args[2] else k < a.args[1]) else frozenset()
            if len(d) == 1:
                (f, w), = d.items()
                hold = []
                for v in (0, 1):
                    x = k + w * v
                    hold.append(x <= a.args[1] if a.args[2] else x < a.args[1])
                if hold == [False, True]:
                    return f
                if hold == [True, False]:
                    return f ^ one
        if a.op == 'eqc' and a.args[1].op == 'num':
            d = dict(self.lc(a.args[0]))
            k = d.pop(one, Fraction(0)) if one in d else Fraction(0)
            if not d:
                return one if k == a.args[1].args[0] else frozenset()
            if len(d) == 1:
                (f, w), = d.items()
                c = a.args[1].args[0]
                if k + w == c and k != c:
                    return f
                if k == c and k + w != c:
                    return f ^ one
        raise AnalysisError('a condition that is not one bit')

    def table(self, t, idx):
        xs = []
        for x in t.args:
            if x.op != 'num':
                raise AnalysisError('table of unknown values')
            xs.append(int(x.args[0]))
        n = len(xs)
        if n & (n - 1) or len(idx) > n.bit_length() - 1:
            raise AnalysisError('table index out of range')
        self.tables += 1
        if all(not f or f == frozenset([ONE]) for f in idx):
            return const_bits(xs[sum(1 << j for j, f in enumerate(idx) if f)])
        base = xs[0]
        w = n.bit_length() - 1
        cols = [xs[1 << i] ^ base for i in range(w)]
        for i in range(n):
            v = base
            for j in range(w):
                if i >> j & 1:
                    v ^= cols[j]
            if v != xs[i]:
                raise NotAffine(i, xs[i], v)
        r = const_bits(base)
        for j, f in enumerate(idx):
            if f:
                r = xor(r, [f if cols[j] >> b & 1 else frozenset() for b in range(cols[j].bit_length())])
        return r


class NotAffine(Exception):
    def __init__(self, index, found, expected):
        Exception.__init__(self, 'table entry %d is %#x, the others make it %#x' % (index, found, expected))


def show_form(f):
    return '^'.join(sorted('1' if x == ONE else '%s[%d]' % x for x in f)) or '0'
