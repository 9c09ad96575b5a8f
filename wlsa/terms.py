"""
Hash-consed value graph used by the abstract interpreter.

Values are ordinary terms, or decision diagrams (``ite`` nodes) over boolean atoms with terms at the leaves.  Pure
operations are distributed to the leaves, so that a leaf never contains a decision; only containers (``tuple``, ``seq``,
``dict``) may hold decision diagrams inside.  Numeric leaves are kept as polynomials with exact rational coefficients,
comparisons as threshold atoms over primitive polynomials, so that two differently written computations of the same
quantity have the same normal form.

Every term has a ``key``: a digest of its structure that does not depend on names, source positions or creation order.
"""
import hashlib
import math
from fractions import Fraction


class AnalysisError(Exception):
    """The analysis cannot decide (unsupported construct, vanished anchor, blow-up): never a verdict."""


class Blowup(AnalysisError):
    pass


class T(object):
    __slots__ = ('op', 'args', 'key', 'sort', 'hasite', 'okey', '_rng')

    def __repr__(self):
        return show(self)


_intern = {}
_LIMIT = 3000000


def _ser(a, out):
    if isinstance(a, T):
        out.append(a.key)
    elif isinstance(a, tuple):
        out.append('[')
        for x in a:
            _ser(x, out)
            out.append(',')
        out.append(']')
    else:
        out.append(type(a).__name__ + ':' + repr(a))


def _hasite(a):
    if isinstance(a, T):
        return a.hasite
    if isinstance(a, tuple):
        return any(_hasite(x) for x in a)
    return False


def mk(op, args, sort='any', key=None):
    k = (op, args, sort)
    t = _intern.get(k)
    if t is not None:
        return t
    if len(_intern) > _LIMIT:
        raise Blowup('value graph too large')
    t = T()
    t.op = op
    t.args = args
    t.sort = sort
    if key is None:
        out = [op, '|']
        _ser(args, out)
        key = hashlib.blake2b(''.join(out).encode('utf-8', 'surrogatepass'), digest_size=12).hexdigest()
    t.key = key
    t.hasite = op == 'ite' or _hasite(args)
    t.okey = None
    t._rng = False
    _intern[k] = t
    return t


# ---------------------------------------------------------------- constants

def num(v, kind=None, exp=None):
    f = Fraction(v)
    if kind is None:
        kind = 'int' if isinstance(v, int) else 'float' if isinstance(v, float) else 'num'
    return mk('num', (f, kind, exp), kind, 'n%s/%s' % (f.numerator, f.denominator))


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return num(v, 'int', 0)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('const', ('float', repr(v)), 'any')
        return num(v, 'float')
    if isinstance(v, str):
        return mk('const', ('str', v), 'str')
    if isinstance(v, bytes):
        return mk('const', ('bytes', v), 'bytes')
    if v is Ellipsis:
        return mk('const', ('ellipsis', '...'), 'any')
    raise AnalysisError('constant %r' % (v,))


NONE = mk('const', ('None', None), 'none')
TRUE = mk('const', ('bool', True), 'bool')
FALSE = mk('const', ('bool', False), 'bool')
UNBOUND = mk('unbound', (), 'unbound')
ZERO = num(0, 'int', 0)
ONE = num(1, 'int', 0)

NUMERIC = ('int', 'float', 'dec', 'num')


def isconst(t):
    return t.op in ('const', 'num')


def pyval(t):
    """Python value of a constant (numbers as Fraction/int)."""
    if t.op == 'num':
        f = t.args[0]
        return f.numerator if f.denominator == 1 else f
    if t.op == 'const':
        return t.args[1]
    raise AnalysisError('not a constant: %s' % show(t))


def is_int_const(t):
    return t.op == 'num' and t.args[0].denominator == 1


def boolc(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- symbols and applications

def sym(name, sort='any', lo=None, hi=None):
    return mk('sym', (name, lo, hi), sort)


def opt(t):
    """A value that may be None."""
    return ite3(atom_bool(mk('eqc', (t, NONE), 'bool')), NONE, t)


# ---------------------------------------------------------------- decision diagrams

def okey(a):
    k = a.okey
    if k is None:
        if a.op == 'thr':
            k = ('g' + a.args[0].key, 1, a.args[1], a.args[2], '')
        elif a.op == 'truthy':
            k = ('g' + a.args[0].key, 0, 0, 0, a.key)
        elif a.op == 'eqc':
            k = ('g' + a.args[0].key, 2, 0, 0, a.key)
        elif a.op == 'exits':
            k = ('g' + a.args[0].key, 3, 0, 0, a.key)
        else:
            k = ('g' + a.key, 9, 0, 0, '')
        a.okey = k
    return k


def atom_bool(a):
    return mk('ite', (a, TRUE, FALSE), 'bool')


def _falsy_const(c):
    return isconst(c) and not pyval(c)


def cof(f, a, val):
    """Cofactor of diagram f with respect to atom a, which is not after f's top atom."""
    while f.op == 'ite':
        b = f.args[0]
        if b is a:
            f = f.args[1] if val else f.args[2]
            continue
        ka, kb = okey(a), okey(b)
        if ka[0] != kb[0]:
            return f
        # same group: b is after a
        r = implied(a, val, b)
        if r is None:
            if not val or not f.hasite:
                return f
            return _strip(f, a, val)
        f = f.args[1] if r else f.args[2]
    return f


_strip_memo = {}


def _strip(f, a, val):
    """Remove atoms of a's group, deeper in f, that a=val decides."""
    if f.op != 'ite':
        return f
    b = f.args[0]
    if okey(b)[0] != okey(a)[0]:
        return f
    mk_ = (f, a, val)
    r = _strip_memo.get(mk_)
    if r is None:
        i = implied(a, val, b)
        if i is not None:
            r = _strip(f.args[1] if i else f.args[2], a, val)
        else:
            r = mk_ite(b, _strip(f.args[1], a, val), _strip(f.args[2], a, val))
        _strip_memo[mk_] = r
    return r


def implied(a, val, b):
    """Truth value of atom b given atom a == val (same group), or None."""
    if a is b:
        return val
    oa, ob = a.op, b.op
    if oa == 'thr' and ob == 'thr' and a.args[0] is b.args[0]:
        ta, tb = (a.args[1], a.args[2]), (b.args[1], b.args[2])
        if val:
            return True if tb >= ta else None
        return False if tb <= ta else None
    if oa == 'eqc' and ob == 'eqc' and a.args[0] is b.args[0]:
        if val:
            return False
        return None
    if oa == 'truthy' and ob == 'eqc':
        if _falsy_const(b.args[1]):
            return False if val else None
        return None
    if oa == 'exits' and ob == 'exits':
        return False if val else None
    return None


_ite_memo = {}


def mk_ite(a, hi, lo):
    """Node with a before the top atoms of hi and lo (up to group stripping)."""
    if hi is lo:
        return hi
    k = (a, hi, lo)
    r = _ite_memo.get(k)
    if r is None:
        r = _mk_ite(a, hi, lo)
        _ite_memo[k] = r
    return r


def _mk_ite(a, hi, lo):
    hi = cof(hi, a, True)
    lo = cof(lo, a, False)
    if hi is lo:
        return hi
    if a.op == 'thr' and lo.op == 'ite':
        b = lo.args[0]
        if b.op == 'thr' and b.args[0] is a.args[0] and cof(lo.args[1], a, True) is hi:
            # a implies b, and both give the same result
            return lo
    if hi.op == lo.op:
        m = merge_containers(atom_bool(a), hi, lo)
        if m is not None:
            return m
    # q where q differs from c, c where q is c: it is q
    if a.op == 'thr' and hi is a.args[0] and lo.op == 'ite' and lo.args[2] is hi and lo.args[1].op == 'num' \
            and not a.args[2] and lo.args[0].op == 'thr' and lo.args[0].args[0] is hi and lo.args[0].args[2] \
            and lo.args[0].args[1] == a.args[1] == lo.args[1].args[0] and lo.args[1].sort == hi.sort:
        return hi
    s = hi.sort if hi.sort == lo.sort else 'any'
    return mk('ite', (a, hi, lo), s)


_ite3_memo = {}


def ite3(c, f, g):
    if c is TRUE or f is g:
        return f
    if c is FALSE:
        return g
    if c.op != 'ite':
        if c.sort != 'bool' or c.op == 'const':
            raise AnalysisError('not a condition: %s' % show(c))
        c = atom_bool(c)
    if f is TRUE and g is FALSE:
        return c
    k = (c, f, g)
    r = _ite3_memo.get(k)
    if r is not None:
        return r
    a = c.args[0]
    ka = okey(a)
    for x in (f, g):
        if x.op == 'ite':
            kx = okey(x.args[0])
            if kx < ka:
                a, ka = x.args[0], kx
    hi = ite3(cof(c, a, True), cof(f, a, True), cof(g, a, True))
    lo = ite3(cof(c, a, False), cof(f, a, False), cof(g, a, False))
    r = mk_ite(a, hi, lo)
    _ite3_memo[k] = r
    return r


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite3(r, c, FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite3(r, TRUE, c)
    return r


def not_(c):
    return ite3(c, FALSE, TRUE)


def lift(fn, ts):
    """Apply leaf function fn to the product of the diagrams ts."""
    memo = {}

    def rec(ts):
        r = memo.get(ts)
        if r is not None:
            return r
        a = None
        ka = None
        for x in ts:
            if x.op == 'ite':
                kx = okey(x.args[0])
                if ka is None or kx < ka:
                    a, ka = x.args[0], kx
        if a is None:
            r = fn(*ts)
        else:
            hi = rec(tuple(cof(x, a, True) for x in ts))
            lo = rec(tuple(cof(x, a, False) for x in ts))
            r = ite3(atom_bool(a), hi, lo)
        memo[ts] = r
        if len(memo) > 60000:
            raise Blowup('lifted operation too large')
        return r
    return rec(tuple(ts))


def leaves(t):
    """[(condition, leaf)] of a diagram (distinct leaves)."""
    if t.op != 'ite':
        return [(TRUE, t)]
    order = []
    seen = set()
    stack = [t]
    visited = set()
    while stack:
        x = stack.pop()
        if x in visited:
            continue
        visited.add(x)
        if x.op == 'ite':
            stack.append(x.args[2])
            stack.append(x.args[1])
        elif x not in seen:
            seen.add(x)
            order.append(x)
    return [(is_leaf(t, l), l) for l in order]


def is_leaf(t, leaf):
    memo = {}

    def rec(x):
        if x.op != 'ite':
            return boolc(x is leaf)
        r = memo.get(x)
        if r is None:
            r = mk_ite(x.args[0], rec(x.args[1]), rec(x.args[2]))
            memo[x] = r
        return r
    return rec(t)


_con_memo = {}


def constrain(f, c):
    """f simplified where only c matters (generalised cofactor)."""
    if c is TRUE or c is FALSE or not f.hasite:
        return f
    k = (f, c)
    r = _con_memo.get(k)
    if r is not None:
        return r
    if f.op != 'ite':
        r = _con_container(f, c)
    else:
        a = f.args[0]
        b = c.args[0]
        if okey(b) < okey(a):
            a = b
        c1, c0 = cof(c, a, True), cof(c, a, False)
        if c1 is FALSE:
            r = constrain(cof(f, a, False), c0)
        elif c0 is FALSE:
            r = constrain(cof(f, a, True), c1)
        else:
            r = ite3(atom_bool(a), constrain(cof(f, a, True), c1), constrain(cof(f, a, False), c0))
    _con_memo[k] = r
    return r


def _con_container(f, c):
    if f.op == 'tuple':
        return tuple_(*[constrain(x, c) for x in f.args])
    if f.op == 'seq':
        return seq(f.args[0], [(tag, constrain_guard(g, c), constrain(x, and_(c, g))) for tag, g, x in f.args[1]])
    if f.op == 'dict':
        return dict_(f.args[0], [(k, constrain_guard(g, c), constrain(x, and_(c, g))) for k, g, x in f.args[1]])
    if f.op == 'fold':
        return fold_(f.args[0], [(constrain_guard(g, c), x) for g, x in f.args[1]])
    return f


def fold_(name, items):
    d = {}
    for g, x in items:
        if g is not FALSE:
            d[x] = or_(d.get(x, FALSE), g)
    its = sorted(d.items(), key=lambda p: p[0].key)
    if len(its) == 1:
        return its[0][0]
    return mk('fold', (name, tuple((g, x) for x, g in its)), pkind(*[x.sort for x, _ in its]))


def constrain_guard(g, c):
    if and_(g, c) is FALSE:
        return FALSE
    return constrain(g, c)


# ---------------------------------------------------------------- containers

def size(f, limit=None):
    """Number of decision nodes of a diagram (counting stops above the limit)."""
    seen = set()
    work = [f]
    while work:
        x = work.pop()
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            if limit is not None and len(seen) > limit:
                break
            work += [x.args[1], x.args[2]]
    return len(seen)


def tuple_(*xs):
    return mk('tuple', tuple(xs), 'tuple')


def _excl(a, b):
    return and_(a, b) is FALSE


def seq(kind, items):
    """Guarded sequence: items are (tag, guard, term), tag 'e' (element) or 's' (spread)."""
    out = []
    for tag, g, x in items:
        if g is FALSE:
            continue
        if tag == 's':
            if kind in ('str', 'bytes'):
                if x.op == 'seq' and x.args[0] == kind:
                    sub = [(t2, and_(g, g2), y) for t2, g2, y in x.args[1]]
                elif x.op == 'ite':
                    # distribute guarded pieces
                    sub = []
                    ls = leaves(x)
                    if len(ls) > 1 and len(ls) <= 40:
                        for cnd, l in ls:
                            sub.append(('s', and_(g, cnd), l))
                        sub2 = []
                        for t2, g2, y in sub:
                            if y.op == 'seq' and y.args[0] == kind:
                                sub2 += [(t3, and_(g2, g3), z) for t3, g3, z in y.args[1]]
                            else:
                                sub2.append((t2, g2, y))
                        sub = sub2
                    else:
                        sub = [(tag, g, x)]
                else:
                    sub = [(tag, g, x)]
            elif x.op == 'seq':
                sub = [(t2, and_(g, g2), y) for t2, g2, y in x.args[1]]
            elif x.op == 'tuple':
                sub = [('e', g, y) for y in x.args]
            else:
                sub = [(tag, g, x)]
        else:
            sub = [(tag, g, x)]
        for it in sub:
            if it[1] is FALSE:
                continue
            if kind in ('str', 'bytes'):
                if it[2].op == 'const' and it[2].args[0] == kind:
                    if not it[2].args[1]:
                        continue
                    if out and out[-1][1] is it[1] and out[-1][2].op == 'const':
                        out[-1] = ('s', it[1], const(out[-1][2].args[1] + it[2].args[1]))
                        continue
                out.append(it)
            else:
                if out and it[0] == 'e' and out[-1][0] == 'e' and it[1] is not TRUE and out[-1][1] is not TRUE \
                        and _excl(out[-1][1], it[1]):
                    pg, px = out[-1][1], out[-1][2]
                    ng = or_(pg, it[1])
                    out[-1] = ('e', ng, constrain(ite3(pg, px, it[2]), ng))
                    continue
                out.append(it)
    if kind in ('str', 'bytes'):
        if not out:
            return const('' if kind == 'str' else b'')
        if len(out) == 1 and out[0][1] is TRUE and out[0][2].sort == kind:
            return out[0][2]
    return mk('seq', (kind, tuple(out)), kind)


def list_(xs):
    return seq('list', [('e', TRUE, x) for x in xs])


def dict_(base, entries):
    return mk('dict', (base, tuple((k, g, x) for k, g, x in entries if g is not FALSE)), 'dict')


EMPTY_DICT = dict_(None, ())


def merge_containers(g, a, b):
    """Containers a (under g) and b (otherwise) as one guarded container, or None."""
    op = a.op
    if op == 'tuple':
        if len(a.args) == len(b.args):
            return tuple_(*[ite3(g, x, y) for x, y in zip(a.args, b.args)])
        return None
    if op == 'seq':
        kind = a.args[0]
        if kind != b.args[0]:
            return None
        return _merge_items(g, kind, list(a.args[1]), list(b.args[1]))
    if op == 'dict':
        if a.args[0] is not b.args[0]:
            return None
        out = []
        bm = {}
        for k, gd, x in b.args[1]:
            bm[k.key] = (k, gd, x)
        seen = set()
        for k, gd, x in a.args[1]:
            seen.add(k.key)
            o = bm.get(k.key)
            if o is None:
                out.append((k, and_(g, gd), x))
            else:
                ga = gd
                v = x if x is o[2] else ite3(g, x, o[2]) if (ga is TRUE or o[1] is not FALSE) else x
                out.append((k, ite3(g, ga, o[1]), v))
        ng = not_(g)
        for k, gd, x in b.args[1]:
            if k.key not in seen:
                out.append((k, and_(ng, gd), x))
        return dict_(a.args[0], out)
    if op == 'fold' and a.args[0] == b.args[0]:
        ng = not_(g)
        return fold_(a.args[0], [(and_(g, ga), x) for ga, x in a.args[1]] +
                     [(and_(ng, gb), x) for gb, x in b.args[1]])
    return None


def _merge_items(g, kind, a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    pre, a, b = a[:i], a[i:], b[i:]
    j = 0
    while j < len(a) and j < len(b) and a[-1 - j] == b[-1 - j]:
        j += 1
    suf = a[len(a) - j:]
    if j:
        a, b = a[:-j], b[:-j]
    if kind in ('list', 'tuple', 'set') and len(a) == len(b) and \
            all(x[0] == y[0] == 'e' and x[1] is y[1] for x, y in zip(a, b)):
        mid = [('e', x[1], ite3(g, x[2], y[2])) for x, y in zip(a, b)]
    else:
        ng = not_(g)
        mid = [(t, and_(g, gd), x) for t, gd, x in a] + [(t, and_(ng, gd), x) for t, gd, x in b]
    return seq(kind, pre + mid + suf)


# ---------------------------------------------------------------- polynomials

def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda p: p[0].key))


def pkind(*ks):
    if 'dec' in ks:
        return 'dec'
    if 'float' in ks:
        return 'float'
    if all(k in ('int', 'bool') for k in ks):
        return 'int'
    return 'num'


def to_poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((a.key, e) for a, e in m)


def from_poly(d, kind):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return num(0, kind)
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c, kind, 0 if kind == 'int' else None)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and (kind in ('num', m[0][0].sort) or m[0][0].sort not in NUMERIC
                                                        or kind == 'int'):
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda p: _mono_key(p[0])))
    key = items[0][0][0][0].key if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and \
        items[0][0][0][1] == 1 else 'p' + hashlib.blake2b(
        ';'.join('%s*%s' % (','.join('%s^%d' % (a.key, e) for a, e in m), c) for m, c in items).encode(),
        digest_size=12).hexdigest()
    return mk('poly', (items, kind), kind, key)


def _numexp(op, a, b):
    ea, eb = a.args[2], b.args[2]
    if ea is None or eb is None:
        return None
    if op == 'add':
        return min(ea, eb)
    if op == 'mul':
        return ea + eb
    return None


def p_add(a, b, sign=1):
    kind = pkind(a.sort, b.sort)
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] + sign * b.args[0], kind, _numexp('add', a, b))
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + sign * c
    return from_poly(d, kind)


def p_scale(a, k, kind=None):
    return from_poly({m: c * k for m, c in to_poly(a).items()}, kind or a.sort)


def p_neg(a):
    if a.op == 'num':
        return num(-a.args[0], a.args[1], a.args[2])
    return p_scale(a, -1)


def p_mul(a, b):
    kind = pkind(a.sort, b.sort)
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] * b.args[0], kind, _numexp('mul', a, b))
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 6000:
        raise Blowup('polynomial too large')
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d, kind)


def primitive(t):
    """t = k*q + c with q a primitive integer polynomial without constant, positive leading coefficient."""
    d = to_poly(t)
    c = d.pop((), Fraction(0))
    if not d:
        return Fraction(0), None, c
    ms = sorted(d, key=_mono_key)
    den = 1
    for m in ms:
        den = den * d[m].denominator // math.gcd(den, d[m].denominator)
    g = 0
    for m in ms:
        g = math.gcd(g, int(d[m] * den))
    k = Fraction(g, den)
    if d[ms[0]] < 0:
        k = -k
    q = from_poly({m: d[m] / k for m in ms}, 'num')
    return k, q, c


def p_inv(b):
    if b.op == 'num':
        if not b.args[0]:
            raise AnalysisError('division by zero')
        return num(1 / b.args[0], b.sort)
    d = to_poly(b)
    if len(d) == 1:
        (m, c), = d.items()
        return from_poly({tuple((a, -e) for a, e in m): 1 / c}, b.sort)
    # whole polynomial including its constant, scaled to a canonical representative
    ms = sorted(d, key=_mono_key)
    k = d[ms[-1]]
    q = from_poly({m: c / k for m, c in d.items()}, 'num')
    return p_scale(mk('inv', (q,), 'num'), 1 / k, b.sort)


def p_div(a, b):
    kind = pkind(a.sort, b.sort)
    if kind == 'int':
        kind = 'float'
    if a.op == 'num' and b.op == 'num':
        if not b.args[0]:
            raise AnalysisError('division by zero')
        return num(a.args[0] / b.args[0], kind)
    r = p_mul(a, p_inv(b))
    if r.op == 'num':
        return num(r.args[0], kind)
    if r.op == 'poly':
        return from_poly(to_poly(r), kind)
    return r


def p_pow(a, b):
    if b.op == 'num':
        e = b.args[0]
        if a.op == 'num' and e.denominator == 1 and abs(e) < 200:
            if a.args[0] == 0 and e < 0:
                raise AnalysisError('division by zero')
            return num(a.args[0] ** int(e), pkind(a.sort, b.sort) if e >= 0 else 'num')
        if e.denominator == 1 and 0 <= e <= 30:
            r = num(1, a.sort if a.sort in NUMERIC else 'num')
            for _ in range(int(e)):
                r = p_mul(r, a)
            return r
        if e.denominator == 1 and -8 <= e < 0:
            return p_inv(p_pow(a, num(-e, 'int')))
        if e == Fraction(1, 2):
            return app('sqrt', (a,), a.sort)
    k = pkind(a.sort, b.sort)
    return app('pow', (a, b), 'num' if k == 'int' else k)


def is_int(t):
    """Integer valued whatever the inputs."""
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op == 'poly':
        for m, c in t.args[0]:
            if c.denominator != 1:
                return False
            for a, e in m:
                if e < 0 or not is_int(a):
                    return False
        return True
    return t.sort in ('int', 'bool') or (t.op == 'app' and t.args[0] in ('floor', 'trunc', 'ceil', 'len'))


def rng(t):
    """(lo, hi) bounds or None."""
    r = t._rng
    if r is False:
        r = _rng(t)
        t._rng = r
    return r


def _rng(t):
    if t.op == 'num':
        return t.args[0], t.args[0]
    if t.op == 'sym':
        return t.args[1], t.args[2]
    if t.op == 'field':
        return FIELD_RANGE.get(t.args[2], (None, None))
    if t.op == 'idx':
        return 0, None
    if t.op == 'out':
        return rng(t.args[1])
    if t.op == 'poly':
        lo = hi = Fraction(0)
        for m, c in t.args[0]:
            if not m:
                mlo = mhi = Fraction(1)
            else:
                mlo = mhi = Fraction(1)
                for a, e in m:
                    alo, ahi = rng(a)
                    if e < 0 or alo is None or alo < 0:
                        if len(m) == 1 and e == 1:
                            mlo, mhi = alo, ahi
                        else:
                            mlo = mhi = None
                        break
                    mlo = None if mlo is None else mlo * alo ** e
                    mhi = None if (mhi is None or ahi is None) else mhi * ahi ** e
            if c < 0:
                mlo, mhi = mhi, mlo
            lo = None if (lo is None or mlo is None) else lo + c * mlo
            hi = None if (hi is None or mhi is None) else hi + c * mhi
        return lo, hi
    if t.op == 'app':
        n = t.args[0]
        if n in ('floor', 'trunc'):
            lo, hi = rng(t.args[1][0])
            return (None if lo is None else math.floor(lo)), (None if hi is None else math.floor(hi))
        if n in ('len', 'count', 'sqrt', 'exp'):
            return 0, None
        b = APP_RANGE.get(n)
        if b:
            return b
    return None, None


APP_RANGE = {}
FIELD_RANGE = {
    'b': (-128, 127), 'B': (0, 255), 'h': (-32768, 32767), 'H': (0, 65535),
    'l': (-2 ** 31, 2 ** 31 - 1), 'L': (0, 2 ** 32 - 1), 'i': (-2 ** 31, 2 ** 31 - 1), 'I': (0, 2 ** 32 - 1),
    'q': (-2 ** 63, 2 ** 63 - 1), 'Q': (0, 2 ** 64 - 1), '?': (0, 1),
}


# ---------------------------------------------------------------- comparisons

def mk_thr(q, c, incl):
    """q <= c if incl else q < c, as a condition."""
    if is_int(q):
        c = Fraction(math.floor(c)) if incl else Fraction(math.ceil(c) - 1)
        incl = 1
    if q.op == 'app' and q.args[0] in ('floor', 'trunc'):
        y = q.args[1][0]
        if q.args[0] == 'floor' or c >= 0:
            return cmp_le(y, num(c + 1), 0)
        return cmp_le(y, num(c), 1)
    lo, hi = rng(q)
    if hi is not None and (hi < c or (incl and hi <= c)):
        return TRUE
    if lo is not None and (lo > c or (not incl and lo >= c)):
        return FALSE
    return atom_bool(mk('thr', (q, Fraction(c), 1 if incl else 0), 'bool'))


def cmp_le(a, b, incl):
    """a <= b if incl else a < b (numeric leaves)."""
    d = p_add(a, b, -1)
    if d.op == 'num':
        return boolc(d.args[0] <= 0 if incl else d.args[0] < 0)
    k, q, c = primitive(d)
    x = -c / k
    if k > 0:
        return mk_thr(q, x, incl)
    return not_(mk_thr(q, x, 0 if incl else 1))


def isnumeric(t):
    return t.sort in NUMERIC or t is TRUE or t is FALSE or t.sort == 'bool'


def eq_leaf(a, b):
    if a is b or a.key == b.key:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        if a.sort == 'bool' and b.sort == 'bool':
            return boolc(a.args[1] == b.args[1])
        return boolc(a.args[0] == b.args[0] and a.args[1] == b.args[1])
    if a.sort in NUMERIC and b.sort in NUMERIC or (isnumeric(a) and isnumeric(b) and 'num' in (a.op, b.op)):
        return and_(cmp_le(a, b, 1), not_(cmp_le(a, b, 0)))
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.sort != b.sort and 'any' not in (a.sort, b.sort):
        if not ({a.sort, b.sort} <= set(NUMERIC) | {'bool'}):
            return FALSE
    if a.op == 'enum' and b.op == 'enum':
        return FALSE
    if {a.op, b.op} & {'enum', 'class', 'func', 'type', 'ref', 'mod'} and (isconst(a) or isconst(b)):
        return FALSE
    if a.op in ('class', 'type', 'func') and b.op in ('class', 'type', 'func'):
        return FALSE
    if a.op == 'ref' and b.op == 'ref':
        return FALSE
    if 'num' in (a.op, b.op) and 'any' in (a.sort, b.sort):
        return and_(cmp_le(a, b, 1), not_(cmp_le(a, b, 0)))
    if isconst(a) or a.op in ('enum', 'type', 'class'):
        a, b = b, a
    if b.op == 'const' and b.sort == 'bytes' and at_most_one_byte(a) and b.args[1]:
        if len(b.args[1]) > 1:
            return FALSE
        return and_(not_(atom_bool(mk('eqc', (a, const(b'')), 'bool'))),
                    eq_leaf(app('byte', (a, ZERO), 'int'), num(b.args[1][0], 'int', 0)))
    if isconst(b) or b.op in ('enum', 'type', 'class'):
        return atom_bool(mk('eqc', (a, b), 'bool'))
    if a.key > b.key:
        a, b = b, a
    return atom_bool(mk('eq', (a, b), 'bool'))


def at_most_one_byte(t):
    """What receiving up to one byte gives."""
    return t.op == 'res' and t.args[0] == '.recv' and len(t.args[2]) == 1 and t.args[2][0].op == 'num' \
        and t.args[2][0].args[0] == 1


def eq(a, b):
    return lift(eq_leaf, (a, b))


def isnone_leaf(t):
    if t is NONE:
        return TRUE
    if t.sort != 'any' or t.op in ('ref', 'enum', 'class', 'func', 'type', 'mod', 'builtin', 'bound', 'excv'):
        return FALSE
    return atom_bool(mk('eqc', (t, NONE), 'bool'))


def isnone(t):
    return lift(isnone_leaf, (t,))


# ---------------------------------------------------------------- pure applications

SIMPLIFY = {}


CANON_NUM = {'quantize', 'exp', 'log', 'log10', 'sqrt', 'pow', 'floor', 'trunc', 'ceil', 'round'}


def canon_num(a):
    """The value alone: int, float and Decimal of one value are one argument."""
    if a.op == 'poly' and a.sort != 'num':
        return from_poly(dict(a.args[0]), 'num')
    if a.op == 'num' and (a.sort != 'int' or a.args[2] is not None):
        v = a.args[0]
        return num(v, 'int' if v.denominator == 1 else 'num')
    return a


def quantized(v, e, mode):
    q = v / Fraction(10) ** e
    f = Fraction(math.floor(q))
    r = q - f
    if r:
        up = {'ROUND_CEILING': True, 'ROUND_FLOOR': False, 'ROUND_UP': q > 0, 'ROUND_DOWN': q < 0}.get(mode)
        if up is None:
            if r != Fraction(1, 2):
                up = r > Fraction(1, 2)
            elif mode == 'ROUND_HALF_EVEN':
                up = f % 2 == 1
            elif mode == 'ROUND_HALF_UP':
                up = q > 0
            elif mode == 'ROUND_HALF_DOWN':
                up = q < 0
            else:
                return None
        if up:
            f += 1
    return f * Fraction(10) ** e


def simp(name):
    def deco(fn):
        SIMPLIFY[name] = fn
        return fn
    return deco


def app(name, args, sort='any'):
    args = tuple(args)
    if any(a.op == 'ite' for a in args):
        return lift(lambda *xs: app(name, xs, sort), args)
    if name in CANON_NUM:
        args = tuple(canon_num(a) for a in args)
    fn = SIMPLIFY.get(name)
    if fn is not None:
        r = fn(args, sort)
        if r is not None:
            return r
    return mk('app', (name, args), sort)


@simp('quantize')
def _s_quantize(args, sort):
    x, e, r = args
    if x.op == 'num' and e.op == 'num' and r.op == 'const':
        v = quantized(x.args[0], int(e.args[0]), r.args[1])
        if v is not None:
            return num(v, 'dec', int(e.args[0]))
    return None


def floor_(p):
    """floor of a numeric leaf, integer parts pulled out."""
    return app('floor', (p,), 'int')


@simp('floor')
def _s_floor(args, sort):
    p = args[0]
    if p.op == 'num':
        return num(math.floor(p.args[0]), 'int', 0)
    if is_int(p):
        return p if p.sort == 'int' else from_poly(to_poly(p), 'int')
    d = to_poly(p)
    out, rest = {}, {}
    for m, c in d.items():
        if all(e > 0 and is_int(a) for a, e in m):
            ip = Fraction(math.floor(c)) if not m or c.denominator == 1 else Fraction(0)
            if ip == 0 and abs(c) >= 1:
                ip = Fraction(math.floor(c))
            # only whole multiples may leave the floor; keep the fraction in [0,1)
            if ip:
                out[m] = ip
            if c - ip:
                rest[m] = c - ip
        else:
            rest[m] = c
    r = from_poly(rest, 'num')
    if out:
        return p_add(from_poly(out, 'int'), floor_(r))
    # floor((floor(x/a))/b) = floor(x/(a b)) for a single floor atom with coefficient 1/b
    if r.op == 'poly':
        items = r.args[0]
        if len(items) == 1:
            (m, c), = items
            if len(m) == 1 and m[0][1] == 1 and c.numerator == 1:
                a = m[0][0]
                if a.op == 'app' and a.args[0] == 'floor':
                    return floor_(p_scale(a.args[1][0], c, 'num'))
    lo, hi = rng(r)
    if lo is not None and hi is not None and math.floor(lo) == math.floor(hi):
        return num(math.floor(lo), 'int', 0)
    return mk('app', ('floor', (r,)), 'int')


def fdiv(a, b):
    """a // b on numeric leaves."""
    if b.op == 'num' and b.args[0]:
        return floor_(p_scale(a, 1 / b.args[0], 'num'))
    return floor_(p_div(a, b))


def fmod(a, b):
    return p_add(a, p_mul(b, fdiv(a, b)), -1)


@simp('trunc')
def _s_trunc(args, sort):
    p = args[0]
    if p.op == 'num':
        return num(int(p.args[0]), 'int', 0)
    if is_int(p):
        return p if p.sort == 'int' else from_poly(to_poly(p), 'int')
    lo, hi = rng(p)
    if lo is not None and lo >= 0:
        return floor_(p)
    return None


def bit_and(a, b):
    if a.op == 'num' and b.op == 'num':
        return num(int(a.args[0]) & int(b.args[0]), 'int', 0)
    if a.op == 'num':
        a, b = b, a
    if b.op == 'num' and b.args[0].denominator == 1 and b.args[0] >= 0:
        mask = int(b.args[0])
        r = ZERO
        s = 0
        while mask:
            while not mask & 1:
                mask >>= 1
                s += 1
            w = 0
            while mask & 1:
                mask >>= 1
                w += 1
            x = fdiv(a, num(2 ** s, 'int', 0))
            x = p_add(x, p_mul(num(2 ** w, 'int', 0), fdiv(x, num(2 ** w, 'int', 0))), -1)
            r = p_add(r, p_mul(num(2 ** s, 'int', 0), x))
            s += w
        return r
    if a.key > b.key:
        a, b = b, a
    return app('and', (a, b), 'int')


def _low_bits(p):
    """(multiple, bound): p is a multiple of `multiple`, and 0 <= p < bound if bound."""
    d = to_poly(p)
    g = 0
    for m, c in d.items():
        if c.denominator != 1 or not all(e > 0 and is_int(a) for a, e in m):
            return 1, None
        g = math.gcd(g, int(c))
    lo, hi = rng(p)
    # tighten: digit terms x - m*floor(x/m) are in [0, m)
    hi2 = _digit_bound(p)
    if hi2 is not None:
        return g or 1, hi2
    if lo is not None and lo >= 0 and hi is not None:
        return g or 1, hi + 1
    return g or 1, None


def _digit_bound(p):
    """Bound of k*(y - m*floor(y/m)) forms (a masked value)."""
    d = to_poly(p)
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and c < 0:
            a = m[0][0]
            if a.op == 'app' and a.args[0] == 'floor':
                inner = to_poly(a.args[1][0])
                # p == k*(y - M*floor(y/M)): rest/k == y, a = floor(y/M)
                rest = {x: y for x, y in d.items() if x != m}
                for (im, ic) in inner.items():
                    if im in rest:
                        ratio = rest[im] / ic      # = k*M
                        if all(rest.get(x) == y * ratio for x, y in inner.items()) and len(rest) == len(inner) \
                                and -c == ratio:
                            return ratio
                    break
    return None


def bit_or(a, b, name='or'):
    if a.op == 'num' and b.op == 'num':
        x, y = int(a.args[0]), int(b.args[0])
        return num(x | y if name == 'or' else x ^ y, 'int', 0)
    if a.op == 'num' and a.args[0] == 0:
        return b
    if b.op == 'num' and b.args[0] == 0:
        return a
    for x, y in ((a, b), (b, a)):
        mx, _ = _low_bits(x)
        _, by = _low_bits(y)
        if by is not None and mx > 1:
            p2 = mx & -mx
            if by <= p2:
                return p_add(x, y)
    if a.key > b.key:
        a, b = b, a
    return app(name, (a, b), 'int')


# ---------------------------------------------------------------- substitution

_REBUILD = {}


def rebuild(op):
    def deco(fn):
        _REBUILD[op] = fn
        return fn
    return deco


@rebuild('fold')
def _rb_fold(t, na):
    return fold_(na[0], list(na[1]))


def subst(t, m, memo=None):
    """Replace terms (dict T->T) everywhere in t, renormalising."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ('num', 'const', 'sym', 'idx', 'type', 'class', 'func', 'mod', 'builtin', 'enum', 'tv', 'unbound'):
        r = t
    elif t.op == 'ite':
        a, hi, lo = t.args
        c = subst_atom(a, m, memo)
        r = ite3(c, subst(hi, m, memo), subst(lo, m, memo))
    elif t.op == 'poly':
        r = subst_poly(t, m, memo)
    elif t.op == 'app':
        xs = tuple(subst(x, m, memo) for x in t.args[1])
        r = t if all(x is y for x, y in zip(xs, t.args[1])) else app(t.args[0], xs, t.sort)
    elif t.op == 'tuple':
        xs = tuple(subst(x, m, memo) for x in t.args)
        r = t if all(x is y for x, y in zip(xs, t.args)) else tuple_(*xs)
    elif t.op == 'seq':
        r = seq(t.args[0], [(tag, subst(g, m, memo), subst(x, m, memo)) for tag, g, x in t.args[1]])
    elif t.op == 'dict':
        r = dict_(None if t.args[0] is None else subst(t.args[0], m, memo),
                  [(subst(k, m, memo), subst(g, m, memo), subst(x, m, memo)) for k, g, x in t.args[1]])
    elif t.op == 'inv':
        r = lift(p_inv, (subst(t.args[0], m, memo),))
    elif t.op in ('thr', 'eqc', 'eq', 'truthy', 'exits'):
        r = subst_atom(t, m, memo)
    else:
        fn = _REBUILD.get(t.op)
        na = tuple(_subst_arg(a, m, memo) for a in t.args)
        if na == t.args:
            r = t
        elif fn is not None:
            r = fn(t, na)
        else:
            tops = [x for x in na if isinstance(x, T)]
            if any(x.op == 'ite' for x in tops) and t.op not in ('cv', 'loop', 'collect', 'out', 'ev', 'loopev', 'inst', 'loopx'):
                r = lift(lambda *xs: mk(t.op, _refill(na, list(xs)), t.sort), tops)
            else:
                r = mk(t.op, na, t.sort)
    memo[t] = r
    return r


def _refill(na, xs):
    return tuple(xs.pop(0) if isinstance(a, T) else a for a in na)


def _subst_arg(a, m, memo):
    if isinstance(a, T):
        return subst(a, m, memo)
    if isinstance(a, tuple):
        return tuple(_subst_arg(x, m, memo) for x in a)
    return a


def subst_poly(t, m, memo):
    r = num(0, 'int', 0)
    changed = False
    parts = []
    for mono, c in t.args[0]:
        fs = []
        for a, e in mono:
            b = subst(a, m, memo)
            if b is not a:
                changed = True
            fs.append((b, e))
        parts.append((fs, c))
    if not changed:
        return t
    for fs, c in parts:
        term = num(c, t.args[1])
        for b, e in fs:
            if e > 0:
                pw = lift(lambda x, e=e: p_pow(x, num(e, 'int', 0)), (b,))
            else:
                pw = lift(lambda x, e=e: p_inv(p_pow(x, num(-e, 'int', 0))), (b,))
            term = lift(_chk_mul, (term, pw))
        r = lift(_chk_add, (r, term))
    return r


BADNUM = mk('badnum', (), 'any')


def _chk_mul(a, b):
    if not isnumeric(a) and a.sort != 'any' or not isnumeric(b) and b.sort != 'any':
        return BADNUM
    return p_mul(a, b)


def _chk_add(a, b):
    if not isnumeric(a) and a.sort != 'any' or not isnumeric(b) and b.sort != 'any':
        return BADNUM
    return p_add(a, b)


def subst_atom(a, m, memo):
    """Condition for atom a under substitution."""
    r = m.get(a)
    if r is not None:
        return r
    r = memo.get(('atom', a))
    if r is not None:
        return r
    if a.op == 'thr':
        p = subst(a.args[0], m, memo)
        if p is a.args[0]:
            r = atom_bool(a)
        else:
            r = lift(lambda x: cmp_le(x, num(a.args[1], 'num'), a.args[2]) if isnumeric(x) or x.sort == 'any'
                     else FALSE, (p,))
    elif a.op in ('eqc', 'eq'):
        x, y = subst(a.args[0], m, memo), subst(a.args[1], m, memo)
        r = atom_bool(a) if (x is a.args[0] and y is a.args[1]) else eq(x, y)
    elif a.op == 'truthy':
        x = subst(a.args[0], m, memo)
        r = atom_bool(a) if x is a.args[0] else truth(x)
    else:
        memo2 = memo
        fn = _REBUILD.get(a.op)
        na = tuple(_subst_arg(x, m, memo2) for x in a.args)
        if na == a.args:
            r = atom_bool(a)
        elif a.op == 'app':
            b = app(na[0], na[1], 'bool')
            r = _as_cond(b)
        elif fn is not None:
            r = _as_cond(fn(a, na))
        else:
            tops = [x for x in na if isinstance(x, T)]
            if any(x.op == 'ite' for x in tops) and a.op not in ('out', 'exits'):
                r = lift(lambda *xs: _as_cond(mk(a.op, _refill(na, list(xs)), a.sort)), tops)
            else:
                r = _as_cond(mk(a.op, na, a.sort))
    memo[('atom', a)] = r
    return r


def _as_cond(b):
    if b is TRUE or b is FALSE or b.op == 'ite':
        return b
    return atom_bool(b)


def truth_leaf(t):
    if t.sort in ('tz', 'tzinfo'):
        return TRUE
    if t.op == 'const' or t.op == 'num':
        return boolc(bool(t.args[1] if t.op == 'const' else t.args[0]))
    if t.sort == 'bool':
        return atom_bool(t)
    if t.sort in NUMERIC:
        return not_(eq_leaf(t, ZERO))
    if t.op == 'tuple':
        return boolc(len(t.args) > 0)
    if t.op == 'seq':
        if any(g is TRUE and (tag == 'e' or (isconst(x) and x.args[1])) for tag, g, x in t.args[1]):
            return TRUE
        r = FALSE
        for tag, g, x in t.args[1]:
            if tag == 'e':
                r = or_(r, g)
            else:
                r = or_(r, and_(g, truth(x)))
        return r
    if t.op == 'dict':
        r = FALSE
        for k, g, x in t.args[1]:
            r = or_(r, g)
        if t.args[0] is not None and r is not TRUE:
            r = or_(r, atom_bool(mk('truthy', (t.args[0],), 'bool')))
        return r
    if t.op in ('enum', 'class', 'type', 'func', 'mod', 'builtin', 'bound', 'excv', 'ext', 'inst', 'lambda',
                'extmethod', 'http', 'record'):
        return TRUE
    if t.sort in ('obj', 'dt', 'exc'):
        return TRUE
    if t.sort == 'str':
        return not_(eq_leaf(t, const('')))
    if t.sort == 'bytes':
        return not_(eq_leaf(t, const(b'')))
    return atom_bool(mk('truthy', (t,), 'bool'))


def truth(t):
    return lift(truth_leaf, (t,))


# ---------------------------------------------------------------- atoms / free occurrence

_atoms_memo = {}


def contains(t, pred, memo=None):
    """Does any subterm satisfy pred?"""
    if memo is None:
        memo = {}

    def rec(x):
        if isinstance(x, tuple):
            return any(rec(y) for y in x)
        if not isinstance(x, T):
            return False
        r = memo.get(x)
        if r is None:
            memo[x] = False
            r = pred(x) or any(rec(y) for y in x.args)
            memo[x] = r
        return r
    return rec(t)


def subterms(t, out=None):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        stack.extend(x.args)
    return seen


# ---------------------------------------------------------------- printing

def show(t, n=5):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, n) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if n <= 0:
        return '..'
    op = t.op
    if op == 'num':
        f = t.args[0]
        return str(f) if f.denominator < 1000 else repr(float(f))
    if op == 'const':
        return repr(t.args[1])
    if op == 'sym':
        return t.args[0]
    if op == 'ite':
        return 'if(%s, %s, %s)' % (show(t.args[0], n), show(t.args[1], n - 1), show(t.args[2], n - 1))
    if op == 'poly':
        out = []
        for m, c in t.args[0]:
            s = '*'.join(show(a, n - 1) + ('^%d' % e if e != 1 else '') for a, e in m)
            cs = str(c) if c.denominator < 100000 else '%.12g' % float(c)
            out.append(cs if not s else s if c == 1 else cs + '*' + s)
        return '(' + ' + '.join(out[:12]) + (' + ...' if len(out) > 12 else '') + ')'
    if op == 'thr':
        return '%s %s %s' % (show(t.args[0], n - 1), '<=' if t.args[2] else '<', t.args[1])
    if op == 'eqc' or op == 'eq':
        return '%s == %s' % (show(t.args[0], n - 1), show(t.args[1], n - 1))
    if op == 'truthy':
        return 'bool(%s)' % show(t.args[0], n - 1)
    if op == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(show(x, n - 1) for x in t.args[1][:8]))
    if op == 'tuple':
        return '(' + ', '.join(show(x, n - 1) for x in t.args[:10]) + ')'
    if op == 'seq':
        ps = []
        for tag, g, x in t.args[1][:30]:
            s = ('' if tag == 'e' else '*') + show(x, n - 1)
            if g is not TRUE:
                s = '{%s?%s}' % (show(g, n - 2), s)
            ps.append(s)
        return '%s[%s]' % (t.args[0], ', '.join(ps))
    if op == 'dict':
        return '{%s%s}' % ('' if t.args[0] is None else '**%s, ' % show(t.args[0], n - 1), ', '.join(
            '%s%s: %s' % (show(k, 1), '' if g is TRUE else '?', show(x, n - 1)) for k, g, x in t.args[1][:30]))
    if op == 'enum':
        return '%s.%s' % (t.args[0], t.args[1])
    if op in ('class', 'func', 'type', 'mod', 'builtin'):
        return str(t.args[0])
    if op == 'field':
        return '%s@%s:%s%s' % (show(t.args[0], n - 1), show(t.args[1], n - 1), t.args[3], t.args[2])
    return '%s(%s)' % (op, ', '.join(show(x, n - 1) for x in t.args))
