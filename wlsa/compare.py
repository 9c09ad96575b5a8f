"""
Semantic comparison of two normal forms.

``Diff(...).diff(a, b, pc)`` walks two decision diagrams / containers in parallel.  Identical terms (hash-consing) are
equal; otherwise it splits on the atoms of either side, prunes combinations of atoms that cannot hold together (linear
rational arithmetic over the atoms' polynomials), uses the equalities of the current branch, compares rational
functions by cross multiplication, and reports the first feasible branch on which the two sides differ.
"""
import math
from fractions import Fraction

from . import terms as tm
from .terms import (T, TRUE, FALSE, NONE, mk, num, ite3, and_, or_, not_, okey, cof, atom_bool, constrain, subst, show,
                    isnumeric)


class Mismatch(object):
    def __init__(self, where, a, b, path):
        self.where, self.a, self.b, self.path = where, a, b, path

    def text(self, n=6):
        w = '/'.join(str(x) for x in self.where if x != '')
        p = ' and '.join(('' if v else 'not ') + '(' + show(a, 4) + ')' for a, v in self.path[-12:])
        return '%s: found %s, required %s%s' % (w or 'value', clip(show(self.a, n)), clip(show(self.b, n)),
                                                ' when ' + p if p else '')


def clip(s, n=600):
    return s if len(s) <= n else s[:n] + '...'


ABSENT = mk('absent', (), 'absent')


class Diff(object):
    def __init__(self, budget=200000):
        self.budget = budget
        self.eqmemo = set()

    def step(self):
        self.budget -= 1
        if self.budget < 0:
            raise tm.Blowup('comparison too large')

    def equal(self, a, b, path=()):
        return self.diff(a, b, (), path) is None

    def diff(self, a, b, where=(), path=()):
        if a is b or (a, b) in self.eqmemo:
            return None
        self.step()
        if a.op != 'ite' and b.op != 'ite':
            r = self.leaf(a, b, where, path)
            if r is None and not path:
                self.eqmemo.add((a, b))
            return r
        at = None
        for x in (a, b):
            if x.op == 'ite' and (at is None or okey(x.args[0]) < okey(at)):
                at = x.args[0]
        known = dict(path).get(at)
        for val in (True, False):
            if known is not None and known is not val:
                continue
            p2 = path if known is not None else path + ((at, val),)
            x, y = cof(a, at, val), cof(b, at, val)
            if x is y:
                continue
            if known is None and not feasible(p2):
                continue
            r = self.diff(x, y, where, p2)
            if r is not None:
                return r
        if not path:
            self.eqmemo.add((a, b))
        return None

    def leaf(self, a, b, where, path):
        if a.op == b.op or {a.op, b.op} <= {'seq', 'tuple', 'dict', 'inst'}:
            r = self.structural(a, b, where, path)
            if r is None:
                return None
        else:
            r = Mismatch(where, a, b, path)
        if isnumeric(a) and isnumeric(b) and cross_equal(a, b):
            return None
        if path:
            f = floors(a, path)
            f.update(floors(b, path))
            if f:
                x, y = subst(a, f), subst(b, f)
                if x is not a or y is not b:
                    return self.diff(x, y, where, path)
            # use what the branch says about the values
            m = equalities(path)
            if m:
                f = counted_ends(a, m)
                f.update(counted_ends(b, m))
                if f:
                    x, y = subst(a, f), subst(b, f)
                    if x is not a or y is not b:
                        return self.diff(x, y, where, path)
                x, y = subst(a, m), subst(b, m)
                if x is not a or y is not b:
                    if x is y:
                        return None
                    q = tuple((p, v) for p, v in path if not is_equality(p, v))
                    q = norm_path(q, m)
                    if q is None:
                        return None
                    return self.diff(x, y, where, q)
        return r

    def structural(self, a, b, where, path):
        if a.op == 'inst' and b.op == 'inst':
            if a.args[0] != b.args[0]:
                return Mismatch(where, a, b, path)
            r = self.diff(a.args[1], b.args[1], where, path)
            if r is None and (a.args[2] is None) != (b.args[2] is None):
                return Mismatch(where, a, b, path)
            if r is None and a.args[2] is not None:
                r = self.diff(a.args[2], b.args[2], where, path)
            return r
        if a.op == 'inst' and b.op == 'dict' and a.args[2] is not None:
            return self.diff(a.args[2], b, where, path)
        if b.op == 'inst' and a.op == 'dict' and b.args[2] is not None:
            return self.diff(a, b.args[2], where, path)
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return Mismatch(where, a, b, path)
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                r = self.diff(x, y, where + (i,), path)
                if r is not None:
                    return r
            return None
        if a.op == 'dict' and b.op == 'dict':
            return self.dicts(a, b, where, path)
        if a.op == 'seq' and b.op == 'seq':
            if a.args[0] != b.args[0]:
                return Mismatch(where, a, b, path)
            return self.seqs(a, b, where, path)
        if a.op == 'fold' and b.op == 'fold' and a.args[0] == b.args[0]:
            am, bm = {x: g for g, x in a.args[1]}, {x: g for g, x in b.args[1]}
            for x in list(am) + list(bm):
                r = self.diff(am.get(x, FALSE), bm.get(x, FALSE), where + ('candidate',), path)
                if r is not None:
                    return self.split(a, b, where, path, r)
            return None
        if a.op == b.op and a.sort == b.sort and len(a.args) == len(b.args) and a.op not in ('poly', 'num', 'const', 'thr'):
            for x, y in zip(a.args, b.args):
                r = self.arg(x, y, where, path)
                if r is not None:
                    return Mismatch(where, a, b, path) if not self.detail(a) else r
            return None
        return Mismatch(where, a, b, path)

    def split(self, a, b, where, path, r):
        """Two guarded collections differ member by member: decide one more condition for both of them, and retry
        (members may be equal to one another on the branch)."""
        known = dict(path)
        at = next((x for x, v in r.path if x not in known), None)
        if at is None:
            return r
        for val in (True, False):
            p2 = path + ((at, val),)
            self.step()
            if not feasible(p2):
                continue
            c = atom_bool(at) if val else not_(atom_bool(at))
            q = self.diff(constrain(a, c), constrain(b, c), where, p2)
            if q is not None:
                return q
        return None

    def detail(self, a):
        return a.op in ('ev', 'loopev', 'out', 'collect', 'outcome', 'trace', 'app')

    def arg(self, x, y, where, path):
        if isinstance(x, T) and isinstance(y, T):
            if x.op in ('thr', 'eqc', 'eq', 'truthy', 'exits') and y.op == x.op:
                x, y = atom_bool(x), atom_bool(y)
            return self.diff(x, y, where, path)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return Mismatch(where, tm.const(repr(x)[:300]), tm.const(repr(y)[:300]), path)
            for p, q in zip(x, y):
                r = self.arg(p, q, where, path)
                if r is not None:
                    return r
            return None
        return None if x == y and not isinstance(x, T) and not isinstance(y, T) else Mismatch(where, tm.const(repr(x)[:300]), tm.const(repr(y)[:300]), path)

    def dicts(self, a, b, where, path):
        if (a.args[0] is None) != (b.args[0] is None):
            return Mismatch(where, a, b, path)
        if a.args[0] is not None:
            r = self.diff(a.args[0], b.args[0], where, path)
            if r is not None:
                return r
        am = {k: (g, v) for k, g, v in a.args[1]}
        bm = {k: (g, v) for k, g, v in b.args[1]}
        if set(k for k in am if k not in bm) and set(k for k in bm if k not in am):
            # keys that are equal only under the branch
            m = equalities(path)
            if m:
                am = {subst(k, m): v for k, v in am.items()}
                bm = {subst(k, m): v for k, v in bm.items()}
        for k in list(am) + [k for k in bm if k not in am]:
            ga, va = am.get(k, (FALSE, ABSENT))
            gb, vb = bm.get(k, (FALSE, ABSENT))
            lab = where + (tm.pyval(k) if tm.isconst(k) else show(k, 3),)
            if ga is gb and va is vb:
                continue
            r = self.diff(ite3(ga, atomic(va), ABSENT), ite3(gb, atomic(vb), ABSENT), lab, path)
            if r is not None:
                return r
        return None

    def seqs(self, a, b, where, path):
        """Guarded sequences: decide guards along the branch, then align."""
        ia, ib = resolve(a.args[1], path), resolve(b.args[1], path)
        if len(ia) == len(ib) and all(x[0] == y[0] for x, y in zip(ia, ib)):
            bad = None
            for i, (x, y) in enumerate(zip(ia, ib)):
                if x[1] is not y[1]:
                    bad = self.diff(x[1], y[1], where + (i,), path)
                if bad is None and x[2] is not y[2]:
                    bad = self.diff(constrain(x[2], x[1]), constrain(y[2], y[1]), where + (label(x[2], i),), path)
                if bad is not None:
                    break
            if bad is None:
                return None
            if all(x[1] is TRUE for x in ia) and all(y[1] is TRUE for y in ib):
                if a.args[0] == 'set' and self.as_sets(ia, ib, where, path):
                    return None
                return bad
        else:
            if all(x[1] is TRUE for x in ia) and all(y[1] is TRUE for y in ib):
                n = 0
                while n < len(ia) and n < len(ib) and self.diff(ia[n][2], ib[n][2], (), path) is None:
                    n += 1
                if n < len(ia) and n < len(ib):
                    return Mismatch(where + (label(ia[n][2], n),), ia[n][2], ib[n][2], path)
                if n < len(ia):
                    return Mismatch(where + ('extra', label(ia[n][2], n)), ia[n][2], ABSENT, path)
                return Mismatch(where + ('missing', label(ib[n][2], n)), ABSENT, ib[n][2], path)
        at = None
        for x in list(ia) + list(ib):
            if x[1].op == 'ite' and (at is None or okey(x[1].args[0]) < okey(at)):
                at = x[1].args[0]
        if at is None:
            return Mismatch(where, a, b, path)
        for val in (True, False):
            p2 = path + ((at, val),)
            self.step()
            if not feasible(p2):
                continue
            c = atom_bool(at) if val else not_(atom_bool(at))
            r = self.diff(constrain(a, c), constrain(b, c), where, p2)
            if r is not None:
                return r
        return None

    def as_sets(self, ia, ib, where, path):
        rest = list(ib)
        for x in ia:
            for y in rest:
                if x[0] == y[0] and self.diff(x[2], y[2], (), path) is None:
                    rest.remove(y)
                    break
            else:
                return False
        return not rest


def label(x, i):
    if x.op == 'ev':
        return '#%d %s' % (i, x.args[0])
    if x.op == 'loopev':
        return '#%d loop' % i
    return i


def atomic(v):
    """Prevent a container from merging with ABSENT (different ops never merge)."""
    return v


def resolve(items, path):
    out = []
    for tag, g, x in items:
        for a, v in path:
            if g.op != 'ite':
                break
            c = atom_bool(a) if v else not_(atom_bool(a))
            if and_(g, c) is FALSE:
                g = FALSE
                break
            g = constrain(g, c)
        if g is not FALSE:
            out.append((tag, g, x))
    return out


# ---------------------------------------------------------------- facts of a branch

def var_bounds(path):
    out = {}
    for a, v in path:
        if a.op == 'eqc' and v and a.args[1].op == 'num':
            c = a.args[1].args[0]
            out[a.args[0]] = [c, c]
        if a.op != 'thr':
            continue
        q, c, incl = a.args
        if q.op == 'poly':
            continue
        b = out.setdefault(q, [None, None])
        if v:
            k = c if incl or not tm.is_int(q) else (Fraction(c) - 1 if Fraction(c).denominator == 1 else c)
            b[1] = k if b[1] is None else min(b[1], k)
        else:
            k = Fraction(c)
            if incl and tm.is_int(q):
                k = Fraction(k.numerator // k.denominator + 1)
            b[0] = k if b[0] is None else max(b[0], k)
    return out


def term_bounds(q, vb):
    lo = hi = Fraction(0)
    for mono, k in tm.to_poly(q).items():
        if not mono:
            lo, hi = lo + k, hi + k
            continue
        if len(mono) != 1 or mono[0][1] != 1:
            return None
        x = mono[0][0]
        r = tm.rng(x) or (None, None)
        a, b = r
        w = vb.get(x)
        if w:
            a = w[0] if a is None or (w[0] is not None and w[0] > a) else a
            b = w[1] if b is None or (w[1] is not None and w[1] < b) else b
        if a is None or b is None:
            return None
        if k < 0:
            a, b = b, a
        lo, hi = lo + k * a, hi + k * b
    return lo, hi


def floors(t, path):
    """floor(..) terms whose value is decided by the bounds of the branch."""
    if not isnumeric(t):
        return {}
    out = {}
    vb = None
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'app' and x.args[0] == 'trunc' and isinstance(x.args[1][0], T) and isnumeric(x.args[1][0]):
            if nonneg(x.args[1][0], path):
                out[x] = tm.floor_(x.args[1][0])
            stack.append(x.args[1][0])
        if x.op == 'app' and x.args[0] == 'floor' and isinstance(x.args[1][0], T) and isnumeric(x.args[1][0]):
            if vb is None:
                vb = var_bounds(path)
            b = term_bounds(x.args[1][0], vb)
            if b is not None and b[0].__floor__() == b[1].__floor__():
                out[x] = num(b[0].__floor__(), 'int')
            stack.append(x.args[1][0])
        elif x.op == 'poly':
            for m, _c in x.args[0]:
                for y, _e in m:
                    stack.append(y)
    return out


def is_equality(a, v):
    return (a.op in ('eqc', 'eq') and v) or (a.op == 'thr' and tight(a, v) is not None)


def tight(a, v):
    return None


def equalities(path):
    m = {}
    lo, hi = {}, {}
    for a, v in path:
        if a.op == 'eqc' and v:
            m[a.args[0]] = a.args[1]
        elif a.op == 'eq' and v:
            x, y = a.args
            if x.op in ('num', 'const', 'enum'):
                x, y = y, x
            m[x] = y
        elif a.op == 'thr':
            q, c, incl = a.args
            if v and incl:
                hi[q] = min(hi.get(q, c), c)
            elif not v and not incl:
                lo[q] = max(lo.get(q, c), c)
            elif tm.is_int(q):
                if v:
                    k = Fraction(c) - 1 if Fraction(c).denominator == 1 else Fraction(c.numerator // c.denominator)
                    hi[q] = min(hi.get(q, k), k)
                else:
                    k = Fraction(c.numerator // c.denominator) + 1
                    lo[q] = max(lo.get(q, k), k)
    for q in lo:
        if q in hi and lo[q] == hi[q]:
            e = solve(q, lo[q])
            if e is not None:
                m[e[0]] = e[1]
    return m


def counted_ends(t, m):
    """Slices that count back from the end of a text whose length is known, by the place where they end."""
    f = {}
    if any(x.op == 'app' and x.args[0] == 'len' for x in m):
        for x in tm.subterms(t):
            if x.op != 'app' or x.args[0] != 'sub':
                continue
            s, lo, hi = x.args[1]
            n = m.get(tm.app('len', (s,), 'int'))
            if n is not None and tm.is_int_const(hi) and hi.args[0] < 0:
                f[x] = tm.app('sub', (s, lo, tm.p_add(n, hi)), x.sort)
    return f


def solve(q, c):
    """q == c as an equation for one variable of q."""
    if q.op != 'poly':
        return q, num(c, q.sort if q.sort in tm.NUMERIC else 'num')
    best = None
    for mono, k in q.args[0]:
        if len(mono) == 1 and mono[0][1] == 1:
            x = mono[0][0]
            if any(x is y or tm.contains(y, lambda t: t is x) for m2, _ in q.args[0] if m2 != mono for y, _ in m2):
                continue
            if best is None or x.key < best[0].key:
                best = (x, k, mono)
    if best is None:
        return None
    x, k, mono = best
    rest = tm.p_add(q, tm.from_poly({mono: k}, 'num'), -1) if False else None
    d = dict(q.args[0])
    d.pop(mono)
    r = tm.from_poly(d, q.sort) if d else num(0, 'num')
    return x, tm.p_scale(tm.p_add(num(c, 'num'), r, -1), Fraction(1) / k)


def norm_path(path, m):
    out = []
    for a, v in path:
        c = tm.subst_atom(a, m, {})
        if c is TRUE or c is FALSE:
            if (c is TRUE) is not v:
                return None
            continue
        if c.op == 'ite' and c.args[1] is TRUE and c.args[2] is FALSE:
            out.append((c.args[0], v))
        elif c.op == 'ite' and c.args[1] is FALSE and c.args[2] is TRUE:
            out.append((c.args[0], not v))
    return tuple(out)


def cross_equal(a, b):
    try:
        d = tm.p_add(a, b, -1)
        if d.op == 'num' and d.args[0] == 0:
            return True
        # clear denominators
        for _ in range(6):
            inv = None
            if d.op == 'num':
                return d.args[0] == 0
            for mono, _c in tm.to_poly(d).items():
                for x, e in mono:
                    if x.op == 'inv':
                        inv = x
                        break
                    if e < 0:
                        inv = ('neg', x)
                        break
                if inv is not None:
                    break
            if inv is None:
                return False
            f = inv[1] if isinstance(inv, tuple) else inv.args[0]
            d = mul_out(d, inv, f)
        return d.op == 'num' and d.args[0] == 0
    except tm.AnalysisError:
        return False


def mul_out(d, inv, f):
    """d * f, with inv*f cancelled."""
    r = num(0, 'num')
    for mono, c in tm.to_poly(d).items():
        m = list(mono)
        if isinstance(inv, tuple):
            t = tm.p_mul(tm.from_poly({mono: c}, 'num'), f)
        else:
            k = [(x, e) for x, e in m if x is inv]
            rest = tuple((x, e) for x, e in m if x is not inv)
            t = tm.from_poly({rest: c}, 'num')
            if k:
                e = k[0][1]
                if e > 1:
                    t = tm.p_mul(t, tm.from_poly({((inv, e - 1),): Fraction(1)}, 'num'))
            else:
                t = tm.p_mul(t, f)
        r = tm.p_add(r, t)
    return r


# ---------------------------------------------------------------- feasibility

_feas = {}


def feasible(path):
    """False only if the literals of the path cannot hold together."""
    key = frozenset(path)
    r = _feas.get(key)
    if r is None:
        r = _feasible(path)
        _feas[key] = r
    return r


def _feasible(path):
    a, v = path[-1]
    d = {}
    for x, w in path:
        if d.setdefault(x, w) is not w:
            return False
    for x, w in path[:-1]:
        if okey(x)[0] == okey(a)[0]:
            i = tm.implied(x, w, a)
            if i is not None and i is not v:
                return False
            i = tm.implied(a, v, x)
            if i is not None and i is not w:
                return False
    # a value that equals None/constant is not a number etc.
    eqs = {x.args[0]: x.args[1] for x, w in path if x.op == 'eqc' and w}
    if eqs:
        for x, w in path:
            if x.op in ('thr', 'truthy') or (x.op == 'eqc' and x.args[0] not in eqs):
                hit = {k: c for k, c in eqs.items() if x.op != 'thr' or c is not NONE}
                if hit and any(k is x.args[0] for k in hit):
                    c = tm.subst_atom(x, hit, {})
                    if (c is TRUE and not w) or (c is FALSE and w):
                        return False
    nulls = {x for x, c in eqs.items() if c is NONE}
    if nulls:
        # conditions on a missing value are "don't care": taken as false, and no arithmetic on them
        rest = []
        for x, w in path:
            if x.op in ('thr', 'truthy') and mentions(x.args[0], nulls):
                if w:
                    return False
                continue
            rest.append((x, w))
        path = tuple(rest)
    ineqs = path_ineqs(path)
    if not any(len(p) for p, c, s in ineqs):
        return True
    return fm(with_ranges(ineqs))


def mentions(q, nulls):
    if q in nulls:
        return True
    if q.op == 'poly':
        return any(a in nulls for m, _c in q.args[0] for a, _e in m)
    return False


def path_ineqs(path):
    ineqs = []
    for x, w in path:
        if x.op == 'thr':
            q, c, incl = x.args
            p = {m: k for m, k in tm.to_poly(q).items()}
            if w:       # q <= c or q < c
                ineqs.append(lin(p, 1, c, incl, q))
            else:       # q > c or q >= c
                ineqs.append(lin(p, -1, c, not incl, q))
        elif x.op == 'eqc' and w and x.args[1].op == 'num':
            p = dict(tm.to_poly(x.args[0]))
            c = x.args[1].args[0]
            ineqs.append(lin(p, 1, c, True, x.args[0]))
            ineqs.append(lin(p, -1, c, True, x.args[0]))
    return ineqs


def with_ranges(ineqs):
    """Add the ranges of the variables and what floor() means."""
    seen = set()
    todo = list(ineqs)
    out = list(ineqs)
    while todo:
        p, c, s = todo.pop()
        for m in p:
            if m in seen or not m:
                continue
            seen.add(m)
            if len(m) != 1 or m[0][1] != 1:
                continue
            x = m[0][0]
            r = tm.rng(x)
            if r:
                lo, hi = r
                if lo is not None:
                    out.append(({m: Fraction(-1)}, -Fraction(lo), False))
                if hi is not None:
                    out.append(({m: Fraction(1)}, Fraction(hi), False))
            if x.op == 'app' and x.args[0] == 'floor' and isnumeric(x.args[1][0]):
                q = dict(tm.to_poly(x.args[1][0]))
                k = Fraction(q.pop((), 0))
                d = {y: -Fraction(v) for y, v in q.items()}
                d[m] = d.get(m, 0) + 1
                up = (d, k, False)                                  # floor(x) - x <= 0
                lo = ({y: -v for y, v in d.items()}, 1 - k, True)   # x - floor(x) < 1
                out += [up, lo]
                todo += [up]
    return out


def nonneg(q, path):
    """q >= 0 on every point of the branch (linear rational reasoning)."""
    p = dict(tm.to_poly(q))
    den = 1
    for k in p.values():
        k = Fraction(k)
        den = den * k.denominator // math.gcd(den, k.denominator)
    neg = ({m: Fraction(k) for m, k in p.items() if m}, -Fraction(p.get((), 0)), True)
    if all(e > 0 and tm.is_int(a) for m in p for a, e in m):
        neg = ({m: k * den for m, k in neg[0].items()}, neg[1] * den - 1, False)
    return not fm(with_ranges(path_ineqs(path) + [neg]))


def lin(p, s, c, incl, q):
    """(coefficients, bound, strict) of s*p <= s*c."""
    d = {m: s * Fraction(k) for m, k in p.items() if m}
    b = s * Fraction(c) - s * Fraction(p.get((), 0))
    strict = not incl
    if strict and d and tm.is_int(q) and all(k.denominator == 1 for k in d.values()) and b.denominator == 1:
        return d, b - 1, False
    return d, b, strict


def fm(ineqs, limit=400):
    """Fourier-Motzkin: False if no rational solution."""
    ineqs = list(ineqs)
    while True:
        for d, b, s in ineqs:
            if not d and (b < 0 or (s and b == 0)):
                return False
        vs = {}
        for d, b, s in ineqs:
            for m, k in d.items():
                pn = vs.setdefault(m, [0, 0])
                pn[0 if k > 0 else 1] += 1
        if not vs:
            return True
        m = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        pos = [i for i in ineqs if i[0].get(m, 0) > 0]
        neg = [i for i in ineqs if i[0].get(m, 0) < 0]
        rest = [i for i in ineqs if not i[0].get(m, 0)]
        if len(pos) * len(neg) + len(rest) > limit:
            return True
        out = {}
        for i in rest:
            out[(frozenset(i[0].items()), i[1], i[2])] = i
        for d1, b1, s1 in pos:
            for d2, b2, s2 in neg:
                k1, k2 = d1[m], -d2[m]
                d = {}
                for x in set(d1) | set(d2):
                    if x == m:
                        continue
                    k = d1.get(x, 0) / k1 + d2.get(x, 0) / k2
                    if k:
                        d[x] = k
                b = b1 / k1 + b2 / k2
                out[(frozenset(d.items()), b, s1 or s2)] = (d, b, s1 or s2)
        ineqs = list(out.values())
