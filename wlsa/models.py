"""
Meaning of Python's built-in operations on the value graph: operators, containers, strings, builtins.

Library modules (datetime, decimal, struct, pytz, requests, sockets, database cursors, ...) are in ext.py.
"""
import ast
import collections
import datetime
import decimal
import re
from fractions import Fraction

from . import terms as tm
from .terms import (
    T, AnalysisError, mk, const, num, NONE, TRUE, FALSE, UNBOUND, ZERO, ONE, ite3, and_, or_, not_, lift, leaves,
    constrain, tuple_, seq, list_, dict_, EMPTY_DICT, app, truth, eq, isnone, subst, atom_bool, show, pyval, isconst,
    isnumeric,
)
from .interp import Dead, Iter, excv, exc_type, type_, builtin, Exit

BAD = mk('typeerr', (), 'bad')

OPN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'LShift': '<<',
       'RShift': '>>', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'MatMult': '@'}


def numlike(x):
    return isnumeric(x) or x.sort == 'any' and x is not NONE and x.op != 'const'


def intish(x):
    return x.sort in ('int', 'bool') or x.sort in ('any', 'num')


def as_num(x):
    if x is TRUE:
        return ONE
    if x is FALSE:
        return ZERO
    if x.sort == 'bool':
        return ite3(atom_bool(x), ONE, ZERO)
    return x


def last_n(n, c):
    """Last n items of a sequence (bounded deque)."""
    items = list(c.args[1])
    if all(t == 'e' and g is TRUE for t, g, x in items):
        return seq(c.args[0], items[-n:] if n else [])
    if all(t == 'e' for t, g, x in items) and len(items) <= n:
        return c
    return seq(c.args[0], [('s', TRUE, app('last_n', (num(n, 'int', 0), c), c.args[0]))])


# ---------------------------------------------------------------- lengths, items

def range_span(v):
    """The length of a range, if not negative."""
    a, b, s = v.args
    if s.op != 'num':
        return None
    k = int(s.args[0])
    if k == 1:
        return tm.p_add(b, a, -1)
    if k > 0:
        return tm.fdiv(tm.p_add(tm.p_add(b, a, -1), num(k - 1, 'int', 0)), s)
    return tm.fdiv(tm.p_add(tm.p_add(a, b, -1), num(-k - 1, 'int', 0)), num(-k, 'int', 0))


def length_leaf(it, v, st):
    c = it.content(v, st) if v.op in ('ref', 'tuple', 'seq', 'inst', 'dict') else None
    if c is not None:
        if c.op == 'tuple':
            return num(len(c.args), 'int', 0)
        if c.op == 'seq':
            if c.args[0] == 'set' and any(g is not TRUE or not isconst(x) for _, g, x in c.args[1]):
                pass
            r = ZERO
            for tag, g, x in c.args[1]:
                n = ONE if tag == 'e' else length_leaf(it, x, st)
                r = lift(tm.p_add, (r, ite3(g, n, ZERO)))
            return r
        if c.op == 'dict':
            if c.args[0] is not None:
                return app('len', (c,), 'int')
            r = ZERO
            for k, g, x in c.args[1]:
                r = lift(tm.p_add, (r, ite3(g, ONE, ZERO)))
            return r
    if v.op == 'const' and v.args[0] in ('str', 'bytes'):
        return num(len(v.args[1]), 'int', 0)
    if v.op == 'bslice' and not it.short_reads:
        return v.args[2]
    if v.op == 'res' and tm.at_most_one_byte(v):
        return ite3(tm.eq_leaf(v, const(b'')), ZERO, ONE)
    if v.op == 'range':
        d = range_span(v)
        if d is not None:
            return ite3(tm.cmp_le(ZERO, d, 1), d, ZERO)
    if v.op == 'collect':
        if all(t == 'e' and g is TRUE for t, g, x in v.args[1]):
            from .interp import trip_count
            n = trip_count(v.args[0].args[1], mk('idx', (v.args[0].args[0],), 'int'))
            if n is not None:
                return tm.p_mul(num(len(v.args[1]), 'int', 0), n)
        return app('len', (v,), 'int')
    if v.op == 'view':
        return length_leaf(it, v.args[1], st)
    if v.op == 'app' and v.args[0] in ('.split', '.rsplit') and len(v.args[1]) == 3 and v.args[1][2] is ONE:
        return ite3(atom_bool(app('substr', (v.args[1][1], v.args[1][0]), 'bool')), num(2, 'int', 0), ONE)
    return app('len', (v,), 'int')


def length(it, v, st, fr, ex, node):
    v = constrain(v, st.pc)
    bad = lift(lambda l: tm.boolc(l is NONE or isnumeric(l)), (v,))
    if bad is not FALSE:
        it.raise_(bad, excv('TypeError', const('len')), st, ex, node)
        v = constrain(v, st.pc)

    def leaf(l):
        if l.op == 'ref' and it.info(l)['kind'] == 'inst':
            f = it.mro_lookup(it.info(l)['cls'], '__len__', st)
            if f is not None and f.op == 'func':
                return it.call(f, [l], {}, st, fr, ex, node)
        return length_leaf(it, l, st)
    return lift(leaf, (v,)) if v.op == 'ite' else leaf(v)


def items_of(it, v, st, fr, ex, node):
    """[(tag, guard, term)] of an iterable."""
    v = constrain(v, st.pc)
    if v.op == 'ite':
        out = []
        for c, l in leaves(v):
            if l is NONE:
                it.raise_(c, excv('TypeError', const('not iterable')), st, ex, node)
                continue
            out += [(t, and_(c, g), x) for t, g, x in items_of(it, l, st, fr, ex, node)]
        return out
    c = it.content(v, st) if v.op in ('ref', 'tuple', 'seq', 'inst', 'dict') else None
    if c is not None:
        if c.op == 'tuple':
            return [('e', TRUE, x) for x in c.args]
        if c.op == 'seq':
            return list(c.args[1])
        if c.op == 'dict' and c.args[0] is None:
            return [('e', g, k) for k, g, x in c.args[1]]
        return [('s', TRUE, c)]
    if v.op == 'const' and v.args[0] in ('str', 'bytes'):
        return [('e', TRUE, const(x)) for x in v.args[1]]
    i = iterator(it, v, st, fr, ex, node)
    if i.items is not None:
        return [('e', g, x) for g, x in i.items]
    # anything else: as a collected sequence
    tmp = it.alloc('list', st, seq('list', []))

    def body(x, s, bex):
        cc = s.heap[(tmp.args[0], 'c')]
        s.heap[(tmp.args[0], 'c')] = seq('list', list(cc.args[1]) + [('e', TRUE, x)])
        return True
    it.iterate(i, body, lambda s: True, st, fr, ex, node)
    return list(st.heap[(tmp.args[0], 'c')].args[1])


def dedupe(s):
    out = []
    for tag, g, x in s.args[1]:
        if tag == 'e':
            dup = False
            ng = g
            for t2, g2, y in out:
                if t2 != 'e':
                    continue
                if y is x:
                    ng = and_(ng, not_(g2))
                elif not (isconst(x) and isconst(y)) and x.op not in ('enum',):
                    e = eq(x, y)
                    if e is not FALSE:
                        ng = and_(ng, not_(and_(g2, e)))
            if ng is FALSE:
                continue
            out.append((tag, ng, x))
        else:
            if (tag, g, x) not in out:
                out.append((tag, g, x))
    return seq(s.args[0], out)


def iterator(it, v, st, fr, ex, node):
    op = v.op
    if op == 'range':
        a, b, s = v.args
        if a.op == 'num' and b.op == 'num' and s.op == 'num':
            r = range(int(a.args[0]), int(b.args[0]), int(s.args[0]))
            if len(r) <= 2000:
                return Iter(items=[(TRUE, num(i, 'int', 0)) for i in r])
        n = range_span(v)
        n = length_leaf(it, v, st) if n is None else n   # indices are not negative
        return Iter(has=lambda i: lift(lambda n: tm.cmp_le(i, n, 0), (n,)),
                    at=lambda i: tm.p_add(a, tm.p_mul(s, i)), deps=(a, b, s))
    if op == 'view':
        kind = v.args[0]
        src = v.args[1]
        if kind == 'enumerate':
            sub = it.iter_of(src, st, fr, ex, node)
            start = v.args[2]
            if sub.items is not None:
                out = []
                n = start
                for g, x in sub.items:
                    out.append((g, tuple_(n, x)))
                    n = lift(lambda n, one: tm.p_add(n, one), (n, ite3(g, ONE, ZERO)))
                return Iter(items=out)
            return Iter(has=sub.has, at=lambda i: tuple_(lift(tm.p_add, (start, i)), sub.at(i)), deps=sub.deps)
        if kind == 'zip':
            subs = [it.iter_of(x, st, fr, ex, node) for x in src.args]
            if all(s.items is not None and all(g is TRUE for g, x in s.items) for s in subs):
                return Iter(items=[(TRUE, tuple_(*[x for _, x in xs])) for xs in zip(*[s.items for s in subs])])
            fin = [len(s.items) for s in subs if s.items is not None and all(g is TRUE for g, x in s.items)]
            if any(s.items is not None for s in subs):
                if fin and len(fin) + sum(1 for s in subs if s.items is None) == len(subs):
                    n = min(fin)
                    out = []
                    for i in range(n):
                        ii = num(i, 'int', 0)
                        g = TRUE
                        xs = []
                        for s in subs:
                            if s.items is not None:
                                xs.append(s.items[i][1])
                            else:
                                g = and_(g, s.has(ii))
                                xs.append(s.at(ii))
                        out.append((g, tuple_(*xs)))
                    return Iter(items=out)
                raise AnalysisError('zip of guarded sequences')
            return Iter(has=lambda i: and_(*[s.has(i) for s in subs]), at=lambda i: tuple_(*[s.at(i) for s in subs]),
                        deps=sum((tuple(s.deps) for s in subs), ()))
        if kind == 'reversed':
            sub = it.iter_of(src, st, fr, ex, node)
            if sub.items is not None:
                return Iter(items=list(reversed(sub.items)))
            n = length(it, src, st, fr, ex, node)
            return Iter(has=sub.has, at=lambda i: lift(lambda n: sub.at(tm.p_add(tm.p_add(n, ONE, -1), i, -1)), (n,)),
                        deps=sub.deps)
        if kind in ('items', 'keys', 'values'):
            d = src
            if d.args[0] is not None:
                base = mk('dictview', (kind, d), 'list')
                return seqiter(it, base, st)
            f = {'items': lambda k, x: tuple_(k, x), 'keys': lambda k, x: k, 'values': lambda k, x: x}[kind]
            return Iter(items=[(g, f(k, x)) for k, g, x in d.args[1]])
        if kind == 'map':
            raise AnalysisError('map')
    if op == 'ref' and it.info(v)['kind'] == 'calls':
        f, until = it.info(v)['call']
        return Iter(ask=lambda s, bex: it.call(f, [], {}, s, fr, bex, node), until=until)
    if op == 'ref' and it.info(v).get('reads') is not None:
        return rest_of(it, v, st)
    c = it.content(v, st) if op in ('ref', 'tuple', 'seq', 'inst', 'dict') else None
    if c is not None:
        if c.op == 'tuple':
            return Iter(items=[(TRUE, x) for x in c.args])
        if c.op == 'dict':
            if c.args[0] is None:
                return Iter(items=[(g, k) for k, g, x in c.args[1]])
            return seqiter(it, mk('dictview', ('keys', c), 'list'), st)
        if c.op == 'seq':
            if all(t == 'e' for t, g, x in c.args[1]):
                return Iter(items=[(g, x) for t, g, x in c.args[1]])
            if len(c.args[1]) == 1 and c.args[1][0][1] is TRUE:
                return seqiter(it, c.args[1][0][2], st)
            return seqiter(it, c, st)
    if op == 'const' and v.args[0] in ('str', 'bytes'):
        return Iter(items=[(TRUE, const(x)) for x in v.args[1]])
    if op == 'class' and it.classes[v.args[0]].enum:
        return Iter(items=[(TRUE, e) for _, _, e in it.classes[v.args[0]].members])
    if op == 'ref' and it.info(v)['kind'] == 'inst':
        f = it.mro_lookup(it.info(v)['cls'], '__iter__', st)
        if f is not None and f.op == 'func':
            r = it.call(f, [v], {}, st, fr, ex, node)
            return it.iter_of(r, st, fr, ex, node)
    if v is NONE or isnumeric(v) or op in ('enum', 'func'):
        it.raise_(TRUE, excv('TypeError', const('not iterable')), st, ex, node)
    from . import ext
    r = ext.iterator(it, v, st, fr, ex, node)
    if r is not None:
        return r
    return seqiter(it, v, st)


def seqiter(it, v, st):
    n = length_leaf(it, v, st)
    return Iter(has=lambda i: lift(lambda n: tm.cmp_le(i, n, 0), (n,)), at=lambda i: item(it, v, i, st), deps=(v,))


def through_slice(o, k, exact=False):
    """(s, a + k) when o[k] is s[a:b][k]; exact: also when o[k] is out of range exactly when s[a + k] is."""
    if o.op == 'app' and o.args[0] == 'sub' and o.sort in ('str', 'bytes') and tm.is_int_const(k) and k.args[0] >= 0:
        s, a, b = o.args[1]
        if tm.is_int_const(a) and a.args[0] >= 0:
            at = a.args[0] + k.args[0]
            if b is NONE or (tm.is_int_const(b) and b.args[0] > at) or not exact:
                return s, num(at, 'int', 0)
    return None


def item(it, src, k, st):
    """src[k] for a sequence leaf and an index that is in range."""
    inner = through_slice(src, k)
    if inner is not None:
        return item(it, inner[0], inner[1], st)
    if src.op == 'tuple':
        return index_known(list(src.args), k)
    if src.op == 'seq':
        items = src.args[1]
        if all(t == 'e' and g is TRUE for t, g, x in items):
            return index_known([x for _, _, x in items], k)
        if len(items) == 1 and items[0][0] == 's' and items[0][1] is TRUE:
            return item(it, items[0][2], k, st)
        # known prefix
        if k.op == 'num' and k.args[0] >= 0:
            i = int(k.args[0])
            if i < len(items) and all(t == 'e' and g is TRUE for t, g, x in items[:i + 1]):
                return items[i][2]
        if k.op == 'num' and k.args[0] < 0:
            i = int(k.args[0])
            if -i <= len(items) and all(t == 'e' and g is TRUE for t, g, x in items[i:]):
                return items[i][2]
        if k.op == 'num' and k.args[0] > 0 and len(items) <= 8 and all(t == 'e' for t, g, x in items):
            return nth_present(items, int(k.args[0]))
        if k.op == 'num' and k.args[0] in (0, -1) and all(t == 'e' for t, g, x in items):
            # first / last of the elements that are present
            r = UNBOUND
            for _, g, x in (items if k.args[0] else items[::-1]):
                r = tm.ite3(g, x, r)
            return r
        return shaped(it, mk('elem', (src, k), 'any'), src)
    if src.op == 'const' and src.args[0] in ('str', 'bytes') and k.op == 'num':
        return const(src.args[1][int(k.args[0])])
    if src.op == 'collect' and len(src.args[1]) == 1 and src.args[1][0][0] == 'e' and src.args[1][0][1] is TRUE and not (k.op == 'num' and k.args[0] < 0):
        d = src.args[0].args[0]
        body = src.args[1][0][2]
        if not tm.contains(body, lambda t: t.op == 'cv'):
            return subst(body, {mk('idx', (d,), 'int'): k})
    if src.op == 'bslice':
        if k.op == 'num' and k.args[0] < 0 and not it.short_reads:
            k = tm.p_add(src.args[2], k)
        return field(src.args[0], tm.p_add(src.args[1], k), 'B', '')
    if src.op == 'dictview':
        kind, d = src.args
        key = mk('elem', (mk('dictview', ('keys', d), 'list'), k), 'any')
        if kind == 'keys':
            return shaped(it, key, src)
        val = shaped(it, mk('elem', (mk('dictview', ('values', d), 'list'), k), 'any'), src)
        return tuple_(key, val) if kind == 'items' else val
    if src.sort == 'str':
        return app('char', (src, k), 'str')
    if src.sort == 'bytes':
        return app('byte', (src, k), 'int')
    return shaped(it, mk('elem', (src, k), 'any'), src)


def nth_present(items, k):
    """The k-th of the elements that are present."""
    if not items:
        return UNBOUND
    _, g, x = items[0]
    here = x if k == 0 else nth_present(items[1:], k - 1)
    if g is TRUE:
        return here
    return tm.ite3(g, here, nth_present(items[1:], k))


def index_known(xs, k):
    if k.op == 'num':
        i = int(k.args[0])
        if -len(xs) <= i < len(xs):
            return xs[i]
        return UNBOUND
    if len(xs) <= 40 or len({x.key for x in xs}) <= 20:
        return int_map(k, dict(enumerate(xs)))
    return app('table', (tuple_(*xs), k), xs[0].sort if len({x.sort for x in xs}) == 1 else 'any')


STR_LISTS = ('.split', '.rsplit', '.splitlines', '.partition', '.rpartition')


def shaped(it, t, src):
    """Give a symbolic element its declared shape."""
    if src.op == 'app' and src.args[0] in STR_LISTS:
        return mk('elem', t.args, src.args[1][0].sort if src.args[1][0].sort in ('str', 'bytes') else 'str')
    fn = it.shapes.get(src)
    if fn is None and src.op == 'sym':
        fn = it.shapes.get(src.args[0])
    if fn is None and src.op in ('app', 'elem', 'get', 'res', 'rows'):
        fn = it.shapes.get('*' + src.op)
    if fn is None:
        return t
    return fn(t)


def int_map(l, m):
    """Decision chain over the integer keys of m; UNBOUND elsewhere."""
    if l.op == 'num':
        f = l.args[0]
        if f.denominator == 1 and int(f) in m:
            return m[int(f)]
        return UNBOUND
    ks = sorted(m)
    runs = []
    for k in ks:
        if runs and runs[-1][1] == k - 1 and runs[-1][2].key == m[k].key:
            runs[-1][1] = k
        else:
            runs.append([k, k, m[k]])
    l = as_num(l)
    if l.op == 'ite':
        return lift(lambda x: int_map(x, m), (l,))
    isint = tm.is_int(l)
    r = UNBOUND
    for lo, hi, v in reversed(runs):
        if isint:
            c = and_(tm.cmp_le(num(lo, 'int', 0), l, 1), tm.cmp_le(l, num(hi, 'int', 0), 1))
            r = ite3(c, v, r)
        else:
            for k in range(lo, hi + 1):
                r = ite3(eq(l, num(k, 'int', 0)), v, r)
    return r


# ---------------------------------------------------------------- operators

def binop(it, op, a, b, st, fr, ex, n):
    o = OPN[type(op).__name__]
    a, b = constrain(a, st.pc), constrain(b, st.pc)
    # user-defined operators
    for x in (a, b):
        if x.op == 'ref' and it.info(x)['kind'] == 'inst' and not it.info(x).get('builtin'):
            r = user_binop(it, o, a, b, st, fr, ex, n)
            if r is not None:
                return r
    r = lift(lambda x, y: leafop(it, o, x, y, st, fr, ex, n), (a, b))
    if r is BAD or r.op == 'ite':
        r = constrain(r, st.pc)
        bad = lift(lambda l: tm.boolc(l is BAD), (r,))
        if bad is not FALSE:
            it.raise_(bad, excv('TypeError', const('unsupported operand for %s' % o)), st, ex, n)
            r = constrain(r, st.pc)
    if it.zero_division and o in ('/', '//', '%') and not (o == '%' and a.sort == 'str'):
        z = lift(lambda x, y: iszero(y) if (numlike(x) and numlike(y)) else FALSE, (a, b))
        z = constrain(z, st.pc)
        if z is not FALSE:
            it.raise_(z, excv('ZeroDivisionError'), st, ex, n)
            r = constrain(r, st.pc)
    return r


DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '<<': 'lshift',
          '>>': 'rshift', '&': 'and', '|': 'or', '^': 'xor'}


def user_binop(it, o, a, b, st, fr, ex, n):
    for x, y, pre in ((a, b, '__%s__'), (b, a, '__r%s__')):
        if x.op == 'ref' and it.info(x)['kind'] == 'inst':
            f = it.mro_lookup(it.info(x)['cls'], pre % DUNDER[o], st)
            if f is not None and f.op == 'func':
                return it.call(f, [x, y], {}, st, fr, ex, n)
    return None


def iszero(y):
    y = as_num(y)
    if y.op == 'ite':
        return lift(iszero, (y,))
    if y.op == 'num':
        return tm.boolc(y.args[0] == 0)
    return tm.eq_leaf(y, ZERO) if isnumeric(y) else FALSE


def leafop(it, o, x, y, st, fr, ex, n):
    from . import ext
    if x is UNBOUND or y is UNBOUND or x is BAD or y is BAD:
        return BAD
    if x.sort in ('dt', 'td', 'date', 'time') or y.sort in ('dt', 'td', 'date', 'time'):
        return ext.dt_op(o, x, y)
    if numlike(x) and numlike(y) and not (x.sort == 'any' and y.sort == 'any' and o == '+' and False):
        return numop(o, x, y)
    cx = it.content(x, st) if x.op in ('ref', 'tuple', 'seq', 'inst', 'dict') else None
    cy = it.content(y, st) if y.op in ('ref', 'tuple', 'seq', 'inst', 'dict') else None
    if x.sort == 'str' or x.op == 'seq' and x.args[0] == 'str':
        if o == '+' and y.sort in ('str', 'any'):
            return seq('str', [('s', TRUE, x), ('s', TRUE, y)])
        if o == '%':
            return percent(it, x, y, cy, st, fr, ex, n)
        if o == '*' and y.op == 'num' and isconst(x):
            return const(pyval(x) * int(y.args[0]))
        if o == '*' and numlike(y):
            return app('repeat', (x, y), 'str')
        return BAD
    if x.sort == 'bytes':
        if o == '+' and y.sort in ('bytes', 'any'):
            return bytes_cat([x, y])
        if o == '%':
            return app('bytes%', (x, y), 'bytes')
        if o == '*' and y.op == 'num' and isconst(x):
            return const(pyval(x) * int(y.args[0]))
        return BAD
    if cx is not None and cy is not None:
        kx, ky = kindof(it, x, cx), kindof(it, y, cy)
        if o == '+' and kx == ky == 'tuple':
            return tuple_of(as_items(cx) + as_items(cy))
        if o == '+' and kx == ky == 'list':
            return it.alloc('list', st, seq('list', as_items(cx) + as_items(cy)))
        if kx == ky == 'set':
            if o == '|':
                return it.alloc('set', st, dedupe(seq('set', as_items(cx) + as_items(cy))))
            if o in ('&', '-'):
                out = []
                for t, g, e in as_items(cx):
                    c = contains_cond(it, e, cy, st)
                    out.append((t, and_(g, c if o == '&' else not_(c)), e))
                return it.alloc('set', st, seq('set', out))
        if kx == ky == 'dict' and o == '|':
            d = it.alloc('dict', st, cx)
            container_method(it, d, 'update', [y], {}, st, fr, ex, n)
            return d
        return BAD
    if o == '*' and cx is not None and cx.op in ('tuple', 'seq') and y.op == 'num':
        its = as_items(cx) * int(y.args[0])
        return it.alloc('list', st, seq('list', its)) if kindof(it, x, cx) == 'list' else tuple_of(its)
    if o == '*' and cy is not None and x.op == 'num':
        return leafop(it, o, y, x, st, fr, ex, n)
    if o == '+' and x.sort == 'list' and y.sort == 'list' or (cx is not None and y.sort in ('list', 'any')) or (
            cy is not None and x.sort in ('list', 'any')):
        if o == '+':
            ix = as_items(cx) if cx is not None else [('s', TRUE, x)]
            iy = as_items(cy) if cy is not None else [('s', TRUE, y)]
            return it.alloc('list', st, seq('list', ix + iy))
    if x is NONE or y is NONE or isconst(x) or isconst(y):
        return BAD
    if x.sort in ('any', 'obj') or y.sort in ('any', 'obj'):
        return app('op' + o, (x, y))
    return BAD


def kindof(it, v, c):
    if v.op == 'ref':
        inf = it.info(v)
        return inf.get('builtin') or {'deque': 'list', 'frozenset': 'set'}.get(inf['kind'], inf['kind'])
    if c.op == 'tuple':
        return 'tuple'
    if c.op == 'dict':
        return 'dict'
    return c.args[0]


def as_items(c):
    if c.op == 'tuple':
        return [('e', TRUE, x) for x in c.args]
    if c.op == 'dict':
        return [('e', g, k) for k, g, x in c.args[1]]
    return list(c.args[1])


def tuple_of(items):
    if all(t == 'e' and g is TRUE for t, g, x in items):
        return tuple_(*[x for _, _, x in items])
    return seq('tuple', items)


def numop(o, x, y):
    x, y = as_num(x), as_num(y)
    if x.op == 'ite' or y.op == 'ite':
        return lift(lambda a, b: numop(o, a, b), (x, y))
    if {x.sort, y.sort} == {'dec', 'float'}:
        return BAD
    if o == '+':
        return tm.p_add(x, y)
    if o == '-':
        return tm.p_add(x, y, -1)
    if o == '*':
        return tm.p_mul(x, y)
    if o == '/':
        if y.op == 'num' and not y.args[0]:
            return BAD
        return tm.p_div(x, y)
    if o in ('//', '%'):
        if y.op == 'num' and not y.args[0]:
            return BAD
        if 'dec' in (x.sort, y.sort):
            return app('dec' + o, (x, y), 'dec')
        q = tm.fdiv(x, y)
        if o == '//':
            return q
        return tm.p_add(x, tm.p_mul(y, q), -1)
    if o == '**':
        return tm.p_pow(x, y)
    if not (intish(x) and intish(y)):
        return BAD
    if o == '<<' and tm.is_int_const(y):
        return tm.p_mul(x, num(2 ** int(y.args[0]), 'int', 0))
    if o == '>>' and tm.is_int_const(y):
        return tm.fdiv(x, num(2 ** int(y.args[0]), 'int', 0))
    if o == '&':
        return tm.bit_and(x, y)
    if o == '|':
        return tm.bit_or(x, y)
    if o == '^':
        return tm.bit_or(x, y, 'xor')
    return app('op' + o, (x, y), 'int')


def compare(it, op, a, b, st, fr, ex, n):
    a, b = constrain(a, st.pc), constrain(b, st.pc)
    k = type(op).__name__
    if k in ('Is', 'IsNot'):
        r = lift(lambda x, y: is_leaf(it, x, y, st), (a, b))
        return not_(r) if k == 'IsNot' else r
    if k in ('Eq', 'NotEq'):
        r = lift(lambda x, y: eq_full(it, x, y, st), (a, b))
        return not_(r) if k == 'NotEq' else r
    if k in ('In', 'NotIn'):
        r = contains(it, a, b, st, fr, ex, n)
        return not_(r) if k == 'NotIn' else r
    from . import ext

    def leaf(x, y):
        if x.sort in ('dt', 'date', 'td', 'time') and y.sort in ('dt', 'date', 'td', 'time', 'any'):
            x, y = ext.dt_num(x), ext.dt_num(y)
        elif y.sort in ('dt', 'date', 'td', 'time') and x.sort == 'any':
            x, y = ext.dt_num(x), ext.dt_num(y)
        if numlike(x) and numlike(y):
            x, y = as_num(x), as_num(y)
            if k == 'Lt':
                return lift(lambda p, q: tm.cmp_le(p, q, 0), (x, y))
            if k == 'LtE':
                return lift(lambda p, q: tm.cmp_le(p, q, 1), (x, y))
            if k == 'Gt':
                return lift(lambda p, q: tm.cmp_le(q, p, 0), (x, y))
            return lift(lambda p, q: tm.cmp_le(q, p, 1), (x, y))
        if x is NONE or y is NONE:
            return BAD
        if x.op == 'const' and y.op == 'const' and x.sort == y.sort and x.sort in ('str', 'bytes'):
            u, v = pyval(x), pyval(y)
            return tm.boolc({'Lt': u < v, 'LtE': u <= v, 'Gt': u > v, 'GtE': u >= v}[k])
        cx = it.content(x, st) if x.op in ('ref', 'tuple', 'seq') else None
        cy = it.content(y, st) if y.op in ('ref', 'tuple', 'seq') else None
        if cx is not None and cy is not None and cx.op == 'tuple' and cy.op == 'tuple':
            r = tm.boolc({'Lt': len(cx.args) < len(cy.args), 'LtE': len(cx.args) <= len(cy.args),
                          'Gt': len(cx.args) > len(cy.args), 'GtE': len(cx.args) >= len(cy.args)}[k])
            for u, v in reversed(list(zip(cx.args, cy.args))):
                strict = lift(lambda p, q: lexcmp(k, p, q), (u, v))
                r = ite3(lift(tm.eq_leaf, (u, v)), r, strict)
            return r
        if isnumeric(x) != isnumeric(y) and 'any' not in (x.sort, y.sort):
            return BAD
        if k in ('Gt', 'GtE'):
            return atom_bool(app('ord' + {'Gt': '<', 'GtE': '<='}[k], (y, x), 'bool'))
        return atom_bool(app('ord' + {'Lt': '<', 'LtE': '<='}[k], (x, y), 'bool'))

    def lexcmp(k, p, q):
        if numlike(p) and numlike(q):
            return tm.cmp_le(p, q, 0) if k in ('Lt', 'LtE') else tm.cmp_le(q, p, 0)
        return atom_bool(app('ord<', (p, q) if k in ('Lt', 'LtE') else (q, p), 'bool'))
    r = lift(leaf, (a, b))
    bad = constrain(lift(lambda l: tm.boolc(l is BAD), (r,)), st.pc)
    if bad is not FALSE:
        it.raise_(bad, excv('TypeError', const('comparison')), st, ex, n)
        r = constrain(r, st.pc)
        r = lift(lambda l: FALSE if l is BAD else l, (r,))
    return constrain(r, st.pc)


def is_leaf(it, x, y, st):
    if x is y:
        return TRUE
    if x is NONE or y is NONE:
        return tm.isnone_leaf(y if x is NONE else x)
    if x.op == 'enum' or y.op == 'enum' or x in (TRUE, FALSE) or y in (TRUE, FALSE):
        return tm.eq_leaf(x, y)
    if x.op in ('class', 'type', 'func') or y.op in ('class', 'type', 'func'):
        return tm.eq_leaf(x, y)
    if x.op in ('ref', 'const', 'num') or y.op in ('ref', 'const', 'num'):
        if isconst(x) and isconst(y):
            return tm.eq_leaf(x, y)
        if x.op == 'ref' and y.op == 'ref':
            return FALSE
    return tm.eq_leaf(x, y)


def equal(it, x, y, st, fr, ex, node):
    return lift(lambda p, q: eq_full(it, p, q, st), (x, y))


def eq_full(it, x, y, st):
    if x is y:
        return TRUE
    cx = it.content(x, st) if x.op in ('ref', 'tuple', 'seq', 'inst') else None
    cy = it.content(y, st) if y.op in ('ref', 'tuple', 'seq', 'inst') else None
    if cx is not None and cy is not None:
        kx, ky = kindof(it, x, cx), kindof(it, y, cy)
        if kx != ky:
            return FALSE
        if cx.op == 'dict':
            if it.freeze(cx, st) is it.freeze(cy, st):
                return TRUE
            return atom_bool(app('eqc', (it.freeze(cx, st), it.freeze(cy, st)), 'bool'))
        ix, iy = as_items(cx), as_items(cy)
        if all(t == 'e' and g is TRUE for t, g, _ in ix + iy):
            if len(ix) != len(iy):
                return FALSE
            if kx == 'set':
                kx_, ky_ = {e.key for _, _, e in ix}, {e.key for _, _, e in iy}
                if kx_ == ky_:
                    return TRUE
                if all(isconst(e) for _, _, e in ix + iy):
                    return FALSE
            else:
                return and_(*[lift(lambda p, q: eq_full(it, p, q, st), (p[2], q[2])) for p, q in zip(ix, iy)])
        # comparison with the empty container
        for u, v in ((cx, cy), (cy, cx)):
            if not as_items(u):
                return not_(truth(v))
        return atom_bool(app('eqc', (it.freeze(cx, st), it.freeze(cy, st)), 'bool'))
    for u, v in ((cx, y), (cy, x)):
        if u is not None and (isconst(v) or isnumeric(v) or v.sort in ('str', 'bytes', 'dt', 'date') or v.op == 'enum'):
            return FALSE
    if x.sort in ('dt', 'date', 'td') and y.sort == x.sort:
        from . import ext
        return tm.eq_leaf(ext.dt_num(x), ext.dt_num(y))
    for u, v in ((x, y), (y, x)):
        if u.op == 'ref' and it.info(u)['kind'] == 'inst':
            f = it.mro_lookup(it.info(u)['cls'], '__eq__', st)
            if f is not None and f.op == 'func':
                raise AnalysisError('user-defined __eq__')
            return FALSE if (v.op == 'ref' or isconst(v)) else atom_bool(app('eqc', (it.freeze(u, st), v), 'bool'))
    return tm.eq_leaf(x, y)


def contains(it, a, b, st, fr, ex, n):
    b = constrain(b, st.pc)
    bad = lift(lambda l: tm.boolc(l is NONE or isnumeric(l)), (b,))
    if bad is not FALSE:
        it.raise_(bad, excv('TypeError', const('not a container')), st, ex, n)
        b = constrain(b, st.pc)
    r = FALSE
    for cnd, l in leaves(b):
        if l.op == 'ref' and it.info(l)['kind'] == 'inst':
            f = it.mro_lookup(it.info(l)['cls'], '__contains__', st)
            if f is not None and f.op == 'func':
                r = ite3(cnd, truth(it.call(f, [l, a], {}, st, fr, ex, n)), r)
                continue
        if l.op == 'range':
            s = l.args[2]
            c = and_(lift(lambda x: tm.cmp_le(l.args[0], x, 1) if numlike(x) else FALSE, (a,)),
                     lift(lambda x: tm.cmp_le(x, l.args[1], 0) if numlike(x) else FALSE, (a,)))
            if s is not ONE:
                raise AnalysisError('membership in a stepped range')
            c = and_(c, lift(lambda x: TRUE if tm.is_int(x) else tm.eq_leaf(tm.floor_(x), x), (a,)))
            r = ite3(cnd, c, r)
            continue
        if l.op == 'view' and l.args[0] in ('keys', 'items', 'values'):
            if l.args[0] == 'keys':
                l = l.args[1]
            else:
                c = tuple_(*[tuple_(k, x) if l.args[0] == 'items' else x for k, g, x in l.args[1].args[1]])
                r = ite3(cnd, contains_cond(it, a, c, st), r)
                continue
        if l.op == 'class' and it.classes[l.args[0]].enum:
            r = ite3(cnd, contains_cond(it, a, tuple_(*[e for _, _, e in it.classes[l.args[0]].members]), st), r)
            continue
        c = it.content(l, st) if l.op in ('ref', 'tuple', 'seq', 'inst', 'dict') else None
        if c is not None:
            r = ite3(cnd, contains_cond(it, a, c, st), r)
            continue
        if l.sort in ('str', 'bytes'):
            v = lift(lambda x: tm.boolc(pyval(x) in pyval(l)) if (isconst(x) and isconst(l)) else
                     atom_bool(app('substr', (x, l), 'bool')), (a,))
        else:
            v = lift(lambda x: atom_bool(app('has', (l, x), 'bool')), (a,))
        r = ite3(cnd, v, r)
    return r


def contains_cond(it, a, c, st):
    if c.op == 'dict':
        return lift(lambda x: dict_lookup(c, x)[1], (a,))
    if c.op == 'seq' and c.args[0] == 'str':
        return atom_bool(app('substr', (a, c), 'bool'))
    items = as_items(c)
    # integer constants as intervals
    r = FALSE
    ints = {}
    for t, g, x in items:
        if t == 'e' and g is TRUE and tm.is_int_const(x):
            ints[int(x.args[0])] = TRUE
            continue
        if t == 'e':
            r = or_(r, and_(g, lift(lambda p, q: eq_full(it, p, q, st), (a, x))))
        else:
            r = or_(r, and_(g, lift(lambda p: atom_bool(app('has', (x, p), 'bool')), (a,))))
    if ints:
        def leaf(x):
            if numlike(x) or isnumeric(x):
                m = int_map(x, ints)
                return lift(lambda l: TRUE if l is TRUE else FALSE, (m,))
            return FALSE
        r = or_(r, lift(leaf, (a,)))
    return r


# ---------------------------------------------------------------- bytes

def field(src, off, code, endian):
    return mk('field', (src, off, code, endian), 'int')


def bslice(src, off, n):
    return mk('bslice', (src, off, n), 'bytes')


def bytes_cat(xs):
    """Concatenation; adjacent slices of one source are joined."""
    items = []
    for x in xs:
        if x.op == 'seq':
            items += list(x.args[1])
        else:
            items.append(('s', TRUE, x))
    out = []
    for t, g, x in items:
        if out and x.op == 'bslice' and out[-1][2].op == 'bslice' and out[-1][1] is g is TRUE:
            p = out[-1][2]
            if p.args[0] is x.args[0] and tm.p_add(p.args[1], p.args[2]) is x.args[1]:
                out[-1] = ('s', TRUE, bslice(p.args[0], p.args[1], tm.p_add(p.args[2], x.args[2])))
                continue
        out.append((t, g, x))
    return seq('bytes', out)


# ---------------------------------------------------------------- subscripts

def dict_lookup(d, k):
    """(value, condition that the key is present) for a constant-shaped dict and a key leaf."""
    val, pres = UNBOUND, FALSE
    ints = {}
    simple = True
    for kk, g, x in d.args[1]:
        if kk is k or kk.key == k.key:
            if g is TRUE:
                return x, TRUE
    if isconst(k) or k.op in ('enum', 'class', 'type', 'func'):
        for kk, g, x in d.args[1]:
            if kk is k or kk.key == k.key:
                val, pres = x, g
                break
            if not (isconst(kk) or kk.op in ('enum', 'class', 'type', 'func')):
                e = eq(kk, k)
                if e is not FALSE:
                    val, pres = ite3(and_(g, e), x, val), or_(pres, and_(g, e))
        if d.args[0] is not None and pres is not TRUE:
            bv, bp = base_get(d.args[0], k)
            val = ite3(pres, val, bv)
            pres = or_(pres, bp)
        return val, pres
    allint = d.args[1] and all(tm.is_int_const(kk) and g is TRUE for kk, g, x in d.args[1])
    if allint and (isnumeric(k) or k.sort == 'any') and d.args[0] is None:
        m = int_map(k, {int(kk.args[0]): x for kk, g, x in d.args[1]})
        return m, lift(lambda l: tm.boolc(l is not UNBOUND), (m,))
    if len(d.args[1]) > 80:
        return app('dictget', (d, k)), atom_bool(app('has', (d, k), 'bool'))
    for kk, g, x in d.args[1]:
        e = and_(g, eq(kk, k))
        if e is FALSE:
            continue
        val, pres = ite3(e, x, val), or_(pres, e)
    if d.args[0] is not None:
        bv, bp = base_get(d.args[0], k)
        val = ite3(pres, val, bv)
        pres = or_(pres, bp)
    return val, pres


SCHEMA = {}     # schema name -> {key: fn(base) -> value} or default


def base_get(base, k):
    """(value, presence) of a key in a symbolic dict."""
    root = base
    while root.op == 'elem':
        root = root.args[0]
    name = root.args[0] if root.op == 'sym' else root.op
    sch = SCHEMA.get(name)
    if sch is None:
        return mk('get', (base, k), 'any'), atom_bool(app('has', (base, k), 'bool'))
    if isconst(k) and pyval(k) in sch:
        return sch[pyval(k)](mk_get(base, k)), TRUE
    if isconst(k) or '*' not in sch:
        if isconst(k):
            return UNBOUND, FALSE
    return sch['*'](mk_get(base, k)) if '*' in sch else mk('get', (base, k), 'any'), TRUE


def mk_get(base, k):
    return lambda sort, *a: mk('get', (base, k), sort)


def getitem(it, o, k, st, fr, ex, node):
    o, k = constrain(o, st.pc), constrain(k, st.pc)
    if k.op == 'slice':
        return getslice(it, o, k, st, fr, ex, node)
    bad = lift(lambda l: tm.boolc(l is NONE or isnumeric(l)), (o,))
    if bad is not FALSE:
        it.raise_(bad, excv('TypeError', const('not subscriptable')), st, ex, node)
        o = constrain(o, st.pc)
    if o.op == 'ite':
        ls = leaves(o)
        return it.fork_on(o, st, lambda l, s: getitem(it, l, k, s, fr, ex, node))
    inner = through_slice(o, k, True)
    if inner is not None:
        return getitem(it, inner[0], inner[1], st, fr, ex, node)
    if o.op == 'ref' and it.info(o)['kind'] == 'inst':
        f = it.mro_lookup(it.info(o)['cls'], '__getitem__', st)
        if f is not None and f.op == 'func':
            return it.call(f, [o, k], {}, st, fr, ex, node)
    if o.op == 'class' and it.classes[o.args[0]].enum:
        d = dict_(None, [(const(nm), TRUE, e) for nm, v, e in it.classes[o.args[0]].members])
        return from_dict(it, d, k, st, ex, node)
    c = it.content(o, st) if o.op in ('ref', 'tuple', 'seq', 'inst', 'dict') else None
    if c is not None and c.op == 'dict':
        if o.op == 'ref' and it.info(o).get('factory') is not None:
            return default_get(it, o, c, k, st, fr, ex, node)
        return from_dict(it, c, k, st, ex, node)
    if c is not None:
        def leaf(kk):
            if kk.sort == 'bool':
                kk = as_num(kk)
            return item(it, c, kk, st) if numlike(kk) else BAD
        r = lift(leaf, (k,))
        return check_index(it, r, c, k, st, ex, node)
    if o.sort in ('str', 'bytes') and isconst(o) and isconst(k):
        s = pyval(o)
        if -len(s) <= int(pyval(k)) < len(s):
            return const(s[int(pyval(k))])
        it.raise_(TRUE, excv('IndexError'), st, ex, node)
    from . import ext
    r = ext.getitem(it, o, k, st, fr, ex, node)
    if r is not None:
        return r
    if o.op == 'bslice' and it.short_reads:
        it.raise_(lift(lambda kk: tm.cmp_le(app('len', (o,), 'int'), kk if kk.op != 'num' or kk.args[0] >= 0 else
                                            num(-kk.args[0] - 1, 'int', 0), 1), (k,)),
                  excv('IndexError'), st, ex, node)
        k = constrain(k, st.pc)
    elif o.sort == 'bytes' and o.op == 'res' and tm.is_int_const(k):
        n = k.args[0] + 1 if k.args[0] >= 0 else -k.args[0]
        if tm.at_most_one_byte(o):
            bad = tm.eq_leaf(o, const(b'')) if n == 1 else TRUE
        else:
            bad = not_(tm.cmp_le(num(n, 'int', 0), app('len', (o,), 'int'), 0))
        bad = constrain(bad, st.pc)
        if bad is not FALSE:
            it.raise_(bad, excv('IndexError'), st, ex, node)
        if tm.at_most_one_byte(o):
            k = ZERO
    return lift(lambda kk: item(it, o, kk, st) if (numlike(kk) and o.sort != 'any') else ext.sub_any(it, o, kk, st), (k,))


def check_index(it, r, c, k, st, ex, node):
    r = constrain(r, st.pc)
    bad = lift(lambda l: tm.boolc(l is UNBOUND or l is BAD), (r,))
    if bad is not FALSE:
        it.raise_(bad, excv('IndexError'), st, ex, node)
        r = constrain(r, st.pc)
    return r


def from_dict(it, d, k, st, ex, node):
    pairs = lift(lambda kk: tuple_(*dict_lookup(d, kk)), (k,)) if k.op == 'ite' else tuple_(*dict_lookup(d, k))
    v = lift(lambda p: p.args[0], (pairs,))
    p = lift(lambda p: p.args[1], (pairs,))
    p = constrain(p, st.pc)
    if p is not TRUE:
        it.raise_(not_(p), excv('KeyError', it.freeze(k, st)), st, ex, node)
    return constrain(v, st.pc)


def default_get(it, o, c, k, st, fr, ex, node):
    v, p = dict_lookup(c, k)
    p = constrain(p, st.pc)
    if p is TRUE:
        return constrain(v, st.pc)
    box = {}

    def create(s):
        try:
            fresh = it.call(it.info(o)['factory'], [], {}, s, fr, ex, node)
            if fresh.op == 'ref':
                s.heap[(fresh.args[0], 'alive')] = TRUE
            cc = it.content(o, s)
            s.heap[(o.args[0], 'c')] = dict_put(cc, k, fresh)
            box['v'] = fresh
            return True
        except Dead:
            return False
    it.branch(p, st, lambda s: True, create)
    return constrain(ite3(p, v, box.get('v', v)), st.pc)


def dict_put(c, k, v, guard=TRUE):
    """dict content with k set to v."""
    out = []
    done = False
    for kk, g, x in c.args[1]:
        if kk is k or kk.key == k.key:
            out.append((kk, TRUE, v))
            done = True
        elif isconst(kk) and isconst(k) or kk.op == 'enum' and k.op == 'enum':
            out.append((kk, g, x))
        else:
            e = eq(kk, k)
            if e is FALSE:
                out.append((kk, g, x))
            elif e is TRUE:
                out.append((kk, TRUE, v))
                done = True
            else:
                out.append((kk, g, ite3(e, v, x)))
    if not done:
        out.append((k, TRUE, v))
    return dict_(c.args[0], out)


def set_item(it, o, k, v, st, fr, ex, node):
    if o is NONE or isnumeric(o):
        it.raise_(TRUE, excv('TypeError', const('item assignment')), st, ex, node)
    if o.op == 'ref':
        if it.info(o)['kind'] == 'inst':
            f = it.mro_lookup(it.info(o)['cls'], '__setitem__', st)
            if f is not None and f.op == 'func':
                it.call(f, [o, k, v], {}, st, fr, ex, node)
                return NONE
        c = it.content(o, st)
        if c is None:
            raise AnalysisError('item assignment on %s' % show(o))
        k = constrain(k, st.pc)
        if c.op == 'dict':
            if k.op == 'ite':
                return it.fork_on(k, st, lambda l, s: set_item(it, o, l, v, s, fr, ex, node))
            st.heap[(o.args[0], 'c')] = dict_put(c, k, v)
            return NONE
        if c.op == 'seq' and k.op == 'num':
            items = list(c.args[1])
            i = int(k.args[0])
            if all(t == 'e' and g is TRUE for t, g, x in items) and -len(items) <= i < len(items):
                items[i] = ('e', TRUE, v)
                st.heap[(o.args[0], 'c')] = seq(c.args[0], items)
                return NONE
            if all(t == 'e' and g is TRUE for t, g, x in items):
                it.raise_(TRUE, excv('IndexError'), st, ex, node)
        if c.op == 'seq':
            fv = it.freeze(v, st)
            st.heap[(o.args[0], 'c')] = seq(c.args[0], [('s', TRUE, app('setitem', (c, k, fv), c.args[0]))])
            return NONE
    from . import ext
    ext.set_item(it, o, k, v, st, fr, ex, node)
    return NONE


def del_item(it, o, k, st, fr, ex, node):
    k = constrain(k, st.pc)
    if o.op == 'ref':
        c = it.content(o, st)
        if c is not None and c.op == 'dict':
            v, p = dict_lookup(c, k)
            p = constrain(p, st.pc)
            if p is not TRUE:
                it.raise_(not_(p), excv('KeyError', k), st, ex, node)
            st.heap[(o.args[0], 'c')] = dict_(c.args[0], [(kk, g, x) for kk, g, x in c.args[1] if kk.key != k.key])
            return NONE
        if c is not None and c.op == 'seq':
            items = list(c.args[1])
            known = all(t == 'e' and g is TRUE for t, g, x in items)
            if known and k.op == 'num':
                try:
                    del items[int(k.args[0])]
                except IndexError:
                    it.raise_(TRUE, excv('IndexError'), st, ex, node)
                st.heap[(o.args[0], 'c')] = seq(c.args[0], items)
                return NONE
            if k.op == 'slice':
                if known and all(isconst(x) for x in k.args):
                    del items[slice(*[None if x is NONE else int(pyval(x)) for x in k.args])]
                    st.heap[(o.args[0], 'c')] = seq(c.args[0], items)
                    return NONE
                if k.args[0] in (NONE, ZERO) and k.args[2] is NONE:
                    rest = slice_seq(it, c, k.args[1], NONE, st)
                    st.heap[(o.args[0], 'c')] = rest
                    return NONE
            st.heap[(o.args[0], 'c')] = seq(c.args[0], [('s', TRUE, app('delitem', (c, k), c.args[0]))])
            return NONE
    raise AnalysisError('del of %s' % show(o))


def getslice(it, o, k, st, fr, ex, node):
    bad = lift(lambda l: tm.boolc(l is NONE or isnumeric(l)), (o,))
    if bad is not FALSE:
        it.raise_(bad, excv('TypeError', const('not subscriptable')), st, ex, node)
        o = constrain(o, st.pc)
    lo, hi, step = [constrain(x, st.pc) for x in k.args]
    if o.op == 'ite' and any(l.op == 'ref' for _, l in leaves(o)):
        return it.fork_on(o, st, lambda l, s: getslice(it, l, k, s, fr, ex, node))

    def leaf(l, lo, hi, step):
        c = it.content(l, st) if l.op in ('ref', 'tuple', 'seq', 'inst') else None
        kcons = all(x is NONE or tm.is_int_const(x) for x in (lo, hi, step))
        if c is not None and not (c.op == 'seq' and c.args[0] in ('str', 'bytes')):
            knd = kindof(it, l, c)
            if c.op == 'tuple' and kcons:
                return tuple_(*c.args[pslice(lo, hi, step)])
            items = as_items(c)
            if kcons and all(t == 'e' and g is TRUE for t, g, x in items):
                r = seq(knd, items[pslice(lo, hi, step)])
            else:
                if step is not NONE and step is not ONE:
                    r = seq(knd, [('s', TRUE, app('slice3', (c, lo, hi, step), knd))])
                else:
                    r = slice_seq(it, c, lo, hi, st)
            if knd == 'list':
                return it.alloc('list', st, r)
            return r
        if l.op == 'const' and kcons:
            return const(l.args[1][pslice(lo, hi, step)])
        if step is not NONE and step is not ONE:
            return app('slice3', (l, lo, hi, step), l.sort)
        if l.op == 'bslice' and not it.short_reads:
            return bsub(l, lo, hi)
        if l.sort in ('str', 'bytes'):
            return sub_str(l, lo, hi)
        if l.sort in ('list', 'any', 'tuple'):
            if lo in (NONE, ZERO) and hi is NONE:
                return l
            return app('sub', (l, ZERO if lo is NONE else lo, hi), l.sort)
        return BAD
    r = lift(leaf, (o, lo, hi, step))
    bad = lift(lambda l: tm.boolc(l is BAD), (r,))
    if bad is not FALSE:
        it.raise_(bad, excv('TypeError', const('slice')), st, ex, node)
        r = constrain(r, st.pc)
    return r


def pslice(lo, hi, step):
    return slice(*[None if x is NONE else int(x.args[0]) for x in (lo, hi, step)])


def slice_seq(it, c, lo, hi, st):
    knd = c.args[0] if c.op == 'seq' else 'tuple'
    items = as_items(c)
    if lo in (NONE, ZERO) and hi is NONE:
        return seq(knd, items)
    if len(items) == 1 and items[0][0] == 's' and items[0][1] is TRUE:
        inner = items[0][2]
        return seq(knd, [('s', TRUE, app('sub', (inner, ZERO if lo is NONE else lo, hi), inner.sort))])
    return seq(knd, [('s', TRUE, app('sub', (c, ZERO if lo is NONE else lo, hi), knd))])


def sub_str(l, lo, hi):
    if lo in (NONE, ZERO) and hi is NONE:
        return l
    return app('sub', (l, ZERO if lo is NONE else lo, hi), l.sort)


@tm.simp('sub')
def _s_sub(args, sort):
    l, lo, hi = args
    if tm.at_most_one_byte(l) and lo is ZERO and tm.is_int_const(hi) and hi.args[0] > 0:
        return l
    if l.op == 'app' and l.args[0] == 'sub' and hi is not None:
        # s[a:][:b] with a < 0 <= b, b <= -a : s[a:a+b] (or to the end)
        s, a, b = l.args[1]
        if b is NONE and tm.is_int_const(a) and a.args[0] < 0 and lo is ZERO and tm.is_int_const(hi) and hi.args[0] >= 0:
            e = a.args[0] + hi.args[0]
            return app('sub', (s, a, num(e, 'int', 0) if e < 0 else NONE), sort)
        if (a is ZERO and tm.is_int_const(b) and b.args[0] < 0 and hi is NONE and tm.is_int_const(lo) and lo.args[0] < 0):
            # s[:-b][-n:] : s[-b-n:-b] (texts are taken to be longer than the constants counted back from their end)
            return app('sub', (s, num(b.args[0] + lo.args[0], 'int', 0), b), sort)
        if b is NONE and a.op == 'num' and a.args[0] >= 0 and lo.op == 'num' and lo.args[0] >= 0:
            if hi is NONE:
                return app('sub', (s, tm.p_add(a, lo), NONE), sort)
            if hi.op == 'num' and hi.args[0] >= 0:
                return app('sub', (s, tm.p_add(a, lo), tm.p_add(a, hi)), sort)
    if lo is ZERO and hi is NONE:
        return l
    return None


def bsub(l, lo, hi):
    src, off, n = l.args
    lo = ZERO if lo is NONE else lo
    hi = n if hi is NONE else hi

    def norm(x):
        if x.op == 'num' and x.args[0] < 0:
            return tm.p_add(n, x)
        return x
    lo, hi = norm(lo), norm(hi)
    if n.op == 'num' and hi.op == 'num':
        hi = num(max(0, min(int(hi.args[0]), int(n.args[0]))), 'int', 0)
    if n.op == 'num' and lo.op == 'num':
        lo = num(max(0, min(int(lo.args[0]), int(n.args[0]))), 'int', 0)
    ln = tm.p_add(hi, lo, -1)
    if ln.op == 'num' and ln.args[0] <= 0:
        return const(b'')
    return bslice(src, tm.p_add(off, lo), ln)


# ---------------------------------------------------------------- string formatting

def to_str(it, v, st, how='str'):
    """str(v)."""
    def leaf(l):
        if l.op == 'ref' or l.op in ('tuple', 'seq', 'dict', 'inst') and l.sort != 'str':
            return app(how, (it.freeze(l, st),), 'str')
        if how == 'str':
            if l.sort == 'str':
                return l
            if l.op == 'num' and l.sort == 'int':
                return const(str(int(l.args[0])))
            if l is NONE or l is TRUE or l is FALSE:
                return const(str(pyval(l)))
        if l.op == 'const' and how == 'repr':
            return const(repr(pyval(l)))
        return app(how, (l,), 'str')
    return lift(leaf, (v,))


def fmt_spec(it, v, spec, st):
    if spec == '':
        return to_str(it, v, st)
    if spec == 'd' or spec == 'i':
        return lift(lambda l: to_str(it, l, st) if l.sort in ('int',) else app('fmt', (const('d'), l), 'str'), (v,))
    m = re.match(r'^(.?[<>=^])?([+ -])?(#)?(0)?(\d+)?(,)?(\.\d+)?([a-zA-Z%])?$', spec)
    return lift(lambda l: const(format(int(l.args[0]), spec)) if (tm.is_int_const(l) and m and (m.group(8) or 'd') in
                                                                   'dxXob') else
                app('fmt', (const(spec), it.freeze(l, st)), 'str'), (v,))


def format_value(it, v, conv, spec, st, fr, ex, n):
    v = constrain(v, st.pc)
    if conv == 114:
        v = to_str(it, v, st, 'repr')
    elif conv == 115:
        v = to_str(it, v, st)
    return fmt_spec(it, v, spec, st)


PCT = re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(\.\d+)?([a-zA-Z%])')


def percent(it, x, y, cy, st, fr, ex, n):
    # the template may itself be a concatenation: pieces that are not constants are opaque
    pieces = [('s', TRUE, x)] if x.op != 'seq' else list(x.args[1])
    if not all(g is TRUE and isconst(p) for _, g, p in pieces):
        # only safe when each constant piece is self-contained
        vals = None
    args = None
    mapping = None
    if cy is not None and cy.op == 'tuple':
        args = list(cy.args)
    elif cy is not None and cy.op == 'dict':
        mapping = cy
    elif cy is not None and kindof(it, y, cy) == 'tuple':
        return app('percent', (x, it.freeze(y, st)), 'str')
    else:
        args = [y]
    out = []
    pos = 0
    for _, g, p in pieces:
        if not isconst(p):
            out.append(('s', g, p))
            continue
        s = pyval(p)
        i = 0
        for m in PCT.finditer(s):
            out.append(('s', g, const(s[i:m.start()])))
            i = m.end()
            name, flags, width, prec, conv = m.groups()
            if conv == '%':
                out.append(('s', g, const('%')))
                continue
            if name is not None:
                if mapping is None:
                    return BAD
                v = dict_lookup(mapping, const(name))[0]
            else:
                if args is None or pos >= len(args):
                    return BAD
                v = args[pos]
                pos += 1
            if conv in 'sr' and not flags and not width and not prec:
                out.append(('s', g, to_str(it, v, st, 'str' if conv == 's' else 'repr')))
            elif conv in 'dixXofFeEgGc':
                bad = lift(lambda l: tm.boolc(not numlike(l) and not (conv == 'c')), (v,))
                bad = constrain(bad, st.pc)
                if bad is not FALSE:
                    it.raise_(bad, excv('TypeError', const('%% format')), st, ex, n)
                    v = constrain(v, st.pc)
                c2 = 'd' if conv == 'i' else conv
                spec = flags + (width or '') + (prec or '') + c2
                out.append(('s', g, fmt_spec(it, v, spec, st)))
            else:
                spec = flags + (width or '') + (prec or '') + conv
                out.append(('s', g, lift(lambda l: app('pct', (const(spec), it.freeze(l, st)), 'str'), (v,))))
        out.append(('s', g, const(s[i:])))
    if args is not None and pos < len(args) and not (mapping is not None):
        if not (len(args) == 1 and pos == 0 and cy is None):
            return BAD
        return BAD
    return seq('str', out)


def str_format(it, s, args, kwargs, st, fr, ex, n):
    import string
    out = []
    auto = 0
    pieces = [('s', TRUE, s)] if s.op != 'seq' else list(s.args[1])
    for _, g, p in pieces:
        if not isconst(p):
            out.append(('s', g, p))
            continue
        for lit, name, spec, conv in string.Formatter().parse(pyval(p)):
            out.append(('s', g, const(lit)))
            if name is None:
                continue
            m = re.match(r'^([^.\[]*)(.*)$', name)
            head, rest = m.group(1), m.group(2)
            if head == '':
                i, auto = auto, auto + 1
                if i >= len(args):
                    it.raise_(TRUE, excv('IndexError', const('format')), st, ex, n)
                v = args[i]
            elif head.isdigit():
                if int(head) >= len(args):
                    it.raise_(TRUE, excv('IndexError', const('format')), st, ex, n)
                v = args[int(head)]
            else:
                if head not in kwargs:
                    it.raise_(TRUE, excv('KeyError', const(head)), st, ex, n)
                v = kwargs[head]
            for a, b in re.findall(r'\.(\w+)|\[([^\]]*)\]', rest):
                if a:
                    v = it.getattr(v, a, st, fr, ex, n)
                else:
                    v = getitem(it, v, num(int(b), 'int', 0) if b.isdigit() else const(b), st, fr, ex, n)
            if spec and '{' in spec:
                raise AnalysisError('nested format specification')
            out.append(('s', g, format_value(it, v, {'r': 114, 's': 115, None: -1}.get(conv, -1), spec or '', st, fr, ex, n)))
    return seq('str', out)


# ---------------------------------------------------------------- builtin functions

def call_builtin(it, name, args, kwargs, st, fr, ex, node):
    args = [constrain(a, st.pc) for a in args]
    fn = BUILTINS.get(name)
    if fn is None:
        raise AnalysisError('builtin %s' % name)
    return fn(it, args, kwargs, st, fr, ex, node)


BUILTINS = {}


def bi(*names):
    def deco(fn):
        for n in names:
            BUILTINS[n] = fn
        return fn
    return deco


@bi('object.__init__', 'object')
def b_object(it, args, kwargs, st, fr, ex, node):
    if args[1:] or kwargs:
        it.raise_(TRUE, excv('TypeError', const('object.__init__')), st, ex, node)
    return NONE


@bi('len')
def b_len(it, args, kwargs, st, fr, ex, node):
    return length(it, args[0], st, fr, ex, node)


@bi('range')
def b_range(it, args, kwargs, st, fr, ex, node):
    a = [it.need_num(x, st, ex, node) for x in args]
    if len(a) == 1:
        a = [ZERO, a[0], ONE]
    elif len(a) == 2:
        a = a + [ONE]
    return lift(lambda x, y, z: mk('range', (x, y, z), 'range'), a)


@bi('enumerate')
def b_enumerate(it, args, kwargs, st, fr, ex, node):
    start = args[1] if len(args) > 1 else kwargs.get('start', ZERO)
    return mk('view', ('enumerate', args[0], start), 'list')


@bi('zip')
def b_zip(it, args, kwargs, st, fr, ex, node):
    return mk('view', ('zip', tuple_(*args)), 'list')


@bi('reversed')
def b_reversed(it, args, kwargs, st, fr, ex, node):
    return mk('view', ('reversed', args[0]), 'list')


@bi('iter')
def b_iter(it, args, kwargs, st, fr, ex, node):
    if len(args) == 2:
        return it.alloc('calls', st, call=tuple(args))
    v = constrain(args[0], st.pc)
    if v.op == 'ite' or v.op == 'ref' and (it.info(v)['kind'] in ('inst', 'calls') or it.info(v).get('reads') is not None):
        return v
    i = it.iter_of(v, st, fr, ex, node)
    if i.cursor is not None or i.ask is not None:
        return v
    if i.items is not None:
        c = seq('list', [('e', g, x) for g, x in i.items])
    else:
        v = it.freeze(v, st)
        c = seq('list', [('s', TRUE, v)])
    o = it.alloc('list', st, c, reads=i)
    st.heap[(o.args[0], '@p')] = ZERO
    return o


class Reading(object):
    """The position up to which an iterator has been read."""

    def __init__(self, o, start):
        self.key, self.start = (o.args[0], '@p'), start

    def rewind(self, st):
        pass

    def step(self, st, n):
        if not isinstance(n, T):
            n = num(n, 'int', 0)
        st.heap[self.key] = lift(lambda p: tm.p_add(tm.p_add(p, n), ONE), (self.start,))


def reading_positions(it, st):
    """The positions of the iterators over known sequences."""
    out = {}
    for k, p in st.heap.items():
        if isinstance(k, tuple) and len(k) == 2 and k[1] == '@p' and it.objinfo[k[0]]['reads'].items is not None and p.op == 'num':
            out[k[0]] = int(p.args[0])
    return out


def rest_of(it, o, st):
    """What an iterator has not read yet."""
    i, pos = it.info(o)['reads'], constrain(st.heap[(o.args[0], '@p')], st.pc)
    if i.items is not None:
        if pos.op == 'num':
            return Iter(items=i.items[int(pos.args[0]):], cursor=Reading(o, pos))
        return Iter(items=[(and_(g, lift(lambda p: tm.cmp_le(p, num(k, 'int', 0), 1), (pos,))), x)
                           for k, (g, x) in enumerate(i.items)], cursor=Reading(o, ZERO))
    return Iter(has=lambda k: lift(lambda p: i.has(tm.p_add(p, k)), (pos,)),
                at=lambda k: lift(lambda p: i.at(tm.p_add(p, k)), (pos,)), deps=i.deps, cursor=Reading(o, pos))


def unread(it, o, c, st):
    pos = constrain(st.heap[(o.args[0], '@p')], st.pc)
    if pos is ZERO:
        return c
    if all(t == 'e' for t, g, x in c.args[1]):
        return seq('list', [('e', g, x) for g, x in rest_of(it, o, st).items])
    raise AnalysisError('an iterator that has been read in part')


@bi('next')
def b_next(it, args, kwargs, st, fr, ex, node):
    o = constrain(args[0], st.pc)
    inf = it.info(o) if o.op == 'ref' else {}
    if inf.get('kind') == 'calls':
        f, until = inf['call']
        v = it.call(f, [], {}, st, fr, ex, node)
        rest = equal(it, v, until, st, fr, ex, node)
    elif inf.get('reads') is not None:
        key = (o.args[0], '@p')
        i, pos = inf['reads'], constrain(st.heap[key], st.pc)
        n = None if i.items is None else len(i.items)
        if n is not None and all(l.op == 'num' for _, l in leaves(pos)):
            def after(p):
                v, at, rest = UNBOUND, num(n, 'int', 0), TRUE
                for k in range(n - 1, int(p.args[0]) - 1, -1):
                    g, x = i.items[k]
                    v, at, rest = ite3(g, x, v), ite3(g, num(k + 1, 'int', 0), at), and_(not_(g), rest)
                return v, at, rest
            v, at, rest = (lift(lambda p: after(p)[j], (pos,)) for j in range(3))
        else:
            i = it.indexed(pos, i)
            if i is None:
                raise AnalysisError('an iterator over elements that may be absent')
            rest = lift(lambda p: not_(i.has(p)), (pos,))
            v = lift(i.at, (pos,))
            at = lift(lambda p: tm.p_add(p, ONE), (pos,))
        if len(args) == 1:
            it.raise_(rest, excv('StopIteration'), st, ex, node)
        st.heap[key] = constrain(ite3(rest, pos, at), st.pc)
    else:
        i = it.iter_of(o, st, fr, ex, node)
        if i.items is not None:
            v, rest = UNBOUND, TRUE
            for g, x in i.items:
                v = ite3(and_(rest, g), x, v)
                rest = and_(rest, not_(g))
        else:
            rest = not_(i.has(ZERO))
            v = i.at(ZERO)
    rest = constrain(rest, st.pc)
    if len(args) > 1:
        return ite3(rest, args[1], v)
    it.raise_(rest, excv('StopIteration'), st, ex, node)
    return constrain(v, st.pc)


def collect_map(it, f, src, st, fr, ex, node, keep=False):
    tmp = it.alloc('list', st, seq('list', []))
    i = it.iter_of(src, st, fr, ex, node)

    def body(x, s, bex):
        try:
            if keep:
                c = truth(x) if f is NONE else it.truthof(it.call(f, [x], {}, s, fr, bex, node), s, fr, bex, node)
                c = constrain(c, s.pc)
                v = x
            else:
                v = it.call(f, [x], {}, s, fr, bex, node)
                c = TRUE
            cc = s.heap[(tmp.args[0], 'c')]
            s.heap[(tmp.args[0], 'c')] = seq('list', list(cc.args[1]) + [('e', c, v)])
            return True
        except Dead:
            return False
    it.iterate(i, body, lambda s: True, st, fr, ex, node)
    return tmp


@bi('map')
def b_map(it, args, kwargs, st, fr, ex, node):
    if len(args) > 2:
        src = mk('view', ('zip', tuple_(*args[1:])), 'list')
        f = args[0]
        tmp = it.alloc('list', st, seq('list', []))
        i = it.iter_of(src, st, fr, ex, node)

        def body(x, s, bex):
            try:
                v = it.call(f, list(x.args), {}, s, fr, bex, node)
                cc = s.heap[(tmp.args[0], 'c')]
                s.heap[(tmp.args[0], 'c')] = seq('list', list(cc.args[1]) + [('e', TRUE, v)])
                return True
            except Dead:
                return False
        it.iterate(i, body, lambda s: True, st, fr, ex, node)
        return tmp
    return collect_map(it, args[0], args[1], st, fr, ex, node)


@bi('filter')
def b_filter(it, args, kwargs, st, fr, ex, node):
    return collect_map(it, args[0], args[1], st, fr, ex, node, True)


@bi('list', 'tuple', 'set', 'frozenset')
def b_list(it, args, kwargs, st, fr, ex, node, kind='list'):
    return _mkseq(it, 'list', args, st, fr, ex, node)


def _mkseq(it, kind, args, st, fr, ex, node):
    items = items_of(it, args[0], st, fr, ex, node) if args else []
    if kind == 'tuple':
        return tuple_of(items)
    if kind in ('set', 'frozenset'):
        return it.alloc('set', st, dedupe(seq('set', items)))
    return it.alloc('list', st, seq('list', items))


for _k in ('list', 'tuple', 'set', 'frozenset'):
    BUILTINS[_k] = (lambda k: lambda it, args, kwargs, st, fr, ex, node: _mkseq(it, k, args, st, fr, ex, node))(_k)


@bi('dict')
def b_dict(it, args, kwargs, st, fr, ex, node):
    d = it.alloc('dict', st, EMPTY_DICT)
    if args or kwargs:
        container_method(it, d, 'update', args, kwargs, st, fr, ex, node)
    return d


def written_number(l):
    """int() of a text put together from written numbers, the later ones of a fixed width: the number it spells."""
    pieces = [(t, g, x) for t, g, x in l.args[1]] if l.op == 'seq' and l.args[0] == 'str' else [('s', TRUE, l)]
    total = None
    for t, g, x in pieces:
        if g is not TRUE:
            return None
        if isconst(x) and x.sort == 'str' and pyval(x).isdigit():
            n, width = num(int(pyval(x)), 'int', 0), len(pyval(x))
        elif x.op == 'app' and x.args[0] == 'str' and tm.is_int(x.args[1][0]):
            n, width = x.args[1][0], None
        elif x.op == 'app' and x.args[0] == 'fmt' and isconst(x.args[1][0]) and tm.is_int(x.args[1][1]) and \
                re.match(r'0[1-9]d?$', pyval(x.args[1][0])):
            n, width = x.args[1][1], int(pyval(x.args[1][0])[1])
        else:
            return None
        lo, hi = tm.rng(n)
        if total is None:
            if lo is None or lo < 0:
                if len(pieces) > 1:
                    return None
            total = n
            continue
        if width is None and lo is not None and hi is not None and 0 <= lo and hi <= 9:
            width = 1
        if width is None or lo is None or hi is None or lo < 0 or hi >= 10 ** width:
            return None
        total = lift(lambda a, b: tm.p_add(tm.p_mul(num(10 ** width, 'int', 0), a), b), (total, n))
    return total


@bi('int')
def b_int(it, args, kwargs, st, fr, ex, node):
    if not args:
        return ZERO
    if len(args) > 1 or 'base' in kwargs:
        base = args[1] if len(args) > 1 else kwargs['base']

        def leafb(l, b):
            if isconst(l) and l.sort == 'str' and b.op == 'num':
                try:
                    return num(int(pyval(l), int(b.args[0])), 'int', 0)
                except ValueError:
                    return BAD
            # int('0x' + s, 16) is int(s, 16)
            if l.op == 'seq' and b.op == 'num' and b.args[0] == 16 and l.args[1] and isconst(l.args[1][0][2]) and \
                    pyval(l.args[1][0][2]) in ('0x', '0X'):
                l = seq('str', l.args[1][1:])
            return app('int', (l, b), 'int')
        return lift(leafb, (args[0], base))

    def leaf(l):
        if isnumeric(l):
            l = as_num(l)
            if l.op == 'ite':
                return lift(leaf, (l,))
            return app('trunc', (l,), 'int')
        if isconst(l) and l.sort in ('str', 'bytes'):
            try:
                return num(int(pyval(l)), 'int', 0)
            except ValueError:
                return BAD
        read = written_number(l)
        if read is not None:
            return read
        if l.sort in ('str', 'bytes', 'any') and l is not NONE:
            return app('int', (l,), 'int')
        return BAD
    v = args[0]
    bad = lift(lambda l: tm.boolc(l is NONE or l.sort in ('list', 'tuple', 'dict', 'none')), (v,))
    if bad is not FALSE:
        it.raise_(bad, excv('TypeError', const('int()')), st, ex, node)
        v = constrain(v, st.pc)
    r = lift(leaf, (v,))
    b2 = constrain(lift(lambda l: tm.boolc(l is BAD), (r,)), st.pc)
    if b2 is not FALSE:
        it.raise_(b2, excv('ValueError', const('int()')), st, ex, node)
        r = constrain(r, st.pc)
    return r


@bi('float')
def b_float(it, args, kwargs, st, fr, ex, node):
    if not args:
        return num(0, 'float')

    def leaf(l):
        if l is NONE:
            return BAD
        if isnumeric(l):
            l = as_num(l)
            if l.op == 'ite':
                return lift(leaf, (l,))
            return conv(l, 'float')
        if isconst(l) and l.sort == 'str':
            try:
                return const(float(pyval(l)))
            except ValueError:
                return BAD
        return app('float', (l,), 'float')
    r = lift(leaf, (args[0],))
    b2 = constrain(lift(lambda l: tm.boolc(l is BAD), (r,)), st.pc)
    if b2 is not FALSE:
        it.raise_(b2, excv('TypeError', const('float()')), st, ex, node)
        r = constrain(r, st.pc)
    return r


def conv(l, kind):
    """Numeric leaf converted to another numeric type, value unchanged."""
    if l.op == 'num':
        return num(l.args[0], kind, l.args[2] if kind == 'dec' else None)
    return tm.from_poly(tm.to_poly(l), kind)


@bi('str')
def b_str(it, args, kwargs, st, fr, ex, node):
    if not args:
        return const('')
    if len(args) > 1 or kwargs:
        return lift(lambda l: app('.decode', (l,), 'str'), (args[0],))
    v = args[0]
    if v.op == 'ref' and it.info(v)['kind'] == 'inst':
        f = it.mro_lookup(it.info(v)['cls'], '__str__', st)
        if f is not None and f.op == 'func':
            return it.call(f, [v], {}, st, fr, ex, node)
    return to_str(it, v, st)


@bi('repr')
def b_repr(it, args, kwargs, st, fr, ex, node):
    return to_str(it, args[0], st, 'repr')


@bi('bytes', 'bytearray')
def b_bytes(it, args, kwargs, st, fr, ex, node):
    if not args:
        return const(b'')

    def leaf(l):
        if l.sort == 'bytes':
            return l
        if l.sort == 'str':
            return encode(l)
        if l.op in ('ref', 'tuple', 'seq'):
            items = items_of(it, l, st, fr, ex, node)
            if all(t == 'e' and g is TRUE and isconst(x) for t, g, x in items):
                return const(bytes(int(pyval(x)) for _, _, x in items))
            return app('bytes', (tuple_of(items),), 'bytes')
        return app('bytes', (it.freeze(l, st),), 'bytes')
    return lift(leaf, (args[0],))


def encode(l):
    if isconst(l):
        return const(pyval(l).encode('utf-8'))
    if l.op == 'seq':
        return seq('bytes', [('s', g, encode(x)) for t, g, x in l.args[1]])
    return app('.encode', (l,), 'bytes')


@bi('bool')
def b_bool(it, args, kwargs, st, fr, ex, node):
    if not args:
        return FALSE
    return it.truthof(args[0], st, fr, ex, node)


@bi('abs')
def b_abs(it, args, kwargs, st, fr, ex, node):
    v = it.need_num(args[0], st, ex, node)
    return lift(lambda l: ite3(tm.cmp_le(ZERO, l, 1), l, tm.p_neg(l)), (v,))


@bi('ord')
def b_ord(it, args, kwargs, st, fr, ex, node):
    def leaf(l):
        if isconst(l) and l.sort in ('str', 'bytes'):
            v = pyval(l)
            if len(v) != 1:
                return BAD
            return num(ord(v), 'int', 0)
        if l.op == 'bslice':
            n = app('len', (l,), 'int') if it.short_reads else l.args[2]
            c = not_(tm.eq_leaf(n, ONE))
            if constrain(c, st.pc) is not FALSE:
                return ite3(c, BAD, field(l.args[0], l.args[1], 'B', ''))
            return field(l.args[0], l.args[1], 'B', '')
        if l.sort == 'bytes':
            return item(it, l, ZERO, st)
        if l.sort in ('str', 'any') and l is not NONE:
            return app('ord', (l,), 'int')
        return BAD
    r = lift(leaf, (args[0],))
    b2 = constrain(lift(lambda l: tm.boolc(l is BAD), (r,)), st.pc)
    if b2 is not FALSE:
        it.raise_(b2, excv('TypeError', const('ord()')), st, ex, node)
        r = constrain(r, st.pc)
    return r


@bi('chr')
def b_chr(it, args, kwargs, st, fr, ex, node):
    return lift(lambda l: const(chr(int(l.args[0]))) if l.op == 'num' else app('chr', (l,), 'str'), (args[0],))


@bi('hex', 'bin')
def b_hex(it, args, kwargs, st, fr, ex, node):
    return lift(lambda l: app('hex', (l,), 'str'), (args[0],))


@bi('round')
def b_round(it, args, kwargs, st, fr, ex, node):
    nd = args[1] if len(args) > 1 else kwargs.get('ndigits', NONE)
    v = it.need_num(args[0], st, ex, node)
    return lift(lambda l, n: l if tm.is_int(l) and l.sort == 'int' else
                app('round', (l,) if n is NONE else (l, n), 'int' if n is NONE else l.sort), (v, nd))


@bi('divmod')
def b_divmod(it, args, kwargs, st, fr, ex, node):
    q = binop(it, ast.FloorDiv(), args[0], args[1], st, fr, ex, node)
    m = binop(it, ast.Mod(), args[0], args[1], st, fr, ex, node)
    return tuple_(q, m)


@bi('pow')
def b_pow(it, args, kwargs, st, fr, ex, node):
    return binop(it, ast.Pow(), args[0], args[1], st, fr, ex, node)


def pick(it, x, y, less, st, fr, ex, node):
    """less ? smaller of x, y (first on ties) : larger."""
    op = ast.Lt() if less else ast.Gt()
    c = compare(it, op, y, x, st, fr, ex, node)
    return ite3(c, constrain(y, st.pc), constrain(x, st.pc))


def fold(it, name, items, default, st, ex, node):
    """Extremum of many guarded values as one canonical term: which value is there under which condition."""
    groups = {}
    total = 0
    for t, g, x in items:
        for c, l in leaves(constrain(x, and_(st.pc, g))):
            gc = constrain(and_(g, c), st.pc)
            if gc is FALSE or and_(gc, st.pc) is FALSE:
                continue
            total += 1
            if l.op == 'fold' and l.args[0] == name:
                for g2, y in l.args[1]:
                    groups[y] = or_(groups.get(y, FALSE), and_(gc, g2))
            else:
                groups[l] = or_(groups.get(l, FALSE), gc)
    if len(groups) <= 2 or total <= 3:
        return None
    if not all(tm.isnumeric(l) or l is NONE for l in groups):
        return None
    if NONE in groups:
        g0 = groups.pop(NONE)
        # a comparison with None (alone in the list it would be the result, which no caller relies on)
        it.raise_(g0, excv('TypeError', const('%s()' % name)), st, ex, node)
    has = constrain(or_(*groups.values()), st.pc)
    v = tm.fold_(name, [(constrain(g, st.pc), l) for l, g in groups.items()])
    if default is not None:
        return ite3(has, v, default)
    if has is not TRUE:
        it.raise_(not_(has), excv('ValueError', const('%s() of empty' % name)), st, ex, node)
    return constrain(v, st.pc)


def _minmax(less):
    def run(it, args, kwargs, st, fr, ex, node):
        key = kwargs.get('key')
        default = kwargs.get('default')
        name = 'min' if less else 'max'
        if len(args) == 1:
            items = items_of(it, args[0], st, fr, ex, node)
        else:
            items = [('e', TRUE, a) for a in args]
        if all(t == 'e' for t, g, x in items) and (key is None or key is NONE):
            r = fold(it, name, items, default, st, ex, node)
            if r is not None:
                return r
        if all(t == 'e' for t, g, x in items):
            # a sentinel for "nothing yet"
            cur, has = UNBOUND, FALSE
            curk = UNBOUND
            for t, g, x in items:
                kx = x if key is None or key is NONE else it.call(key, [x], {}, st, fr, ex, node)
                if has is FALSE:
                    cur, curk, has = x, kx, g
                    continue
                both = and_(has, g)
                s = st.fork(both)
                c = FALSE
                if s.pc is not FALSE:
                    try:
                        c = compare(it, ast.Lt() if less else ast.Gt(), kx, constrain(curk, s.pc), s, fr, ex, node)
                        bad = and_(st.pc, both, not_(s.pc))
                        if bad is not FALSE:
                            st.pc = and_(st.pc, not_(bad))
                    except Dead:
                        st.pc = and_(st.pc, not_(both))
                        if st.pc is FALSE:
                            raise Dead()
                take = ite3(has, and_(g, c), g)
                cur, curk = ite3(take, x, cur), ite3(take, kx, curk)
                has = or_(has, g)
            has = constrain(has, st.pc)
            if default is not None:
                return ite3(has, cur, default)
            if has is not TRUE:
                it.raise_(not_(has), excv('ValueError', const('%s() of empty' % name)), st, ex, node)
            return constrain(cur, st.pc)
        s = it.freeze(seq('list', items), st)
        emp = not_(it.truthof(s, st, fr, ex, node))
        kt = NONE if key is None else it.freeze(key, st)
        if key is not None and key is not NONE and key.op == 'func':
            # the key function, as a value: applied to a generic element
            s2 = st.fork()
            e2 = []
            kt = it.call(key, [mk('sym', ('generic', None, None), 'any')], {}, s2, fr, e2, node)
        srt = 'any'
        els = [x for t, g, x in s.args[1]]
        sorts = set()
        for x in els:
            if x.op == 'collect':
                sorts |= {l.sort for _, _, y in x.args[1] for _, l in leaves(y)}
            else:
                sorts.add('any')
        if len(sorts) == 1:
            srt = sorts.pop()
        v = app(name, (s,) if kt is NONE else (s, kt), srt)
        if default is not None:
            return ite3(emp, default, v)
        if constrain(emp, st.pc) is not FALSE:
            it.raise_(emp, excv('ValueError', const('%s() of empty' % name)), st, ex, node)
        return v
    return run


BUILTINS['min'] = _minmax(True)
BUILTINS['max'] = _minmax(False)


@bi('sum')
def b_sum(it, args, kwargs, st, fr, ex, node):
    items = items_of(it, args[0], st, fr, ex, node)
    start = args[1] if len(args) > 1 else kwargs.get('start', ZERO)
    r = start
    for t, g, x in items:
        if t == 'e':
            s = st.fork(g)
            if s.pc is FALSE:
                continue
            v = binop(it, ast.Add(), r, x, s, fr, ex, node)
            lost = and_(st.pc, g, not_(s.pc))
            if lost is not FALSE:
                st.pc = and_(st.pc, not_(lost))
            r = ite3(g, v, r)
        else:
            # sum of an accumulated sequence, as the loop that adds its elements would be summarised
            r = sum_loop(it, x, r, g, st, fr, ex, node)
    return constrain(r, st.pc)


def sum_loop(it, x, r, g, st, fr, ex, node):
    return ite3(g, lift(lambda r: numop('+', r, app('sum', (x,), 'num')), (r,)), r)


@bi('any', 'all')
def b_any(it, args, kwargs, st, fr, ex, node):
    raise AnalysisError('any')


def _anyall(isany):
    def run(it, args, kwargs, st, fr, ex, node):
        items = items_of(it, args[0], st, fr, ex, node)
        r = FALSE if isany else TRUE
        for t, g, x in items:
            if t == 'e':
                c = it.truthof(x, st, fr, ex, node)
            else:
                c = atom_bool(app('any' if isany else 'all', (x,), 'bool'))
            r = or_(r, and_(g, c)) if isany else and_(r, or_(not_(g), c))
        return constrain(r, st.pc)
    return run


BUILTINS['any'] = _anyall(True)
BUILTINS['all'] = _anyall(False)


@bi('sorted')
def b_sorted(it, args, kwargs, st, fr, ex, node):
    items = items_of(it, args[0], st, fr, ex, node)
    return it.alloc('list', st, sort_items(it, items, kwargs, st, fr, ex, node))


def plain(k):
    """(kind, python value) of a known value that can be put in order, or None."""
    if k.op == 'num':
        return 'num', k.args[0]
    if isconst(k):
        v = pyval(k)
        return ('num' if isinstance(v, (int, float)) else type(v).__name__, v) if v is not None else None
    if k.op == 'tuple' or k.op == 'app' and k.args[0] in ('datetime', 'date'):
        parts = k.args if k.op == 'tuple' else [x for x in k.args[1] if x is not NONE]
        ps = [plain(x) for x in parts]
        if all(p is not None for p in ps):
            kind = 'tuple' if k.op == 'tuple' else k.args[0]
            return (kind, tuple(p[0] for p in ps)), tuple(p[1] for p in ps)
    return None


def sort_items(it, items, kwargs, st, fr, ex, node):
    rev = kwargs.get('reverse', FALSE)
    key = kwargs.get('key', NONE)
    if key is NONE and isconst(rev):
        items = strip_sorted(items)
    if all(t == 'e' and g is TRUE for t, g, x in items) and isconst(rev):
        xs = [x for _, _, x in items]
        ks = xs if key is NONE else [it.call(key, [x], {}, st, fr, ex, node) for x in xs]
        ps = [plain(it.content(k, st) or k if k.op == 'ref' else k) for k in ks]
        if all(p is not None for p in ps) and len(set(p[0] for p in ps)) <= 1:
            o = sorted(range(len(xs)), key=lambda i: ps[i][1], reverse=bool(pyval(rev)))
            return seq('list', [('e', TRUE, xs[i]) for i in o])
        if len(xs) <= 1:
            return seq('list', items)
    kt = NONE
    if key is not NONE:
        s2 = st.fork()
        kt = it.call(key, [mk('sym', ('generic', None, None), 'any')], {}, s2, fr, [], node)
        kt = it.freeze(kt, s2)
    c = it.freeze(seq('set' if key is NONE else 'list', items), st)
    return seq('list', [('s', TRUE, app('sorted', (c, kt, rev), 'list'))])


def strip_sorted(items):
    return items


@bi('isinstance')
def b_isinstance(it, args, kwargs, st, fr, ex, node):
    return lift(lambda l, t: isinst(it, l, t, st), (args[0], args[1]))


def isinst(it, l, t, st):
    from . import ext
    if t.op == 'tuple':
        return or_(*[lift(lambda x: isinst(it, l, x, st), (x,)) for x in t.args])
    if t.op == 'ref':
        c = it.content(t, st)
        if c is not None and c.op == 'tuple':
            return isinst(it, l, c, st)
    if l.op == 'excv':
        return tm.boolc(it.exc_subclass(l.args[0], t))
    if t.op == 'type':
        n = t.args[0]
        if n == 'object':
            return TRUE
        if l.op == 'ref':
            inf = it.info(l)
            if inf['kind'] == 'inst':
                return tm.boolc(any(b is t for b in inf['cls'].mro))
            c = it.content(l, st)
            return tm.boolc(kindof(it, l, c) == n)
        if l.op in ('tuple', 'seq', 'dict'):
            return tm.boolc((l.args[0] if l.op == 'seq' else l.op) == n)
        if l is TRUE or l is FALSE or l.sort == 'bool':
            return tm.boolc(n in ('bool', 'int'))
        srt = {'dec': 'Decimal'}.get(l.sort, l.sort)
        if l.sort == 'num':
            return atom_bool(mk('isinst', (l, t), 'bool')) if n in ('int', 'float') else FALSE
        if l.sort in ('any', 'obj') and l.op not in ('enum', 'class', 'func') and l is not NONE:
            return atom_bool(mk('isinst', (l, t), 'bool'))
        return tm.boolc(srt == n)
    if t.op == 'class':
        if l.op == 'ref':
            inf = it.info(l)
            return tm.boolc(inf['kind'] == 'inst' and any(b is t for b in inf['cls'].mro))
        if l.op == 'enum':
            return tm.boolc(any(b is t for b in it.classes[l.args[0]].mro))
        if l.sort == 'any' and l is not NONE:
            return atom_bool(mk('isinst', (l, t), 'bool'))
        return FALSE
    if t.op == 'extattr':
        return ext.isinst(it, l, t)
    return atom_bool(mk('isinst', (it.freeze(l, st), t), 'bool'))


@bi('issubclass')
def b_issubclass(it, args, kwargs, st, fr, ex, node):
    def leaf(a, b):
        if a.op == 'class' and b.op in ('class', 'type', 'extattr'):
            return tm.boolc(any(x is b for x in it.classes[a.args[0]].mro))
        return atom_bool(mk('issub', (a, b), 'bool'))
    return lift(leaf, (args[0], args[1]))


@bi('callable')
def b_callable(it, args, kwargs, st, fr, ex, node):
    return lift(lambda l: TRUE if l.op in ('func', 'class', 'bound', 'builtin', 'type') else
                FALSE if (l is NONE or isconst(l)) else atom_bool(mk('callable', (l,), 'bool')), (args[0],))


# what the values of the built-in types have; the names that only some of them have count for all of a row
ATTRS = {k: set().union(*map(dir, v)) for k, v in (
    ('list', (list, tuple, set, frozenset, collections.deque)), ('dict', (dict, collections.OrderedDict, collections.Counter,
                                                                          collections.defaultdict)),
    ('str', (str,)), ('bytes', (bytes, bytearray)), ('int', (int, bool)), ('bool', (int, bool)), ('float', (float,)),
    ('dec', (decimal.Decimal,)), ('td', (datetime.timedelta,)), ('time', (datetime.time,)), ('date', (datetime.date,)),
    ('dt', (datetime.datetime,)))}
ATTRS.update({'set': ATTRS['list'], 'frozenset': ATTRS['list'], 'deque': ATTRS['list']})


def known_attr(kind, name):
    return kind not in ATTRS or name in ATTRS[kind]


def attempt_attr(it, o, name, st, fr, ex, node, missing):
    """The attribute, or `missing` where reading it ends with an AttributeError."""
    s, body, res = st.fork(), [], []
    try:
        v = it.getattr(o, name, s, fr, body, node, missing)
        res.append((s, v))
    except Dead:
        pass
    t = type_('AttributeError')
    for e in body:
        c = FALSE
        if e.kind == 'raise':
            c = lift(lambda x: it.exc_isinst(x, t), (constrain(e.value, e.st.pc),))
        hs = e.st.fork(c)
        if hs.pc is not FALSE:
            res.append((hs, missing))
        rest = and_(e.st.pc, not_(c))
        if rest is not FALSE:
            e.st.pc = rest
            ex.append(e)
    if not res:
        st.pc = FALSE
        raise Dead()
    s, r = res[-1]
    for s2, r2 in reversed(res[:-1]):
        sel = constrain(s2.pc, or_(s2.pc, s.pc))
        r = r2 if r2 is r else ite3(sel, r2, r)
        s = it.merge2(s2, s, sel)
    st.become(s)
    return r


@bi('getattr')
def b_getattr(it, args, kwargs, st, fr, ex, node):
    if len(args) > 2:
        return it.fork_on(args[1], st, lambda l, s: attempt_attr(it, args[0], pyval(l), s, fr, ex, node, args[2]))
    return it.fork_on(args[1], st, lambda l, s: it.getattr(args[0], pyval(l), s, fr, ex, node))


@bi('hasattr')
def b_hasattr(it, args, kwargs, st, fr, ex, node):
    m = mk('missing', (), 'missing')
    v = it.fork_on(args[1], st, lambda l, s: attempt_attr(it, args[0], pyval(l), s, fr, ex, node, m))
    return lift(lambda l: tm.boolc(l is not m), (v,))


@bi('setattr')
def b_setattr(it, args, kwargs, st, fr, ex, node):
    it.fork_on(args[1], st, lambda l, s: it.setattr(args[0], pyval(l), args[2], s, fr, ex, node) or NONE)
    return NONE


@bi('print')
def b_print(it, args, kwargs, st, fr, ex, node):
    it.event('print', None, args, kwargs, st, node, 'none', None, raises=False)
    return NONE


@bi('type')
def b_type(it, args, kwargs, st, fr, ex, node):
    def leaf(l):
        if l.op == 'ref':
            inf = it.info(l)
            if inf['kind'] == 'inst':
                return mk('class', (inf['cls'].qual,), 'type')
            return type_(kindof(it, l, it.content(l, st)))
        if l.op == 'enum':
            return mk('class', (l.args[0],), 'type')
        if l.sort in ('int', 'str', 'bytes', 'bool', 'float', 'tuple', 'list', 'dict'):
            return type_(l.sort)
        if l.op == 'excv':
            return l.args[0]
        return mk('typeof', (l,), 'any')
    return lift(leaf, (args[0],))


@bi('id', 'hash')
def b_id(it, args, kwargs, st, fr, ex, node):
    return app('id', (it.freeze(args[0], st),), 'int')


@bi('format')
def b_fmt(it, args, kwargs, st, fr, ex, node):
    return fmt_spec(it, args[0], pyval(args[1]) if len(args) > 1 else '', st)


@bi('open')
def b_open(it, args, kwargs, st, fr, ex, node):
    from . import ext
    if len(args) == 1 and 'mode' not in kwargs:
        args = args + [const('r')]
    elif 'mode' in kwargs:
        kwargs = dict(kwargs)
        args = args + [kwargs.pop('mode')]
    r = it.event('open', None, args, kwargs, st, node, 'obj', ex)
    return ext.new_stream(it, r, st)


@bi('slice')
def b_slice(it, args, kwargs, st, fr, ex, node):
    if len(args) == 1:
        args = [NONE] + args
    return mk('slice', tuple((args + [NONE])[:3]), 'slice')


@bi('property')
def b_property(it, args, kwargs, st, fr, ex, node):
    return mk('property', tuple(a for a in args[:2] if a is not NONE), 'func')


@bi('staticmethod', 'classmethod')
def b_static(it, args, kwargs, st, fr, ex, node):
    raise AnalysisError('staticmethod')


BUILTINS['staticmethod'] = lambda it, args, kwargs, st, fr, ex, node: mk('staticmethod', (args[0],), 'func')
BUILTINS['classmethod'] = lambda it, args, kwargs, st, fr, ex, node: mk('classmethod', (args[0],), 'func')


# ---------------------------------------------------------------- container methods

METHODS = {
    'list': {'append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'sort', 'reverse', 'clear', 'copy',
             'appendleft', 'popleft', 'extendleft'},
    'dict': {'get', 'items', 'keys', 'values', 'update', 'pop', 'setdefault', 'copy', 'clear', 'popitem', 'iteritems',
             'itervalues', 'iterkeys', '__getitem__', '__setitem__', '__contains__', '__delitem__', '__init__', 'has_key'},
    'set': {'add', 'update', 'discard', 'remove', 'union', 'difference', 'intersection', 'issubset', 'issuperset', 'copy',
            'pop', 'clear'},
    'tuple': {'index', 'count'},
}


def has_method(kind, name):
    return name in METHODS.get(kind, ())


def base_attr(it, base, name):
    if base.op == 'type' and base.args[0] in METHODS and (has_method(base.args[0], name) or name == '__init__'):
        return mk('bmethod0', (name,), 'func')
    if base.op == 'extattr' and base.args[0] == 'collections.OrderedDict' and has_method('dict', name):
        return mk('bmethod0', (name,), 'func')
    if base.op == 'ntbase':
        return None
    return None


def container_method(it, o, name, args, kwargs, st, fr, ex, node):
    args = [constrain(a, st.pc) for a in args]
    c = it.content(o, st)
    if o.op == 'ref' and it.info(o)['kind'] == 'inst' and name in ('__setattr__', '__getattribute__'):
        if name == '__setattr__':
            st.heap[(o.args[0], 'a', pyval(args[0]))] = args[1]
            return NONE
        v = st.heap.get((o.args[0], 'a', pyval(args[0])))
        if v is None:
            it.raise_(TRUE, excv('AttributeError'), st, ex, node)
        return v
    if c is None:
        from . import ext
        return ext.method_external(it, o, name, args, kwargs, st, fr, ex, node)
    k = kindof(it, o, c)
    fn = globals().get('m_%s_%s' % (k, name.strip('_') if name.startswith('__') else name))
    if fn is None:
        if c.op == 'seq' and c.args[0] in ('str', 'bytes'):
            from . import ext
            return ext.str_method(it, o, name, args, kwargs, st, fr, ex, node)
        if not has_method(k, name):
            it.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
        raise AnalysisError('method %s.%s' % (k, name))
    return fn(it, o, c, args, kwargs, st, fr, ex, node)


def put(it, o, c, st):
    it.set_content(o, c, st)
    return NONE


def m_list_append(it, o, c, args, kwargs, st, fr, ex, node):
    return put(it, o, seq(c.args[0], list(c.args[1]) + [('e', TRUE, args[0])]), st)


def m_list_extend(it, o, c, args, kwargs, st, fr, ex, node):
    items = items_of(it, args[0], st, fr, ex, node)
    c = it.content(o, st)
    return put(it, o, seq(c.args[0], list(c.args[1]) + items), st)


def m_list_insert(it, o, c, args, kwargs, st, fr, ex, node):
    items = list(c.args[1])
    if args[0].op == 'num' and (args[0].args[0] == 0 or all(t == 'e' and g is TRUE for t, g, x in items)):
        items.insert(int(args[0].args[0]), ('e', TRUE, args[1]))
        return put(it, o, seq(c.args[0], items), st)
    return put(it, o, seq(c.args[0], [('s', TRUE, app('insert', (c, args[0], it.freeze(args[1], st)), 'list'))]), st)


def m_list_appendleft(it, o, c, args, kwargs, st, fr, ex, node):
    items = [('e', TRUE, args[0])] + list(c.args[1])
    n = it.info(o).get('maxlen')
    if n is not None and len(items) > n:
        if not all(t == 'e' and g is TRUE for t, g, x in items):
            raise AnalysisError('appendleft to a bounded deque of unknown length')
        items = items[:n]
    return put(it, o, seq(c.args[0], items), st)


def m_list_clear(it, o, c, args, kwargs, st, fr, ex, node):
    return put(it, o, seq(c.args[0], []), st)


def m_list_copy(it, o, c, args, kwargs, st, fr, ex, node):
    return it.alloc('list', st, c)


def m_list_reverse(it, o, c, args, kwargs, st, fr, ex, node):
    if all(t == 'e' for t, g, x in c.args[1]):
        return put(it, o, seq(c.args[0], list(reversed(c.args[1]))), st)
    return put(it, o, seq(c.args[0], [('s', TRUE, app('reversed', (c,), 'list'))]), st)


def m_list_sort(it, o, c, args, kwargs, st, fr, ex, node):
    return put(it, o, sort_items(it, list(c.args[1]), kwargs, st, fr, ex, node), st)


def m_list_pop(it, o, c, args, kwargs, st, fr, ex, node):
    items = list(c.args[1])
    i = args[0] if args else num(-1, 'int', 0)
    if i.op == 'num' and all(t == 'e' and g is TRUE for t, g, x in items):
        if not -len(items) <= int(i.args[0]) < len(items):
            it.raise_(TRUE, excv('IndexError'), st, ex, node)
        v = items.pop(int(i.args[0]))
        put(it, o, seq(c.args[0], items), st)
        return v[2]
    emp = not_(truth(c))
    if constrain(emp, st.pc) is not FALSE:
        it.raise_(emp, excv('IndexError'), st, ex, node)
    v = item(it, c, i, st)
    if i.op == 'num' and i.args[0] == 0:
        put(it, o, slice_seq(it, c, ONE, NONE, st), st)
    elif i.op == 'num' and i.args[0] == -1:
        put(it, o, slice_seq(it, c, ZERO, num(-1, 'int', 0), st), st)
    else:
        put(it, o, seq(c.args[0], [('s', TRUE, app('delitem', (c, i), 'list'))]), st)
    return v


def m_list_popleft(it, o, c, args, kwargs, st, fr, ex, node):
    return m_list_pop(it, o, c, [ZERO], kwargs, st, fr, ex, node)


def m_list_index(it, o, c, args, kwargs, st, fr, ex, node):
    return app('index', (it.freeze(c, st), it.freeze(args[0], st)), 'int')


def m_list_count(it, o, c, args, kwargs, st, fr, ex, node):
    r = ZERO
    for t, g, x in as_items(c):
        if t != 'e':
            return app('count', (it.freeze(c, st), it.freeze(args[0], st)), 'int')
        r = lift(tm.p_add, (r, ite3(and_(g, lift(lambda p, q: eq_full(it, p, q, st), (x, args[0]))), ONE, ZERO)))
    return r


m_tuple_index = m_list_index
m_tuple_count = m_list_count


def m_list_remove(it, o, c, args, kwargs, st, fr, ex, node):
    return put(it, o, seq(c.args[0], [('s', TRUE, app('remove', (it.freeze(c, st), args[0]), 'list'))]), st)


def m_set_add(it, o, c, args, kwargs, st, fr, ex, node):
    return put(it, o, dedupe(seq('set', list(c.args[1]) + [('e', TRUE, args[0])])), st)


def m_set_update(it, o, c, args, kwargs, st, fr, ex, node):
    items = list(c.args[1])
    for a in args:
        items += items_of(it, a, st, fr, ex, node)
    return put(it, o, dedupe(seq('set', items)), st)


def m_set_discard(it, o, c, args, kwargs, st, fr, ex, node):
    out = []
    for t, g, x in c.args[1]:
        if t != 'e':
            raise AnalysisError('discard from an unknown set')
        out.append((t, and_(g, not_(eq(x, args[0]))), x))
    return put(it, o, seq('set', out), st)


m_set_remove = m_set_discard


def m_set_union(it, o, c, args, kwargs, st, fr, ex, node):
    items = list(as_items(c))
    for a in args:
        items += items_of(it, a, st, fr, ex, node)
    return it.alloc('set', st, dedupe(seq('set', items)))


def m_set_difference(it, o, c, args, kwargs, st, fr, ex, node):
    s = it.alloc('set', st, seq('set', items_of(it, args[0], st, fr, ex, node)))
    return leafop(it, '-', o, s, st, fr, ex, node)


def m_set_intersection(it, o, c, args, kwargs, st, fr, ex, node):
    s = it.alloc('set', st, seq('set', items_of(it, args[0], st, fr, ex, node)))
    return leafop(it, '&', o, s, st, fr, ex, node)


def m_set_issubset(it, o, c, args, kwargs, st, fr, ex, node):
    other = seq('set', items_of(it, args[0], st, fr, ex, node))
    return and_(*[or_(not_(g), contains_cond(it, x, other, st)) for t, g, x in as_items(c)])


def m_set_copy(it, o, c, args, kwargs, st, fr, ex, node):
    return it.alloc('set', st, c)


def m_set_clear(it, o, c, args, kwargs, st, fr, ex, node):
    return put(it, o, seq('set', []), st)


def m_dict_get(it, o, c, args, kwargs, st, fr, ex, node):
    d = args[1] if len(args) > 1 else kwargs.get('default', NONE)
    pairs = lift(lambda kk: tuple_(*dict_lookup(c, kk)), (args[0],)) if args[0].op == 'ite' else \
        tuple_(*dict_lookup(c, args[0]))
    v = lift(lambda p: p.args[0], (pairs,))
    p = constrain(lift(lambda p: p.args[1], (pairs,)), st.pc)
    return constrain(ite3(p, v, d), st.pc)


def m_dict_items(it, o, c, args, kwargs, st, fr, ex, node):
    return mk('view', ('items', c), 'list')


def m_dict_keys(it, o, c, args, kwargs, st, fr, ex, node):
    return mk('view', ('keys', c), 'list')


def m_dict_values(it, o, c, args, kwargs, st, fr, ex, node):
    return mk('view', ('values', c), 'list')


def m_dict_update(it, o, c, args, kwargs, st, fr, ex, node):
    for a in args:
        a = constrain(a, st.pc)
        if a.op == 'ite':
            it.fork_on(a, st, lambda l, s: m_dict_update(it, o, c, [l], {}, s, fr, ex, node))
            c = it.content(o, st)
            continue
        d = it.content(a, st) if a.op in ('ref', 'dict', 'inst') else None
        if a.op == 'view' and a.args[0] == 'items':
            d = a.args[1]
        if d is not None and d.op == 'dict':
            if d.args[0] is not None:
                if c.args[0] is None and not c.args[1]:
                    c = dict_(d.args[0], c.args[1])
                else:
                    raise AnalysisError('update with an unknown mapping')
            for k, g, x in d.args[1]:
                if g is TRUE:
                    c = dict_put(c, k, x)
                else:
                    c = merge_put(c, k, x, g)
            put(it, o, c, st)
            continue
        its = items_of(it, a, st, fr, ex, node)
        if any(t != 'e' for t, g, x in its):
            def body(x, s, bex):
                pk, pv = it.unpack(x, [None, None], s, fr, bex, node)
                it.setitem(o, pk, pv, s, fr, bex, node)
                return True
            it.iterate(it.iter_of(a, st, fr, ex, node), body, lambda s: True, st, fr, ex, node)
            c = it.content(o, st)
            continue
        for t, g, x in its:
            k, v = it.unpack(x, [None, None], st, fr, ex, node) if x.op != 'tuple' else x.args
            if t != 'e':
                raise AnalysisError('update with an unknown sequence')
            c = it.content(o, st)
            c = dict_put(c, k, v) if g is TRUE else merge_put(c, k, v, g)
            put(it, o, c, st)
        c = it.content(o, st)
    for k, v in kwargs.items():
        g = TRUE
        if k == '**':
            raise AnalysisError('** of an unknown mapping')
        if v.op == 'guarded':
            g, v = v.args
        c = dict_put(c, const(k), v) if g is TRUE else merge_put(c, const(k), v, g)
        put(it, o, c, st)
    return NONE


def merge_put(c, k, v, g):
    ov, op_ = dict_lookup(c, k)
    nv = v if op_ is FALSE else ite3(g, v, ov)
    out = []
    done = False
    for kk, gg, x in c.args[1]:
        if kk.key == k.key:
            out.append((kk, or_(g, gg), nv))
            done = True
        else:
            out.append((kk, gg, x))
    if not done:
        out.append((k, or_(g, op_), nv))
    return dict_(c.args[0], out)


def m_dict_init(it, o, c, args, kwargs, st, fr, ex, node):
    return m_dict_update(it, o, c, args, kwargs, st, fr, ex, node)


m_list_init = lambda it, o, c, args, kwargs, st, fr, ex, node: m_list_extend(
    it, o, c, args, kwargs, st, fr, ex, node) if args else NONE


def m_dict_getitem(it, o, c, args, kwargs, st, fr, ex, node):
    return from_dict(it, c, args[0], st, ex, node)


def m_dict_setitem(it, o, c, args, kwargs, st, fr, ex, node):
    return put(it, o, dict_put(c, args[0], args[1]), st)


def m_dict_contains(it, o, c, args, kwargs, st, fr, ex, node):
    return contains_cond(it, args[0], c, st)


def m_dict_pop(it, o, c, args, kwargs, st, fr, ex, node):
    v, p = dict_lookup(c, args[0])
    p = constrain(p, st.pc)
    if len(args) > 1:
        v = ite3(p, v, args[1])
    elif p is not TRUE:
        it.raise_(not_(p), excv('KeyError', args[0]), st, ex, node)
    put(it, o, dict_(c.args[0], [(k, g, x) for k, g, x in c.args[1] if k.key != args[0].key]), st)
    return constrain(v, st.pc)


def m_dict_setdefault(it, o, c, args, kwargs, st, fr, ex, node):
    d = args[1] if len(args) > 1 else NONE
    v, p = dict_lookup(c, args[0])
    p = constrain(p, st.pc)
    nv = d if p is FALSE else ite3(p, v, d)
    put(it, o, dict_put(c, args[0], nv), st)
    return constrain(nv, st.pc)


def m_dict_copy(it, o, c, args, kwargs, st, fr, ex, node):
    return it.alloc('dict', st, c)


def m_dict_clear(it, o, c, args, kwargs, st, fr, ex, node):
    return put(it, o, EMPTY_DICT, st)


m_dict_iteritems, m_dict_itervalues, m_dict_iterkeys = m_dict_items, m_dict_values, m_dict_keys


def make_namedtuple(it, base, args, kwargs, st, fr, ex, node):
    names = [pyval(x) for x in base.args[1].args]
    vals = dict(zip(names, args))
    vals.update(kwargs)
    if set(vals) != set(names):
        it.raise_(TRUE, excv('TypeError', const('namedtuple arguments')), st, ex, node)
    return mk('nt', (base, tuple_(*[vals[n] for n in names])), 'tuple')


# external library entry points used by the interpreter

def module_attr(it, modname, attr):
    from . import ext
    return ext.module_attr(it, modname, attr)


def call_external(it, f, args, kwargs, st, fr, ex, node):
    from . import ext
    return ext.call_external(it, f, args, kwargs, st, fr, ex, node)


def attr_external(it, o, name, st, fr, ex, node):
    from . import ext
    return ext.attr_external(it, o, name, st, fr, ex, node)


def setattr_external(it, o, name, v, st, fr, ex, node):
    from . import ext
    return ext.setattr_external(it, o, name, v, st, fr, ex, node)


def method_external(it, o, name, args, kwargs, st, fr, ex, node):
    from . import ext
    return ext.method_external(it, o, name, args, kwargs, st, fr, ex, node)


def with_external(it, cm, body, st, fr, ex, node):
    from . import ext
    return ext.with_external(it, cm, body, st, fr, ex, node)
