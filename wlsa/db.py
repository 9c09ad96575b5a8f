"""
Model of a database behind a DB-API connection.

Queries are pure: their results are named by what is asked (table, condition, grouping, order) and by the writes seen so far
that can matter to the answer.  Writes build the state of the tables: row -> column -> value, with conditions.  A transaction
is pending until it is committed or rolled back.  Statements that the schema or the connector refuse raise.
"""
import datetime
from fractions import Fraction

from . import sql
from . import terms as tm
from .terms import (T, AnalysisError, TRUE, FALSE, NONE, ZERO, ONE, mk, num, const, ite3, and_, or_, not_, atom_bool, tuple_, seq,
                    dict_, constrain, lift, isconst, pyval)

V, C, P, U, R = ('DB', 'visible'), ('DB', 'committed'), ('DB', 'pending'), ('DB', 'unread'), ('DB', 'rollback')
EMPTY = dict_(None, ())


class Database(object):
    """What the engine keeps per run: the schema, meanings of result and row names."""

    def __init__(self, schema, tables=None):
        self.schema = schema
        self.results = {}          # result term -> Result
        self.known = {}            # row name -> {column: value} that the row is known by
        self.tables = tables       # table -> [dict column -> term]: concrete mode
        self.statements = []       # (statement, where) seen
        self.limit = 3000
        self.strict = False
        self.serial = 0
        self.cursors = []
        self.connections = set()
        self.commits = []          # (condition, rows, tables) at each commit
        self.fault = None          # called at each call of the connector


def start(st):
    st.heap.setdefault(V, EMPTY)
    st.heap.setdefault(C, EMPTY)
    st.heap.setdefault(P, FALSE)
    st.heap.setdefault(U, FALSE)
    st.heap.setdefault(R, FALSE)


def error(it, name, text, cond, st, ex, node):
    from . import ext
    it.raise_(cond, ext.excv('mysql.connector.errors.' + name, const(text)), st, ex, node)


# ---------------------------------------------------------------- values and conditions

def raw(name, args, sort='any'):
    return mk('app', (name, args), sort)


def same(a, b):
    """a = b as SQL sees it (neither NULL)."""
    if a is NONE or b is NONE:
        return FALSE
    if a is b:
        return TRUE
    if a.op == 'ite' or b.op == 'ite':
        return tm.truth(lift(same, (a, b)))
    if isconst(a) and isconst(b):
        x, y = pyval(a), pyval(b)
        if isinstance(x, str) and isinstance(y, str):
            return tm.boolc(x.lower() == y.lower())
        return tm.boolc(x == y)
    ca, cb = moment(a), moment(b)
    if ca is not None and cb is not None:
        return tm.boolc(ca == cb)
    return tm.eq(a, b)


def moment(t):
    """A known date or time as seconds."""
    if t.op == 'app' and t.args[0] in ('datetime', 'date') and all(x.op == 'num' for x in t.args[1][:7]):
        v = [int(x.args[0]) for x in t.args[1][:7]]
        d = datetime.datetime(*v)
        return (d - datetime.datetime(1, 1, 1)).days * 86400 + (d - datetime.datetime(1, 1, 1)).seconds + Fraction(d.microsecond, 10 ** 6)
    return None


def instant(s):
    d = datetime.datetime(1, 1, 1) + datetime.timedelta(seconds=int(s), microseconds=int((s - int(s)) * 10 ** 6))
    from . import ext
    return ext.mk_dt(*([num(x, 'int', 0) for x in (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)] + [NONE]))


class Names(object):
    """Conditions over the columns of an unknown row."""

    def __init__(self, table):
        self.table = table

    def has(self, c):
        return self.table is None or isinstance(c, T) or c in self.table.cols

    def null(self, c):
        if self.table is not None and not isinstance(c, T) and c in self.table.cols and not self.table.cols[c][1]:
            return FALSE
        return atom_bool(raw('sql.null', (colterm(c),), 'bool'))

    def eq(self, c, v):
        return atom_bool(raw('sql.eq', (colterm(c), v), 'bool'))

    def lt(self, c, v):
        if self.table is not None and not isinstance(c, T) and v.op == 'num' and v.args[0] <= 0 and \
                c in self.table.cols and self.table.cols[c][2]:
            return FALSE
        return atom_bool(raw('sql.lt', (colterm(c), v), 'bool'))

    def grain(self, c, v):
        """The next greater value of the column after v, if the column holds whole numbers or seconds."""
        if self.table is None or isinstance(c, T) or c not in self.table.cols:
            return None
        s = self.table.cols[c][0]
        if s == 'int' and v.op == 'num' and v.args[0].denominator == 1:
            return num(int(v.args[0]) + 1, 'int', 0)
        if s == 'dt' and moment(v) is not None and moment(v).denominator == 1 if isinstance(moment(v), Fraction) else \
                s == 'dt' and moment(v) is not None:
            return instant(moment(v) + 1)
        return None

    def compare(self, op, c, v):
        """(true, false) of column op value."""
        if v is NONE:
            return (self.null(c), not_(self.null(c))) if op == '<=>' else (FALSE, FALSE)
        if v.op == 'ite':
            rs = [(g, self.compare(op, c, l)) for g, l in tm.leaves(v)]
            return or_(*[and_(g, r[0]) for g, r in rs]), or_(*[and_(g, r[1]) for g, r in rs])
        ok = not_(self.null(c))
        if op in ('=', '<=>', '!='):
            n = self.grain(c, v) if self.table is not None and not isinstance(c, T) and self.table.cols.get(c, ('',))[0] == 'dt' else None
            t = self.eq(c, v) if n is None else and_(not_(self.lt(c, v)), self.lt(c, n))
            t = and_(ok, t)
            f = and_(ok, not_(t))
            return (f, t) if op == '!=' else (t, or_(f, self.null(c))) if op == '<=>' else (t, f)
        n = self.grain(c, v)
        if op in ('<', '>='):
            t, f = and_(ok, self.lt(c, v)), and_(ok, not_(self.lt(c, v)))
            return (t, f) if op == '<' else (f, t)
        le = self.lt(c, n) if n is not None else or_(self.lt(c, v), self.eq(c, v))
        t, f = and_(ok, le), and_(ok, not_(le))
        return (t, f) if op == '<=' else (f, t)


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}


def condition(ast, names):
    """(true, false) of an SQL condition."""
    k = ast[0]
    if k in ('and', 'or'):
        rs = [condition(x, names) for x in ast[1]]
        ts, fs = [r[0] for r in rs], [r[1] for r in rs]
        return (and_(*ts), or_(*fs)) if k == 'and' else (or_(*ts), and_(*fs))
    if k == 'not':
        t, f = condition(ast[1], names)
        return f, t
    if k == 'isnull':
        if ast[1][0] == 'col':
            n = names.null(ast[1][1])
            return n, not_(n)
        raise AnalysisError('IS NULL of an expression')
    if k == 'cmp':
        _, op, a, b = ast
        if a[0] == 'lit' and b[0] == 'col':
            a, b, op = b, a, FLIP.get(op, op)
        if a[0] == 'col' and b[0] == 'lit':
            return names.compare(op, a[1], b[1])
        if a[0] == 'lit' and b[0] == 'lit' and op == '=':
            s = same(a[1], b[1])
            return s, not_(s)
        t = atom_bool(raw('sql.' + op, (exprterm(a), exprterm(b)), 'bool'))
        return t, not_(t)
    if k == 'lit':
        t = tm.truth(ast[1])
        return t, not_(t)
    raise AnalysisError('condition %s' % k)


def colterm(c):
    return c if isinstance(c, T) else const(c)


def exprterm(e):
    k = e[0]
    if k == 'col':
        return raw('sql.col', (colterm(e[1]),))
    if k == 'lit':
        return e[1]
    if k == 'star':
        return raw('sql.star', ())
    if k == 'agg':
        return raw('sql.' + e[1], (exprterm(e[2]),))
    if k == 'func':
        return raw('sql.' + e[1], tuple(exprterm(x) for x in e[2]))
    raise AnalysisError('expression %s' % k)


def columns_of(e, out=None):
    out = set() if out is None else out
    if e is None:
        return out
    k = e[0]
    if k == 'col':
        out.add(e[1])
    elif k in ('and', 'or'):
        for x in e[1]:
            columns_of(x, out)
    elif k in ('not', 'isnull'):
        columns_of(e[1], out)
    elif k == 'cmp':
        columns_of(e[2], out)
        columns_of(e[3], out)
    elif k == 'agg':
        columns_of(e[2], out)
    elif k == 'func':
        for x in e[2]:
            columns_of(x, out)
    return out


def pins(ast):
    """{column: value} that every row of the condition has."""
    out = {}
    if ast is None:
        return out
    if ast[0] == 'and':
        for x in ast[1]:
            out.update(pins(x))
    elif ast[0] == 'cmp' and ast[1] in ('=', '<=>'):
        a, b = ast[2], ast[3]
        if a[0] == 'lit':
            a, b = b, a
        if a[0] == 'col' and b[0] == 'lit' and not isinstance(a[1], T):
            out[a[1]] = b[1]
    return out


def never_null(where, c, names):
    """Rows that satisfy the condition have a value in column c."""
    n = names.null(c)
    return n is FALSE or and_(where, n) is FALSE


DAYS = ('summary_year', 'summary_month', 'summary_day')


def conjuncts(ast):
    if ast is None:
        return []
    if ast[0] == 'and':
        return [y for x in ast[1] for y in conjuncts(x)]
    return [ast]


def known_values(ast):
    if ast[0] in ('and', 'or'):
        return all(known_values(x) for x in ast[1])
    if ast[0] == 'not':
        return known_values(ast[1])
    if ast[0] == 'cmp':
        return all(x[0] == 'col' or x[0] == 'lit' and x[1].op == 'num' for x in ast[2:])
    return False


def day_truth(ast, day):
    k = ast[0]
    if k == 'and':
        return all(day_truth(x, day) for x in ast[1])
    if k == 'or':
        return any(day_truth(x, day) for x in ast[1])
    if k == 'not':
        return not day_truth(ast[1], day)
    v = [day[x[1]] if x[0] == 'col' else x[1] for x in ast[2:]]
    return {'=': v[0] == v[1], '<=>': v[0] == v[1], '!=': v[0] != v[1], '<': v[0] < v[1], '<=': v[0] <= v[1], '>': v[0] > v[1],
            '>=': v[0] >= v[1]}[ast[1]]


CALENDAR = {}


def calendar(parts):
    """The days that conditions on year, month and day select, as periods; None if they are unbounded."""
    parts = [whole(p) for p in parts]
    key = tuple(parts)
    if key in CALENDAR:
        return CALENDAR[key]
    years = set()

    def walk(x):
        if x[0] in ('and', 'or'):
            for y in x[1]:
                walk(y)
        elif x[0] == 'not':
            walk(x[1])
        elif x[0] == 'cmp':
            c = [y[1] for y in x[2:] if y[0] == 'col']
            v = [y[1] for y in x[2:] if y[0] == 'lit']
            if c == ['summary_year'] and v:
                years.add(int(v[0]))
    for p in parts:
        walk(p)
    CALENDAR[key] = None
    if not years:
        return None
    out = []
    d = datetime.date(min(years) - 1, 1, 1)
    end = datetime.date(max(years) + 2, 1, 1)
    while d < end:
        day = dict(zip(DAYS, (d.year, d.month, d.day)))
        if all(day_truth(p, day) for p in parts):
            if d.year in (min(years) - 1, max(years) + 1):
                return None
            if out and out[-1][1] == d:
                out[-1][1] = d + datetime.timedelta(days=1)
            else:
                out.append([d, d + datetime.timedelta(days=1)])
        d += datetime.timedelta(days=1)
    CALENDAR[key] = out
    return out


def whole(ast):
    """The condition with plain numbers."""
    if ast[0] in ('and', 'or'):
        return (ast[0], tuple(whole(x) for x in ast[1]))
    if ast[0] == 'not':
        return ('not', whole(ast[1]))
    f = [('lit', int(x[1].args[0]) if x[1].args[0].denominator == 1 else float(x[1].args[0])) if x[0] == 'lit' else x for x in ast[2:]]
    return ast[:2] + tuple(f)


def selection(ast, table, names, pinned):
    """The condition of a statement, with the days it selects in normal form."""
    if ast is None:
        return TRUE
    parts = conjuncts(ast)
    days = [p for p in parts if columns_of(p) and columns_of(p) <= set(DAYS) and known_values(p)]
    daily = table is not None and ('summary_type' not in table.cols or
                                   pinned.get('summary_type') is not None and same(pinned['summary_type'], const('DAILY')) is TRUE)
    if days and daily:
        c = calendar(days)
        if c is not None:
            rest = [condition(p, names)[0] for p in parts if p not in days]
            t = raw('sql.days', tuple(tuple_(*[num(x, 'int', 0) for d in r for x in (d.year, d.month, d.day)]) for r in c), 'bool')
            return and_(atom_bool(t) if c else FALSE, *rest)
    return condition(ast, names)[0]


# ---------------------------------------------------------------- the state of the tables

def put(state, key, cols, guard):
    """The row key gets the columns under guard."""
    out = []
    done = False
    for k, g, row in state.args[1]:
        if k is key:
            done = True
            d = {c.key: (c, gc, v) for c, gc, v in row.args[1]}
            for c, v in cols:
                o = d.get(c.key)
                d[c.key] = (c, TRUE, v) if guard is TRUE or o is None and g is FALSE else \
                    (c, or_(guard, o[1]) if o else guard, ite3(guard, v, o[2]) if o else v)
            out.append((k, or_(g, guard), dict_(None, sorted(d.values(), key=lambda x: x[0].key))))
        else:
            out.append((k, g, row))
    if not done:
        out.append((key, guard, dict_(None, sorted([(c, guard, v) for c, v in cols], key=lambda x: x[0].key))))
    return dict_(None, sorted(out, key=lambda x: x[0].key))


NEW = const('*new')


def rows_in(db, st, table, over=None):
    """(row name, guard, columns) of the rows of a table that have been written."""
    for k, g, row in tm_leaf(st.heap[V]):
        if k.args[0] is table:
            yield k, g, row


def tm_leaf(state):
    if state.op == 'ite':
        raise AnalysisError('alternative table states')
    return state.args[1]


def verdict(ast, known):
    """Whether a row with these values satisfies the condition: True, False, or None if that is not known."""
    k = ast[0]
    if k in ('and', 'or'):
        vs = [verdict(x, known) for x in ast[1]]
        stop = k == 'or'
        return stop if stop in vs else None if None in vs else not stop
    if k == 'not':
        v = verdict(ast[1], known)
        return None if v is None else not v
    if k == 'isnull' and ast[1][0] == 'col' and ast[1][1] in known:
        v = tm.isnone(known[ast[1][1]])
        return True if v is TRUE else False if v is FALSE else None
    if k == 'cmp':
        xs = [x[1] if x[0] == 'lit' else known.get(x[1]) if x[0] == 'col' and not isinstance(x[1], T) else None for x in ast[2:]]
        if None in xs or xs[0] is NONE or xs[1] is NONE:
            return None
        if ast[1] in ('=', '<=>', '!='):
            v = same(*xs)
        elif tm.isnumeric(xs[0]) and tm.isnumeric(xs[1]):
            a, b = xs if ast[1] in ('<', '<=') else xs[::-1]
            v = tm.cmp_le(a, b, 0 if '=' not in ast[1] else 1)
        else:
            return None
        if v is not TRUE and v is not FALSE:
            return None
        return (v is TRUE) != (ast[1] == '!=')
    return None


def seen(db, st, tname, cols, where, where_cols):
    """The writes that can matter to a query for these columns, as one term."""
    out = []
    for k, g, row in rows_in(db, st, tname):
        new = row_is_new(row)
        known = {c: v for c, v in db.known.get(k, {}).items() if new or c not in {
            x.args[1] for x, _, _ in row.args[1] if x.op == 'const'}}
        v = verdict(where, known) if where is not None else True
        if v is False:
            continue
        want = set(colterm(c).key for c in cols)
        if v is None:
            want |= set(colterm(c).key for c in where_cols)
        part = [(c, gc, x) for c, gc, x in row.args[1] if c.key in want or c is NEW]
        if part:
            if new:
                part = [x for x in part if x[2] is not NONE]
            out.append((k, g, dict_(None, part)))
    return dict_(None, out) if out else NONE


def row_is_new(row):
    return any(c is NEW for c, _, _ in row.args[1])


def row_value(db, st, key, c, base):
    """The value of a column of a row, given its value before all writes."""
    ct = colterm(c)
    for k, g, row in tm_leaf(st.heap[V]):
        if k is key:
            for cc, gc, v in row.args[1]:
                if cc is ct:
                    return ite3(gc, v, base)
    return base


# ---------------------------------------------------------------- results

class Result(object):
    """row(k) -> (exists, row); at_most: number of rows if bounded; width: number of columns."""

    def __init__(self, row, at_most, term, width=None):
        self.row, self.at_most, self.term, self.width = row, at_most, term, width


def field_value(table, c, t, nonnull=False):
    if table is not None and not isinstance(c, T) and c in table.cols:
        s, nullable = table.cols[c][:2]
        t = mk(t.op, t.args, s)
        return t if nonnull or not nullable else tm.opt(t)
    return t


def check_columns(it, db, table, cols, st, ex, node):
    if table is None:
        return
    for c in cols:
        if not isinstance(c, T) and c not in table.cols:
            error(it, 'ProgrammingError', 'unknown column %s' % c, TRUE, st, ex, node)


def table_of(it, db, name, st, ex, node):
    if isinstance(name, T):
        return None
    t = db.schema.get(name)
    if t is None and name not in it.db_other:
        error(it, 'ProgrammingError', 'unknown table %s' % name, TRUE, st, ex, node)
    return t


def unique_key(table, pinned):
    if table is None:
        return None
    for u in table.unique:
        if all(c in pinned for c in u):
            return u
    return None


def find_row(db, st, tname, table, pinned, unique, where):
    """(exists, row name) of the row with these values of a unique key; the name is an ite over written and other rows."""
    if table.pk is not None and unique == (table.pk,):
        # by primary key: the row is what the value names
        def leaf(v):
            return row_by_id(db, tname, table, v)
        return TRUE, lift(leaf, (pinned[table.pk],))
    base_where = and_(*[Names(table).compare('=', c, pinned[c])[0] for c in unique])
    key = mk('row', (tname, base_where, const('base')), 'any')
    db.known.setdefault(key, {c: pinned[c] for c in unique})
    exists = atom_bool(raw('sql.exists', (tname, base_where, ZERO, NONE), 'bool'))
    name = key
    for k, g, row in rows_in(db, st, tname):
        if not row_is_new(row):
            continue
        cols = {c.args[1]: v for c, gc, v in row.args[1] if c.op == 'const'}
        m = and_(g, *[same(cols.get(c, NONE), pinned[c]) for c in unique])
        if m is FALSE:
            continue
        exists = or_(m, exists)
        name = ite3(m, k, name)
    return exists, name


def row_by_id(db, tname, table, v):
    if v.op == 'app' and v.args[0] == 'sql.id':
        return v.args[1][0]
    key = mk('row', (tname, v, const('id')), 'any')
    db.known.setdefault(key, {table.pk: v})
    return key


def row_id(key, sort='int'):
    return mk('app', ('sql.id', (key,)), sort)


def base_value(key, c, table):
    """Value that a row had before all writes."""
    return field_value(table, c, raw('sql.was', (key, colterm(c))))


def value_in_row(db, st, key, c, table):
    if not isinstance(c, T) and c == table.pk:
        return row_id(key)
    for k, g, row in tm_leaf(st.heap[V]):
        if k is key and row_is_new(row):
            return row_value(db, st, key, c, NONE)
    known = db.known.get(key, {})
    base = known[c] if c in known else base_value(key, c, table)
    return row_value(db, st, key, c, base)


def select(it, db, q, st, ex, node):
    tname = colterm(q['table']) if q['table'] is not None else NONE
    if q['table'] is None:
        vals = tuple_(*[exprterm(e) for e in q['exprs']])
        return Result(lambda k: (TRUE if k is ZERO else FALSE, vals), 1, vals)
    table = table_of(it, db, q['table'], st, ex, node)
    cols = set()
    for e in q['exprs'] + q['group'] + [e for e, _ in q['order']]:
        columns_of(e, cols)
    wcols = columns_of(q['where'])
    check_columns(it, db, table, cols | wcols, st, ex, node)
    names = Names(table)
    pinned = pins(q['where'])
    if q['where'] is not None and any(v is NONE for v in pinned.values()):
        return Result(lambda k: (FALSE, NONE), 0, NONE)
    where = selection(q['where'], table, names, pinned)
    limit = None
    if q['limit'] is not None:
        l = q['limit']
        if l[0] != 'lit' or l[1].op != 'num':
            raise AnalysisError('LIMIT')
        limit = int(l[1].args[0])
    aggregate = any(e[0] == 'agg' for e in q['exprs'])
    if aggregate and not q['group']:
        vals = []
        for e in q['exprs']:
            vals.append(aggregate_value(db, st, tname, table, names, e, where, q['where'], wcols))
        row = tuple_(*vals)
        return Result(lambda k: (TRUE if k is ZERO and limit != 0 else FALSE, row), 1, row)
    u = unique_key(table, pinned)
    if u is not None and not q['group']:
        exists, name = find_row(db, st, tname, table, pinned, u, where)
        extra = [c for c in conjuncts(q['where']) if not set(columns_of(c)) <= set(u)]
        if not extra:
            row = tuple_(*[lift(lambda k, e=e: plain_value(db, st, k, e, table), (name,)) for e in q['exprs']])
            return Result(lambda k: (exists if k is ZERO and limit != 0 else FALSE, row), 1, tuple_(row, raw('exists', (exists,), 'bool')))
    group = tuple_(*sorted([exprterm(e) for e in q['group']], key=lambda t: t.key))
    order = tuple_(*[tuple_(exprterm(e), tm.boolc(d)) for e, d in q['order']])
    if u is not None:
        order = tuple_()
    d_where = seen(db, st, tname, set(), q['where'], wcols)
    gcols = set()
    for e in q['group'] + [e for e, _ in q['order']]:
        columns_of(e, gcols)
    rowset = raw('sql.rows', (tname, where, group, order, tm.boolc(q['distinct'])))

    def value(e, k):
        if e[0] == 'lit':
            return e[1]
        d = seen(db, st, tname, gcols | columns_of(e), q['where'], wcols)
        t = raw('sql.field', (rowset, k, exprterm(e), d))
        if e[0] == 'col':
            return field_value(table, e[1], t, never_null(where, e[1], names))
        return t
    vals0 = [(e, seen(db, st, tname, gcols | columns_of(e), q['where'], wcols)) for e in q['exprs']]

    first = q['order'][0] if q['order'] and not q['group'] and not q['distinct'] and u is None else None

    def never(c):
        return never_null(where, c, names) or table is not None and not isinstance(c, T) and c in table.cols and not table.cols[c][1]

    def value_at(i, k):
        e, d = vals0[i]
        if e[0] == 'lit':
            return e[1]
        if k is ZERO and first is not None and e[0] == 'col' and e == first[0] and never(e[1]):
            # the first in this order is the extreme
            return field_value(table, e[1], extreme('max' if first[1] else 'min', e, tname, where, d), True)
        t = raw('sql.field', (rowset, k, exprterm(e), d))
        if e[0] == 'col':
            return field_value(table, e[1], t, never_null(where, e[1], names))
        return t

    def row(k):
        if limit is not None and (k.op != 'num' or k.args[0] >= limit) or u is not None and k is not ZERO:
            return FALSE, NONE
        ok = atom_bool(raw('sql.exists', (tname, where, k, d_where) + ((group,) if k is not ZERO and q['group'] else ()), 'bool'))
        if where is FALSE:
            ok = FALSE
        return ok, tuple_(*[value_at(i, k) for i in range(len(vals0))])
    t = raw('sql.result', (rowset, num(limit, 'int', 0) if limit is not None else NONE,
                           tuple_(*[tuple_(exprterm(e), d) for e, d in vals0]), d_where))
    return Result(row, 1 if u is not None else limit, t, len(vals0))


def extreme(fn, e, tname, where, d):
    return raw('sql.extreme', (const(fn), exprterm(e), tname, where, d))


def plain_value(db, st, key, e, table):
    if e[0] == 'lit':
        return e[1]
    if e[0] == 'col':
        return value_in_row(db, st, key, e[1], table)
    raise AnalysisError('expression %s of one row' % e[0])


def aggregate_value(db, st, tname, table, names, e, where, ast, wcols):
    if e[0] == 'lit':
        return e[1]
    if e[0] != 'agg':
        raise AnalysisError('column beside an aggregate')
    fn, x = e[1], e[2]
    d = seen(db, st, tname, columns_of(x), ast, wcols)
    if fn in ('min', 'max') and where is not FALSE and x[0] == 'col' and (
            never_null(where, x[1], names) or table is not None and not isinstance(x[1], T) and not table.cols[x[1]][1]):
        d_where = seen(db, st, tname, set(), ast, wcols)
        ok = atom_bool(raw('sql.exists', (tname, where, ZERO, d_where), 'bool'))
        return ite3(ok, field_value(table, x[1], extreme(fn, x, tname, where, d), True), NONE)
    t = raw('sql.' + fn, (exprterm(x), tname, where, d))
    if fn.startswith('count'):
        return mk(t.op, t.args, 'int')
    s = 'any'
    if x[0] == 'col' and table is not None and not isinstance(x[1], T):
        s = table.cols[x[1]][0]
    if fn in ('avg', 'sum') and s in ('int', 'dec'):
        s = 'dec'
    if where is FALSE:
        return NONE
    return tm.opt(mk(t.op, t.args, s))


# ---------------------------------------------------------------- writes

def write(it, db, st, key, cols, guard=TRUE):
    st.heap[V] = put(tm_state(st.heap[V]), key, [(colterm(c), constrain(v, and_(st.pc, guard))) for c, v in cols], guard)
    st.heap[P] = TRUE
    st.heap[R] = FALSE


def tm_state(s):
    if s.op != 'dict':
        raise AnalysisError('alternative table states')
    return s


def literal(e, what):
    if e[0] != 'lit':
        raise AnalysisError('%s is not a value' % what)
    return e[1]


def check_value(it, table, c, v, st, ex, node):
    """A value that the column cannot hold is an error of the server."""
    if table is None or isinstance(c, T):
        return
    s, nullable, unsigned, text = table.cols[c]
    if not nullable and table.auto != c:
        n = tm.isnone(v)
        if n is not FALSE:
            error(it, 'IntegrityError', 'column %s cannot be null' % c, n, st, ex, node)
    if text.lower().startswith('enum'):
        members = [m.strip().strip("'").lower() for m in text[text.index('(') + 1:text.index(')')].split(',')]
        for g, l in tm.leaves(v):
            if l.op == 'const' and l.args[0] == 'str' and l.args[1].lower() not in members:
                error(it, 'DataError', 'column %s' % c, g, st, ex, node)


def insert(it, db, q, st, ex, node):
    table = table_of(it, db, q['table'], st, ex, node)
    tname = colterm(q['table'])
    check_columns(it, db, table, q['cols'], st, ex, node)
    if len(set(colterm(c) for c in q['cols'])) != len(q['cols']):
        error(it, 'ProgrammingError', 'column specified twice', TRUE, st, ex, node)
    vals = [(c, literal(e, 'inserted value')) for c, e in zip(q['cols'], q['values'])]
    for c, v in vals:
        check_value(it, table, c, v, st, ex, node)
    given = dict(vals)
    if table is not None:
        for c, (s, nullable, unsigned, text) in table.cols.items():
            if not nullable and c != table.auto and c not in given and 'DEFAULT' not in text.upper():
                error(it, 'IntegrityError', 'column %s has no default value' % c, TRUE, st, ex, node)
    u = None
    if table is not None:
        u = next((u for u in table.unique if all(c in given for c in u)), None)
    ident = tuple_(*[tuple_(colterm(c), given[c]) for c in (u or sorted(given, key=lambda c: colterm(c).key))])
    key = mk('row', (tname, ident, const('new')), 'any')
    db.known.setdefault(key, {c: given[c] for c in (u or ())})
    new = TRUE
    if u is not None:
        exists, name = find_row(db, st, tname, table, given, u, None)
        if q['dup'] is not None:
            new = not_(exists)
            sets = [(c, literal(e, 'updated value') if e[0] == 'lit' else given[e[2][0][1]] if e[0] == 'func' and e[1] == 'values'
                     else literal(e, '')) for c, e in q['dup']]
            for g, k in tm.leaves(name):
                g = and_(g, exists)
                if g is not FALSE:
                    write(it, db, st, k, sets, g)
        else:
            # a row written before is known to be there
            here = or_(*[g for k, g, row in rows_in(db, st, tname) if k is key and row_is_new(row)])
            if here is not FALSE:
                error(it, 'IntegrityError', 'duplicate entry', here, st, ex, node)
    elif any(k is key for k, g, row in rows_in(db, st, tname)):
        raise AnalysisError('the same row is inserted twice')
    write(it, db, st, key, vals + [('*new', TRUE)], new)
    return row_id(key)


def update(it, db, q, st, ex, node):
    table = table_of(it, db, q['table'], st, ex, node)
    tname = colterm(q['table'])
    check_columns(it, db, table, [c for c, _ in q['sets']], st, ex, node)
    check_columns(it, db, table, columns_of(q['where']), st, ex, node)
    vals = {}
    for c, e in q['sets']:
        vals[c] = literal(e, 'assigned value')
    for c, v in vals.items():
        check_value(it, table, c, v, st, ex, node)
    pinned = pins(q['where'])
    if any(v is NONE for v in pinned.values()):
        return
    u = unique_key(table, pinned)
    extra = [c for c in conjuncts(q['where']) if not set(columns_of(c)) <= set(u or ())]
    if u is not None and not extra:
        exists, name = find_row(db, st, tname, table, pinned, u, None)
        for g, k in tm.leaves(name):
            g = constrain(and_(g, exists), st.pc)
            if g is not FALSE:
                write(it, db, st, k, list(vals.items()), g)
        return
    where = selection(q['where'], table, Names(table), pinned)
    write(it, db, st, mk('row', (tname, where, const('where')), 'any'), list(vals.items()))


# ---------------------------------------------------------------- concrete tables

def cell(v, k):
    r = v.get(k)
    return NONE if r is None else r


class Cells(Names):
    """Conditions over the columns of a known row."""

    def __init__(self, table, row):
        self.table, self.row = table, row

    def null(self, c):
        return tm.isnone(cell(self.row, c))

    def eq(self, c, v):
        return same(cell(self.row, c), v)

    def lt(self, c, v):
        a = cell(self.row, c)
        if a is NONE:
            return FALSE
        x, y = moment(a), moment(v)
        if x is not None and y is not None:
            return tm.boolc(x < y)
        return tm.cmp_le(a, v, 1)

    def grain(self, c, v):
        return None


def order_key(v):
    if v is NONE:
        return (0, 0)
    m = moment(v)
    if m is not None:
        return (1, m)
    if v.op == 'num':
        return (1, v.args[0])
    if v.op == 'const':
        return (1, v.args[1])
    raise AnalysisError('order of unknown values')


def table_rows(st, name):
    t = st.heap[('DB', 'table', name)]
    rows = []
    for tag, g, x in t.args[1]:
        if g is not TRUE and and_(g, st.pc) is not st.pc:
            raise AnalysisError('conditional row')
        rows.append({c.args[1]: v for c, gc, v in x.args[1]})
    return rows


def row_term(row):
    return dict_(None, [(const(c), TRUE, v) for c, v in sorted(row.items())])


def select_rows(it, db, q, st, ex, node):
    table = table_of(it, db, q['table'], st, ex, node)
    cols = set()
    for e in q['exprs'] + q['group'] + [e for e, _ in q['order']]:
        columns_of(e, cols)
    check_columns(it, db, table, cols | columns_of(q['where']), st, ex, node)
    if q['group']:
        raise AnalysisError('GROUP BY on known tables')
    rows = []
    for r in table_rows(st, q['table']):
        c = constrain(condition(q['where'], Cells(table, r))[0], st.pc) if q['where'] is not None else TRUE
        if c is TRUE:
            rows.append(r)
        elif c is not FALSE:
            raise AnalysisError('row selected under a condition')
    for e, desc in reversed(q['order']):
        rows.sort(key=lambda r: order_key(cell(r, e[1])), reverse=desc)
    if q['limit'] is not None:
        rows = rows[:int(pyval(q['limit'][1]))]

    def value(e, r):
        return e[1] if e[0] == 'lit' else cell(r, e[1])
    if any(e[0] == 'agg' for e in q['exprs']):
        vals = []
        for e in q['exprs']:
            fn, x = e[1], e[2]
            vs = [value(x, r) for r in rows if x[0] == 'star' or value(x, r) is not NONE]
            if fn == 'count':
                vals.append(num(len(vs), 'int', 0))
            elif not vs:
                vals.append(NONE)
            elif fn in ('min', 'max'):
                vals.append((min if fn == 'min' else max)(vs, key=order_key))
            else:
                raise AnalysisError(fn)
        out = [tuple_(*vals)]
    else:
        out = [tuple_(*[value(e, r) for e in q['exprs']]) for r in rows]
    n = len(out)

    def row(k):
        i = int(k.args[0])
        return (TRUE, out[i]) if i < n else (FALSE, NONE)
    return Result(row, n, tuple_(*out))


def insert_rows(it, db, q, st, ex, node):
    table = table_of(it, db, q['table'], st, ex, node)
    check_columns(it, db, table, q['cols'], st, ex, node)
    new = {c: literal(e, 'inserted value') for c, e in zip(q['cols'], q['values'])}
    for c, v in new.items():
        check_value(it, table, c, v, st, ex, node)
    rows = table_rows(st, q['table'])
    for u in table.unique:
        if not all(c in new for c in u):
            continue
        for r in rows:
            if all(constrain(same(cell(r, c), new[c]), st.pc) is TRUE for c in u):
                if q['dup'] is None:
                    error(it, 'IntegrityError', 'duplicate entry', TRUE, st, ex, node)
                for c, e in q['dup']:
                    check_columns(it, db, table, [c], st, ex, node)
                    v = new[e[2][0][1]] if e[0] == 'func' and e[1] == 'values' else literal(e, 'updated value')
                    check_value(it, table, c, v, st, ex, node)
                    r[c] = v
                new = None
                break
        if new is None:
            break
    if new is not None:
        rows.append(new)
    set_rows(st, q['table'], rows)
    return NONE


def update_rows(it, db, q, st, ex, node):
    table = table_of(it, db, q['table'], st, ex, node)
    rows = table_rows(st, q['table'])
    check_columns(it, db, table, [c for c, _ in q['sets']], st, ex, node)
    for r in rows:
        c = constrain(condition(q['where'], Cells(table, r))[0], st.pc) if q['where'] is not None else TRUE
        if c is TRUE:
            for k, e in q['sets']:
                r[k] = literal(e, 'assigned value')
        elif c is not FALSE:
            raise AnalysisError('row changed under a condition')
    if q['kind'] == 'delete':
        raise AnalysisError('DELETE')
    set_rows(st, q['table'], rows)


def set_rows(st, name, rows):
    st.heap[('DB', 'table', name)] = seq('list', [('e', TRUE, row_term(r)) for r in rows])
    st.heap[P] = TRUE
    st.heap[R] = FALSE


# ---------------------------------------------------------------- the connector

def unread(it, st, ex, node):
    c = st.heap[U]
    if and_(c, st.pc) is not FALSE:
        error(it, 'InternalError', 'Unread result found', c, st, ex, node)


def emit(it, name, o, st, ex, node):
    """A call of the connector that may fail."""
    if it.db.fault is not None:
        it.db.fault(it, name, st, ex, node)
    elif it.exc_mode:
        it.event('db' + name, None, (), {}, st, node, 'any', ex)


def new_cursor(it, conn, kwargs, st, ex, node):
    for k, v in kwargs.items():
        if k in ('dictionary', 'named_tuple', 'raw', 'prepared') and v is not FALSE and v is not NONE:
            raise AnalysisError('cursor of kind %s' % k)
    unread(it, st, ex, node)
    emit(it, '.cursor', conn, st, ex, node)
    db = it.db
    db.serial += 1
    c = mk('cursor', (db.serial,), 'obj')
    db.cursors.append(c)
    st.heap[('Q', c)] = NONE
    st.heap[('QF', c)] = FALSE
    st.heap[('QN', c)] = ZERO
    st.heap[('QO', c)] = TRUE
    st.heap[('QB', c)] = kwargs.get('buffered', FALSE)
    return c


def connection_method(it, o, name, args, kwargs, st, fr, ex, node):
    """A method of the connection, or None if it is not one of the database's."""
    if name == 'cursor':
        start(st)
        return new_cursor(it, o, kwargs, st, ex, node)
    if name == 'commit':
        start(st)
        unread(it, st, ex, node)
        emit(it, '.commit', o, st, ex, node)
        st.heap[C] = st.heap[V]
        if it.db.tables is not None:
            for t in it.db.tables:
                st.heap[('DB', 'saved', t)] = st.heap[('DB', 'table', t)]
        st.heap[P] = FALSE
        it.db.commits.append((st.pc, st.heap[C], None if it.db.tables is None else {t: st.heap[('DB', 'saved', t)] for t in it.db.tables}))
        return NONE
    if name == 'rollback':
        start(st)
        st.heap[R] = TRUE
        unread(it, st, ex, node)
        emit(it, '.rollback', o, st, ex, node)
        undo(it, st)
        return NONE
    if name == 'start_transaction':
        return NONE
    return None


def undo(it, st):
    st.heap[V] = st.heap[C]
    if it.db.tables is not None:
        for t in it.db.tables:
            st.heap[('DB', 'table', t)] = st.heap[('DB', 'saved', t)]
    st.heap[P] = FALSE


def parameters(it, v, st):
    if v is None or v is NONE:
        return []
    f = it.freeze(v, st)
    if f.op == 'dict' and f.args[0] is None:
        return {k.args[1]: constrain(x, st.pc) for k, g, x in f.args[1]}
    if f.op == 'tuple':
        return [constrain(x, st.pc) for x in f.args]
    if f.op == 'seq' and f.args[0] in ('list', 'tuple'):
        out = []
        for t, g, x in f.args[1]:
            g = constrain(g, st.pc)
            if g is FALSE:
                continue
            if t != 'e':
                raise AnalysisError('parameters whose number is not known')
            if out and out[-1][0] is not TRUE and and_(out[-1][0], g) is FALSE:
                # one or the other of two
                h, y = out.pop()
                g, x = or_(h, g), ite3(h, y, x)
            out.append((g, x))
        for g, x in out:
            if g is not TRUE:
                return g
        return [constrain(x, st.pc) for _, x in out]
    raise AnalysisError('parameters %s' % f.op)


def execute(it, o, text, params, st, fr, ex, node):
    text = constrain(it.freeze(text, st), st.pc)
    if text.op == 'seq' and any(g is not TRUE for _, g, _ in text.args[1]):
        # alternatives of the text, one at a time
        g = next(g for _, g, _ in text.args[1] if g is not TRUE)
        alive = it.branch(g, st, lambda s: bool(execute(it, o, text, params, s, fr, ex, node)) or True,
                          lambda s: bool(execute(it, o, text, params, s, fr, ex, node)) or True)
        return NONE
    if text.op == 'ite':
        it.branch(atom_bool(text.args[0]), st, lambda s: bool(execute(it, o, text, params, s, fr, ex, node)) or True,
                  lambda s: bool(execute(it, o, text, params, s, fr, ex, node)) or True)
        return NONE
    if text.sort not in ('str', 'any', 'bytes'):
        error(it, 'ProgrammingError', 'a statement that is no text', TRUE, st, ex, node)
    db = it.db
    start(st)
    unread(it, st, ex, node)
    if db.tables is not None and len(db.statements) > db.limit:
        error(it, 'OperationalError', 'the statements do not come to an end', TRUE, st, ex, node)
    args = parameters(it, params, st)
    if isinstance(args, T):
        # their number depends on a condition
        it.branch(args, st, lambda s: bool(execute(it, o, text, params, s, fr, ex, node)) or True,
                  lambda s: bool(execute(it, o, text, params, s, fr, ex, node)) or True)
        return NONE
    from . import ext
    try:
        q = sql.parse(text, args)
    except sql.SQLError as e:
        error(it, 'ProgrammingError', str(e), TRUE, st, ex, node)
    db.statements.append(q)
    emit(it, '.execute', o, st, ex, node)
    st.heap[('QN', o)] = ZERO
    st.heap[('QF', o)] = FALSE
    known = db.tables is not None
    if q['kind'] == 'select':
        r = (select_rows if known and q['table'] is not None else select)(it, db, q, st, ex, node)
        t = mk('dbresult', (r.term, num(db.serial, 'int', 0)) if False else (r.term,), 'obj')
        db.results[t] = r
        st.heap[('Q', o)] = t
        st.heap[U] = FALSE if st.heap[('QB', o)] is TRUE else constrain(r.row(ZERO)[0], st.pc)
        return NONE
    st.heap[('Q', o)] = NONE
    st.heap[U] = FALSE
    if q['kind'] == 'insert':
        st.heap[('X', o, 'lastrowid')] = (insert_rows if known else insert)(it, db, q, st, ex, node)
    elif known:
        update_rows(it, db, q, st, ex, node)
    elif q['kind'] == 'update':
        update(it, db, q, st, ex, node)
    else:
        raise AnalysisError(q['kind'])
    return NONE


def result_of(it, o, st, ex, node):
    q = constrain(st.heap[('Q', o)], st.pc)
    if q.op == 'ite':
        raise AnalysisError('alternative results')
    return it.db.results.get(q)


def fetch_guard(it, o, st, ex, node):
    r = result_of(it, o, st, ex, node)
    if r is None:
        error(it, 'InterfaceError', 'No result set to fetch from', TRUE, st, ex, node)
    k = constrain(st.heap[('QN', o)], st.pc)
    return r, k


def cursor_method(it, o, name, args, kwargs, st, fr, ex, node):
    if name == 'execute':
        text = args[0] if args else kwargs['operation']
        p = args[1] if len(args) > 1 else kwargs.get('params')
        execute(it, o, text, p, st, fr, ex, node)
        return NONE
    if name == 'close':
        st.heap[('QO', o)] = FALSE
        unread(it, st, ex, node)
        emit(it, '.close', o, st, ex, node)
        st.heap[('Q', o)] = NONE
        return TRUE
    if name == 'fetchone':
        qs = constrain(st.heap[('Q', o)], st.pc)
        if qs.op == 'ite':
            return it.fork_on(qs, st, lambda l, s: fetch_leaf(it, o, l, s, ex, node))
        return fetch_leaf(it, o, qs, st, ex, node)
    if name in ('fetchall', '__iter__'):
        emit(it, '.fetch', o, st, ex, node)
        r, k = fetch_guard(it, o, st, ex, node)
        if it.db.strict:
            # connectors until 8.0 refuse to fetch all once the last row has been read
            error(it, 'InterfaceError', 'No result set to fetch from', constrain(and_(st.heap[('QF', o)], not_(st.heap[U])), st.pc),
                  st, ex, node)
        st.heap[U] = FALSE
        st.heap[('QF', o)] = TRUE
        return all_rows(it, o, r, k, st)
    if name == '__enter__':
        return o
    if name in ('fetchmany', 'executemany', 'callproc', 'nextset', 'stored_results'):
        raise AnalysisError('cursor method %s' % name)
    if name in ('reset',):
        st.heap[U] = FALSE
        return NONE
    return None


def fetch_leaf(it, o, q, st, ex, node):
    emit(it, '.fetch', o, st, ex, node)
    r = it.db.results.get(q)
    if r is None:
        error(it, 'InterfaceError', 'No result set to fetch from', TRUE, st, ex, node)
    k = constrain(st.heap[('QN', o)], st.pc)
    if k.op != 'num':
        raise AnalysisError('rows fetched in a symbolic loop')
    n = tm.p_add(k, ONE)
    ok, row = r.row(k)
    st.heap[('QN', o)] = n
    st.heap[('QF', o)] = TRUE
    st.heap[U] = FALSE if st.heap[('QB', o)] is TRUE else constrain(r.row(n)[0], st.pc)
    return constrain(ite3(ok, row, NONE), st.pc)


def all_rows(it, o, r, k, st):
    if k.op != 'num':
        raise AnalysisError('rows fetched in a symbolic loop')
    if r.at_most is not None and r.at_most <= 20000 and (it.db.tables is not None or r.at_most <= 4):
        items = []
        for i in range(int(k.args[0]), r.at_most):
            ok, row = r.row(num(i, 'int', 0))
            items.append(('e', ok, row))
        st.heap[('QN', o)] = num(r.at_most, 'int', 0)
        return it.alloc('list', st, seq('list', items))
    t = mk('rows', (r.term, k), 'list')
    it.db.results[t] = r
    return t


def iterate(it, o, st, fr, ex, node):
    """Rows of a cursor: all of them are read, except that a for statement reads them as it proceeds."""
    r, k = fetch_guard(it, o, st, ex, node)
    st.heap[U] = FALSE
    rows = all_rows(it, o, r, k, st)
    i = it.iter_of(rows, st, fr, ex, node)
    if i.items is not None:
        i.cursor = Walk(o, r, int(k.args[0]))
    return i


class Walk(object):
    """The read position of a cursor that a for statement iterates over."""

    def __init__(self, o, r, k):
        self.o, self.r, self.k = o, r, k

    def rewind(self, st):
        self.set(st, self.k)

    def set(self, st, k):
        st.heap[('QN', self.o)] = num(k, 'int', 0)
        more = self.r.row(num(k, 'int', 0))[0]
        st.heap[U] = FALSE if st.heap[('QB', self.o)] is TRUE else constrain(more, st.pc)

    def step(self, st, n):
        self.k += 1
        self.set(st, self.k)


def collapse(it, t):
    """A list that holds every row of a result, in order, is that result."""
    if t.op == 'seq' and len(t.args[1]) == 1 and t.args[1][0][0] == 's' and t.args[1][0][1] is TRUE:
        return collapse(it, t.args[1][0][2])
    if t.op != 'collect' or len(t.args[1]) != 1 or t.args[1][0][:2] != ('e', TRUE):
        return t
    depth, stop = t.args[0].args
    idx = mk('idx', (depth,), 'int')
    body = t.args[1][0][2]
    src = body
    if body.op == 'tuple' and body.args and all(x.op == 'elem' and x.args[1] is num(i, 'int', 0) and x.args[0] is body.args[0].args[0]
                                                for i, x in enumerate(body.args)):
        src = body.args[0].args[0]
    if src.op != 'elem' or src.args[1] is not idx or src.args[0] not in it.db.results:
        return t
    rows = src.args[0]
    if body is not src and len(body.args) != it.db.results[rows].width:
        return t
    n = mk('app', ('len', (rows,)), 'int')
    return rows if stop is tm.not_(tm.cmp_le(idx, n, 0)) else t
