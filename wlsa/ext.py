"""
Meaning of the library modules the analysed package uses (and that a rewrite of it plausibly would): datetime, decimal,
struct, math, six, pytz, urllib, collections, functools, itertools, operator, threading, sockets, requests, DB cursors.
"""
import datetime
import math
import re
import struct as _struct
from fractions import Fraction

from . import terms as tm
from . import db
from . import models as mo
from .terms import (
    T, AnalysisError, mk, const, num, NONE, TRUE, FALSE, UNBOUND, ZERO, ONE, ite3, and_, or_, not_, lift, leaves,
    constrain, tuple_, seq, list_, dict_, EMPTY_DICT, app, truth, eq, isnone, subst, atom_bool, show, pyval, isconst,
    isnumeric,
)
from .interp import Dead, Iter, excv, exc_type, type_, builtin, Exit, EXC_ALIAS

BAD = mo.BAD


def ea(name):
    return mk('extattr', (name,), 'any')


ALIAS = {
    'pytz.UTC': 'pytz.utc', 'datetime.timezone.utc': 'pytz.utc', 'urllib.parse.quote': 'quote',
    'urllib.parse.quote_plus': 'quote_plus', 'urllib.parse.urlencode': 'urlencode', 'urllib.quote': 'quote',
    'urllib.quote_plus': 'quote_plus', 'urllib.urlencode': 'urlencode',
    'six.moves.urllib.parse.quote': 'quote', 'six.moves.urllib.parse.quote_plus': 'quote_plus',
    'six.moves.urllib.parse.urlencode': 'urlencode', 'requests.utils.quote': 'quote', 'requests.compat.quote': 'quote',
    'requests.sessions.Session': 'requests.Session', 'requests.session': 'requests.Session',
    'queue.Queue': 'queue.Queue', '_socket.socket': 'socket.socket', 'mysql.connector.Connect': 'mysql.connector.connect',
    'mysql.connector.MySQLConnection': 'mysql.connector.connect', 'mysql.connector.connection.MySQLConnection': 'mysql.connector.connect',
}
ALIAS.update(('mysql.connector.' + n, 'mysql.connector.errors.' + n) for n in (
    'Error', 'DatabaseError', 'InterfaceError', 'InternalError', 'OperationalError', 'ProgrammingError', 'IntegrityError', 'DataError',
    'NotSupportedError', 'PoolError'))
DECIMAL_ROUND = {'ROUND_CEILING', 'ROUND_DOWN', 'ROUND_FLOOR', 'ROUND_HALF_DOWN', 'ROUND_HALF_EVEN', 'ROUND_HALF_UP',
                 'ROUND_UP', 'ROUND_05UP'}
CONSTS = {
    'curses.ascii.ACK': num(6, 'int', 0), 'curses.ascii.NAK': num(21, 'int', 0), 'curses.ascii.CR': num(13, 'int', 0),
    'curses.ascii.LF': num(10, 'int', 0), 'curses.ascii.NL': num(10, 'int', 0),
    'six.PY2': FALSE, 'six.PY3': TRUE, 'six.MAXSIZE': num(2 ** 63 - 1, 'int', 0),
    'math.pi': const(math.pi), 'math.e': const(math.e),
    'six.binary_type': type_('bytes'), 'six.text_type': type_('str'), 'sys.maxsize': num(2 ** 63 - 1, 'int', 0),
    'socket.error': exc_type('OSError'), 'struct.error': mk('extattr', ('struct.error',), 'any'),
    'six.moves.range': builtin('range'), 'six.moves.zip': builtin('zip'), 'six.moves.map': builtin('map'),
    'six.moves.xrange': builtin('range'), 'six.moves.filter': builtin('filter'), 'sys.byteorder': const('little'),
    'datetime.MINYEAR': num(1, 'int', 0), 'datetime.MAXYEAR': num(9999, 'int', 0),
}


def module_attr(it, modname, attr):
    n = modname + '.' + attr
    n = ALIAS.get(n, n)
    if n in CONSTS:
        return CONSTS[n]
    if n == 'six.string_types':
        return tuple_(type_('str'))
    if n == 'six.integer_types':
        return tuple_(type_('int'))
    if n == 'six.class_types':
        return tuple_(type_('type'))
    if modname == 'builtins' or modname == 'six.moves.builtins':
        v = it.builtin_name(attr)
        if v is not None:
            return v
    if modname == 'decimal' and attr in DECIMAL_ROUND:
        return const(attr)
    if n in ('six.moves', 'six.moves.urllib', 'six.moves.urllib.parse', 'urllib.parse', 'curses.ascii', 'os.path',
             'xml.etree', 'concurrent.futures', 'mysql.connector', 'requests.exceptions', 'logging.handlers'):
        return mk('mod', (n,), 'mod')
    return ea(n)


# ---------------------------------------------------------------- datetime

tm.APP_RANGE.update({
    'dt.month': (1, 12), 'dt.day': (1, 31), 'dt.hour': (0, 23), 'dt.minute': (0, 59), 'dt.second': (0, 59),
    'dt.us': (0, 999999), 'dt.weekday': (0, 6), 'dt.isoweek': (1, 53), 'dt.isoyear': (0, 10000), 'dt.year': (1, 9999), 'byte': (0, 255), 'ord': (0, 1114111),
})
DTF = ('year', 'month', 'day', 'hour', 'minute', 'second', 'us', 'tz')


def dt_field(x, f):
    if x.op == 'app' and x.args[0] == 'datetime':
        return x.args[1][DTF.index(f)]
    if x.op == 'app' and x.args[0] == 'date' and f in DTF[:3]:
        return x.args[1][DTF.index(f)]
    if x.op == 'app' and x.args[0] == 'localize':
        if f == 'tz':
            return app('tzof', (x,), 'any')
        return dt_field(x.args[1][1], f)
    if x.sort == 'date' and f in DTF[3:]:
        return ZERO if f != 'tz' else NONE
    return app('dt.' + f, (x,), 'any' if f == 'tz' else 'int')


@tm.simp('datetime')
def _s_datetime(args, sort):
    a = args[0]
    if a.op == 'app' and a.args[0] == 'dt.year':
        x = a.args[1][0]
        if all(y is dt_field(x, f) for y, f in zip(args, DTF)) and x.sort == 'dt':
            return x
    return None


@tm.simp('date')
def _s_date(args, sort):
    a = args[0]
    if a.op == 'app' and a.args[0] == 'dt.year':
        x = a.args[1][0]
        if x.sort == 'date' and all(y is dt_field(x, f) for y, f in zip(args, DTF)):
            return x
    return None


def mk_dt(*parts):
    return app('datetime', parts, 'dt')


def td(secs):
    return app('td', (secs,), 'td')


def td_secs(x):
    if x.op == 'app' and x.args[0] == 'td':
        return x.args[1][0]
    return app('td.secs', (x,), 'num')


@tm.simp('td')
def _s_td(args, sort):
    a = args[0]
    if a.op == 'app' and a.args[0] == 'td.secs':
        return a.args[1][0]
    return None


def known_dt(x):
    """The datetime or date that a term without unknowns stands for, or None."""
    if x.op == 'app' and x.args[0] in ('datetime', 'date') and all(p.op == 'num' for p in x.args[1][:7]) and \
            (len(x.args[1]) < 8 or x.args[1][7] is NONE):
        try:
            return datetime.datetime(*[int(p.args[0]) for p in x.args[1][:7]])
        except (ValueError, OverflowError):
            return None
    return None


def known_term(d, sort):
    v = [num(p, 'int', 0) for p in (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)]
    return app('date', tuple(v[:3]), 'date') if sort == 'date' else mk_dt(*(v + [NONE]))


def known_add(x, secs):
    d = known_dt(x) if secs.op == 'num' else None
    if d is None:
        return None
    s = secs.args[0]
    if x.sort == 'date':
        s = Fraction(s // 86400 * 86400)
    try:
        return known_term(d + datetime.timedelta(seconds=int(s // 1), microseconds=int((s - s // 1) * 10 ** 6)), x.sort)
    except OverflowError:
        return None


def dt_add(x, secs):
    if secs.op == 'num' and secs.args[0] == 0:
        return x
    r = known_add(x, secs)
    if r is not None:
        return r
    if x.op == 'app' and x.args[0] == 'dt+':
        return dt_add(x.args[1][0], tm.p_add(x.args[1][1], secs))
    return app('dt+', (x, secs), x.sort)


@tm.simp('dt+')
def _s_dtadd(args, sort):
    x, secs = args
    if secs.op == 'num' and secs.args[0] == 0:
        return x
    if x.op == 'app' and x.args[0] == 'dt+':
        return dt_add(x.args[1][0], tm.p_add(x.args[1][1], secs))
    return known_add(x, secs)


def dt_num(x):
    if x.sort == 'td':
        return td_secs(x)
    d = known_dt(x)
    if d is not None:
        d -= datetime.datetime(1, 1, 1)
        return num(d.days * 86400 + d.seconds + Fraction(d.microseconds, 10 ** 6), 'num')
    if x.op == 'app' and x.args[0] == 'dt+':
        return tm.p_add(dt_num(x.args[1][0]), x.args[1][1])
    return app('dt.num', (x,), 'num')


@tm.simp('dt.num')
def _s_dtnum(args, sort):
    x = args[0]
    if x.op == 'app' and x.args[0] == 'dt+':
        return tm.p_add(dt_num(x.args[1][0]), x.args[1][1])
    return dt_num(x) if known_dt(x) is not None else None


@tm.simp('dt.weekday')
def _s_weekday(args, sort):
    if all(p.op == 'num' for p in args):
        return num(datetime.date(*[int(p.args[0]) for p in args]).weekday(), 'int', 0)
    return None


def dt_op(o, x, y):
    sx, sy = x.sort, y.sort
    if x is NONE or y is NONE:
        return BAD
    if o == '+':
        if sx in ('dt', 'date') and sy in ('td', 'any'):
            return dt_add(x, td_secs(y))
        if sx in ('td', 'any') and sy in ('dt', 'date'):
            return dt_add(y, td_secs(x))
        if sx == sy == 'td':
            return td(tm.p_add(td_secs(x), td_secs(y)))
    if o == '-':
        if sx in ('dt', 'date', 'any') and sy == sx or sx in ('dt', 'date') and sy == 'any':
            if sy == 'td':
                return td(tm.p_add(td_secs(x), td_secs(y), -1))
            return td(tm.p_add(dt_num(x), dt_num(y), -1))
        if sx in ('dt', 'date') and sy == 'td':
            return dt_add(x, tm.p_neg(td_secs(y)))
        if sx == sy == 'td':
            return td(tm.p_add(td_secs(x), td_secs(y), -1))
    if o in ('*', '/') and sx == 'td' and mo.numlike(y):
        return td(tm.p_mul(td_secs(x), y) if o == '*' else tm.p_div(td_secs(x), y))
    if o == '*' and sy == 'td' and mo.numlike(x):
        return td(tm.p_mul(td_secs(y), x))
    if o == '/' and sx == sy == 'td':
        return tm.p_div(td_secs(x), td_secs(y))
    if o == '//' and sx == sy == 'td':
        return tm.fdiv(td_secs(x), td_secs(y))
    if o == '%' and sx == sy == 'td':
        return td(tm.fmod(td_secs(x), td_secs(y)))
    return BAD


def dt_attr(x, name):
    if x.sort == 'td':
        s = td_secs(x)
        if name == 'days':
            return tm.fdiv(s, num(86400, 'int', 0))
        if name == 'seconds':
            return tm.fmod(tm.floor_(s), num(86400, 'int', 0))
        return None
    m = {'year': 'year', 'month': 'month', 'day': 'day', 'hour': 'hour', 'minute': 'minute', 'second': 'second',
         'microsecond': 'us', 'tzinfo': 'tz'}.get(name)
    return None if m is None else dt_field(x, m)


def dt_method(it, x, name, args, kwargs, st, fr, ex, node):
    F = lambda fs: [dt_field(x, f) for f in fs]
    if x.sort == 'td':
        if name == 'total_seconds':
            return td_secs(x)
        return None
    if name == 'replace':
        vals = dict(zip(DTF, F(DTF)))
        for i, a in enumerate(args):
            vals[DTF[i]] = a
        for k, v in kwargs.items():
            vals[{'microsecond': 'us', 'tzinfo': 'tz'}.get(k, k)] = v
        if x.sort == 'date':
            return lift(lambda *xs: app('date', xs, 'date'), [vals[f] for f in DTF[:3]])
        return lift(mk_dt, [vals[f] for f in DTF])
    if name == 'date':
        return app('date', tuple(F(DTF[:3])), 'date')
    if name == 'time':
        return app('time', tuple(F(DTF[3:7])), 'time')
    if name == 'weekday':
        return app('dt.weekday', tuple(F(DTF[:3])), 'int')
    if name == 'isoweekday':
        return tm.p_add(app('dt.weekday', tuple(F(DTF[:3])), 'int'), ONE)
    if name == 'astimezone':
        return lift(lambda tz: app('astimezone', (x, tz), 'dt'), (args[0] if args else NONE,))
    if name == 'strftime':
        def leaf(f):
            y = x
            if isconst(f) and '%z' not in pyval(f) and '%Z' not in pyval(f) and x.sort == 'dt':
                us = dt_field(x, 'us') if '%f' in pyval(f) else ZERO
                y = mk_dt(*([dt_field(x, k) for k in DTF[:6]] + [us, NONE]))
            return app('strftime', (y, f), 'str')
        return lift(leaf, (args[0],))
    if name in ('isoformat', '__str__') and x.sort == 'dt' and all(isconst(a) for a in list(args) + list(kwargs.values())):
        sep = pyval(args[0]) if args else pyval(kwargs['sep']) if 'sep' in kwargs else ' ' if name == '__str__' else 'T'
        spec = pyval(args[1]) if len(args) > 1 else pyval(kwargs['timespec']) if 'timespec' in kwargs else 'auto'
        if dt_field(x, 'tz') is NONE and sep in (' ', 'T') and (spec == 'seconds' or spec == 'auto' and dt_field(x, 'us') is ZERO):
            y = mk_dt(*([dt_field(x, k) for k in DTF[:6]] + [ZERO, NONE]))
            return app('strftime', (y, const('%Y-%m-%d' + sep + '%H:%M:%S')), 'str')
    if name in ('isoformat', 'ctime', '__str__'):
        return app('.' + name, (x,) + tuple(args), 'str')
    if name in ('utcoffset', 'dst'):
        return app('.' + name, (x,), 'td')
    if name == 'isocalendar' and known_dt(x) is not None:
        return tuple_(*[num(v, 'int', 0) for v in known_dt(x).isocalendar()])
    if name == 'isocalendar' and x.sort in ('dt', 'date'):
        day = tuple(F(DTF[:3]))
        return tuple_(app('dt.isoyear', day, 'int'), app('dt.isoweek', day, 'int'),
                      tm.p_add(app('dt.weekday', day, 'int'), ONE))
    if name in ('timetuple', 'utctimetuple', 'isocalendar', 'timestamp', 'toordinal'):
        return app('.' + name, (x,), 'num' if name in ('timestamp', 'toordinal') else 'any')
    return None


def tdelta(args, kwargs):
    names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
    w = {'days': 86400, 'seconds': 1, 'microseconds': Fraction(1, 10 ** 6), 'milliseconds': Fraction(1, 1000), 'minutes': 60,
         'hours': 3600, 'weeks': 604800}
    vals = dict(zip(names, args))
    vals.update(kwargs)
    r = ZERO
    for k, v in vals.items():
        r = lift(lambda r, v, k=k: BAD if (r is BAD or not mo.numlike(v)) else
                 tm.p_add(r, tm.p_scale(mo.as_num(v), w[k], 'int' if isinstance(w[k], int) and v.sort == 'int' else 'num')),
                 (r, v))
    return r


# ---------------------------------------------------------------- struct

def parse_format(fmt):
    """[(code, offset, count)], size, endianness."""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    pre = fmt[:1] if fmt[:1] in '@=<>!' and fmt else ''
    body = fmt[len(pre):]
    end = '>' if pre in ('>', '!') else '<'
    out = []
    done = ''
    body = re.sub(r'\s+', '', body)
    for m in re.finditer(r'(\d*)([a-zA-Z?])', body):
        n = int(m.group(1)) if m.group(1) else 1
        code = m.group(2)
        off = _struct.calcsize((pre or '@') + done + '0' + code)
        size = _struct.calcsize((pre or '@') + code)
        if code == 'x':
            pass
        elif code in 'sp':
            out.append(('s', off, n))
        else:
            for i in range(n):
                out.append((code, off + i * size, size))
        done += m.group(1) + code
    total = _struct.calcsize((pre or '@') + body)
    # native sizes of l/L/q are those of the standard sizes for '=', '<', '>'
    norm = {}
    res = []
    for code, off, n in out:
        if code in 'bBhHiIlLqQnN':
            size = n
            signed = code.islower()
            code = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}[size]
            if not signed:
                code = code.upper()
        res.append((code, off, n))
    return res, total, end


def byte_field(data, off, code, n, end):
    src, base = data.args[0], tm.p_add(data.args[1], num(off, 'int', 0))
    if code == 's' or code == 'c':
        return mo.bslice(src, base, num(n if code == 's' else 1, 'int', 0))
    return mo.field(src, base, code, '' if code in 'bB' else end)


def unpack(it, fmt, data, off, exact, st, ex, node):
    def leaf(f, l, o):
        if not isconst(f):
            raise AnalysisError('computed struct format')
        fields, total, end = parse_format(pyval(f))
        if l.sort != 'bytes':
            return mk('raise', (excv('TypeError', const('bytes-like object required')),), 'raise')
        if l.op == 'const':
            b = pyval(l)
            o2 = int(o.args[0])
            try:
                return tuple_(*[const(v) for v in (_struct.unpack(pyval(f), b) if exact else
                                                    _struct.unpack_from(pyval(f), b, o2))])
            except _struct.error:
                return mk('raise', (mk('excv', (ea('struct.error'), tuple_()), 'exc'),), 'raise')
        n = app('len', (l,), 'int') if it.short_reads else None
        if l.op == 'app' and l.args[0] == 'sub' and l.args[1][0].op == 'bslice' and tm.is_int_const(l.args[1][1]) and \
                l.args[1][1].args[0] >= 0:
            whole, start, _ = l.args[1]
            l = mo.bslice(whole.args[0], tm.p_add(whole.args[1], start), app('len', (l,), 'int'))
        if l.op != 'bslice':
            l = mo.bslice(l, ZERO, app('len', (l,), 'int'))
        n = l.args[2] if n is None else n
        need = tm.p_add(num(total, 'int', 0), o)
        err = mk('raise', (mk('excv', (ea('struct.error'), tuple_()), 'exc'),), 'raise')
        if exact:
            bad = not_(tm.eq_leaf(n, need)) if n.op != 'app' else FALSE
        else:
            bad = tm.cmp_le(n, need, 0) if (n.op != 'app' or it.short_reads) else FALSE
        l2 = mo.bslice(l.args[0], tm.p_add(l.args[1], o), l.args[2])
        return ite3(bad, err, tuple_(*[byte_field(l2, fo, c, k, end) for c, fo, k in fields]))
    r = lift(leaf, (fmt, data, off))
    return settle(it, r, st, ex, node)


def settle(it, r, st, ex, node):
    """Turn 'raise' leaves into exits."""
    r = constrain(r, st.pc)
    for c, l in leaves(r):
        if l.op == 'raise':
            it.raise_(c, l.args[0], st, ex, node)
    return constrain(r, st.pc)


def pack(it, fmt, vals, st, ex, node):
    if not isconst(fmt):
        raise AnalysisError('computed struct format')
    fields, total, end = parse_format(pyval(fmt))
    out = []
    pos = 0
    if len(fields) != len(vals):
        it.raise_(TRUE, mk('excv', (ea('struct.error'), tuple_()), 'exc'), st, ex, node)
    for (code, off, n), v in zip(fields, vals):
        if off > pos:
            out += [ZERO] * (off - pos)
        if code == 's' or code == 'c':
            return app('pack', (fmt,) + tuple(vals), 'bytes')
        bs = []
        cur = v
        for i in range(n):
            hi = lift(lambda x: tm.fdiv(x, num(256, 'int', 0)) if mo.numlike(x) else BAD, (cur,))
            bs.append(cur if i == n - 1 else lift(lambda x: tm.fmod(x, num(256, 'int', 0)) if mo.numlike(x) else BAD, (cur,)))
            cur = hi
        out += bs if end == '<' else bs[::-1]
        pos = off + n
    out += [ZERO] * (total - pos)
    if any(isinstance(x, T) and x is BAD for x in out):
        it.raise_(TRUE, mk('excv', (ea('struct.error'), tuple_()), 'exc'), st, ex, node)
    return app('bytes', (tuple_(*out),), 'bytes')


# ---------------------------------------------------------------- streams

def new_stream(it, t, st):
    if ('S', t) not in st.heap:
        st.heap[('S', t)] = ZERO
    return t


def stream_method(it, o, name, args, kwargs, st, fr, ex, node):
    key = ('S', o)
    if name == 'read':
        cur = st.heap[key]
        if not args or args[0] is NONE:
            it.event('.read', o, (), {}, st, node, 'bytes', ex)
            return lift(lambda c: mo.bslice(o, c, app('rest', (o, c), 'int')), (cur,))
        n = args[0]
        it.event('.read', o, (n,), {}, st, node, 'bytes', ex)
        st.heap[key] = lift(tm.p_add, (cur, n))
        return lift(lambda c, k: mo.bslice(o, c, k), (cur, n))
    if name == 'seek':
        it.event('.seek', o, args, {}, st, node, 'none', ex)
        if len(args) > 1 and args[1] is ONE:
            st.heap[key] = lift(tm.p_add, (st.heap[key], args[0]))
        elif len(args) > 1 and args[1] is not ZERO:
            raise AnalysisError('seek from the end')
        else:
            st.heap[key] = args[0]
        return st.heap[key]
    if name == 'tell':
        return st.heap[key]
    if name in ('__enter__',):
        return o
    return it.event('.' + name, o, args, kwargs, st, node, 'any', ex)


# ---------------------------------------------------------------- calls of external functions

PURE_MATH = {'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'atan2', 'degrees', 'radians', 'log10',
             'hypot', 'fabs'}


def one(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


HTTP = mk('http', (), 'obj')


def call_external(it, f, args, kwargs, st, fr, ex, node):
    args = [constrain(a, st.pc) for a in args]
    if f.op == 'extattr':
        n = f.args[0]
        r = pure_call(it, n, args, kwargs, st, fr, ex, node)
        if r is not None:
            return settle(it, r, st, ex, node) if r.op in ('ite', 'raise') else r
        r = it.event('call:' + n, None, args, kwargs, st, node, 'obj', ex)
        if n == 'mysql.connector.connect' and it.db is not None:
            it.db.connections.add(r)
        return r
    if f.op == 'ntbase':
        return mo.make_namedtuple(it, f, args, kwargs, st, fr, ex, node)
    if f.op == 'itemgetter':
        ks = f.args[0].args
        vs = [mo.getitem(it, args[0], k, st, fr, ex, node) for k in ks]
        return vs[0] if len(vs) == 1 else tuple_(*vs)
    if f.op == 'attrgetter':
        v = args[0]
        for p in pyval(f.args[0]).split('.'):
            v = it.getattr(v, p, st, fr, ex, node)
        return v
    if f.op == 'methodcaller':
        return it.call_method(args[0], pyval(f.args[0]), list(f.args[1].args), {}, st, fr, ex, node)
    if f.op == 'extmethod':
        return method_external(it, f.args[0], f.args[1], args, kwargs, st, fr, ex, node)
    if f.op == 'structm':
        return pure_call(it, 'struct.' + f.args[1], [f.args[0]] + args, kwargs, st, fr, ex, node)
    if f.op == 'unboundm':
        return mo.container_method(it, args[0], f.args[1], args[1:], kwargs, st, fr, ex, node)
    if f.op == 'identity':
        return args[0]
    # an unknown callable value (a callback): the call is an effect
    return it.event('callback', f, args, kwargs, st, node, 'any', ex)


def pure_call(it, n, args, kwargs, st, fr, ex, node):
    if n.startswith('requests.'):
        # one session is as good as another, and as the module itself
        if n == 'requests.Session':
            return HTTP
        verb = n[9:]
        if verb == 'request' and isconst(args[0]):
            verb, args = pyval(args[0]).lower(), args[1:]
        if verb in ('get', 'post', 'put', 'head', 'delete', 'patch'):
            return method_external(it, HTTP, verb, args, kwargs, st, fr, ex, node)
    if n == 'datetime.datetime':
        vals = dict(zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo'), args))
        vals.update(kwargs)
        parts = [vals.get(k, NONE if k == 'tzinfo' else ZERO) for k in
                 ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')]
        bad = or_(*[lift(lambda l: tm.boolc(not mo.numlike(l)), (p,)) for p in parts[:7]])
        if constrain(bad, st.pc) is not FALSE:
            it.raise_(bad, excv('TypeError', const('datetime()')), st, ex, node)
            parts = [constrain(p, st.pc) for p in parts]
        return lift(mk_dt, parts)
    if n == 'datetime.date':
        vals = dict(zip(('year', 'month', 'day'), args))
        vals.update(kwargs)
        return lift(lambda *xs: app('date', xs, 'date'), [vals[k] for k in ('year', 'month', 'day')])
    if n == 'datetime.time':
        vals = dict(zip(('hour', 'minute', 'second', 'microsecond'), args))
        vals.update(kwargs)
        return lift(lambda *xs: app('time', xs, 'time'),
                    [vals.get(k, ZERO) for k in ('hour', 'minute', 'second', 'microsecond')])
    if n == 'datetime.timedelta':
        r = tdelta(args, kwargs)
        bad = lift(lambda l: tm.boolc(l is BAD), (r,))
        if constrain(bad, st.pc) is not FALSE:
            it.raise_(bad, excv('TypeError', const('timedelta()')), st, ex, node)
            r = constrain(r, st.pc)
        return lift(td, (r,))
    if n in ('datetime.datetime.utcnow', 'datetime.datetime.now', 'datetime.date.today', 'datetime.datetime.today'):
        return it.event(n, None, args, kwargs, st, node, 'date' if 'date.today' in n and 'datetime.d' not in n else 'dt', None)
    if n == 'datetime.datetime.combine':
        def leaf(d, t):
            if t.op == 'app' and t.args[0] == 'time':
                return mk_dt(*([dt_field(d, f) for f in DTF[:3]] + list(t.args[1]) + [NONE]))
            if t.op == 'extattr' and t.args[0] == 'datetime.time.min':
                return mk_dt(*([dt_field(d, f) for f in DTF[:3]] + [ZERO] * 4 + [NONE]))
            if t.op == 'extattr' and t.args[0] == 'datetime.time.max':
                return mk_dt(*([dt_field(d, f) for f in DTF[:3]] + [num(23, 'int', 0), num(59, 'int', 0), num(59, 'int', 0),
                                                                    num(999999, 'int', 0), NONE]))
            return app('combine', (d, t), 'dt')
        return lift(leaf, args[:2])
    if n == 'datetime.datetime.strptime':
        return app('strptime', tuple(args), 'dt')
    if n in ('datetime.datetime.fromtimestamp', 'datetime.datetime.utcfromtimestamp'):
        return app(n, tuple(args), 'dt')
    if n == 'decimal.Decimal':
        def leaf(l):
            if isconst(l) and l.sort == 'str':
                s = pyval(l).strip()
                m = re.match(r'^[+-]?\d*\.?(\d*)(?:[eE]([+-]?\d+))?$', s)
                try:
                    fr_ = Fraction(s)
                except (ValueError, ZeroDivisionError):
                    return mk('raise', (excv('ValueError', const('Decimal')),), 'raise')
                e = -len(m.group(1)) + int(m.group(2) or 0) if m else None
                return num(fr_, 'dec', e)
            if isnumeric(l):
                l = mo.as_num(l)
                if l.op == 'num':
                    return num(l.args[0], 'dec', 0 if l.sort == 'int' else None)
                return mo.conv(l, 'dec')
            if l is NONE:
                return mk('raise', (excv('TypeError', const('Decimal')),), 'raise')
            if l.op == 'app' and l.args[0] == 'str' and isnumeric(l.args[1][0]):
                return mo.conv(l.args[1][0], 'dec')
            return app('Decimal', (l,), 'dec')
        return lift(leaf, (args[0] if args else const('0'),))
    if n.startswith('math.') and n[5:] in PURE_MATH | {'floor', 'ceil', 'trunc', 'pow'}:
        k = n[5:]
        vs = [it.need_num(a, st, ex, node) for a in args]

        def fl(*xs):
            xs = [mo.as_num(x) for x in xs]
            if k == 'floor':
                return tm.floor_(xs[0])
            if k == 'ceil':
                return tm.p_neg(tm.floor_(tm.p_neg(xs[0])))
            if k == 'trunc':
                return app('trunc', (xs[0],), 'int')
            if k == 'pow':
                return tm.p_pow(xs[0], xs[1])
            if k == 'radians':
                return tm.p_mul(xs[0], num(Fraction(math.pi) / 180, 'float'))
            if k == 'degrees':
                return tm.p_mul(xs[0], num(180 / Fraction(math.pi), 'float'))
            return app(k, tuple(mo.conv(x, 'float') for x in xs), 'float')
        return lift(fl, vs)
    if n.startswith('struct.'):
        k = n[7:]
        if k == 'unpack_from':
            return unpack(it, args[0], one(args, kwargs, 1, 'buffer'), one(args, kwargs, 2, 'offset', ZERO), False, st, ex,
                          node)
        if k == 'unpack':
            return unpack(it, args[0], args[1], ZERO, True, st, ex, node)
        if k == 'calcsize':
            return lift(lambda f: num(parse_format(pyval(f))[1], 'int', 0), (args[0],))
        if k == 'pack':
            return pack(it, args[0], args[1:], st, ex, node)
        if k == 'Struct':
            return mk('struct', (args[0],), 'obj')
    if n == 'int.from_bytes':
        return from_bytes(it, args, kwargs)
    if n.startswith('six.'):
        k = n[4:]
        if k in ('iteritems', 'itervalues', 'iterkeys', 'viewitems', 'viewkeys', 'viewvalues'):
            return it.call_method(args[0], k.replace('iter', '').replace('view', ''), [], {}, st, fr, ex, node)
        if k == 'add_metaclass':
            return mk('identity', (), 'func')
        if k in ('u', 'ensure_text', 'ensure_str', 'text_type'):
            return lift(lambda l: l if l.sort == 'str' else app('.decode', (l,), 'str'), (args[0],))
        if k in ('b', 'ensure_binary'):
            return lift(lambda l: mo.encode(l) if l.sort == 'str' else l, (args[0],))
        if k == 'byte2int':
            return mo.item(it, args[0], ZERO, st)
        if k == 'indexbytes':
            return mo.getitem(it, args[0], args[1], st, fr, ex, node)
        if k == 'iterbytes':
            return args[0]
        if k == 'int2byte':
            return app('bytes', (tuple_(args[0]),), 'bytes')
        if k == 'with_metaclass':
            return args[1] if len(args) > 1 else type_('object')
        if k == 'python_2_unicode_compatible':
            return args[0]
        if k == 'next':
            return mo.call_builtin(it, 'next', args, kwargs, st, fr, ex, node)
    if n == 'pytz.timezone':
        return lift(lambda l: ea('pytz.utc') if isconst(l) and pyval(l) == 'UTC' else app('tz', (l,), 'tz'), (args[0],))
    if n in ('zoneinfo.ZoneInfo',):
        return app('zone', tuple(args), 'tz')
    if n in ('quote', 'quote_plus'):
        safe = one(args, kwargs, 1, 'safe', const('/' if n == 'quote' else ''))
        v = args[0]

        def leaf(l, s):
            if l is NONE or isnumeric(l) and l.sort != 'any':
                return mk('raise', (excv('TypeError', const('quote_from_bytes() expected bytes')),), 'raise')
            if isconst(l) and l.sort == 'str':
                import urllib.parse
                return const((urllib.parse.quote if n == 'quote' else urllib.parse.quote_plus)(pyval(l), safe=pyval(s)))
            return app(n, (l, s), 'str')
        return lift(leaf, (v, safe))
    if n == 'urlencode':
        out = []
        first = TRUE
        src = args[0]
        c = it.content(src, st) if src.op in ('ref', 'dict', 'tuple', 'seq') else None
        if c is None:
            return app('urlencode', (src,), 'str')
        pairs = [(g, k, v) for k, g, v in c.args[1]] if c.op == 'dict' else [
            (g, x.args[0], x.args[1]) for t, g, x in mo.as_items(c)]
        for i, (g, k, v) in enumerate(pairs):
            if g is not TRUE:
                return app('urlencode', (it.freeze(c, st),), 'str')
            if i:
                out.append(('s', TRUE, const('&')))
            out.append(('s', TRUE, pure_call(it, 'quote_plus', [mo.to_str(it, k, st)], {}, st, fr, ex, node)))
            out.append(('s', TRUE, const('=')))
            out.append(('s', TRUE, pure_call(it, 'quote_plus', [mo.to_str(it, v, st)], {}, st, fr, ex, node)))
        return seq('str', out)
    if n.startswith('collections.'):
        k = n[12:]
        if k == 'OrderedDict':
            return mo.call_builtin(it, 'dict', args, kwargs, st, fr, ex, node)
        if k == 'defaultdict':
            d = it.alloc('dict', st, EMPTY_DICT, factory=args[0] if args else None)
            st.heap[(d.args[0], 'alive')] = TRUE
            if len(args) > 1:
                mo.container_method(it, d, 'update', args[1:], kwargs, st, fr, ex, node)
            return d
        if k == 'deque':
            ml = one(args, kwargs, 1, 'maxlen', NONE)
            items = mo.items_of(it, args[0], st, fr, ex, node) if args else []
            return it.alloc('deque', st, seq('list', items), maxlen=None if ml is NONE else int(pyval(ml)))
        if k == 'Counter' and len(args) == 1 and not kwargs:
            items = mo.items_of(it, args[0], st, fr, ex, node)
            return mk('counter', (it.freeze(seq('list', items), st),), 'obj')
        if k == 'namedtuple':
            names = args[1]
            c = it.content(names, st)
            ns = [const(x) for x in pyval(names).replace(',', ' ').split()] if isconst(names) else [
                x for _, _, x in mo.as_items(c)]
            return mk('ntbase', (args[0], tuple_(*ns)), 'func')
    if n == 'statistics.mode' and len(args) == 1:
        c = mk('counter', (it.freeze(seq('list', mo.items_of(it, args[0], st, fr, ex, node)), st),), 'obj')
        return mk('elem', (mk('elem', (app('most_common', (c,), 'list'), ZERO), 'any'), ZERO), 'any')
    if n == 'functools.reduce' or n == 'six.moves.reduce':
        i = it.iter_of(args[1], st, fr, ex, node)
        fid = it.new_fid()
        st.envs[fid] = {'acc': args[2] if len(args) > 2 else UNBOUND, 'n': ZERO}

        def body(x, s, bex):
            try:
                a = s.envs[fid]['acc']
                if a is UNBOUND:
                    s.envs[fid]['acc'] = x
                else:
                    s.envs[fid]['acc'] = it.call(args[0], [a, x], {}, s, fr, bex, node)
                return True
            except Dead:
                return False
        it.iterate(i, body, lambda s: True, st, fr, ex, node)
        return st.envs.pop(fid)['acc']
    if n == 'functools.partial':
        return mk('partial', (args[0], tuple_(*args[1:]), tuple(sorted(kwargs.items()))), 'func')
    if n == 'operator.itemgetter':
        return mk('itemgetter', (tuple_(*args),), 'func')
    if n == 'operator.attrgetter':
        return mk('attrgetter', (args[0],), 'func')
    if n == 'operator.methodcaller':
        return mk('methodcaller', (args[0], tuple_(*args[1:])), 'func')
    if n.startswith('operator.'):
        import ast
        k = n[9:].strip('_')
        ops = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'xor': ast.BitXor, 'and': ast.BitAnd,
               'or': ast.BitOr, 'mod': ast.Mod, 'floordiv': ast.FloorDiv}
        cs = {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE}
        if k in ops:
            return mo.binop(it, ops[k](), args[0], args[1], st, fr, ex, node)
        if k in cs:
            return mo.compare(it, cs[k](), args[0], args[1], st, fr, ex, node)
    if n in ('itertools.chain', 'itertools.chain.from_iterable'):
        parts = args if n == 'itertools.chain' else [x for _, _, x in mo.items_of(it, args[0], st, fr, ex, node)]
        items = []
        for a in parts:
            items += mo.items_of(it, a, st, fr, ex, node)
        return it.alloc('list', st, seq('list', items))
    if n == 'itertools.islice':
        a = args[1:]
        lo, hi = (NONE, a[0]) if len(a) == 1 else (a[0], a[1])
        l = it.alloc('list', st, seq('list', mo.items_of(it, args[0], st, fr, ex, node)))
        return mo.getslice(it, l, mk('slice', (lo, hi, NONE), 'slice'), st, fr, ex, node)
    if n == 'itertools.count':
        s0 = args[0] if args else ZERO
        return mk('range', (s0, num(10 ** 18, 'int', 0), ONE), 'range')
    if n == 'itertools.repeat' and len(args) > 1:
        return it.alloc('list', st, seq('list', [('e', TRUE, args[0])] * int(pyval(args[1]))))
    if n == 'copy.copy' or n == 'copy.deepcopy':
        v = args[0]
        c = it.content(v, st)
        return it.alloc(mo.kindof(it, v, c), st, c)
    if n in ('contextlib.closing',):
        return mk('closing', (args[0],), 'obj')
    if n in ('logging.getLogger',):
        return mk('logger', (), 'obj')
    if n.startswith('logging.') or n.startswith('warnings.'):
        if it.log_events:
            it.event('log', None, args, kwargs, st, node, 'none', ex, raises=False)
        return NONE
    if n in ('enum.Enum', 'enum.IntEnum'):
        raise AnalysisError('functional enum')
    if n in ('contextlib.contextmanager',):
        return args[0]
    if n in ('curses.ascii.isctrl',):
        return None
    if n.startswith('threading.'):
        return threads(it, n[10:], args, kwargs, st)
    if n in ('functools.wraps', 'functools.lru_cache'):
        return mk('identity', (), 'func')
    if n == 'sys.exc_info':
        return tuple_(*[mk('excinfo', (i,), 'any') for i in range(3)])
    return None


def threads(it, k, args, kwargs, st):
    """Events are flags; a thread is its target, which the scenario runs; locks are invisible."""
    if k in ('Lock', 'RLock'):
        return mk('lock', (), 'obj')
    if k not in ('Event', 'Thread'):
        return None
    n = it.thread_count = getattr(it, 'thread_count', 0) + 1
    if k == 'Event':
        e = mk('tevent', (n,), 'obj')
        st.heap[('TE', e)] = FALSE
        return e
    target = one(args, kwargs, 1, 'target', NONE)
    return mk('thread', (n, tuple_(target, it.freeze(one(args, kwargs, 3, 'args', tuple_()), st),
                                   it.freeze(one(args, kwargs, 4, 'kwargs', NONE), st))), 'obj')


def thread_method(it, o, name, args, kwargs, st, fr, ex, node):
    if o.op == 'lock':
        return o if name == '__enter__' else TRUE
    if o.op == 'tevent':
        if name in ('set', 'clear'):
            st.heap[('TE', o)] = tm.boolc(name == 'set')
            return NONE
        if name in ('is_set', 'isSet'):
            return st.heap[('TE', o)]
        if name == 'wait':
            it.event('.wait', None, args, kwargs, st, node, 'any', None)
            return st.heap[('TE', o)]
    if o.op == 'thread':
        if name == 'start':
            it.event('thread.start', None, (), {}, st, node, 'none', ex)
            old = st.heap.get('started', tuple_())
            st.heap['started'] = lift(lambda l: tuple_(*(l.args + (o.args[1],))), (old,))
            return NONE
        if name in ('setDaemon', 'setName'):
            return NONE
    return it.event('.' + name, None, args, kwargs, st, node, 'any', ex)


def threads_pending(it, f, args, kw, st, ex, node):
    """Whether a started thread has not run yet (a model for scenarios)."""
    return lift(lambda l: tm.boolc(bool(l.args)), (st.heap['started'],))


def run_thread(it, f, args, kw, st, ex, node):
    """Run the target of the next started thread."""
    l = st.heap['started'] = constrain(st.heap['started'], st.pc)
    target, a, k = [lift(lambda l: l.args[0].args[i], (l,)) for i in range(3)]
    st.heap['started'] = lift(lambda l: tuple_(*l.args[1:]), (l,))
    if 'ite' in (a.op, k.op):
        raise AnalysisError('threads with different arguments')
    k = {} if k is NONE else {pyval(n): v for n, g, v in k.args[1]}
    return it.call(target, list(a.args if a.op == 'tuple' else [x for _, _, x in a.args[1]]), k, st, None, ex, node)


def from_bytes(it, args, kwargs):
    order = one(args, kwargs, 1, 'byteorder', const('big'))
    signed = kwargs.get('signed', FALSE)

    def leaf(l, o, s):
        if l.op == 'bslice' and l.args[2].op == 'num' and isconst(s):
            n = int(l.args[2].args[0])
            code = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}.get(n)
            if code:
                return byte_field(l, 0, code if pyval(s) else code.upper(), n, '<' if pyval(o) == 'little' else '>')
        return app('from_bytes', (l, o, s), 'int')
    return lift(leaf, (args[0], order, signed))


# ---------------------------------------------------------------- attributes and methods of external values

STR_ATTRS = {'text': 'str', 'status_code': 'int', 'ok': 'bool', 'content': 'bytes', 'reason': 'str', 'url': 'str'}


def attr_external(it, o, name, st, fr, ex, node):
    if o.op == 'extattr':
        n = ALIAS.get(o.args[0] + '.' + name, o.args[0] + '.' + name)
        if n in CONSTS:
            return CONSTS[n]
        return ea(n)
    if o is NONE or isconst(o):
        if o.sort in ('str', 'bytes', 'int', 'float', 'dec'):
            return mk('extmethod', (o, name), 'func')
        return None
    if o.sort in ('tz', 'tzinfo'):
        # a time zone of pytz, or another one
        names = ('utcoffset', 'dst', 'tzname', 'fromutc') + (('localize', 'normalize', 'zone') if o.sort == 'tz' else ())
        if name not in names:
            return None
        return app('attr', (o, const(name)), 'str') if name == 'zone' else mk('extmethod', (o, name), 'func')
    if o.op not in ('excv', 'nt', 'struct', 'type', 'range') and not mo.known_attr(o.sort, name):
        return None
    if o.sort in ('dt', 'date', 'td', 'time'):
        r = dt_attr(o, name)
        if r is not None:
            return r
        return mk('extmethod', (o, name), 'func')
    if o.op == 'nt':
        names = [pyval(x) for x in o.args[0].args[1].args]
        if name in names:
            return o.args[1].args[names.index(name)]
        return None
    if o.op == 'struct':
        if name == 'size':
            return num(parse_format(pyval(o.args[0]))[1], 'int', 0)
        if name == 'format':
            return o.args[0]
        return mk('structm', (o.args[0], name), 'func')
    if o.op == 'excv':
        if name == 'args':
            return o.args[1]
        if name == '__class__':
            return o.args[0]
        return app('attr', (o, const(name)))
    if o.op == 'type':
        if name == '__name__':
            return const(o.args[0])
        if o.args[0] == 'int' and name == 'from_bytes':
            return ea('int.from_bytes')
        return mk('unboundm', (o, name), 'func')
    if o.op == 'range':
        return {'start': o.args[0], 'stop': o.args[1], 'step': o.args[2]}.get(name)
    if o.op in ('tuple', 'seq', 'dict', 'view'):
        return mk('bmethod', (o, name), 'func')
    if o.sort in ('str', 'bytes') or isnumeric(o):
        return mk('extmethod', (o, name), 'func')
    if o.op == 'dictsym':
        return mk('extmethod', (o, name), 'func')
    # attributes of opaque objects
    v = st.heap.get(('X', o, name))
    if v is not None:
        return v
    fn = it.shapes.get('.' + name)
    if fn is not None:
        return fn(it, o, st)
    if name == 'headers':
        return dict_(app('attr', (o, const(name)), 'obj'), ())
    if name == 'raw':
        return new_stream(it, app('attr', (o, const(name)), 'obj'), st)
    if name in METHOD_NAMES:
        return mk('extmethod', (o, name), 'func')
    return app('attr', (o, const(name)), STR_ATTRS.get(name, 'any'))


METHOD_NAMES = {'get', 'post', 'execute', 'executemany', 'fetchall', 'fetchone', 'fetchmany', 'cursor', 'commit', 'rollback',
                'close', 'set', 'is_set', 'isSet', 'clear', 'wait', 'start', 'join', 'read', 'recv', 'send', 'sendall',
                'connect', 'makefile', 'localize', 'flush', 'append', 'write', 'acquire', 'release', 'is_alive', 'isAlive', 'setDaemon',
                'setName', 'start_transaction', 'is_connected', 'reset', 'nextset'}


def setattr_external(it, o, name, v, st, fr, ex, node):
    if o.op == 'thread':
        st.heap[('X', o, name)] = v
        return
    it.event('setattr', o, (const(name), v), {}, st, node, 'none', None)
    st.heap[('X', o, name)] = v


def str_method(it, o, name, args, kwargs, st, fr, ex, node):
    sort = o.sort
    if name == 'format' and sort == 'str':
        return mo.str_format(it, o, args, kwargs, st, fr, ex, node)
    if name == 'join':
        items = mo.items_of(it, args[0], st, fr, ex, node)
        if all(t == 'e' for t, g, x in items):
            if isconst(o) and not pyval(o):
                return seq(sort, [('s', g, x) for t, g, x in items])
            out = []
            any_before = FALSE
            for t, g, x in items:
                sep = and_(any_before, g)
                if sep is not FALSE:
                    out.append(('s', sep, o))
                out.append(('s', g, x))
                any_before = or_(any_before, g)
            return seq(sort, out)
        return app('join', (o, it.freeze(seq('list', items), st)), sort)
    if all(isconst(a) for a in [o] + args) and not kwargs and all(a.op != 'num' or a.args[0].denominator == 1 for a in args):
        try:
            r = getattr(pyval(o), name)(*[pyval(a) for a in args])
        except AttributeError:
            it.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
        except (ValueError, IndexError, TypeError) as e:
            it.raise_(TRUE, excv(type(e).__name__ if type(e).__name__ in ('ValueError', 'IndexError', 'TypeError') else
                                 'ValueError'), st, ex, node)
        if isinstance(r, (list, tuple)):
            l = [const(x) for x in r]
            return it.alloc('list', st, list_(l)) if isinstance(r, list) else tuple_(*l)
        return const(r)
    if name == 'encode':
        return lift(lambda l: mo.encode(l) if l.sort == 'str' else l, (o,))
    if name == 'decode':
        return app('.decode', (o,), 'str')
    if name in ('endswith', 'startswith'):
        def leaf(a):
            if a.op == 'tuple':
                return or_(*[leaf(x) for x in a.args])
            if isconst(a) and pyval(a):
                n = len(pyval(a))
                if name == 'endswith':
                    return tm.eq_leaf(mo.sub_str(o, num(-n, 'int', 0), NONE), a)
                return tm.eq_leaf(mo.sub_str(o, NONE, num(n, 'int', 0)), a)
            return atom_bool(app('.' + name, (o, a), 'bool'))
        return lift(leaf, (args[0],))
    args = [it.freeze(a, st) for a in args]
    if kwargs:
        args = args + [tuple_(const(k), v) for k, v in sorted(kwargs.items())]
    out = {'split': 'list', 'rsplit': 'list', 'splitlines': 'list', 'partition': 'list', 'rpartition': 'list', 'strip': sort,
           'lstrip': sort, 'rstrip': sort, 'lower': sort, 'upper': sort, 'replace': sort, 'isdigit': 'bool', 'find': 'int',
           'rfind': 'int', 'index': 'int', 'count': 'int', 'zfill': sort, 'rjust': sort, 'ljust': sort, 'title': sort,
           'isalpha': 'bool', 'hex': 'str', 'capitalize': sort, 'isnumeric': 'bool', 'isdecimal': 'bool', 'tobytes': 'bytes',
           'casefold': sort, 'translate': sort}.get(name)
    if out is None:
        it.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
    r = lift(lambda *xs: app('.' + name, xs, out), [o] + args)
    if out == 'bool' and r.op != 'ite':
        return atom_bool(r)
    return r


def method_external(it, o, name, args, kwargs, st, fr, ex, node):
    args = [constrain(a, st.pc) for a in args]
    if o.op == 'extattr':
        n = ALIAS.get(o.args[0] + '.' + name, o.args[0] + '.' + name)
        if o.args[0] == 'pytz.utc' and name == 'localize' and len(args) == 1 and not kwargs:
            return lift(lambda d: mk_dt(*([dt_field(d, f) for f in DTF[:7]] + [o])), (args[0],))
        if n in CONSTS:
            return it.call(CONSTS[n], args, kwargs, st, fr, ex, node)
        return call_external(it, ea(n), args, kwargs, st, fr, ex, node)
    if o is NONE or o is TRUE or o is FALSE:
        it.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
    if o.sort in ('str', 'bytes'):
        return str_method(it, o, name, args, kwargs, st, fr, ex, node)
    if o.sort in ('dt', 'date', 'td', 'time'):
        r = dt_method(it, o, name, args, kwargs, st, fr, ex, node)
        if r is None:
            raise AnalysisError('method %s of a date' % name)
        return r
    if o.sort == 'tzinfo' and name in ('localize', 'normalize'):
        it.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
    if o.sort in ('tz', 'tzinfo') or name == 'localize':
        if name == 'localize':
            dst = args[1] if len(args) > 1 else kwargs.get('is_dst', FALSE)
            return lift(lambda d, z: app('localize', (o, d) if z is FALSE else (o, d, z), 'dt'), (args[0], dst))
        return app('.' + name, (o,) + tuple(args), 'any')
    if isnumeric(o) or o.sort in tm.NUMERIC:
        return num_method(it, o, name, args, kwargs, st, fr, ex, node)
    if o.op == 'struct':
        return pure_call(it, 'struct.' + name, [o.args[0]] + args, kwargs, st, fr, ex, node)
    if o.op == 'logger':
        if it.log_events and name in ('debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'):
            it.event('log', None, args, kwargs, st, node, 'none', ex, raises=False)
        return NONE
    if o is HTTP:
        if name in ('close', 'mount'):
            return NONE
        if name == 'request' and isconst(args[0]):
            name, args = pyval(args[0]).lower(), args[1:]
        if kwargs.get('url') is not None and not args:
            args, kwargs = [kwargs['url']], {k: v for k, v in kwargs.items() if k != 'url'}
    if o.op in ('lock', 'tevent', 'thread'):
        return thread_method(it, o, name, args, kwargs, st, fr, ex, node)
    if o.op == 'type' or o.op == 'unboundm':
        if o.args[0] == 'dict' and name == 'fromkeys':
            d = EMPTY_DICT
            for t, g, x in mo.items_of(it, args[0], st, fr, ex, node):
                d = mo.dict_put(d, x, args[1] if len(args) > 1 else NONE)
            return it.alloc('dict', st, d)
        if o.args[0] == 'int' and name == 'from_bytes':
            return from_bytes(it, args, kwargs)
        if o.args[0] in ('str', 'bytes'):
            return str_method(it, args[0], name, args[1:], kwargs, st, fr, ex, node)
        if o.args[0] in EXC_ALIAS or name == '__init__':
            return NONE
        return mo.container_method(it, args[0], name, args[1:], kwargs, st, fr, ex, node)
    if o.op == 'view':
        if o.args[0] in ('keys', 'values', 'items'):
            l = it.alloc('list', st, seq('list', mo.items_of(it, o, st, fr, ex, node)))
            return mo.container_method(it, l, name, args, kwargs, st, fr, ex, node)
    if ('S', o) in st.heap:
        return stream_method(it, o, name, args, kwargs, st, fr, ex, node)
    if ('Q', o) in st.heap:
        if it.db is not None:
            r = db.cursor_method(it, o, name, args, kwargs, st, fr, ex, node)
            if r is None:
                it.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
            return r
        return cursor_method(it, o, name, args, kwargs, st, fr, ex, node)
    fn = it.shapes.get('.' + name + '()')
    if fn is not None:
        r = fn(it, o, args, kwargs, st, ex, node)
        if r is not None:
            return r
    if o.op == 'app' and o.args[0] == 'attr' or o.op in ('elem', 'get'):
        if name == 'get' and isconst(args[0]):
            v = mk('get', (o, args[0]), 'any')
            return ite3(atom_bool(app('has', (o, args[0]), 'bool')), v, args[1] if len(args) > 1 else NONE)
    if o.op == 'excv':
        return NONE
    if o.op == 'counter' and name == 'most_common':
        r = app('most_common', (o,), 'list')
        if args and args[0] is ONE:
            return it.alloc('list', st, seq('list', [('e', TRUE, mk('elem', (r, ZERO), 'any'))]))
        if not args or args[0] is NONE:
            return r
    if it.db is not None and o in it.db.connections:
        r = db.connection_method(it, o, name, args, kwargs, st, fr, ex, node)
        if r is not None:
            return r
    out = {'makefile': 'obj', 'cursor': 'obj', 'get': 'obj', 'post': 'obj', 'recv': 'bytes', 'is_set': 'bool', 'isSet': 'bool',
           'readline': 'bytes'}.get(name, 'any')
    if o.sort == 'any' and name in ('get', 'read'):
        out = 'any'
    if o is HTTP:
        out = 'resp'
    ename = {'isSet': 'is_set'}.get(name, name)
    r = it.event('.' + ename, o, args, kwargs, st, node, out, ex)
    if name == 'makefile':
        return new_stream(it, r, st)
    if name == 'cursor':
        st.heap[('Q', r)] = NONE
        st.heap[('QN', r)] = ZERO
    if out == 'bool':
        return atom_bool(r)
    return r


def num_method(it, o, name, args, kwargs, st, fr, ex, node):
    if name == 'quantize':
        exp_ = args[0]
        rnd = one(args, kwargs, 1, 'rounding', const('ROUND_HALF_EVEN'))
        if rnd is NONE:
            rnd = const('ROUND_HALF_EVEN')

        def leaf(e, r):
            if e.op != 'num' or e.args[2] is None:
                return app('quantize', (o, e, r), 'dec')
            return app('quantize', (o, num(e.args[2], 'int', 0), r), 'dec')
        return lift(leaf, (exp_, rnd))
    if name in ('exp', 'ln', 'sqrt', 'log10'):
        return app({'ln': 'log'}.get(name, name), (o,), o.sort)
    if name in ('to_integral_value', 'to_integral', 'normalize', 'to_integral_exact'):
        if name == 'normalize':
            return o
        return app('quantize', (o, ZERO, one(args, kwargs, 0, 'rounding', const('ROUND_HALF_EVEN'))), 'dec')
    if name in ('copy_abs', '__abs__'):
        return ite3(tm.cmp_le(ZERO, o, 1), o, tm.p_neg(o))
    if name in ('to_bytes',):
        n, order = one(args, kwargs, 0, 'length'), one(args, kwargs, 1, 'byteorder', const('big'))
        k = int(pyval(n))
        bs, cur = [], o
        for i in range(k):
            bs.append(cur if i == k - 1 else tm.fmod(cur, num(256, 'int', 0)))
            cur = tm.fdiv(cur, num(256, 'int', 0))
        return app('bytes', (tuple_(*(bs if pyval(order) == 'little' else bs[::-1])),), 'bytes')
    if name in ('is_nan', 'is_infinite', 'is_zero'):
        return FALSE if name != 'is_zero' else tm.eq_leaf(o, ZERO)
    if name == 'bit_length':
        return app('bit_length', (o,), 'int')
    if name in ('power', '__pow__'):
        return tm.p_pow(o, args[0])
    if name == 'isoformat' or name == 'items':
        it.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
    if name == 'is_integer':
        return tm.eq_leaf(tm.floor_(o), o)
    it.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)


# cursors

def cursor_method(it, o, name, args, kwargs, st, fr, ex, node):
    if name in ('execute', 'executemany'):
        if len(args) == 1 and 'params' in kwargs:
            kwargs = dict(kwargs)
            args = args + [kwargs.pop('params')]
        r = it.event('.' + name, o, args, kwargs, st, node, 'any', ex)
        st.heap[('Q', o)] = r
        st.heap[('QN', o)] = ZERO
        return r
    if name in ('fetchall', 'fetchmany', '__iter__'):
        it.event('.fetch', o, (), {}, st, node, 'any', ex)
        return rows_of(it, o, st)
    if name == 'fetchone':
        it.event('.fetch', o, (), {}, st, node, 'any', ex)
        rows = rows_of(it, o, st)
        k = st.heap[('QN', o)]
        st.heap[('QN', o)] = lift(tm.p_add, (k, ONE))

        def leaf(r, k):
            n = app('len', (r,), 'int')
            return ite3(tm.cmp_le(k, n, 0), mo.item(it, r, k, st), NONE)
        return lift(leaf, (rows, k))
    if name == '__enter__':
        return o
    return it.event('.' + name, o, args, kwargs, st, node, 'any', ex)


def rows_of(it, o, st):
    return lift(lambda q: mk('rows', (q,), 'list'), (st.heap[('Q', o)],))


def iterator(it, v, st, fr, ex, node):
    if ('Q', v) in st.heap:
        if it.db is not None:
            return db.iterate(it, v, st, fr, ex, node)
        it.event('.fetch', v, (), {}, st, node, 'any', ex)
        return it.iter_of(rows_of(it, v, st), st, fr, ex, node)
    if v.op == 'nt':
        return Iter(items=[(TRUE, x) for x in v.args[1].args])
    if v.op == 'dictsym':
        return None
    return None


def getitem(it, o, k, st, fr, ex, node):
    if o.op == 'nt':
        return mo.getitem(it, o.args[1], k, st, fr, ex, node)
    if o.op == 'view':
        l = it.alloc('list', st, seq('list', mo.items_of(it, o, st, fr, ex, node)))
        return mo.getitem(it, l, k, st, fr, ex, node)
    if o.op == 'range':
        return lift(lambda kk: tm.p_add(o.args[0], tm.p_mul(o.args[2], kk)), (k,))
    return None


def sub_any(it, o, kk, st):
    if o.op in ('const',) or o.sort in ('dt', 'date', 'td') or o.op in ('enum', 'class', 'func'):
        return BAD
    if mo.numlike(kk) and kk.sort == 'int':
        return mo.item(it, o, kk, st)
    if isconst(kk):
        v, p = mo.base_get(o, kk)
        return v
    return mk('get', (o, kk), 'any')


def set_item(it, o, k, v, st, fr, ex, node):
    if isconst(o) or o.op in ('tuple', 'enum', 'class'):
        it.raise_(TRUE, excv('TypeError', const('item assignment')), st, ex, node)
    it.event('setitem', o, (k, v), {}, st, node, 'none', None)


def isinst(it, l, t):
    n = t.args[0]
    if n == 'datetime.datetime':
        if l.sort == 'any' and l is not NONE and l.op not in ('enum', 'class'):
            return atom_bool(mk('isinst', (l, t), 'bool'))
        return tm.boolc(l.sort == 'dt')
    if n == 'datetime.date':
        if l.sort == 'any' and l is not NONE:
            return atom_bool(mk('isinst', (l, t), 'bool'))
        return tm.boolc(l.sort in ('dt', 'date'))
    if n == 'datetime.timedelta':
        return tm.boolc(l.sort == 'td')
    if n == 'decimal.Decimal':
        if l.sort in ('any', 'num') and l is not NONE:
            return atom_bool(mk('isinst', (l, t), 'bool'))
        return tm.boolc(l.sort == 'dec')
    if n == 'enum.Enum':
        return tm.boolc(l.op == 'enum')
    if n in ('numbers.Number', 'numbers.Real'):
        return tm.boolc(isnumeric(l))
    if isconst(l) or isnumeric(l) or l.op == 'enum':
        return FALSE
    return atom_bool(mk('isinst', (l, t), 'bool'))


def with_external(it, cm, body, st, fr, ex, node):
    if cm.op == 'closing':
        o = cm.args[0]
        it.with_exit(o, body, st, fr, ex, node, lambda a, s, e2: it.call_method(o, 'close', [], {}, s, fr, e2, node) and NONE)
        return
    if ('S', cm) in st.heap or ('Q', cm) in st.heap:
        def leave(a, s, e2):
            it.call_method(cm, 'close', [], {}, s, fr, e2, node)
            return NONE
        it.with_exit(cm, body, st, fr, ex, node, leave)
        return
    if cm.op == 'lock' or cm is HTTP:
        it.with_exit(cm, body, st, fr, ex, node, lambda a, s, e2: NONE)
        return
    if cm is NONE or isconst(cm):
        it.raise_(TRUE, excv('AttributeError', const('__enter__')), st, ex, node)
    v = it.event('__enter__', cm, (), {}, st, node, 'any', ex)

    def leave2(a, s, e2):
        it.event('__exit__', cm, (), {}, s, node, 'any', e2)
        return NONE
    it.with_exit(v, body, st, fr, ex, node, leave2)
