"""
Scenarios: run functions of /repo and reference functions of /verif/specs through the same abstract interpreter, from
the same symbolic state, and compare everything that can be observed from outside.
"""
import os
import time

from . import terms as tm
from . import interp, models, ext
from .compare import Diff, Mismatch, feasible, clip
from .terms import (T, TRUE, FALSE, NONE, ZERO, ONE, mk, num, const, sym, opt, ite3, and_, or_, not_, atom_bool, tuple_,
                    seq, dict_, constrain, show, list_)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = HERE

WL = 'weatherlink.'


class Enough(Exception):
    """There are enough violations."""


class Lab(object):
    """One property run: engine instances, what was analysed, what disagreed."""

    def __init__(self, root='/repo'):
        self.root = root
        self.functions = set()
        self.obligations = []
        self.failures = []
        self.known = []
        self.call_sites = 0
        self.terms = 0
        self.assumptions = []
        self.known_ids = {}
        self.tier = 'quick'
        self.t0 = time.time()

    def engine(self, mods=(), overrides=None, **flags):
        it = interp.Interp(self.root, {'spec': SPECS}, overrides or {})
        for k, v in flags.items():
            setattr(it, k, v)
        for m in mods:
            it.load(m)
        return it

    def done(self, it):
        self.functions |= set(q for q in it.analysed if q.startswith('weatherlink'))
        n = it.call_sites
        self.call_sites += n if isinstance(n, int) else len(n)
        self.terms = len(tm._intern)

    def fail(self, entry, text):
        self.failures.append((entry, text))
        if len(self.failures) >= 40:
            raise Enough()

    def same(self, entry, what, a, b, assume=TRUE, parts=(0, 1, 2), known=None):
        """Observation a (the source) must equal observation b (the reference).

        known: (finding id, observation, text): a recorded deviation that a may show instead."""
        m = compare(a, b, assume, parts)
        if m is not None and known is not None and known[0] in self.known_ids:
            if compare(a, known[1], assume, parts) is None:
                self.known.append((known[0], self.known_ids[known[0]]))
                self.obligations.append((entry, what + ' (up to known finding %s)' % known[0], True))
                return True
        return self.oblige(entry, what, m is None, m and m.text())

    def same_any(self, entry, what, ways, parts=(0, 1, 2)):
        """One obligation that any of several abstractions may discharge; the first difference is reported if none does."""
        first = err = None
        for w in ways:
            try:
                r = w()
                a, b = r[0], r[1]
                m = compare(a, b, r[2] if len(r) > 2 else TRUE, parts)
            except tm.AnalysisError as e:
                err = err or e
                continue
            if m is None:
                return self.oblige(entry, what, True)
            first = first or m
        if first is None:
            raise err
        return self.oblige(entry, what, False, first.text())

    def where(self, it, qual):
        """file:line qualified name, for reports."""
        v = it.lookup(qual)
        m, _, path = qual.partition(':')
        f = m.replace('.', '/') + '.py'
        line = ''
        while v.op in ('classmethod', 'staticmethod', 'bound', 'property') and isinstance(v.args[0], T):
            v = v.args[0]
        if v.op == 'func':
            line = ':%d' % it.funcs[v.args[0]].node.lineno
        return '%s%s %s' % (f, line, path)

    def condition(self, it, f, args, st):
        """Truth of a reference predicate (for assumptions)."""
        ex = []
        v = it.call(it.lookup(f), list(args), {}, st, None, ex, None)
        return tm.truth(v) if hasattr(tm, 'truth') else it.truth(v, st)

    def oblige(self, entry, what, ok, text=None):
        self.obligations.append((entry, what, bool(ok)))
        if not ok:
            self.fail(entry, what + (': ' + text if text else ''))
        return ok


class Obs(object):
    """What one run shows: a list of (condition, outcome, trace, state) cases."""

    def __init__(self, cases):
        self.cases = cases


def exc_type_of(it, v):
    if v.op == 'ite':
        return ite3(atom_bool(v.args[0]), exc_type_of(it, v.args[1]), exc_type_of(it, v.args[2]))
    if v.op == 'excval':
        return v
    n = it.exc_name(v) if v.op in ('type', 'class') else None
    if n is None:
        if v.op == 'excv':
            t = v.args[0]
            n = t.args[0] if isinstance(t, T) else str(t)
        elif v.op == 'inst':
            n = v.args[0]
        elif v.op == 'ref':
            n = it.info(v)['cls'].qual
        else:
            n = show(v, 3)
    n = str(n)
    if n in ('IOError', 'EnvironmentError', 'socket.error'):
        n = 'OSError'
    return const('!' + n)


IGNORED_EVENTS = {'print', 'print_', 'builtins.print'}


def ev_term(e, it, keep=None):
    if e.body is not None:
        items = [('e', b.guard, ev_term(b, it, keep)) for b in e.body if wanted(b, keep)]
        if not items:
            return None
        items = [i for i in items if i[2] is not None]
        return mk('loopev', (e.loop if e.loop is not None else NONE, seq('list', items)), 'ev')
    args, kw = e.args, e.kw
    if e.name in it.views:
        args, kw = it.views[e.name](e)
    return mk('ev', (e.name, e.recv if e.recv is not None else NONE, tuple_(*args),
                     dict_(None, [(const(k), TRUE, v) for k, v in kw])), 'ev')


def wanted(e, keep):
    if e.body is not None:
        return any(wanted(b, keep) for b in e.body)
    if e.name in IGNORED_EVENTS:
        return False
    return keep is None or keep(e)


def trace_term(st, it, pc, keep=None, after=None):
    evs = st.trace.all()
    items = []
    for e in evs:
        if not wanted(e, keep):
            continue
        t = ev_term(e, it, keep)
        g = constrain(e.guard, pc) if and_(e.guard, pc) is not FALSE else FALSE
        if t is not None and g is not FALSE:
            items.append(('e', g, constrain(t, and_(pc, e.guard)) if t.hasite else t))
    return mk('seq', ('trace', tuple(items)), 'trace')


def observe(it, f, args=(), kw=None, st=None, keep=None, state=None, events=True, ret=None, refusal=''):
    """Run f; state(st) -> term of extra observations; refusal: exception types that are not told apart, * for all."""
    refusal = refusal.split()
    st = st if st is not None else it.new_state()
    ex = []
    cases = []
    dead = False
    try:
        v = f(st, ex) if callable(f) and not isinstance(f, T) else it.call(f, list(args), kw or {}, st, None, ex, None)
        if v is None:
            v = NONE
    except interp.Dead:
        dead = True
    if not dead and st.pc is not FALSE:
        fv = it.freeze(v, st)
        if ret is not None:
            fv = ret(fv, st)
        cases.append((st.pc, st, mk('outcome', ('return', plain(fv)), 'any')))
    for e in ex:
        if e.st.pc is FALSE:
            continue
        if e.kind == 'raise':
            t = exc_type_of(it, e.value)
            if refusal == ['*'] or t.op == 'const' and str(t.args[1])[1:] in refusal:
                t = const('!refused')
            o = mk('outcome', ('raise', t), 'any')
        else:
            raise tm.AnalysisError('exit %s at top level' % e.kind)
        cases.append((e.st.pc, e.st, o))
    out = []
    for pc, s, o in cases:
        parts = [constrain(o, pc) if o.hasite else o]
        parts.append(trace_term(s, it, pc, keep) if events else NONE)
        parts.append(constrain(plain(state(s)), pc) if state is not None else NONE)
        out.append((pc, parts))
    return Obs(out)


def plain(v):
    """Values seen from outside: records are mappings."""
    memo = {}

    def rec(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'ite':
            r = ite3(atom_bool(x.args[0]), rec(x.args[1]), rec(x.args[2]))
        elif x.op == 'inst' and x.args[2] is not None and x.args[2].op == 'dict':
            r = rec(x.args[2])
        elif x.op == 'tuple':
            r = tuple_(*[rec(y) for y in x.args])
        elif x.op == 'seq':
            r = seq(x.args[0], [(t, g, rec(y)) for t, g, y in x.args[1]]) if x.args[0] not in ('str', 'bytes') else x
        elif x.op == 'dict':
            r = dict_(x.args[0], [(k, g, rec(y)) for k, g, y in x.args[1]])
        elif x.op == 'collect':
            r = mk('collect', (x.args[0], tuple((t, g, rec(y)) for t, g, y in x.args[1])), x.sort)
        else:
            r = x
        memo[x] = r
        return r
    return rec(v)


PARTS = ('outcome', 'effects', 'state')


def compare(a, b, assume=TRUE, parts=(0, 1, 2)):
    """First difference between two observations, or None."""
    d = Diff()
    for pa, xa in a.cases:
        for pb, xb in b.cases:
            c = and_(and_(pa, pb), assume)
            if c is FALSE:
                continue
            path = literals(c)
            if path and not consistent(path):
                continue
            for i in parts:
                x, y = xa[i], xb[i]
                if x is y:
                    continue
                m = diff_under(d, x, y, c, (PARTS[i],))
                if m is not None:
                    return m
    ta = or_(*[p for p, _ in a.cases])
    tb = or_(*[p for p, _ in b.cases])
    if ta is not tb:
        m = d.diff(and_(ta, assume), and_(tb, assume), ('termination',))
        if m is not None:
            return m
    return None


def consistent(path):
    for i in range(1, len(path) + 1):
        if not feasible(path[:i]):
            return False
    return True


def literals(c):
    """The literals that the condition c forces (those on its single spine)."""
    out = []
    while c.op == 'ite':
        a, hi, lo = c.args
        if hi is FALSE:
            out.append((a, False))
            c = lo
        elif lo is FALSE:
            out.append((a, True))
            c = hi
        else:
            break
    return tuple(out)


def diff_under(d, x, y, c, where):
    """Difference of x and y on the branches where c holds."""
    OUT = mk('outside', (), 'any')
    x = constrain(x, c)
    y = constrain(y, c)
    if x is y:
        return None
    path = literals(c)
    # remaining disjunctive part of c
    r = c
    for a, v in path:
        r = cof(r, a, v)
    if r is TRUE:
        return d.diff(x, y, where, path)
    return split(d, x, y, r, where, path)


def cof(f, a, v):
    return tm.cof(f, a, v)


def split(d, x, y, r, where, path):
    if r is FALSE or x is y:
        return None
    if r is TRUE:
        return d.diff(x, y, where, path)
    a = r.args[0]
    for v in (True, False):
        p2 = path + ((a, v),)
        if not feasible(p2):
            continue
        lit = atom_bool(a) if v else not_(atom_bool(a))
        m = split(d, constrain(x, lit), constrain(y, lit), tm.cof(r, a, v), where, p2)
        if m is not None:
            return m
    return None


def stream(st, name='stream'):
    s = sym(name, 'stream')
    st.heap[('S', s)] = ZERO
    return s


def inst(qual, fields):
    """A record instance (mapping) given by value."""
    return mk('inst', (qual, dict_(None, []), dict_(None, [(const(k), TRUE, v) for k, v in fields])), 'obj')
