"""
Abstract interpreter: evaluates the source of functions over the value graph of terms.py.

Control flow is joined, never enumerated: both arms of a branch are evaluated under a condition and merged into gated
values; a loop whose trip count is a constant is unrolled, any other loop is summarised by its loop-carried variables
(initial value and step), its exits and the effects of one abstract iteration.  Calls into the analysed package are
inlined; calls that leave it become events in a guarded trace.
"""
import ast
import hashlib
import os
import re
from fractions import Fraction

from . import terms as tm
from .terms import (
    T, AnalysisError, Blowup, mk, const, num, NONE, TRUE, FALSE, UNBOUND, ZERO, ONE, ite3, and_, or_, not_, lift, leaves,
    constrain, tuple_, seq, list_, dict_, EMPTY_DICT, app, truth, eq, isnone, subst, atom_bool, show, pyval, isconst,
)


class Dead(Exception):
    """The current abstract state is unreachable."""


class Ev(object):
    __slots__ = ('name', 'recv', 'args', 'kw', 'guard', 'node', 'where', 'body', 'exc', 'loop', 'res')

    def __init__(self, name, recv, args, kw, guard, node, where, body=None, loop=None, res=None):
        self.name, self.recv, self.args, self.kw = name, recv, args, kw
        self.guard, self.node, self.where, self.body = guard, node, where, body
        self.loop = loop
        self.res = res
        self.exc = FALSE    # condition under which the call raised

    def clone(self, **kw):
        e = Ev(self.name, self.recv, self.args, self.kw, self.guard, self.node, self.where, self.body, self.loop,
               self.res)
        e.exc = self.exc
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    def __repr__(self):
        if self.body is not None:
            return 'LOOP{%s}' % self.body
        return '%s(%s)%s' % (self.name, ', '.join(show(a, 3) for a in self.args),
                             '' if self.guard is TRUE else ' if ' + show(self.guard, 4))


EXIT_LIMIT = 60     # decision nodes of a loop's stop condition that are spelled out after the loop


class Trace(object):
    """Persistent list of events."""
    __slots__ = ('parent', 'ev', 'depth')

    def __init__(self, parent, ev):
        self.parent, self.ev = parent, ev
        self.depth = 0 if parent is None else parent.depth + 1

    def since(self, anc):
        out = []
        t = self
        while t is not anc:
            out.append(t.ev)
            t = t.parent
            if t is None:
                raise AnalysisError('trace ancestry')
        out.reverse()
        return out

    def all(self):
        out = []
        t = self
        while t.parent is not None:
            out.append(t.ev)
            t = t.parent
        out.reverse()
        return out


ROOT = Trace(None, None)


def trace_lca(a, b):
    while a is not b:
        if a.depth >= b.depth:
            a = a.parent
        else:
            b = b.parent
    return a


class State(object):
    __slots__ = ('pc', 'envs', 'heap', 'trace')

    def __init__(self, pc, envs, heap, trace):
        self.pc, self.envs, self.heap, self.trace = pc, envs, heap, trace

    def fork(self, cond=None):
        s = State(self.pc, {f: dict(e) for f, e in self.envs.items()}, dict(self.heap), self.trace)
        if cond is not None:
            s.pc = and_(self.pc, cond)
        return s

    def become(self, o):
        self.pc, self.envs, self.heap, self.trace = o.pc, o.envs, o.heap, o.trace


class Exit(object):
    __slots__ = ('kind', 'st', 'value', 'node')

    def __init__(self, kind, st, value, node):
        self.kind, self.st, self.value, self.node = kind, st, value, node


class Func(object):
    def __init__(self, name, qual, node, module, parent_fid, cls, defaults, kwdefaults, locals_, isgen, kind='func'):
        self.name, self.qual, self.node, self.module = name, qual, node, module
        self.parent_fid, self.cls = parent_fid, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.locals, self.isgen, self.kind = locals_, isgen, kind
        self.is_cm = False


class Cls(object):
    def __init__(self, qual, name, bases, module, node):
        self.qual, self.name, self.bases, self.module, self.node = qual, name, bases, module, node
        self.mro = []
        self.enum = False
        self.members = []
        self.attrs = {}      # name -> T (class attributes as defined)


class Frame(object):
    __slots__ = ('fid', 'func', 'module', 'parent_fid', 'locals', 'cls', 'yield_hook', 'exc', 'depth', 'globals_')

    def __init__(self, fid, func, module, parent_fid, locals_, cls):
        self.fid, self.func, self.module = fid, func, module
        self.parent_fid, self.locals, self.cls = parent_fid, locals_, cls
        self.yield_hook = None
        self.exc = []
        self.globals_ = set()


EXC_TREE = {
    'BaseException': None, 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'SystemExit': 'BaseException', 'GeneratorExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'LookupError': 'Exception',
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'OSError': 'Exception', 'ConnectionError': 'OSError',
    'TimeoutError': 'OSError', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RecursionError': 'RuntimeError', 'StopIteration': 'Exception', 'SyntaxError': 'Exception',
    'TypeError': 'Exception', 'ValueError': 'Exception', 'UnicodeError': 'ValueError', 'EOFError': 'Exception',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'ImportError': 'Exception',
    'BufferError': 'Exception', 'Warning': 'Exception', 'FileNotFoundError': 'OSError',
    'ConnectionResetError': 'ConnectionError', 'BrokenPipeError': 'ConnectionError', 'PermissionError': 'OSError',
    'mysql.connector.errors.Error': 'Exception', 'mysql.connector.errors.InterfaceError': 'mysql.connector.errors.Error',
    'mysql.connector.errors.PoolError': 'mysql.connector.errors.Error',
    'mysql.connector.errors.DatabaseError': 'mysql.connector.errors.Error',
}
EXC_TREE.update(('mysql.connector.errors.' + n, 'mysql.connector.errors.DatabaseError') for n in (
    'InternalError', 'OperationalError', 'ProgrammingError', 'IntegrityError', 'DataError', 'NotSupportedError'))
EXC_ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'socket.error': 'OSError',
             'struct.error': 'Exception'}
TYPES = {'int', 'float', 'str', 'bytes', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset', 'object', 'type',
         'bytearray', 'complex', 'memoryview'}
BUILTIN_FUNCS = {
    'len', 'range', 'enumerate', 'zip', 'map', 'filter', 'sorted', 'reversed', 'min', 'max', 'sum', 'any', 'all', 'abs',
    'isinstance', 'issubclass', 'getattr', 'setattr', 'hasattr', 'delattr', 'print', 'repr', 'ord', 'chr', 'hex', 'int',
    'round', 'divmod', 'pow', 'iter', 'next', 'open', 'super', 'callable', 'id', 'format', 'vars', 'bin', 'staticmethod',
    'classmethod', 'property', 'hash',
}


def type_(name):
    return mk('type', (name,), 'type')


def exc_type(name):
    return type_(EXC_ALIAS.get(name, name))


def builtin(name):
    return mk('builtin', (name,), 'func')


def excv(name, *args):
    return mk('excv', (exc_type(name), tuple_(*args)), 'exc')


class Interp(object):
    MAX_DEPTH = 48

    def __init__(self, root, spec_dirs=None, overrides=None):
        self.root = root
        self.spec_dirs = spec_dirs or {}
        self.modules = {}        # name -> fid
        self.mod_ast = {}
        self.mod_path = {}
        self.classes = {}
        self.funcs = []
        self.objinfo = {}
        self.next_fid = 1
        self.next_oid = 1
        self.next_tv = 1
        self.depth = 0
        self.trydepth = 0
        self.exc_mode = False
        self.exc_family = None   # builtin class that external failures are taken to belong to
        self.loop_idx = []       # idx symbols of the loops being summarised
        self.base = State(TRUE, {}, {}, ROOT)
        self.loading = []
        self.stack = []          # (Func, call node)
        self.analysed = {}       # qualname -> (path, line)
        self.call_sites = 0
        self.shapes = {}
        self.overrides = overrides or {}
        self.cell_shape = {}
        self.module_events = {}
        self.may_raise = None    # predicate(event name) used with exc_mode
        self.loop_count = 0
        self.short_reads = False
        self.views = {}                 # event name -> function giving the arguments and keywords it is compared by
        self.unpack_counts = False      # a split text unpacked into another number of names is a ValueError
        self.zero_division = True
        self.log_events = False
        self.db = None                  # model of the database behind the connector
        self.db_other = ()              # names of tables that exist besides those of the schema
        self.unroll = None              # bound on the rounds of a loop that is followed round by round
        from . import models
        self.models = models

    # ------------------------------------------------------------ modules

    def find(self, name):
        rel = name.replace('.', '/')
        for top, d in list(self.spec_dirs.items()) + [('weatherlink', self.root)]:
            if name == top or name.startswith(top + '.'):
                base = os.path.join(d, rel) if top == 'weatherlink' else os.path.join(d, rel)
                if os.path.isfile(base + '.py'):
                    return base + '.py', False
                if os.path.isfile(os.path.join(base, '__init__.py')):
                    return os.path.join(base, '__init__.py'), True
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, pkg = self.find(name)
        if path is None:
            raise AnalysisError('module %s not found' % name)
        if '.' in name:
            parent = name.rsplit('.', 1)[0]
            if self.find(parent)[0]:
                self.load(parent)
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        fid = self.new_fid()
        self.modules[name] = fid
        self.mod_ast[name] = tree
        self.mod_path[name] = path
        st = self.base
        st.envs[fid] = {'__name__': const(name)}
        fr = Frame(fid, None, name, None, None, None)
        ex = []
        saved = (self.trydepth, self.depth, self.loop_idx, self.exc_mode, self.stack)
        self.trydepth, self.depth, self.loop_idx, self.exc_mode, self.stack = 0, 0, [], False, []
        tr0 = st.trace
        alive = self.block(tree.body, st, fr, ex)
        self.module_events[name] = st.trace.since(tr0)
        st.trace = tr0
        self.trydepth, self.depth, self.loop_idx, self.exc_mode, self.stack = saved
        if not alive or any(e.kind == 'raise' for e in ex):
            raise AnalysisError('module %s does not load' % name)
        return fid

    def new_fid(self):
        self.next_fid += 1
        return self.next_fid

    def new_state(self):
        return self.base.fork()

    def module_attr(self, modname, attr, st=None):
        st = st or self.base
        fid = self.load(modname)
        v = st.envs[fid].get(attr)
        if v is None:
            sub = modname + '.' + attr
            if self.find(sub)[0]:
                self.load(sub)
                return mk('mod', (sub,), 'mod')
        return v

    def lookup(self, dotted, st=None):
        """Value of 'module:Class.attr' or 'module:func'."""
        m, _, path = dotted.partition(':')
        parts = path.split('.')
        v = self.module_attr(m, parts[0], st)
        if v is None:
            raise AnalysisError('anchor vanished: %s' % dotted)
        for p in parts[1:]:
            v2 = self.class_attr(v, p, st or self.base)
            if v2 is None:
                raise AnalysisError('anchor vanished: %s' % dotted)
            v = v2
        return v

    # ------------------------------------------------------------ heap

    def new_oid(self):
        self.next_oid += 1
        return self.next_oid

    def alloc(self, kind, st, content=None, cls=None, **info):
        oid = self.new_oid()
        d = dict(kind=kind, cls=cls)
        d.update(info)
        self.objinfo[oid] = d
        if content is not None:
            st.heap[(oid, 'c')] = content
        return mk('ref', (oid,), 'obj')

    def info(self, ref):
        return self.objinfo[ref.args[0]]

    def content(self, v, st):
        """Content of a container leaf, or None."""
        if v.op == 'ref':
            c = st.heap.get((v.args[0], 'c'))
            if c is not None:
                inf = self.info(v)
                if inf.get('maxlen') is not None and c.op == 'seq':
                    return self.models.last_n(inf['maxlen'], c)
                if inf.get('reads') is not None:
                    return self.models.unread(self, v, c, st)
            return c
        if v.op in ('tuple', 'seq', 'dict'):
            return v
        if v.op == 'inst' and v.args[2] is not None:
            return v.args[2]
        return None

    def set_content(self, v, c, st):
        if v.op != 'ref':
            raise AnalysisError('mutation of a summarised container: %s' % show(v))
        st.heap[(v.args[0], 'c')] = c

    def freeze(self, v, st, seen=()):
        if v.op == 'ite':
            # through both arms
            a, hi, lo = v.args
            c = atom_bool(a)
            return ite3(c, self.freeze(hi, st, seen), self.freeze(lo, st, seen))
        if v.op == 'ref':
            oid = v.args[0]
            if oid in seen:
                return mk('cycle', (), 'any')
            seen = seen + (oid,)
            inf = self.objinfo[oid]
            c = self.content(v, st)
            fc = None if c is None else self.freeze(c, st, seen)
            if inf['kind'] == 'inst':
                attrs = []
                for k in sorted((k for k in st.heap if isinstance(k, tuple) and len(k) == 3 and k[0] == oid
                                 and k[1] == 'a'), key=lambda k: k[2]):
                    x = st.heap[k]
                    if x is UNBOUND:
                        continue
                    attrs.append((const(k[2]), TRUE, self.freeze(x, st, seen)))
                return mk('inst', (inf['cls'].qual, dict_(None, attrs), fc), 'obj')
            if inf['kind'] == 'set' and fc.op == 'seq':
                return seq('set', fc.args[1])
            return fc
        if v.op == 'tuple':
            return tuple_(*[self.freeze(x, st, seen) for x in v.args])
        if v.op == 'seq':
            return seq(v.args[0], [(t, g, self.freeze(x, st, seen)) for t, g, x in v.args[1]])
        if v.op == 'dict':
            return dict_(v.args[0], [(k, g, self.freeze(x, st, seen)) for k, g, x in v.args[1]])
        if v.op == 'bound':
            return mk('bound', (v.args[0], self.freeze(v.args[1], st, seen)), v.sort)
        return v

    # ------------------------------------------------------------ merging

    def merge(self, states, sels=None):
        """Merge reachable states (disjoint conditions)."""
        s = states[-1]
        for o in reversed(states[:-1]):
            s = self.merge2(o, s)
        return s

    def merge2(self, a, b, sel=None):
        if sel is None:
            sel = constrain(a.pc, or_(a.pc, b.pc))
        pc = or_(a.pc, b.pc)
        envs = {}
        for f in a.envs.keys() | b.envs.keys():
            ea, eb = a.envs.get(f), b.envs.get(f)
            if ea is None or eb is None:
                envs[f] = dict(ea if ea is not None else eb)
                continue
            e = {}
            for k in ea.keys() | eb.keys():
                x, y = ea.get(k, UNBOUND), eb.get(k, UNBOUND)
                e[k] = x if x is y else ite3(sel, x, y)
            envs[f] = e
        heap = {}
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y or y is None:
                heap[k] = x
            elif x is None:
                heap[k] = y
            else:
                heap[k] = ite3(sel, x, y)
        # attributes created on one side only
        for k in list(heap):
            if isinstance(k, tuple) and len(k) == 3 and k[1] == 'a':
                x, y = a.heap.get(k), b.heap.get(k)
                if (x is None) != (y is None):
                    if self.existed(k[0], a) and self.existed(k[0], b):
                        heap[k] = ite3(sel, x if x is not None else UNBOUND, y if y is not None else UNBOUND)
        if a.trace is b.trace:
            tr = a.trace
        else:
            l = trace_lca(a.trace, b.trace)
            ta, tb = a.trace.since(l), b.trace.since(l)
            tr = a.trace
            if not ta:
                tr = b.trace
            elif tb:
                # an event may be on both sides (copied by an earlier join): it stays one event
                both = {id(ev) for ev in ta} & {id(ev) for ev in tb}
                if both:
                    tr, i = l, 0
                    for ev in tb:
                        if id(ev) in both:
                            while i < len(ta):
                                x = ta[i]
                                i += 1
                                tr = Trace(tr, x)
                                if x is ev:
                                    break
                            continue
                        tr = Trace(tr, ev)
                    for x in ta[i:]:
                        tr = Trace(tr, x)
                else:
                    for ev in tb:
                        tr = Trace(tr, ev)
        return State(pc, envs, heap, tr)

    def existed(self, oid, st):
        return (oid, 'alive') in st.heap

    # ------------------------------------------------------------ raising

    def raise_(self, cond, exc, st, ex, node):
        """Under cond, raise exc; the state continues without cond."""
        c = and_(st.pc, cond)
        if c is FALSE:
            return
        s = st.fork()
        s.pc = c
        ex.append(Exit('raise', s, exc, node))
        st.pc = and_(st.pc, not_(cond))
        if st.pc is FALSE:
            raise Dead()

    def fork_on(self, v, st, fn):
        """fn(leaf, state) for each leaf of v, states merged back."""
        v = constrain(v, st.pc)
        if v.op != 'ite':
            return fn(v, st)
        res = []
        for cond, leaf in leaves(v):
            s = st.fork(cond)
            if s.pc is FALSE:
                continue
            try:
                r = fn(leaf, s)
            except Dead:
                continue
            res.append((s, r))
        if not res:
            st.pc = FALSE
            raise Dead()
        s, r = res[-1]
        for s2, r2 in reversed(res[:-1]):
            sel = constrain(s2.pc, or_(s2.pc, s.pc))
            r = r2 if r2 is r else ite3(sel, r2, r)
            s = self.merge2(s2, s, sel)
        st.become(s)
        return r

    # ------------------------------------------------------------ statements

    def block(self, stmts, st, fr, ex):
        try:
            for s in stmts:
                self.stmt(s, st, fr, ex)
            return True
        except Dead:
            return False

    def stmt(self, n, st, fr, ex):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError('%s:%s: unsupported statement %s' % (fr.module, n.lineno, type(n).__name__))
        m(n, st, fr, ex)

    def s_Pass(self, n, st, fr, ex):
        pass

    def s_Global(self, n, st, fr, ex):
        fr.globals_ |= set(n.names)

    def s_Nonlocal(self, n, st, fr, ex):
        pass

    def s_Expr(self, n, st, fr, ex):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, st, fr, ex)

    def s_Assign(self, n, st, fr, ex):
        v = self.ev(n.value, st, fr, ex)
        for t in n.targets:
            self.assign(t, v, st, fr, ex)

    def s_AnnAssign(self, n, st, fr, ex):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st, fr, ex), st, fr, ex)

    def s_AugAssign(self, n, st, fr, ex):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st, fr, ex, t)
            v = self.ev(n.value, st, fr, ex)
            v = self.augment(n.op, cur, v, st, fr, ex, n)
            self.assign(t, v, st, fr, ex)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr, ex)
            cur = self.getattr(o, self.mangle(t.attr, fr), st, fr, ex, t)
            v = self.ev(n.value, st, fr, ex)
            v = self.augment(n.op, cur, v, st, fr, ex, n)
            self.setattr(o, self.mangle(t.attr, fr), v, st, fr, ex, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr, ex)
            k = self.ev_slice(t.slice, st, fr, ex)
            cur = self.getitem(o, k, st, fr, ex, t)
            v = self.ev(n.value, st, fr, ex)
            v = self.augment(n.op, cur, v, st, fr, ex, n)
            self.setitem(o, k, v, st, fr, ex, t)
        else:
            raise AnalysisError('augmented assignment target')

    def augment(self, op, cur, v, st, fr, ex, n):
        c = constrain(cur, st.pc)
        if c.op == 'ref' and isinstance(op, ast.Add) and self.info(c)['kind'] in ('list', 'deque'):
            self.call_method(c, 'extend', [v], {}, st, fr, ex, n)
            return c
        if c.op == 'ref' and isinstance(op, ast.BitOr) and self.info(c)['kind'] in ('set', 'dict'):
            self.call_method(c, 'update', [v], {}, st, fr, ex, n)
            return c
        return self.binop(op, c, v, st, fr, ex, n)

    def s_Delete(self, n, st, fr, ex):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.store(t.id, UNBOUND, st, fr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr, ex)
                k = self.ev_slice(t.slice, st, fr, ex)
                self.fork_on(o, st, lambda l, s: self.models.del_item(self, l, k, s, fr, ex, n))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, fr, ex)
                self.setattr(o, t.attr, UNBOUND, st, fr, ex, t)
            else:
                raise AnalysisError('del target')

    def s_Assert(self, n, st, fr, ex):
        c = truth(self.ev(n.test, st, fr, ex))
        self.raise_(not_(c), excv('AssertionError'), st, ex, n)

    def s_If(self, n, st, fr, ex):
        c = self.cond(n.test, st, fr, ex)
        self.branch(c, st, lambda s: self.block(n.body, s, fr, ex), lambda s: self.block(n.orelse, s, fr, ex))

    def cond(self, node, st, fr, ex):
        v = self.ev(node, st, fr, ex)
        return constrain(self.truthof(v, st, fr, ex, node), st.pc)

    def truthof(self, v, st, fr, ex, node):
        def leaf(t):
            if t.op == 'ref':
                inf = self.info(t)
                if inf['kind'] == 'inst' and inf.get('cls') is not None:
                    for meth in ('__bool__', '__len__'):
                        f = self.mro_lookup(inf['cls'], meth, st)
                        if f is not None and f.op == 'func':
                            r = self.call(f, [t], {}, st, None, ex, node)
                            return truth(r)
                c = self.content(t, st)
                if c is not None:
                    return truth(c)
                return TRUE
            if t.op == 'inst':
                if t.args[2] is not None:
                    return truth(t.args[2])
                return TRUE
            if t.op == 'range':
                return truth(self.models.length(self, t, st, fr, ex, node))
            return tm.truth_leaf(t)
        v = constrain(v, st.pc)
        return lift(leaf, (v,))

    def branch(self, c, st, f1, f2):
        p1, p2 = and_(st.pc, c), and_(st.pc, not_(c))
        if p2 is FALSE:
            st.pc = p1
            if not f1(st):
                raise Dead()
            return
        if p1 is FALSE:
            st.pc = p2
            if not f2(st):
                raise Dead()
            return
        s1, s2 = st.fork(), st.fork()
        s1.pc, s2.pc = p1, p2
        a1, a2 = f1(s1), f2(s2)
        if a1 and a2:
            st.become(self.merge2(s1, s2, c))
        elif a1:
            st.become(s1)
        elif a2:
            st.become(s2)
        else:
            st.pc = FALSE
            raise Dead()

    def s_Return(self, n, st, fr, ex):
        v = NONE if n.value is None else self.ev(n.value, st, fr, ex)
        ex.append(Exit('return', st.fork(), v, n))
        st.pc = FALSE
        raise Dead()

    def s_Break(self, n, st, fr, ex):
        ex.append(Exit('break', st.fork(), NONE, n))
        st.pc = FALSE
        raise Dead()

    def s_Continue(self, n, st, fr, ex):
        ex.append(Exit('continue', st.fork(), NONE, n))
        st.pc = FALSE
        raise Dead()

    def s_Raise(self, n, st, fr, ex):
        if n.exc is None:
            if not self.exc_stack(fr):
                v = excv('RuntimeError')
            else:
                v = self.exc_stack(fr)[-1]
        else:
            v = self.ev(n.exc, st, fr, ex)
            v = lift(lambda t: mk('excv', (t, tuple_()), 'exc') if t.op in ('class', 'type', 'extattr') else t, (v,))
            if n.cause is not None:
                self.ev(n.cause, st, fr, ex)
        ex.append(Exit('raise', st.fork(), v, n))
        st.pc = FALSE
        raise Dead()

    _excs = None

    def exc_stack(self, fr):
        if self._excs is None:
            self._excs = []
        return self._excs

    def s_Try(self, n, st, fr, ex):
        body_ex = []
        self.trydepth += 1
        s = st.fork()
        alive = self.block(n.body, s, fr, body_ex)
        self.trydepth -= 1
        out_ex = []        # exits leaving the try (before finally)
        live = []
        raises = []
        for e in body_ex:
            if e.kind == 'raise' and n.handlers:
                raises.append(e)
            else:
                out_ex.append(e)
        fin = bool(n.finalbody)
        if fin:
            self.trydepth += 1
        if alive and n.orelse:
            alive = self.block(n.orelse, s, fr, out_ex)
        if alive:
            live.append(s)
        if raises:
            rs, rv = self.merge_exits(raises)
            node = raises[0].node
            for h in n.handlers:
                if rs is None:
                    break
                if h.type is None:
                    c = TRUE
                else:
                    types = self.ev(h.type, rs, fr, out_ex)
                    c = lift(lambda x: self.exc_match(x, types, rs), (constrain(rv, rs.pc),))
                hs = rs.fork(c)
                rest = and_(rs.pc, not_(c))
                if hs.pc is not FALSE:
                    hv = constrain(rv, hs.pc)
                    if h.name:
                        self.store(h.name, hv, hs, fr)
                    self.exc_stack(fr).append(hv)
                    ok = self.block(h.body, hs, fr, out_ex)
                    self.exc_stack(fr).pop()
                    if ok:
                        if h.name:
                            self.store(h.name, UNBOUND, hs, fr)
                        live.append(hs)
                if rest is FALSE:
                    rs = None
                else:
                    rs = rs.fork()
                    rs.pc = rest
            if rs is not None:
                out_ex.append(Exit('raise', rs, constrain(rv, rs.pc), node))
        if fin:
            self.trydepth -= 1
            allst = live + [e.st for e in out_ex]
            if not allst:
                st.pc = FALSE
                raise Dead()
            guards = [e.st.pc for e in out_ex]
            sm = self.merge(allst)
            lg = or_(*[x.pc for x in live]) if live else FALSE
            fr_ex = []
            pend = None
            for e in out_ex:
                if e.kind == 'raise':
                    pend = e.value
            if pend is not None:
                self.exc_stack(fr).append(pend)
            ok = self.block(n.finalbody, sm, fr, fr_ex)
            if pend is not None:
                self.exc_stack(fr).pop()
            ex.extend(fr_ex)
            if not ok:
                st.pc = FALSE
                raise Dead()
            for e, g in zip(out_ex, guards):
                s2 = sm.fork(g)
                if s2.pc is not FALSE:
                    ex.append(Exit(e.kind, s2, constrain(e.value, s2.pc), e.node))
            s2 = sm.fork(lg)
            st.become(s2)
            if st.pc is FALSE:
                raise Dead()
            return
        ex.extend(out_ex)
        if not live:
            st.pc = FALSE
            raise Dead()
        st.become(self.merge(live))

    def merge_exits(self, exits):
        s, v = exits[-1].st, exits[-1].value
        for e in reversed(exits[:-1]):
            sel = constrain(e.st.pc, or_(e.st.pc, s.pc))
            v = e.value if e.value is v else ite3(sel, e.value, v)
            s = self.merge2(e.st, s, sel)
        return s, v

    def exc_match(self, x, types, st):
        """Condition: exception x is an instance of types."""
        def leaf(t):
            if t.op == 'tuple':
                return or_(*[leaf(y) for y in t.args])
            return self.exc_isinst(x, t)
        return lift(leaf, (types,))

    def exc_isinst(self, x, t):
        if x.op == 'excv':
            return tm.boolc(self.exc_subclass(x.args[0], t))
        # an exception that came out of an external call
        tn = self.exc_name(t)
        if tn in ('BaseException', 'Exception'):
            return TRUE
        if self.exc_family is not None:
            return tm.boolc(self.exc_subclass(type_(self.exc_family), t))
        return atom_bool(mk('isexc', (x, tn), 'bool'))

    def exc_name(self, t):
        if t.op in ('type', 'class', 'extattr'):
            return EXC_ALIAS.get(t.args[0], t.args[0])
        return show(t)

    def exc_subclass(self, c, t):
        tn = self.exc_name(t)
        if c.op == 'class':
            for b in self.classes[c.args[0]].mro:
                if self.exc_name(b) == tn:
                    return True
                if b.op == 'type' and self.exc_subclass(b, t):
                    return True
            return False
        n = self.exc_name(c)
        while n is not None:
            if n == tn:
                return True
            n = EXC_TREE.get(n, 'Exception' if n not in EXC_TREE else None)
        return False

    def s_With(self, n, st, fr, ex):
        self.with_items(n, 0, st, fr, ex)

    def with_items(self, n, i, st, fr, ex):
        if i == len(n.items):
            if not self.block(n.body, st, fr, ex):
                raise Dead()
            return
        item = n.items[i]
        cm = self.ev_cm(item.context_expr, st, fr, ex)

        def body(v, s, bex):
            try:
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, s, fr, bex)
                self.with_items(n, i + 1, s, fr, bex)
                return True
            except Dead:
                return False
        self.with_value(cm, body, st, fr, ex, n)

    def ev_cm(self, e, st, fr, ex):
        return self.ev(e, st, fr, ex)

    def with_value(self, cm, body, st, fr, ex, node):
        cm = constrain(cm, st.pc)
        if cm.op == 'ite':
            res = []
            for cond, leaf in leaves(cm):
                s = st.fork(cond)
                if s.pc is FALSE:
                    continue
                try:
                    self.with_value(leaf, body, s, fr, ex, node)
                    res.append(s)
                except Dead:
                    pass
            if not res:
                st.pc = FALSE
                raise Dead()
            st.become(self.merge(res))
            return
        if cm.op == 'gencm':
            self.with_gen(cm, body, st, fr, ex, node)
            return
        if cm.op == 'ref' and self.info(cm)['kind'] == 'inst':
            cls = self.info(cm)['cls']
            enter = self.mro_lookup(cls, '__enter__', st)
            leave = self.mro_lookup(cls, '__exit__', st)
            if enter is None or leave is None:
                raise AnalysisError('object is not a context manager: %s' % cls.qual)
            v = self.call(enter, [cm], {}, st, fr, ex, node)
            self.with_exit(v, body, st, fr, ex, node,
                           lambda args, s, e2: self.call(leave, [cm] + args, {}, s, fr, e2, node))
            return
        self.models.with_external(self, cm, body, st, fr, ex, node)

    def with_exit(self, v, body, st, fr, ex, node, leave):
        """Run body, then leave([type, value, tb]) on every way out."""
        bex = []
        self.trydepth += 1
        s = st.fork()
        alive = body(v, s, bex)
        self.trydepth -= 1
        raises = [e for e in bex if e.kind == 'raise']
        others = [e for e in bex if e.kind != 'raise']
        live = []
        normal = ([s] if alive else []) + [e.st for e in others]
        if normal:
            sm = self.merge(normal)
            guards = [e.st.pc for e in others]
            lg = s.pc if alive else FALSE
            try:
                leave([NONE, NONE, NONE], sm, ex)
                for e, g in zip(others, guards):
                    s2 = sm.fork(g)
                    if s2.pc is not FALSE:
                        ex.append(Exit(e.kind, s2, constrain(e.value, s2.pc), e.node))
                s2 = sm.fork(lg)
                if s2.pc is not FALSE:
                    live.append(s2)
            except Dead:
                pass
        if raises:
            rs, rv = self.merge_exits(raises)
            tb = mk('tb', (), 'obj')
            ty = lift(lambda x: x.args[0] if x.op == 'excv' else mk('typeof', (x,), 'obj'), (rv,))
            try:
                self.exc_stack(fr).append(rv)
                try:
                    r = leave([ty, rv, tb], rs, ex)
                finally:
                    self.exc_stack(fr).pop()
                c = truth(r)
                sup = rs.fork(c)
                if sup.pc is not FALSE:
                    live.append(sup)
                rest = rs.fork(not_(c))
                if rest.pc is not FALSE:
                    ex.append(Exit('raise', rest, constrain(rv, rest.pc), raises[0].node))
            except Dead:
                pass
        if not live:
            st.pc = FALSE
            raise Dead()
        st.become(self.merge(live))

    def with_gen(self, cm, body, st, fr, ex, node):
        fn = self.funcs[cm.args[0]]
        pending = []
        yields = [0]

        def hook(v, s, gfr, gex):
            yields[0] += 1
            if yields[0] > 1:
                raise AnalysisError('context manager yields in more than one place: %s' % fn.qual)
            bex = []
            s2 = s.fork()
            self.trydepth += 1
            alive = body(v, s2, bex)
            self.trydepth -= 1
            live = [s2] if alive else []
            for e in bex:
                if e.kind == 'raise':
                    gex.append(e)
                else:
                    pending.append((e.kind, e.st.pc, e.value, e.node))
                    live.append(e.st)
            if not live:
                s.pc = FALSE
                raise Dead()
            s.become(self.merge(live))
            return NONE
        args, kwargs = self.unpack_cm(cm)
        self.invoke(fn, args, kwargs, st, ex, node, hook)
        for kind, g, v, nd in pending:
            s2 = st.fork(g)
            if s2.pc is not FALSE:
                ex.append(Exit(kind, s2, constrain(v, s2.pc), nd))
        if pending:
            st.pc = and_(st.pc, not_(or_(*[g for _, g, _, _ in pending])))
            if st.pc is FALSE:
                raise Dead()

    def unpack_cm(self, cm):
        return list(cm.args[1].args), {k: v for k, v in cm.args[2]}

    # definitions

    def s_FunctionDef(self, n, st, fr, ex):
        v = self.make_func(n, st, fr, ex)
        for d in reversed(n.decorator_list):
            v = self.decorate(d, v, st, fr, ex)
        self.store(n.name, v, st, fr)

    def make_func(self, n, st, fr, ex, name=None):
        defaults = [self.ev(d, st, fr, ex) for d in n.args.defaults]
        kwd = [None if d is None else self.ev(d, st, fr, ex) for d in n.args.kw_defaults]
        name = name or getattr(n, 'name', '<lambda>')
        q = fr.func.qual + '.' if fr.func is not None and fr.func.kind != 'classbody' else ''
        if fr.cls is not None and (fr.func is None or fr.func.kind == 'classbody'):
            qual = '%s.%s' % (fr.cls.qual, name)
        else:
            qual = (q or fr.module + ':') + name
        f = Func(name, qual, n, fr.module, None if fr.func is None and fr.cls is None else fr.fid,
                 fr.cls, defaults, kwd, local_names(n), is_generator(n))
        if fr.func is not None and fr.func.kind == 'classbody':
            f.parent_fid = fr.parent_fid
        self.funcs.append(f)
        return mk('func', (len(self.funcs) - 1,), 'func')

    def decorate(self, d, v, st, fr, ex):
        dv = self.ev(d, st, fr, ex)
        if dv.op == 'builtin' and dv.args[0] in ('staticmethod', 'classmethod', 'property'):
            return mk(dv.args[0], (v,), 'func')
        if dv.op == 'extattr':
            n = dv.args[0]
            if n == 'contextlib.contextmanager':
                self.funcs[v.args[0]].is_cm = True
                return v
            if n in ('abc.abstractmethod', 'functools.wraps', 'functools.lru_cache', 'six.python_2_unicode_compatible',
                     'enum.unique', 'functools.total_ordering', 'functools.cached_property'):
                if n == 'functools.cached_property':
                    return mk('property', (v,), 'func')
                return v
        if dv.op == 'propsetter':
            return mk('property', (dv.args[0].args[0], v), 'func')
        if dv.op == 'identity':
            return v
        return self.call(dv, [v], {}, st, fr, ex, d)

    def s_ClassDef(self, n, st, fr, ex):
        bases = [self.ev(b, st, fr, ex) for b in n.bases]
        qual = (fr.cls.qual + '.' if fr.cls else fr.module + ':') + n.name
        while qual in self.classes and self.classes[qual].node is not n:
            qual += "'"
        c = Cls(qual, n.name, bases, fr.module, n)
        ct = mk('class', (qual,), 'type')
        self.classes[qual] = c
        c.mro = self.c3(ct, bases)
        c.enum = any(b.op == 'extattr' and b.args[0].startswith('enum.') for b in c.mro)
        fid = self.new_fid()
        st.envs[fid] = {}
        body = Func('<class>', qual, n, fr.module, fr.fid if fr.func else None, c, [], [], set(), False, 'classbody')
        cfr = Frame(fid, body, fr.module, fr.fid if (fr.func is not None) else None, None, c)
        if not self.block(n.body, st, cfr, ex):
            raise Dead()
        env = st.envs.pop(fid)
        c.order = list(env)
        for k, v in env.items():
            if v is UNBOUND:
                continue
            st.heap[('C', qual, k)] = v
            c.attrs[k] = v
        if c.enum:
            self.build_enum(c, ct, n, env, st, cfr, ex)
        for d in reversed(n.decorator_list):
            r = self.decorate(d, ct, st, fr, ex)
            if r is not ct:
                raise AnalysisError('class decorator changes %s' % qual)
        self.store(n.name, ct, st, fr)

    def build_enum(self, c, ct, n, env, st, fr, ex):
        # members in definition order
        names = []
        for s in n.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id in env and not t.id.startswith('_'):
                        names.append(t.id)
                    elif isinstance(t, ast.Tuple):
                        names.extend(x.id for x in t.elts if isinstance(x, ast.Name))
        seen = {}
        init = self.mro_lookup(c, '__init__', st)
        for name in names:
            v = env[name]
            if v.op in ('func', 'staticmethod', 'classmethod', 'property'):
                continue
            if v.key in seen:
                st.heap[('C', c.qual, name)] = seen[v.key]
                continue
            e = mk('enum', (c.qual, name), 'enum')
            seen[v.key] = e
            c.members.append((name, v, e))
            st.heap[('C', c.qual, name)] = e
            st.heap[('E', c.qual, name, 'value')] = v
            st.heap[('E', c.qual, name, '_value_')] = v
            st.heap[('E', c.qual, name, 'name')] = const(name)
            if init is not None and init.op == 'func':
                args = list(v.args) if v.op == 'tuple' else [v]
                self.call(init, [e] + args, {}, st, fr, ex, n)

    def c3(self, ct, bases):
        def mro(b):
            if b.op == 'class':
                return list(self.classes[b.args[0]].mro)
            return [b]
        seqs = [mro(b) for b in bases if not (b.op == 'type' and b.args[0] == 'object')] + [
            [b for b in bases if not (b.op == 'type' and b.args[0] == 'object')]]
        out = [ct]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in o[1:] for o in seqs):
                    break
            else:
                raise AnalysisError('inconsistent MRO')
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    s.pop(0)

    def s_Import(self, n, st, fr, ex):
        for a in n.names:
            if self.find(a.name)[0]:
                self.load(a.name)
                st.envs.update({k: v for k, v in self.base.envs.items() if k not in st.envs})
            top = a.name.split('.')[0]
            self.store(a.asname or top, self.mod(a.name if a.asname else top), st, fr)

    def mod(self, name):
        return mk('mod', (name,), 'mod')

    def s_ImportFrom(self, n, st, fr, ex):
        if n.module == '__future__':
            return
        modname = n.module or ''
        if n.level:
            base = fr.module.split('.')
            path, pkg = self.find(fr.module)
            if not pkg:
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)]
            modname = '.'.join(base + ([n.module] if n.module else []))
        for a in n.names:
            if self.find(modname)[0]:
                if a.name == '*':
                    self.load(modname)
                    for k, v in self.base.envs[self.modules[modname]].items():
                        if not k.startswith('_'):
                            self.store(k, v, st, fr)
                    continue
                v = self.module_attr(modname, a.name)
                if v is None:
                    raise AnalysisError('%s: cannot import %s from %s' % (fr.module, a.name, modname))
            else:
                v = self.models.module_attr(self, modname, a.name)
            self.store(a.asname or a.name, v, st, fr)

    # loops

    def s_For(self, n, st, fr, ex):
        it = self.ev_iter(n.iter, st, fr, ex)

        def body(v, s, bex):
            try:
                self.assign(n.target, v, s, fr, bex)
            except Dead:
                return False
            return self.block(n.body, s, fr, bex)

        def orelse(s):
            return self.block(n.orelse, s, fr, ex) if n.orelse else True
        self.iterate(it, body, orelse, st, fr, ex, n)

    def by_reading(self, n, st, fr, ex):
        """A loop that takes the elements of a known sequence one after the other is followed round by round."""
        if not self.models.reading_positions(self, st):
            return False
        s, out = st.fork(), []
        try:
            if not self.rounds(n, s, fr, out, True):
                return False
        except Dead:
            s = None
        ex.extend(out)
        if s is None:
            st.pc = FALSE
            raise Dead()
        st.become(s)
        return True

    def rounds(self, n, st, fr, ex, progress=False):
        """A while loop followed round by round."""
        ends = []
        at = self.models.reading_positions(self, st) if progress else None
        for k in range(self.unroll or 2100):
            bex = []
            try:
                c = constrain(self.cond(n.test, st, fr, ex), st.pc)
            except Dead:
                break
            done = st.fork(not_(c))
            if done.pc is not FALSE:
                if not n.orelse or self.block(n.orelse, done, fr, ex):
                    ends.append(done)
            st.pc = and_(st.pc, c)
            if st.pc is FALSE:
                break
            states = [st.fork()] if self.block(n.body, st, fr, bex) else []
            for e in bex:
                if e.kind == 'continue':
                    states.append(e.st)
                elif e.kind == 'break':
                    ends.append(e.st)
                else:
                    ex.append(e)
            if not states:
                break
            st.become(self.merge(states))
            if progress:
                now = self.models.reading_positions(self, st)
                if not any(at[o] < now.get(o, -1) for o in at):
                    return False
                at = now
        else:
            if progress:
                return False
            raise AnalysisError('a loop does not end within %d rounds' % self.unroll)
        if not ends:
            st.pc = FALSE
            raise Dead()
        st.become(self.merge(ends))
        return True

    def s_While(self, n, st, fr, ex):
        if self.unroll:
            self.rounds(n, st, fr, ex)
            return

        def test(s, bex):
            return self.cond(n.test, s, fr, bex)
        # constant-trip while loops are unrolled as long as the test is decided
        steps = 0
        live_breaks = []
        while True:
            probe = st.fork()
            pex = []
            saved = self.next_tv
            try:
                c = test(probe, pex)
            except Dead:
                c = None
            cc = None if c is None else constrain(c, probe.pc)
            const_true = isinstance(n.test, ast.Constant)
            if cc is None or not isconst(cc) or (const_true and pyval(cc)) or pex:
                if not steps and self.by_reading(n, st, fr, ex):
                    return
                break
            if not pyval(cc):
                test(st, ex)
                ok = self.block(n.orelse, st, fr, ex) if n.orelse else True
                states = ([st.fork()] if ok else []) + live_breaks
                if not states:
                    raise Dead()
                st.become(self.merge(states))
                return
            steps += 1
            if steps > 2000:
                break
            test(st, ex)
            bex = []
            ok = self.block(n.body, st, fr, bex)
            states = [st.fork()] if ok else []
            for e in bex:
                if e.kind == 'continue':
                    states.append(e.st)
                elif e.kind == 'break':
                    live_breaks.append(e.st)
                else:
                    ex.append(e)
            if not states:
                if live_breaks:
                    st.become(self.merge(live_breaks))
                    return
                st.pc = FALSE
                raise Dead()
            st.become(self.merge(states))

        def step(s, bex, idx):
            c = test(s, bex)
            return c, None

        def body(v, s, bex):
            return self.block(n.body, s, fr, bex)

        def orelse(s):
            return self.block(n.orelse, s, fr, ex) if n.orelse else True
        try:
            self.loop(step, body, orelse, st, fr, ex, n, [])
            if live_breaks:
                st.become(self.merge([st.fork()] + live_breaks))
        except Dead:
            if not live_breaks:
                raise
            st.become(self.merge(live_breaks))

    def indexed(self, l, i):
        """The iteration i over l by index."""
        if i.items is None:
            return i
        if any(g is not TRUE for g, _ in i.items):
            return None
        n = len(i.items)

        def at(k):
            if l.op == 'range':
                return tm.p_add(l.args[0], tm.p_mul(l.args[2], k))
            r = i.items[-1][1] if n else NONE
            for j in range(n - 2, -1, -1):
                r = ite3(tm.cmp_le(k, num(j, 'int', 0), 1), i.items[j][1], r)
            return r
        return Iter(has=lambda k: tm.cmp_le(k, num(n, 'int', 0), 0), at=at, deps=(l,))

    def ev_iter(self, node, st, fr, ex):
        v = self.ev(node, st, fr, ex)
        return self.iter_of(v, st, fr, ex, node)

    def iter_of(self, v, st, fr, ex, node):
        v = constrain(v, st.pc)
        if v.op == 'ite':
            ls = leaves(v)
            none = [(c, l) for c, l in ls if l is NONE]
            if none:
                self.raise_(none[0][0], excv('TypeError', const('not iterable')), st, ex, node)
                return self.iter_of(v, st, fr, ex, node)
            its = [(c, self.models.iterator(self, l, st, fr, ex, node)) for c, l in ls]
            if all(i.items is not None for _, i in its):
                items = []
                for c, i in its:
                    items += [(and_(c, g), x) for g, x in i.items]
                return Iter(items=items)
            its = [(c, self.indexed(l, i)) for (c, l), (_, i) in zip(ls, its)]

            def pick(f):
                r = f(its[-1][1])
                for c, i in reversed(its[:-1]):
                    r = ite3(c, f(i), r)
                return r
            if all(i is not None for _, i in its):
                return Iter(has=lambda k: pick(lambda i: i.has(k)), at=lambda k: pick(lambda i: i.at(k)), deps=(v,))
            raise AnalysisError('iteration over alternatives: %s' % show(v))
        return self.models.iterator(self, v, st, fr, ex, node)

    def iterate(self, it, body, orelse, st, fr, ex, node):
        """body(elem, state, exits) -> alive; unrolls a known sequence, summarises any other."""
        if it.cursor is not None:
            it.cursor.rewind(st)
        if it.items is not None:
            breaks = []
            cur = st
            alive = True
            for n, (g, x) in enumerate(it.items):
                bex = []
                g = constrain(g, st.pc)
                if and_(st.pc, g) is FALSE:
                    continue
                if and_(st.pc, not_(g)) is FALSE:
                    skip = None
                    s = st.fork()
                else:
                    s = st.fork(g)
                    skip = st.fork(not_(g))
                states = []
                if it.cursor is not None:
                    it.cursor.step(s, n)
                if body(x, s, bex):
                    states.append(s)
                for e in bex:
                    if e.kind == 'continue':
                        states.append(e.st)
                    elif e.kind == 'break':
                        breaks.append(e.st)
                    else:
                        ex.append(e)
                if skip is not None:
                    states.append(skip)
                if not states:
                    alive = False
                    break
                st.become(self.merge(states))
            states = []
            if alive:
                s = st.fork()
                if orelse(s):
                    states.append(s)
            states += breaks
            if not states:
                st.pc = FALSE
                raise Dead()
            st.become(self.merge(states))
            return

        def step(s, bex, idx):
            if it.ask is not None:
                x = it.ask(s, bex)
                return not_(self.models.equal(self, x, it.until, s, fr, bex, node)), x
            has, at = it.has(idx), it.at(idx)
            if it.cursor is not None:
                it.cursor.step(s, idx)
            return has, at
        self.loop(step, body, orelse, st, fr, ex, node, it.deps)

    def loop(self, step, body, orelse, st, fr, ex, node, deps, base=0):
        self.loop_count += 1
        depth = len(self.loop_idx)
        idx = mk('idx', (depth,), 'int')
        index = tm.p_add(idx, num(base, 'int', 0))
        st0 = st.fork()
        carried = {}
        self.loop_idx.append(idx)
        saved_td = self.trydepth
        try:
            rounds = 0
            while True:
                rounds += 1
                if rounds > 40:
                    raise AnalysisError('loop summary does not converge')
                s = st0.fork()
                for k, tv in carried.items():
                    self.set_cell(s, k, self.cell_symbol(k, tv, st0))
                start = {k: self.get_cell(s, k) for k in carried}
                normal, others, back = self.one_iteration(step, body, s, index)
                changed = []
                if back is not None:
                    for k in self.cells(back):
                        v = self.get_cell(back, k)
                        if k in carried:
                            continue
                        old = self.get_cell(st0, k)
                        if old is None:
                            continue
                        if v is not old:
                            changed.append(k)
                if not changed:
                    break
                for k in changed:
                    self.next_tv += 1
                    old = self.get_cell(st0, k)
                    carried[k] = mk('tv', (self.next_tv,), self.cell_sort(old, self.get_cell(back, k)))
        finally:
            self.loop_idx.pop()
        if back is None:
            # no second iteration
            return self.peel(step, body, orelse, st, fr, ex, node, deps, base)
        # peel one iteration when the body distinguishes the first one
        if base < 2 and back is not None and self.tests_first(idx, base, normal, others, back, carried):
            return self.peel(step, body, orelse, st, fr, ex, node, deps, base)
        self.finish_loop(idx, base, carried, st0, normal, others, back, orelse, st, fr, ex, node)

    def one_iteration(self, step, body, s, index):
        """One abstract iteration from s: (normal exits, other exits, back-edge state)."""
        bex = []
        normal, others = [], []
        try:
            c, elem = step(s, bex, index)
            c = constrain(c, s.pc)
            done = s.fork(not_(c))
            if done.pc is not FALSE:
                normal.append(Exit('exhaust', done, NONE, None))
            s.pc = and_(s.pc, c)
            if s.pc is FALSE:
                raise Dead()
            alive = body(elem, s, bex)
        except Dead:
            alive = False
        back = [s] if alive else []
        nb = 0
        for e in bex:
            if e.kind == 'continue':
                back.append(e.st)
            elif e.kind == 'break':
                normal.append(e)
            else:
                others.append(e)
        back = self.merge(back) if back else None
        brk = [e for e in normal if e.kind == 'break']
        if len(brk) > 1:
            sm, _ = self.merge_exits(brk)
            normal = [e for e in normal if e.kind != 'break'] + [Exit('break', sm, NONE, brk[0].node)]
        rets = [e for e in others if e.kind == 'return']
        if len(rets) > 1:
            sm, v = self.merge_exits(rets)
            others = [e for e in others if e.kind != 'return'] + [Exit('return', sm, v, rets[0].node)]
        return normal, others, back

    def tests_first(self, idx, base, normal, others, back, carried):
        if base:
            pass
        def pred(t):
            return t.op == 'thr' and t.args[0] is idx and t.args[1] == 0
        ts = [back.pc] + [e.st.pc for e in normal + others] + [self.get_cell(back, k) for k in carried]
        for e in normal + others:
            ts += [self.get_cell(e.st, k) for k in carried if self.get_cell(e.st, k) is not None]
        for ev in back.trace.all():
            ts.append(ev.guard)
        memo = {}
        # only tests that do not come from the trip count itself
        return any(t is not None and tm.contains(t, pred, memo) for t in ts)

    def peel(self, step, body, orelse, st, fr, ex, node, deps, base):
        s = st.fork()
        normal, others, back = self.one_iteration(step, body, s, num(base, 'int', 0))
        ex.extend(others)
        states = []
        for e in normal:
            if e.kind == 'exhaust':
                if orelse(e.st):
                    states.append(e.st)
            else:
                states.append(e.st)
        if back is not None:
            try:
                self.loop(step, body, orelse, back, fr, ex, node, deps, base + 1)
                states.append(back)
            except Dead:
                pass
        if not states:
            st.pc = FALSE
            raise Dead()
        st.become(self.merge(states))

    # cells: ('v', fid, name) or heap keys

    def cells(self, s):
        for f, e in s.envs.items():
            for k in e:
                yield ('v', f, k)
        for k in s.heap:
            yield k

    def get_cell(self, s, k):
        if k[0] == 'v':
            e = s.envs.get(k[1])
            return None if e is None else e.get(k[2])
        return s.heap.get(k)

    def set_cell(self, s, k, v):
        if k[0] == 'v':
            s.envs[k[1]][k[2]] = v
        else:
            s.heap[k] = v

    def cell_sort(self, old, new):
        sorts = set()
        for v in (old, new):
            for _, l in leaves(v):
                if l.op in ('seq',):
                    sorts.add('seq:' + l.args[0])
                elif l.op == 'dict':
                    sorts.add('dict')
                else:
                    sorts.add(l.sort)
        sorts.discard('unbound')
        if len(sorts) == 1:
            return sorts.pop()
        if sorts and sorts <= set(tm.NUMERIC):
            return 'num'
        return 'any'

    def cell_symbol(self, k, tv, st0):
        """Value of a carried cell at the start of an iteration."""
        old = self.get_cell(st0, k)
        if tv.sort.startswith('seq:'):
            kind = tv.sort[4:]
            if kind in ('str', 'bytes'):
                return mk('tv', tv.args, kind)
            return seq(kind, [('s', TRUE, tv)])
        if tv.sort == 'dict':
            return dict_(tv, [])
        if tv.sort == 'none':
            return NONE
        return tv

    def back_value(self, k, back):
        return self.get_cell(back, k)

    def finish_loop(self, idx, base, carried, st0, normal, others, back, orelse, st, fr, ex, node):
        outer = st0.pc
        keys = list(carried)
        # values at the back edge, objects created in the body are summarised by value
        def fz(v, s):
            return None if v is None else self.freeze_new(v, s, st0)
        init = {k: self.get_cell(st0, k) for k in keys}
        stepv = {}
        symv = {k: self.cell_symbol(k, carried[k], st0) for k in keys}
        tvs = {k: (symv[k] if symv[k].op == 'tv' else carried[k]) for k in keys}
        if back is not None:
            for k in keys:
                stepv[k] = constrain(fz(self.get_cell(back, k), back), back.pc)
        # guards relative to the loop entry
        def rel(g):
            return constrain(g, outer)
        # linear induction variables
        sub = {}
        progress = True
        live = [k for k in keys]
        while progress:
            progress = False
            for k in list(live):
                if k not in stepv:
                    continue
                v = subst(stepv[k], sub) if sub else stepv[k]
                stepv[k] = v
                tv = tvs[k]
                if tm.isnumeric(tv) and tm.isnumeric(v) and v.op != 'ite' and init[k].op != 'ite' \
                        and tm.isnumeric(init[k]):
                    d = tm.p_add(v, tv, -1)
                    if not tm.contains(d, lambda t: t.op in ('tv', 'idx') and (t is idx or t in tvs.values())):
                        sub[tv] = tm.p_add(init[k], tm.p_mul(d, idx))
                        live.remove(k)
                        progress = True
                elif v is symv[k]:
                    sub[tv] = self.as_base(init[k])
                    live.remove(k)
                    progress = True
                elif v.op == 'seq' and init[k].op == 'seq' and v.args[1] and v.args[1][0] == ('s', TRUE, tv) and all(
                        t == 'e' and g2 is TRUE for t, g2, _ in v.args[1][1:]) and all(
                        t == 'e' and g2 is TRUE for t, g2, _ in init[k].args[1]):
                    n = tm.app('len', (tv,), 'int')
                    if n not in sub:
                        sub[n] = tm.p_add(num(len(init[k].args[1]), 'int', 0),
                                          tm.p_mul(num(len(v.args[1]) - 1, 'int', 0), idx))
                        progress = True
        if sub:
            for k in live:
                if k in stepv:
                    stepv[k] = subst(stepv[k], sub)
        # canonical names by colour refinement
        col = {k: mk('cv', (len(self.loop_idx), self.as_base(init[k])), tvs[k].sort) for k in live}
        for _ in range(4):
            m = {tvs[k]: col[k] for k in live}
            col = {k: mk('cv', (len(self.loop_idx), self.as_base(init[k]),
                                subst(stepv[k], m) if k in stepv else NONE), tvs[k].sort) for k in live}
        m = dict(sub)
        cm = {tvs[k]: col[k] for k in live}
        for k in list(sub):
            m[k] = subst(sub[k], cm)
        m.update(cm)
        memo = {}
        def fin(t):
            return None if t is None else subst(t, m, memo)
        allex = [('exhaust' if e.kind == 'exhaust' else e.kind, e) for e in normal] + [(e.kind, e) for e in others]
        exitinfo = []
        nr = 0
        for kind, e in allex:
            tag = kind
            if kind == 'raise':
                nr += 1
                tag = 'raise'
            exitinfo.append((tag, fin(rel(e.st.pc)), e))
        if not exitinfo:
            st.pc = FALSE
            # infinite loop: its events still happen
            self.loop_event(back, st0, None, fin, rel, st, node)
            raise Dead()
        stop = or_(*[g for _, g, _ in exitinfo])
        loopt = mk('loop', (len(self.loop_idx), stop), 'loop')
        # events of one iteration
        traces = []
        if back is not None:
            traces.append(back)
        traces += [e.st for _, _, e in exitinfo]
        evst = traces[0]
        for s2 in traces[1:]:
            evst = self.merge2(evst, s2)
        self.loop_event(evst, st0, loopt, fin, rel, st, node)
        tr = st.trace
        # leaving values
        res = []
        single = len(exitinfo) == 1
        om = {idx: (single and trip_count(stop, idx)) or mk('out', (loopt, idx), 'int')}
        for k in live:
            om[col[k]] = mk('out', (loopt, col[k]), col[k].sort)
        small = tm.size(stop, EXIT_LIMIT) <= EXIT_LIMIT
        if small and not single:
            # which exit was taken: its condition, in the last iteration
            cmemo = {}
            closed(stop, len(self.loop_idx), cmemo)
            last = subst(stop, om, cmemo)
        for i, (tag, g, e) in enumerate(exitinfo):
            if single:
                cond = TRUE
            elif small:
                closed(g, len(self.loop_idx), cmemo)
                cond = subst(g, om, cmemo)
                if last is not TRUE and cond is not FALSE:
                    cond = constrain(cond, last)
            else:
                cond = atom_bool(mk('exits', (loopt, g), 'bool'))
                if i == len(exitinfo) - 1:
                    # exactly one exit is taken
                    cond = and_(*[not_(atom_bool(mk('exits', (loopt, g2), 'bool'))) for _, g2, _ in exitinfo[:-1]])
            omemo = {}
            def leavev(v, s, omemo=omemo):
                if v is None:
                    return None
                v = fz(v, s)
                v = constrain(v, s.pc)
                v = self.collect_out(fin(v), live, tvs, col, symv, stepv, m, loopt, init, fin)
                closed(v, len(self.loop_idx), omemo)
                return subst(v, om, omemo)
            s2 = st0.fork()
            s2.pc = and_(outer, cond)
            s2.trace = tr
            if s2.pc is FALSE:
                continue
            for k in self.cells(e.st):
                v = self.get_cell(e.st, k)
                if k in carried or self.get_cell(st0, k) is not v:
                    if k[0] == 'v':
                        if k[1] in s2.envs:
                            s2.envs[k[1]][k[2]] = leavev(v, e.st)
                    else:
                        s2.heap[k] = leavev(v, e.st)
            val = leavev(e.value, e.st) if e.value is not None else None
            res.append((e, s2, val))
        states = []
        for e, s2, val in res:
            if e.kind == 'exhaust':
                if orelse(s2):
                    states.append(s2)
            elif e.kind == 'break':
                states.append(s2)
            else:
                ex.append(Exit(e.kind, s2, val, e.node))
        if not states:
            st.pc = FALSE
            raise Dead()
        st.become(self.merge(states))

    def as_base(self, v):
        return v

    def collect_out(self, v, live, tvs, col, symv, stepv, m, loopt, init, fin):
        """Replace accumulated sequences by initial items + collected items."""
        mp = {}
        for k in live:
            c = col[k]
            if k not in stepv:
                continue
            s = fin(stepv[k])
            if s.op == 'seq' and s.args[1] and s.args[1][0] == ('s', TRUE, c) and not any(
                    x is c or tm.contains(x, lambda t: t is c) or tm.contains(g, lambda t: t is c)
                    for _, g, x in s.args[1][1:]):
                coll = mk('collect', (loopt, s.args[1][1:]), s.args[0])
                ini = init[k]
                if ini.op == 'seq':
                    mp[c] = seq(ini.args[0], list(ini.args[1]) + [('s', TRUE, coll)])
                else:
                    mp[c] = seq(s.args[0], [('s', TRUE, ini), ('s', TRUE, coll)])
        if mp:
            v = subst_spread(v, mp)
        return v

    def freeze_new(self, v, s, st0):
        """Freeze references to objects that do not exist in st0."""
        if v.op == 'ite':
            return ite3(atom_bool(v.args[0]), self.freeze_new(v.args[1], s, st0), self.freeze_new(v.args[2], s, st0))
        if v.op == 'ref':
            if (v.args[0], 'alive') in st0.heap or (v.args[0], 'c') in st0.heap:
                return v
            return self.freeze(v, s)
        if v.op == 'tuple':
            return tuple_(*[self.freeze_new(x, s, st0) for x in v.args])
        if v.op == 'seq':
            return seq(v.args[0], [(t, g, self.freeze_new(x, s, st0)) for t, g, x in v.args[1]])
        if v.op == 'dict':
            return dict_(v.args[0], [(k, g, self.freeze_new(x, s, st0)) for k, g, x in v.args[1]])
        return v

    def loop_event(self, s, st0, loopt, fin, rel, st, node):
        if s is None:
            return
        l = trace_lca(s.trace, st0.trace)
        evs = s.trace.since(l)
        if not evs:
            return
        def conv(e):
            g = fin(rel(e.guard))
            return e.clone(recv=fin(e.recv) if e.recv is not None else None, args=tuple(fin(a) for a in e.args),
                           kw=tuple((k, fin(a)) for k, a in e.kw), guard=g, exc=fin(rel(e.exc)),
                           body=None if e.body is None else [conv(b) for b in e.body],
                           loop=None if e.loop is None else fin(e.loop),
                           res=None if e.res is None else fin(e.res))
        body = [conv(e) for e in evs]
        st.trace = Trace(st0.trace, Ev('loop', None, (), (), st0.pc, node, self.where(), body, loopt))

    # ------------------------------------------------------------ assignment

    def assign(self, t, v, st, fr, ex):
        if isinstance(t, ast.Name):
            self.store(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts, st, fr, ex, t)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr, ex)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr, ex)
            self.setattr(o, self.mangle(t.attr, fr), v, st, fr, ex, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr, ex)
            k = self.ev_slice(t.slice, st, fr, ex)
            self.setitem(o, k, v, st, fr, ex, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, ex)
        else:
            raise AnalysisError('assignment target %s' % type(t).__name__)

    def unpack(self, v, elts, st, fr, ex, node):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        v = constrain(v, st.pc)
        bad = FALSE
        for c, l in leaves(v):
            if l is NONE:
                bad = or_(bad, c)
        if bad is not FALSE:
            self.raise_(bad, excv('TypeError', const('cannot unpack None')), st, ex, node)
            v = constrain(v, st.pc)

        short = []

        def one(l):
            c = self.content(l, st) if l.op in ('ref', 'tuple', 'seq', 'inst') else None
            if c is not None and c.op == 'dict':
                c = tuple_(*[k for k, g, x in c.args[1]])
            if c is not None and c.op == 'tuple':
                xs = list(c.args)
            elif c is not None and c.op == 'seq' and all(tag == 'e' and g is TRUE for tag, g, x in c.args[1]):
                xs = [x for _, _, x in c.args[1]]
            elif isconst(l) and l.sort in ('str', 'bytes'):
                xs = [const(x) for x in pyval(l)]
            elif star:
                raise AnalysisError('starred unpacking of an unknown sequence')
            else:
                src = c if c is not None else l
                origin = src
                while origin.op == 'seq' and len(origin.args[1]) == 1 and origin.args[1][0][0] == 's':
                    origin = origin.args[1][0][2]
                if origin.op == 'collect' and len(origin.args[1]) == 1 and origin.args[1][0][1] is TRUE:
                    loop = origin.args[0]
                    count = trip_count(loop.args[1], mk('idx', (loop.args[0],), 'int'))
                    if count is not None and count.op == 'app' and count.args[0] == 'len':
                        origin = count.args[1][0]
                guarded = src.op == 'seq' and len(src.args[1]) <= 8 and all(tag == 'e' for tag, g, x in src.args[1])
                if guarded or self.unpack_counts and origin.op == 'app' and origin.args[0] in ('.split', '.rsplit'):
                    short.append(src)
                return tuple_(*[self.models.item(self, src, num(i, 'int', 0), st) for i in range(n)])
            if star:
                i = star[0]
                tail = n - i - 1
                if len(xs) < n - 1:
                    return None
                mid = xs[i:len(xs) - tail]
                return tuple_(*(xs[:i] + [self.alloc('list', st, list_(mid))] + xs[len(xs) - tail:]))
            if len(xs) != n:
                return None
            return tuple_(*xs)
        out = []
        for c, l in leaves(v):
            r = one(l)
            if short:
                count = self.models.length_leaf(self, short.pop(), st)
                self.raise_(and_(c, not_(lift(tm.eq_leaf, (count, num(n, 'int', 0))))), excv('ValueError', const('unpack count')),
                            st, ex, node)
                r = constrain(r, st.pc)
            if r is None:
                self.raise_(c, excv('ValueError', const('unpack count')), st, ex, node)
            else:
                out.append((c, r))
        r = out[-1][1]
        for c, x in reversed(out[:-1]):
            r = ite3(constrain(c, st.pc), x, r)
        if r.op != 'tuple':
            raise AnalysisError('unpacking %s' % show(r))
        return [constrain(x, st.pc) for x in r.args]

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr.cls is not None:
            return '_%s%s' % (fr.cls.name.lstrip('_'), name)
        return name

    def store(self, name, v, st, fr):
        name = self.mangle(name, fr)
        if name in fr.globals_:
            st.envs[self.modules[fr.module]][name] = v
            return
        if fr.locals is None or name in fr.locals:
            st.envs[fr.fid][name] = v
            return
        # nonlocal
        f = self.frame_parent.get(fr.fid)
        while f is not None:
            if name in st.envs.get(f, {}):
                st.envs[f][name] = v
                return
            f = self.frame_parent.get(f)
        st.envs[fr.fid][name] = v

    frame_parent = {}

    def name(self, name, st, fr, ex, node):
        name = self.mangle(name, fr)
        v = None
        if name not in fr.globals_:
            e = st.envs.get(fr.fid)
            if e is not None:
                v = e.get(name)
            if v is None and not (fr.locals is not None and name in fr.locals):
                f = fr.parent_fid
                while f is not None and v is None:
                    e = st.envs.get(f)
                    if e is not None:
                        v = e.get(name)
                    f = self.frame_parent.get(f)
        if v is None and (fr.locals is None or name not in fr.locals or name in fr.globals_):
            mf = self.modules.get(fr.module)
            v = st.envs.get(mf, {}).get(name)
            if v is None:
                v = self.base.envs.get(mf, {}).get(name)
            if v is None:
                v = self.builtin_name(name)
        if v is None:
            self.raise_(TRUE, excv('NameError', const(name)), st, ex, node)
        if v is UNBOUND or v.op == 'ite':
            v = constrain(v, st.pc)
            un = lift(lambda l: tm.boolc(l is UNBOUND), (v,))
            if un is not FALSE:
                self.raise_(un, excv('UnboundLocalError', const(name)), st, ex, node)
                v = constrain(v, st.pc)
        return v

    def builtin_name(self, name):
        if name in TYPES:
            return type_(name)
        if name in EXC_TREE or name in EXC_ALIAS:
            return exc_type(name)
        if name in BUILTIN_FUNCS:
            return builtin(name)
        if name == 'NotImplemented':
            return mk('const', ('NotImplemented', 'NotImplemented'), 'any')
        if name == '__debug__':
            return TRUE
        return None

    # ------------------------------------------------------------ expressions

    def ev(self, n, st, fr, ex):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError('%s:%s: unsupported expression %s' % (fr.module, n.lineno, type(n).__name__))
        return m(n, st, fr, ex)

    def e_Constant(self, n, st, fr, ex):
        return const(n.value)

    def e_Name(self, n, st, fr, ex):
        return self.name(n.id, st, fr, ex, n)

    def e_NamedExpr(self, n, st, fr, ex):
        v = self.ev(n.value, st, fr, ex)
        self.assign(n.target, v, st, fr, ex)
        return v

    def e_Tuple(self, n, st, fr, ex):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            c = self.display(n.elts, st, fr, ex)
            if all(t == 'e' and g is TRUE for t, g, x in c):
                return tuple_(*[x for _, _, x in c])
            return seq('tuple', c)
        return tuple_(*[self.ev(e, st, fr, ex) for e in n.elts])

    def display(self, elts, st, fr, ex):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fr, ex)
                out += self.models.items_of(self, v, st, fr, ex, e)
            else:
                out.append(('e', TRUE, self.ev(e, st, fr, ex)))
        return out

    def e_List(self, n, st, fr, ex):
        return self.alloc('list', st, seq('list', self.display(n.elts, st, fr, ex)))

    def e_Set(self, n, st, fr, ex):
        return self.alloc('set', st, self.models.dedupe(seq('set', self.display(n.elts, st, fr, ex))))

    def e_Dict(self, n, st, fr, ex):
        d = self.alloc('dict', st, EMPTY_DICT)
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, st, fr, ex)
                self.call_method(d, 'update', [o], {}, st, fr, ex, n)
            else:
                kk = self.ev(k, st, fr, ex)
                vv = self.ev(v, st, fr, ex)
                self.setitem(d, kk, vv, st, fr, ex, n)
        return d

    def e_Lambda(self, n, st, fr, ex):
        return self.make_func(n, st, fr, ex)

    def e_IfExp(self, n, st, fr, ex):
        c = self.cond(n.test, st, fr, ex)
        box = {}

        def arm(which, e):
            def run(s):
                try:
                    box[which] = self.ev(e, s, fr, ex)
                    return True
                except Dead:
                    return False
            return run
        self.branch(c, st, arm(1, n.body), arm(2, n.orelse))
        if 1 in box and 2 in box:
            return ite3(c, box[1], box[2])
        return box.get(1, box.get(2))

    def e_BoolOp(self, n, st, fr, ex):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], st, fr, ex)
        for e in n.values[1:]:
            c = constrain(self.truthof(v, st, fr, ex, e), st.pc)
            box = {}

            def run(s):
                try:
                    box['v'] = self.ev(e, s, fr, ex)
                    return True
                except Dead:
                    return False
            cur = v
            self.branch(c if isand else not_(c), st, run, lambda s: True)
            if 'v' in box:
                v = ite3(c, box['v'], cur) if isand else ite3(c, cur, box['v'])
            v = constrain(v, st.pc)
        return v

    def e_UnaryOp(self, n, st, fr, ex):
        v = self.ev(n.operand, st, fr, ex)
        if isinstance(n.op, ast.Not):
            return not_(self.truthof(v, st, fr, ex, n))
        v = self.need_num(v, st, ex, n)
        if isinstance(n.op, ast.USub):
            return lift(tm.p_neg, (v,))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return lift(lambda x: tm.p_add(tm.p_neg(x), ONE, -1), (v,))
        raise AnalysisError('unary operator')

    def need_num(self, v, st, ex, node):
        """Raise TypeError where v cannot be a number."""
        v = constrain(v, st.pc)

        def bad(l):
            if tm.isnumeric(l):
                return FALSE
            if l.sort == 'any':
                return isnone(l)
            return TRUE
        b = lift(bad, (v,))
        if b is not FALSE:
            self.raise_(b, excv('TypeError', const('unsupported operand')), st, ex, node)
            v = constrain(v, st.pc)
            v = lift(lambda l: l if (tm.isnumeric(l) or l.sort == 'any') else tm.BADNUM, (v,))
        return v

    def e_BinOp(self, n, st, fr, ex):
        a = self.ev(n.left, st, fr, ex)
        b = self.ev(n.right, st, fr, ex)
        return self.binop(n.op, a, b, st, fr, ex, n)

    def binop(self, op, a, b, st, fr, ex, n):
        return self.models.binop(self, op, a, b, st, fr, ex, n)

    def e_Compare(self, n, st, fr, ex):
        left = self.ev(n.left, st, fr, ex)
        res = None
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            if res is None:
                right = self.ev(r, st, fr, ex)
                res = self.compare(op, left, right, st, fr, ex, n)
            else:
                box = {}
                cur = left

                def run(s):
                    try:
                        box['r'] = self.ev(r, s, fr, ex)
                        box['v'] = self.compare(op, cur, box['r'], s, fr, ex, n)
                        return True
                    except Dead:
                        return False
                self.branch(constrain(truth(res), st.pc), st, run, lambda s: True)
                right = box.get('r', NONE)
                res = and_(truth(res), box['v']) if 'v' in box else FALSE
            left = right
        return res

    def compare(self, op, a, b, st, fr, ex, n):
        return self.models.compare(self, op, a, b, st, fr, ex, n)

    def e_JoinedStr(self, n, st, fr, ex):
        items = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                items.append(('s', TRUE, const(p.value)))
            else:
                v = self.ev(p.value, st, fr, ex)
                spec = ''
                if p.format_spec is not None:
                    s = self.ev(p.format_spec, st, fr, ex)
                    spec = pyval(s)
                items.append(('s', TRUE, self.models.format_value(self, v, p.conversion, spec, st, fr, ex, n)))
        return seq('str', items)

    def e_FormattedValue(self, n, st, fr, ex):
        return self.models.format_value(self, self.ev(n.value, st, fr, ex), n.conversion, '', st, fr, ex, n)

    def e_Attribute(self, n, st, fr, ex):
        o = self.ev(n.value, st, fr, ex)
        return self.getattr(o, self.mangle(n.attr, fr), st, fr, ex, n)

    def e_Subscript(self, n, st, fr, ex):
        o = self.ev(n.value, st, fr, ex)
        k = self.ev_slice(n.slice, st, fr, ex)
        return self.getitem(o, k, st, fr, ex, n)

    def ev_slice(self, s, st, fr, ex):
        if isinstance(s, ast.Slice):
            return mk('slice', tuple(NONE if x is None else self.ev(x, st, fr, ex) for x in (s.lower, s.upper, s.step)),
                      'slice')
        return self.ev(s, st, fr, ex)

    def comp(self, gens, st, fr, ex, emit, node):
        """Run comprehension generators; emit(state, exits) evaluates and appends the element."""
        fid = self.new_fid()
        names = set()
        for g in gens:
            names |= target_names(g.target)
        cfr = Frame(fid, fr.func, fr.module, fr.fid, names, fr.cls)
        cfr.yield_hook = fr.yield_hook
        self.frame_parent[fid] = fr.fid
        st.envs[fid] = {}

        def run(i, s, e2):
            if i == len(gens):
                try:
                    emit(s, cfr, e2)
                    return True
                except Dead:
                    return False
            g = gens[i]
            try:
                it = self.ev_iter(g.iter, s, cfr if i else fr_iter(cfr), e2)

                def body(v, s2, bex):
                    try:
                        self.assign(g.target, v, s2, cfr, bex)
                        alive = True
                        for t in g.ifs:
                            c = self.cond(t, s2, cfr, bex)
                            keep = s2.fork(not_(c))
                            if keep.pc is not FALSE:
                                bex.append(Exit('continue', keep, NONE, t))
                            s2.pc = and_(s2.pc, c)
                            if s2.pc is FALSE:
                                return False
                        return run(i + 1, s2, bex)
                    except Dead:
                        return False
                self.iterate(it, body, lambda s2: True, s, cfr, e2, node)
                return True
            except Dead:
                return False

        def fr_iter(c):
            return c
        if not run(0, st, ex):
            raise Dead()
        st.envs.pop(fid, None)

    def e_ListComp(self, n, st, fr, ex, kind='list'):
        tmp = self.alloc('list', st, seq('list', []))

        def emit(s, cfr, e2):
            v = self.ev(n.elt, s, cfr, e2)
            c = s.heap[(tmp.args[0], 'c')]
            s.heap[(tmp.args[0], 'c')] = seq('list', list(c.args[1]) + [('e', TRUE, v)])
        self.comp(n.generators, st, fr, ex, emit, n)
        return tmp

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, fr, ex):
        l = self.e_ListComp(n, st, fr, ex)
        c = st.heap[(l.args[0], 'c')]
        return self.alloc('set', st, self.models.dedupe(seq('set', c.args[1])))

    def e_DictComp(self, n, st, fr, ex):
        tmp = self.alloc('dict', st, EMPTY_DICT)

        def emit(s, cfr, e2):
            k = self.ev(n.key, s, cfr, e2)
            v = self.ev(n.value, s, cfr, e2)
            self.setitem(tmp, k, v, s, cfr, e2, n)
        self.comp(n.generators, st, fr, ex, emit, n)
        return tmp

    def e_Yield(self, n, st, fr, ex):
        v = NONE if n.value is None else self.ev(n.value, st, fr, ex)
        if fr.yield_hook is None:
            raise AnalysisError('yield outside an inlined generator')
        return fr.yield_hook(v, st, fr, ex)

    def e_YieldFrom(self, n, st, fr, ex):
        it = self.ev_iter(n.value, st, fr, ex)

        def body(v, s, bex):
            try:
                fr.yield_hook(v, s, fr, bex)
                return True
            except Dead:
                return False
        self.iterate(it, body, lambda s: True, st, fr, ex, n)
        return NONE

    def e_Starred(self, n, st, fr, ex):
        raise AnalysisError('starred expression')

    # ------------------------------------------------------------ calls

    def e_Call(self, n, st, fr, ex):
        self.call_sites += 1
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and self.name('super', st, fr, ex, n).op == 'builtin':
            return self.make_super(n, st, fr, ex)
        f = None
        if isinstance(n.func, ast.Attribute):
            o = self.ev(n.func.value, st, fr, ex)
            f = ('m', o, self.mangle(n.func.attr, fr))
        else:
            f = self.ev(n.func, st, fr, ex)
        args, kwargs = self.ev_args(n, st, fr, ex)
        if isinstance(f, tuple):
            return self.call_method(f[1], f[2], args, kwargs, st, fr, ex, n)
        return self.call(f, args, kwargs, st, fr, ex, n)

    def ev_args(self, n, st, fr, ex):
        args = []
        kwargs = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr, ex)
                items = self.models.items_of(self, v, st, fr, ex, a)
                if all(t == 'e' and g is TRUE for t, g, x in items):
                    args += [x for _, _, x in items]
                else:
                    args.append(mk('star', (seq('list', items),), 'star'))
            else:
                args.append(self.ev(a, st, fr, ex))
        for k in n.keywords:
            v = self.ev(k.value, st, fr, ex)
            if k.arg is None:
                c = self.content(constrain(v, st.pc), st)
                if c is None or c.op != 'dict':
                    raise AnalysisError('** of unknown mapping')
                if c.args[0] is not None:
                    kwargs['**'] = c
                else:
                    for kk, g, x in c.args[1]:
                        if not isconst(kk):
                            raise AnalysisError('** with computed keys')
                        if g is TRUE:
                            kwargs[pyval(kk)] = x
                        else:
                            kwargs[pyval(kk)] = mk('guarded', (g, x), 'guarded')
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def make_super(self, n, st, fr, ex):
        args = [self.ev(a, st, fr, ex) for a in n.args]
        if args:
            cls, obj = args[0], args[1] if len(args) > 1 else NONE
            kind = self.info(obj).get('cls') if obj.op == 'ref' else None
            if cls.op in ('ref', 'num', 'const', 'dict', 'seq', 'tuple') or obj is NONE or kind is not None and \
                    cls.op == 'class' and cls not in kind.mro:
                self.raise_(TRUE, excv('TypeError', const('super')), st, ex, n)
        else:
            if fr.cls is None or fr.func is None:
                raise AnalysisError('super() outside a method')
            cls = mk('class', (fr.cls.qual,), 'type')
            a0 = (fr.func.node.args.posonlyargs + fr.func.node.args.args)[0].arg
            obj = st.envs[fr.fid][a0]
        return mk('super', (cls, obj), 'obj')

    def call(self, f, args, kwargs, st, fr, ex, node):
        f = constrain(f, st.pc)
        if f.op == 'ite':
            return self.fork_on(f, st, lambda l, s: self.call(l, args, kwargs, s, fr, ex, node))
        if f.op == 'func':
            fn = self.funcs[f.args[0]]
            return self.call_func(fn, f, args, kwargs, st, ex, node)
        if f.op == 'bound':
            return self.call(f.args[0], [f.args[1]] + list(args), kwargs, st, fr, ex, node)
        if f.op in ('staticmethod', 'classmethod'):
            return self.call(f.args[0], args, kwargs, st, fr, ex, node)
        if f.op == 'class':
            return self.instantiate(f, args, kwargs, st, fr, ex, node)
        if f.op == 'type' and (f.args[0] in EXC_TREE):
            return mk('excv', (f, tuple_(*[self.plain(a) for a in args])), 'exc')
        if f.op == 'builtin' or f.op == 'type':
            return self.models.call_builtin(self, f.args[0], args, kwargs, st, fr, ex, node)
        if f.op == 'bmethod':
            return self.call_method(f.args[0], f.args[1], args, kwargs, st, fr, ex, node)
        if f.op == 'partial':
            return self.call(f.args[0], list(f.args[1].args) + args, dict(f.args[2], **kwargs), st, fr, ex, node)
        if f.op == 'enumcls':
            raise AnalysisError('enum')
        if f.op == 'ref' and self.info(f)['kind'] == 'inst':
            m = self.mro_lookup(self.info(f)['cls'], '__call__', st)
            if m is not None:
                return self.call(m, [f] + args, kwargs, st, fr, ex, node)
        if f is NONE or isconst(f):
            self.raise_(TRUE, excv('TypeError', const('not callable')), st, ex, node)
        return self.models.call_external(self, f, args, kwargs, st, fr, ex, node)

    def plain(self, a):
        return a

    def call_func(self, fn, ft, args, kwargs, st, ex, node):
        ov = self.overrides.get(fn.qual)
        if ov is not None:
            return ov(self, fn, args, kwargs, st, ex, node)
        if fn.isgen:
            if fn.is_cm:
                return mk('gencm', (ft.args[0], tuple_(*args), tuple(sorted(kwargs.items()))), 'obj')
            # eager evaluation of a generator: collect what it yields
            tmp = self.alloc('list', st, seq('list', []))

            def hook(v, s, gfr, gex):
                c = s.heap[(tmp.args[0], 'c')]
                s.heap[(tmp.args[0], 'c')] = seq('list', list(c.args[1]) + [('e', TRUE, v)])
                return NONE
            self.invoke(fn, args, kwargs, st, ex, node, hook)
            return tmp
        return self.invoke(fn, args, kwargs, st, ex, node)

    frame_hook = None

    def invoke(self, fn, args, kwargs, st, ex, node, hook=None):
        if self.frame_hook is not None and fn.module.startswith('weatherlink') and not any(
                f.module.startswith('weatherlink') for f, _ in self.stack):
            after = self.frame_hook(self, fn, args, kwargs, st)
            n = len(ex)
            try:
                return self.invoke2(fn, args, kwargs, st, ex, node, hook)
            finally:
                after(st, ex[n:])
        return self.invoke2(fn, args, kwargs, st, ex, node, hook)

    def invoke2(self, fn, args, kwargs, st, ex, node, hook=None):
        if self.depth > self.MAX_DEPTH or sum(1 for f, _ in self.stack if f is fn) > 6:
            raise AnalysisError('call depth exceeded at %s' % fn.qual)
        fid = self.new_fid()
        nfr = Frame(fid, fn, fn.module, fn.parent_fid, fn.locals, fn.cls)
        nfr.yield_hook = hook
        self.frame_parent[fid] = fn.parent_fid
        st.envs[fid] = {}
        self.bind(fn, args, kwargs, st, nfr, ex, node)
        self.analysed[fn.qual] = (self.mod_path.get(fn.module), fn.node.lineno)
        self.depth += 1
        self.stack.append((fn, node))
        pc0 = st.pc
        fex = []
        try:
            if isinstance(fn.node, ast.Lambda):
                try:
                    v = self.ev(fn.node.body, st, nfr, fex)
                    fex.append(Exit('return', st.fork(), v, fn.node))
                except Dead:
                    pass
            else:
                if self.block(fn.node.body, st, nfr, fex):
                    fex.append(Exit('return', st.fork(), NONE, fn.node))
        finally:
            self.depth -= 1
            self.stack.pop()
        rets = []
        for e in fex:
            if e.kind == 'return':
                rets.append(e)
            elif e.kind == 'raise':
                ex.append(e)
            else:
                raise AnalysisError('%s outside a loop' % e.kind)
        if not rets:
            st.pc = FALSE
            raise Dead()
        s, v = self.merge_exits(rets)
        keep = self.captured(fn)
        if not keep:
            s.envs.pop(fid, None)
            for e in ex:
                pass
        st.become(s)
        return constrain(v, st.pc)

    def captured(self, fn):
        r = getattr(fn, '_captured', None)
        if r is None:
            r = any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.GeneratorExp, ast.ClassDef))
                    for b in ([fn.node.body] if isinstance(fn.node, ast.Lambda) else fn.node.body)
                    for x in ast.walk(b))
            fn._captured = r
        return r

    def bind(self, fn, args, kwargs, st, fr, ex, node):
        a = fn.node.args
        env = st.envs[fr.fid]
        pos = a.posonlyargs + a.args
        kwargs = dict(kwargs)
        nd = len(fn.defaults)
        args = list(args)
        if any(x.op == 'star' for x in args):
            if a.vararg is None or args.index(next(x for x in args if x.op == 'star')) < len(pos):
                raise AnalysisError('call of %s with an argument list of unknown length' % fn.qual)
        extra = args[len(pos):]
        bad = False
        for i, p in enumerate(pos):
            if i < len(args):
                v = args[i]
                if p.arg in kwargs:
                    bad = True
            elif p.arg in kwargs:
                v = kwargs.pop(p.arg)
                if v.op == 'guarded':
                    di = i - (len(pos) - nd)
                    if di < 0:
                        self.raise_(not_(v.args[0]), excv('TypeError', const('missing argument')), st, ex, node)
                        v = v.args[1]
                    else:
                        v = ite3(v.args[0], v.args[1], fn.defaults[di])
            else:
                di = i - (len(pos) - nd)
                if di < 0:
                    bad = True
                    break
                v = fn.defaults[di]
            env[p.arg] = v
        if not bad:
            for p, d in zip(a.kwonlyargs, fn.kwdefaults):
                if p.arg in kwargs:
                    env[p.arg] = kwargs.pop(p.arg)
                elif d is not None:
                    env[p.arg] = d
                else:
                    bad = True
        if a.vararg is not None:
            env[a.vararg.arg] = tuple_(*extra) if not any(x.op == 'star' for x in extra) else seq(
                'tuple', [('s', TRUE, x.args[0]) if x.op == 'star' else ('e', TRUE, x) for x in extra])
        elif extra:
            bad = True
        if a.kwarg is not None:
            base = kwargs.pop('**', None)
            ents = [] if base is None else list(base.args[1])
            d = dict_(None if base is None else base.args[0], ents + [
                (const(k), v.args[0] if v.op == 'guarded' else TRUE, v.args[1] if v.op == 'guarded' else v)
                for k, v in kwargs.items()])
            env[a.kwarg.arg] = self.alloc('dict', st, d)
        elif kwargs:
            bad = True
        if bad:
            self.raise_(TRUE, excv('TypeError', const('arguments of %s' % fn.qual)), st, ex, node)

    # ------------------------------------------------------------ classes and objects

    def mro_lookup(self, cls, name, st, after=None):
        mro = cls.mro
        if after is not None:
            mro = mro[[b for b in range(len(mro)) if mro[b] is after][0] + 1:]
        for b in mro:
            if b.op == 'class':
                v = st.heap.get(('C', b.args[0], name))
                if v is not None:
                    return v
            else:
                r = self.models.base_attr(self, b, name)
                if r is not None:
                    return r
        return None

    def class_attr(self, c, name, st):
        if c.op == 'class':
            v = self.mro_lookup(self.classes[c.args[0]], name, st)
            if v is None:
                return None
            if v.op == 'staticmethod':
                return v.args[0]
            if v.op == 'classmethod':
                return mk('bound', (v.args[0], c), 'func')
            return v
        if c.op == 'enum':
            return st.heap.get(('E',) + c.args + (name,))
        return None

    def instantiate(self, ct, args, kwargs, st, fr, ex, node):
        cls = self.classes[ct.args[0]]
        if cls.enum:
            if len(args) != 1:
                raise AnalysisError('enum call')
            return self.enum_by_value(cls, args[0], st, fr, ex, node)
        if any(b.op == 'type' and b.args[0] in EXC_TREE for b in cls.mro):
            init = self.mro_lookup(cls, '__init__', st)
            return mk('excv', (ct, tuple_(*[self.freeze(a, st) for a in args])), 'exc')
        if any(b.op == 'ntbase' for b in cls.mro):
            return self.models.make_namedtuple(self, [b for b in cls.mro if b.op == 'ntbase'][0], args, kwargs, st, fr,
                                               ex, node)
        o = self.alloc('inst', st, None, cls)
        st.heap[(o.args[0], 'alive')] = TRUE
        for b in cls.mro:
            if b.op == 'type' and b.args[0] in ('dict', 'list', 'set'):
                self.objinfo[o.args[0]]['builtin'] = b.args[0]
                st.heap[(o.args[0], 'c')] = EMPTY_DICT if b.args[0] == 'dict' else seq(b.args[0], [])
            if b.op == 'extattr' and b.args[0] in ('collections.OrderedDict',):
                self.objinfo[o.args[0]]['builtin'] = 'dict'
                st.heap[(o.args[0], 'c')] = EMPTY_DICT
        init = self.mro_lookup(cls, '__init__', st)
        if init is not None and init.op == 'bmethod0':
            self.call(mk('bmethod', (o, 'super.__init__'), 'func'), list(args), kwargs, st, fr, ex, node)
        elif init is not None:
            self.call(init, [o] + list(args), kwargs, st, fr, ex, node)
        elif args or kwargs:
            self.raise_(TRUE, excv('TypeError', const('arguments')), st, ex, node)
        return o

    def enum_by_value(self, cls, v, st, fr, ex, node):
        v = constrain(v, st.pc)
        ints = {}
        other = []
        for name, val, e in cls.members:
            if tm.is_int_const(val):
                ints[int(val.args[0])] = e
            else:
                other.append((val, e))

        def leaf(l):
            if l.op == 'enum' and l.args[0] == cls.qual:
                return l
            if tm.isnumeric(l) or l.sort == 'any':
                r = self.models.int_map(l, ints) if ints else UNBOUND
            else:
                r = UNBOUND
            for val, e in other:
                r = ite3(eq(l, val), e, r)
            return r
        r = lift(leaf, (v,))
        bad = lift(lambda l: tm.boolc(l is UNBOUND), (r,))
        if bad is not FALSE:
            self.raise_(bad, excv('ValueError', const('not a valid %s' % cls.name)), st, ex, node)
        return constrain(r, st.pc)

    def getattr(self, o, name, st, fr, ex, node, default=None):
        o = constrain(o, st.pc)
        if o.op == 'ite':
            return self.fork_on(o, st, lambda l, s: self.getattr(l, name, s, fr, ex, node, default))
        v = self.attr_leaf(o, name, st, fr, ex, node)
        if v is None or v is UNBOUND:
            if default is not None:
                return default
            self.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
        if v.op == 'ite':
            v = constrain(v, st.pc)
            un = lift(lambda l: tm.boolc(l is UNBOUND), (v,))
            if un is not FALSE:
                if default is not None:
                    return lift(lambda l: default if l is UNBOUND else l, (v,))
                self.raise_(un, excv('AttributeError', const(name)), st, ex, node)
                v = constrain(v, st.pc)
        return v

    def attr_leaf(self, o, name, st, fr, ex, node):
        op = o.op
        if op == 'ref':
            inf = self.info(o)
            if inf['kind'] == 'inst':
                cls = inf['cls']
                cv = self.mro_lookup(cls, name, st)
                if cv is not None and cv.op == 'property':
                    return self.call(cv.args[0], [o], {}, st, fr, ex, node)
                v = st.heap.get((o.args[0], 'a', name))
                if v is not None:
                    return v
                if name == '__class__':
                    return mk('class', (cls.qual,), 'type')
                if name == '__dict__':
                    return mk('idict', (o,), 'obj')
                if cv is not None:
                    if cv.op == 'func':
                        return mk('bound', (cv, o), 'func')
                    if cv.op == 'staticmethod':
                        return cv.args[0]
                    if cv.op == 'classmethod':
                        return mk('bound', (cv.args[0], mk('class', (cls.qual,), 'type')), 'func')
                    if cv.op == 'bmethod0':
                        return mk('bmethod', (o, name), 'func')
                    return cv
                if inf.get('builtin') and self.models.has_method(inf['builtin'], name):
                    return mk('bmethod', (o, name), 'func')
                ga = self.mro_lookup(cls, '__getattr__', st)
                if ga is not None:
                    return self.call(ga, [o, const(name)], {}, st, fr, ex, node)
                return None
            return mk('bmethod', (o, name), 'func') if self.models.known_attr(inf['kind'], name) else None
        if op == 'class':
            cls = self.classes[o.args[0]]
            if name == '__name__':
                return const(cls.name)
            if name in ('__members__',) and cls.enum:
                return dict_(None, [(const(nm), TRUE, e) for nm, v, e in cls.members])
            v = self.class_attr(o, name, st)
            if v is not None and v.op == 'bmethod0':
                return mk('unboundm', (o, name), 'func')
            return v
        if op == 'enum':
            v = st.heap.get(('E',) + o.args + (name,))
            if v is not None:
                return v
            cls = self.classes[o.args[0]]
            v = self.mro_lookup(cls, name, st)
            if v is not None:
                if v.op == 'func':
                    return mk('bound', (v, o), 'func')
                if v.op == 'property':
                    return self.call(v.args[0], [o], {}, st, fr, ex, node)
                if v.op == 'staticmethod':
                    return v.args[0]
                if v.op == 'classmethod':
                    return mk('bound', (v.args[0], mk('class', (cls.qual,), 'type')), 'func')
                return v
            return None
        if op == 'super':
            cls, obj = o.args
            if obj.op == 'ref':
                start = self.info(obj)['cls']
            elif obj.op == 'class':
                start = self.classes[obj.args[0]]
            else:
                raise AnalysisError('super of %s' % show(obj))
            v = self.mro_lookup(start, name, st, cls)
            if v is None:
                if name == '__init__':
                    return builtin('object.__init__')
                if self.info(obj).get('builtin') if obj.op == 'ref' else None:
                    return mk('bmethod', (obj, name), 'func')
                if name in ('__setattr__', '__getattribute__') and obj.op == 'ref':
                    return mk('bmethod', (obj, 'object.' + name), 'func')
                return None
            if v.op == 'func':
                return mk('bound', (v, obj), 'func')
            if v.op == 'property':
                return self.call(v.args[0], [obj], {}, st, fr, ex, node)
            if v.op == 'bmethod0':
                return mk('bmethod', (obj, 'super.' + name), 'func')
            if v.op == 'classmethod':
                return mk('bound', (v.args[0], obj if obj.op == 'class' else mk('class', (start.qual,), 'type')), 'func')
            return v
        if op == 'mod':
            n = o.args[0]
            if self.find(n)[0]:
                v = self.module_attr(n, name, st)
                if v is None:
                    v = self.module_attr(n, name)
                return v
            return self.models.module_attr(self, n, name)
        if op == 'property' and name == 'setter':
            return mk('propsetter', (o,), 'func')
        if op == 'property' and name == 'getter':
            return mk('identity', (), 'func')
        if op == 'func' and name in ('__name__', '__doc__'):
            return const(self.funcs[o.args[0]].name)
        if op == 'inst':
            v = self.models.dict_lookup(o.args[1], const(name))
            if v[1] is not FALSE:
                return v[0]
            cls = self.classes[o.args[0]]
            cv = self.mro_lookup(cls, name, st)
            if cv is not None and cv.op == 'property':
                return self.call(cv.args[0], [o], {}, st, fr, ex, node)
            if cv is not None and cv.op == 'func':
                return mk('bound', (cv, o), 'func')
            if cv is not None and cv.op not in ('bmethod0',):
                return cv
            if o.args[2] is not None:
                if self.mro_lookup(cls, '__getattr__', st) is not None and not self.models.has_method('dict', name):
                    return self.getitem(o, const(name), st, fr, ex, node)
                return mk('bmethod', (o, name), 'func')
            return None
        return self.models.attr_external(self, o, name, st, fr, ex, node)

    def setattr(self, o, name, v, st, fr, ex, node):
        o = constrain(o, st.pc)
        if o.op == 'ite':
            return self.fork_on(o, st, lambda l, s: self.setattr(l, name, v, s, fr, ex, node) or NONE)
        if o.op == 'ref':
            inf = self.info(o)
            if inf['kind'] == 'inst':
                cls = inf['cls']
                cv = self.mro_lookup(cls, name, st)
                if cv is not None and cv.op == 'property':
                    if len(cv.args) < 2:
                        self.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
                    self.call(cv.args[1], [o, v], {}, st, fr, ex, node)
                    return NONE
                sa = self.mro_lookup(cls, '__setattr__', st)
                if sa is not None and sa.op == 'func':
                    self.call(sa, [o, const(name), v], {}, st, fr, ex, node)
                    return NONE
                st.heap[(o.args[0], 'a', name)] = v
                return NONE
            raise AnalysisError('attribute of a builtin object: %s' % name)
        if o.op == 'class':
            st.heap[('C', o.args[0], name)] = v
            self.event('setattr:class', o, (const(name), v), {}, st, node)
            return NONE
        if o.op == 'enum':
            st.heap[('E',) + o.args + (name,)] = v
            return NONE
        if o.op == 'mod' and self.find(o.args[0])[0]:
            st.envs[self.load(o.args[0])][name] = v
            return NONE
        if o is NONE:
            self.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
        self.models.setattr_external(self, o, name, v, st, fr, ex, node)
        return NONE

    def getitem(self, o, k, st, fr, ex, node):
        if o.op == 'idict':
            v = st.heap.get((o.args[0].args[0], 'a', pyval(k)), UNBOUND)
            if v is UNBOUND:
                self.raise_(TRUE, excv('KeyError', k), st, ex, node)
            return v
        return self.models.getitem(self, o, k, st, fr, ex, node)

    def setitem(self, o, k, v, st, fr, ex, node):
        o = constrain(o, st.pc)
        if o.op == 'idict':
            st.heap[(o.args[0].args[0], 'a', pyval(k))] = v
            return NONE
        return self.fork_on(o, st, lambda l, s: self.models.set_item(self, l, k, v, s, fr, ex, node))

    def call_method(self, o, name, args, kwargs, st, fr, ex, node):
        o = constrain(o, st.pc)
        if o.op == 'ite':
            return self.fork_on(o, st, lambda l, s: self.call_method(l, name, args, kwargs, s, fr, ex, node))
        if o.op in ('ref', 'inst') and (o.op == 'inst' or self.info(o)['kind'] == 'inst'):
            if name.startswith('super.') or name.startswith('object.'):
                return self.models.container_method(self, o, name.split('.', 1)[1], args, kwargs, st, fr, ex, node)
            f = self.attr_leaf(o, name, st, fr, ex, node)
            if f is None:
                self.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
            if f.op == 'bmethod' and f.args[0] is o:
                return self.models.container_method(self, o, name, args, kwargs, st, fr, ex, node)
            return self.call(f, args, kwargs, st, fr, ex, node)
        if o.op == 'ref' or o.op in ('tuple', 'seq', 'dict'):
            return self.models.container_method(self, o, name, args, kwargs, st, fr, ex, node)
        if o.op in ('class', 'enum', 'super', 'mod', 'func', 'property'):
            f = self.getattr(o, name, st, fr, ex, node)
            if f.op == 'bmethod':
                n2 = f.args[1].split('.')[-1]
                return self.models.container_method(self, f.args[0], n2, args, kwargs, st, fr, ex, node)
            if f.op == 'unboundm':
                return self.models.container_method(self, args[0], name, args[1:], kwargs, st, fr, ex, node)
            return self.call(f, args, kwargs, st, fr, ex, node)
        if o is NONE:
            self.raise_(TRUE, excv('AttributeError', const(name)), st, ex, node)
        return self.models.method_external(self, o, name, args, kwargs, st, fr, ex, node)

    # ------------------------------------------------------------ events

    def where(self):
        return tuple(f.qual for f, _ in self.stack)

    def event(self, name, recv, args, kwargs, st, node, sort=None, ex=None, raises=True):
        args = tuple(constrain(self.freeze(a, st), st.pc) for a in args)
        kw = tuple(sorted((k, constrain(self.freeze(v, st), st.pc)) for k, v in kwargs.items()))
        if recv is not None:
            recv = self.freeze(recv, st)
        n = 0
        t = st.trace
        while t.parent is not None:
            e = t.ev
            if e.name == name and e.recv is recv and e.args == args and e.kw == kw and and_(e.guard, st.pc) is not FALSE:
                n += 1
            t = t.parent
        res = mk('res', (name, recv, args, kw, n, tuple(self.loop_idx)), sort or 'any')
        e = Ev(name, recv, args, kw, st.pc, node, self.where(), res=res)
        st.trace = Trace(st.trace, e)
        if self.exc_mode and raises and ex is not None and (self.may_raise is None or self.may_raise(name)):
            c = atom_bool(mk('raises', (name, recv, args, kw, n, tuple(self.loop_idx)), 'bool'))
            e.exc = and_(st.pc, c)
            self.raise_(c, mk('excval', (res,), 'exc'), st, ex, node)
        return res


class Iter(object):
    """Either a known sequence of guarded elements, or has(i)/at(i) over a symbolic index."""
    def __init__(self, items=None, has=None, at=None, deps=(), cursor=None, ask=None, until=None):
        self.items, self.has, self.at, self.deps, self.cursor = items, has, at, deps, cursor
        self.ask, self.until = ask, until       # the elements are what a call returns, until it returns this value


def closed(v, depth, memo):
    """Loops and collections of this depth inside v bind their index: substitution leaves them alone."""
    seen = set()

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'loop' and x.args[0] == depth or x.op in ('collect', 'out') and x.args[0].args[0] == depth:
                memo[x] = x
            elif x.op == 'exits' and x.args[0].args[0] == depth:
                memo[('atom', x)] = atom_bool(x)
            else:
                walk(x.args)
    walk(v)


def trip_count(g, idx):
    """How often a loop runs whose only exit is at the first index, from 0, where g holds: if g is 'idx >= n'."""
    if g.op != 'ite' or g.args[1].op != 'const' or g.args[2].op != 'const' or g.args[0].op != 'thr':
        return None
    q = g.args[0].args[0]
    d = tm.to_poly(q)
    c = d.get(((idx, 1),))
    if c not in (1, -1):
        return None
    x = g.args[0].args[1]
    n = tm.p_add(tm.p_mul(num(-c, 'int'), tm.p_add(q, num(x), -1)), idx)
    if tm.contains(n, lambda t: t.op in ('idx', 'cv', 'tv')) and in_a_loop(n):
        return None
    for k in (-1, 0, 1):
        m = tm.p_add(n, num(k, 'int'))
        if not_(tm.cmp_le(idx, m, 0)) is g:
            return ite3(tm.cmp_le(ZERO, m, 1), m, ZERO)
    return None


def in_a_loop(t):
    """Whether the value changes from round to round of a loop it is not the outcome of."""
    seen = set()

    def walk(x, bound):
        if isinstance(x, tuple):
            return any(walk(y, bound) for y in x)
        if not isinstance(x, T) or (x, bound) in seen:
            return False
        seen.add((x, bound))
        if x.op == 'tv' or x.op in ('idx', 'cv') and x.args[0] not in bound:
            return True
        if x.op in ('out', 'collect'):
            bound = bound | {x.args[0].args[0]}
        return walk(x.args, bound)
    return walk(t, frozenset())


def subst_spread(v, mp):
    """Substitute accumulated-sequence symbols that occur as spreads (or alone)."""
    memo = {}
    return subst(v, {k: x for k, x in mp.items()}, memo)


_locals_memo = {}


def local_names(n):
    """Names bound in a function body."""
    out = set()
    a = n.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(p.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    nl = set()

    def walk(x):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
            for d in x.decorator_list:
                walk(d)
            return
        if isinstance(x, ast.Lambda):
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    out.add(y.target.id)
            return
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            nl.update(x.names)
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names:
                out.add(al.asname or al.name.split('.')[0])
        for c in ast.iter_child_nodes(x):
            walk(c)
    if isinstance(n, ast.Lambda):
        walk(n.body)
    else:
        for s in n.body:
            walk(s)
    return out - nl


def is_generator(n):
    if isinstance(n, ast.Lambda):
        return False

    def walk(x):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(walk(c) for c in ast.iter_child_nodes(x))
    return any(walk(s) for s in n.body)


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
