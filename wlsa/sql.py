"""The subset of SQL that the package speaks: statements given as text terms become syntax trees."""
import re

from . import terms as tm
from .terms import T, AnalysisError, const, num, TRUE

TOKEN = re.compile(r"\s*(?:(`[^`]*`|[A-Za-z_$][\w$]*(?:\.[A-Za-z_`][\w$`]*)?)|(\d+(?:\.\d+)?)|('(?:[^'\\]|''|\\.)*'|\"[^\"]*\")|(%\(\w+\)s|%s)"
                   r"|(<=>|<>|!=|<=|>=|:=|[-=<>(),;*+/]))")
AGG = ('min', 'max', 'avg', 'sum', 'count')


class SQLError(Exception):
    """The statement is not one that the server accepts."""


def tokens(t):
    """[(kind, value)] of a text term without alternatives."""
    pieces = [x for _, _, x in t.args[1]] if t.op == 'seq' else [t]
    if t.op == 'seq' and any(g is not TRUE for _, g, x in t.args[1]):
        raise AnalysisError('statement text with conditional pieces')
    out = []
    glue = False
    for p in pieces:
        if tm.isconst(p):
            s = p.args[1] if p.op == 'const' else str(tm.pyval(p))
            i = 0
            s = s.rstrip()
            while i < len(s):
                m = TOKEN.match(s, i)
                if not m:
                    raise SQLError('near %r' % s[i:i + 30])
                i = m.end()
                w, n, q, p_, o = m.groups()
                if w:
                    out.append(('word', w.replace('`', '').split('.')[-1]))
                elif n:
                    out.append(('lit', num(int(n) if '.' not in n else tm.Fraction(n), 'int' if '.' not in n else 'dec',
                                           0 if '.' not in n else None)))
                elif q:
                    out.append(('lit', const(q[1:-1].replace("''", "'"))))
                elif p_:
                    out.append(('par', p_))
                else:
                    out.append(('op', o))
        else:
            out.append(('term', p))
    return out


class Parser(object):
    def __init__(self, text, args):
        self.toks = tokens(text)
        self.i = 0
        self.args = args          # list of terms, or dict name -> term
        self.used = 0

    def peek(self, *words):
        """The next token is one of these words or operators."""
        if self.i >= len(self.toks):
            return None
        k, v = self.toks[self.i]
        if k == 'word' and v.upper() in words or k == 'op' and v in words:
            return v.upper() if k == 'word' else v
        return None

    def take(self, *words):
        w = self.peek(*words)
        if w:
            self.i += 1
        return w

    def need(self, *words):
        w = self.take(*words)
        if not w:
            raise SQLError('%s expected near %s' % (' or '.join(words), self.toks[self.i:self.i + 3]))
        return w

    def name(self):
        if self.i < len(self.toks):
            k, v = self.toks[self.i]
            if k == 'word':
                self.i += 1
                return v
            if k == 'term':
                self.i += 1
                return v
        raise SQLError('name expected near %s' % (self.toks[self.i:self.i + 3],))

    def statement(self):
        w = self.need('SELECT', 'INSERT', 'UPDATE', 'DELETE', 'REPLACE', 'SET', 'START', 'COMMIT', 'ROLLBACK')
        r = getattr(self, 's_' + w.lower(), None)
        if r is None:
            raise AnalysisError('statement %s' % w)
        r = r()
        self.take(';')
        if self.i != len(self.toks):
            raise SQLError('trailing text near %s' % (self.toks[self.i:self.i + 3],))
        if not isinstance(self.args, dict) and self.used != len(self.args):
            raise SQLError('%d parameters for %d placeholders' % (len(self.args), self.used))
        return r

    def s_select(self):
        distinct = bool(self.take('DISTINCT'))
        exprs = [self.column()]
        while self.take(','):
            exprs.append(self.column())
        table = where = None
        group, order, limit = [], [], None
        if self.take('FROM'):
            table = self.name()
            if self.take('AS') or self.i < len(self.toks) and self.toks[self.i][0] == 'word' and not self.peek(
                    'WHERE', 'GROUP', 'ORDER', 'LIMIT', 'FORCE', 'USE', 'HAVING', 'FOR'):
                self.name()
            if self.take('WHERE'):
                where = self.expr()
            if self.take('GROUP'):
                self.need('BY')
                group = [self.expr()]
                while self.take(','):
                    group.append(self.expr())
            if self.take('ORDER'):
                self.need('BY')
                while True:
                    e = self.expr()
                    order.append((e, self.take('ASC', 'DESC') == 'DESC'))
                    if not self.take(','):
                        break
            if self.take('LIMIT'):
                limit = self.expr()
        names = {a: e for e, a in exprs if a}
        order = [(names.get(e[1], e) if e[0] == 'col' and isinstance(e[1], str) else e, d) for e, d in order]
        return dict(kind='select', exprs=[e for e, _ in exprs], table=table, where=where, group=group, order=order, limit=limit,
                    distinct=distinct)

    def column(self):
        e = self.expr()
        a = None
        if self.take('AS'):
            a = self.name()
        elif self.i < len(self.toks) and self.toks[self.i][0] == 'word' and not self.peek('FROM'):
            a = self.name()
        return e, a

    def s_insert(self, replace=False):
        ignore = bool(self.take('IGNORE'))
        self.take('INTO')
        table = self.name()
        self.need('(')
        cols = [self.name()]
        while self.take(','):
            cols.append(self.name())
        self.need(')')
        self.need('VALUES', 'VALUE')
        self.need('(')
        vals = [self.expr()]
        while self.take(','):
            vals.append(self.expr())
        self.need(')')
        dup = None
        if self.take('ON'):
            self.need('DUPLICATE')
            self.need('KEY')
            self.need('UPDATE')
            dup = self.sets()
        if len(cols) != len(vals):
            raise SQLError('%d columns for %d values' % (len(cols), len(vals)))
        if replace or ignore:
            raise AnalysisError('REPLACE or INSERT IGNORE')
        return dict(kind='insert', table=table, cols=cols, values=vals, dup=dup)

    def sets(self):
        out = []
        while True:
            c = self.name()
            self.need('=')
            out.append((c, self.expr()))
            if not self.take(','):
                return out

    def s_update(self):
        table = self.name()
        self.need('SET')
        sets = self.sets()
        where = self.expr() if self.take('WHERE') else None
        return dict(kind='update', table=table, sets=sets, where=where)

    def s_delete(self):
        self.need('FROM')
        table = self.name()
        where = self.expr() if self.take('WHERE') else None
        return dict(kind='delete', table=table, where=where)

    # expressions

    def expr(self):
        xs = [self.conj()]
        while self.take('OR'):
            xs.append(self.conj())
        return xs[0] if len(xs) == 1 else ('or', xs)

    def conj(self):
        xs = [self.neg()]
        while self.take('AND'):
            xs.append(self.neg())
        return xs[0] if len(xs) == 1 else ('and', xs)

    def neg(self):
        if self.take('NOT'):
            return ('not', self.neg())
        return self.comparison()

    def comparison(self):
        a = self.arith()
        op = self.take('=', '<>', '!=', '<', '<=', '>', '>=', '<=>')
        if op:
            return ('cmp', '!=' if op == '<>' else op, a, self.arith())
        if self.take('IS'):
            no = self.take('NOT')
            self.need('NULL')
            return ('not', ('isnull', a)) if no else ('isnull', a)
        no = self.take('NOT')
        if self.take('BETWEEN'):
            lo = self.arith()
            self.need('AND')
            r = ('and', [('cmp', '>=', a, lo), ('cmp', '<=', a, self.arith())])
        elif self.take('IN'):
            self.need('(')
            xs = [('cmp', '=', a, self.arith())]
            while self.take(','):
                xs.append(('cmp', '=', a, self.arith()))
            self.need(')')
            r = ('or', xs)
        elif no:
            raise SQLError('NOT')
        else:
            return a
        return ('not', r) if no else r

    def arith(self):
        a = self.primary()
        while True:
            op = self.take('+', '-', '*', '/')
            if not op:
                return a
            a = ('func', op, [a, self.primary()])

    def primary(self):
        if self.take('('):
            e = self.expr()
            self.need(')')
            return e
        if self.take('*'):
            return ('star',)
        if self.take('-'):
            return ('func', 'neg', [self.primary()])
        k, v = self.toks[self.i] if self.i < len(self.toks) else (None, None)
        self.i += 1
        if k == 'lit':
            return ('lit', v)
        if k == 'term':
            return ('col', v)
        if k == 'par':
            if v == '%s':
                if isinstance(self.args, dict):
                    raise SQLError('positional placeholder with named parameters')
                if self.used >= len(self.args):
                    raise SQLError('more placeholders than parameters')
                self.used += 1
                return ('lit', self.args[self.used - 1])
            n = v[2:-2]
            if not isinstance(self.args, dict) or n not in self.args:
                raise SQLError('parameter %s' % n)
            return ('lit', self.args[n])
        if k == 'word':
            u = v.upper()
            if u == 'NULL':
                return ('lit', tm.NONE)
            if u in ('TRUE', 'FALSE'):
                return ('lit', num(int(u == 'TRUE'), 'int', 0))
            if self.take('('):
                fn = v.lower()
                d = self.take('DISTINCT')
                xs = []
                if not self.take(')'):
                    xs = [self.expr()]
                    while self.take(','):
                        xs.append(self.expr())
                    self.need(')')
                if fn in AGG and len(xs) == 1:
                    x = xs[0]
                    if fn == 'count' and x[0] == 'lit':
                        x = ('star',)
                    return ('agg', fn + ('.distinct' if d else ''), x)
                return ('func', fn, xs)
            return ('col', v)
        raise SQLError('expression expected near %s' % (self.toks[self.i - 1:self.i + 2],))


def parse(text, args):
    return Parser(text, args).statement()


class Table(object):
    def __init__(self, name):
        self.name = name
        self.cols = {}            # name -> (sort, nullable, unsigned, type text)
        self.unique = []          # tuples of columns
        self.pk = None
        self.auto = None


SORTS = {'bigint': 'int', 'int': 'int', 'smallint': 'int', 'tinyint': 'int', 'mediumint': 'int', 'year': 'int', 'decimal': 'dec',
         'float': 'float', 'double': 'float', 'datetime': 'dt', 'timestamp': 'dt', 'date': 'date', 'time': 'td', 'enum': 'str',
         'varchar': 'str', 'char': 'str', 'text': 'str'}


def schema(text):
    """Tables of a file of CREATE TABLE statements."""
    text = re.sub(r'--[^\n]*', '', text)
    text = re.sub(r"COMMENT\s*=?\s*'(?:[^']|'')*'", '', text)
    out = {}
    for m in re.finditer(r'CREATE TABLE\s+(?:IF NOT EXISTS\s+)?`?(\w+)`?\s*\((.*?)\)\s*ENGINE', text, re.S | re.I):
        t = Table(m.group(1))
        out[t.name] = t
        depth, cur, parts = 0, '', []
        for ch in m.group(2):
            depth += (ch == '(') - (ch == ')')
            if ch == ',' and depth == 0:
                parts.append(cur)
                cur = ''
            else:
                cur += ch
        parts.append(cur)
        for p in parts:
            p = ' '.join(p.split())
            u = p.upper()
            if not p:
                continue
            cols = tuple(re.findall(r'`([^`]+)`', p[p.find('('):])) if '(' in p else ()
            if u.startswith('PRIMARY KEY'):
                t.unique.insert(0, cols)
                t.pk = cols[0] if len(cols) == 1 else None
            elif u.startswith('UNIQUE'):
                t.unique.append(cols)
            elif u.startswith(('INDEX', 'KEY', 'CONSTRAINT', 'FOREIGN', 'FULLTEXT')):
                pass
            else:
                c = re.match(r'`?(\w+)`?\s+(\w+)', p)
                t.cols[c.group(1)] = (SORTS.get(c.group(2).lower(), 'any'), 'NOT NULL' not in u and 'PRIMARY KEY' not in u,
                                      'UNSIGNED' in u or c.group(2).lower() == 'year', p[c.start(2):])
                if 'AUTO_INCREMENT' in u:
                    t.auto = c.group(1)
    return out
