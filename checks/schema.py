"""C45: the tables that the MySQL exporter ships."""
import re
from fractions import Fraction

from wlsa.runner import prop
from wlsa.harness import *
from wlsa import sql
from wlsa import terms as tm
import spec.schema as want

FILE = 'weatherlink/exporter/mysql.sql'
INTEGERS = {'tinyint': 8, 'smallint': 16, 'mediumint': 24, 'int': 32, 'integer': 32, 'bigint': 64}


def holds(kind, low, high, step):
    """None if every multiple of step from low to high fits the type, or the reason."""
    m = re.match(r'(\w+)\s*(?:\(\s*(\d+)\s*(?:,\s*(\d+)\s*)?\))?(.*)', kind, re.S)
    name, p, s, rest = m.group(1).lower(), m.group(2), m.group(3), m.group(4).lower()
    if name in INTEGERS:
        bits, fine = INTEGERS[name], Fraction(1)
        lo, hi = (0, 2 ** bits - 1) if 'unsigned' in rest else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
    elif name in ('decimal', 'numeric', 'dec', 'fixed'):
        p, s = int(p or 10), int(s or 0)
        fine = Fraction(1, 10 ** s)
        hi = 10 ** (p - s) - fine
        lo = 0 if 'unsigned' in rest else -hi
    elif name in ('float', 'double', 'real'):
        fine, hi = Fraction(1, 10 ** 9), 10 ** 30
        lo = 0 if 'unsigned' in rest else -hi
    elif name == 'year':
        lo, hi, fine = 1901, 2155, Fraction(1)
    else:
        return 'not a numeric type'
    low, high, step = Fraction(low), Fraction(high), Fraction(step)
    if lo > low:
        return 'lowest value %s, %s occurs' % (lo, low)
    if hi < high:
        return 'highest value %s, %s occurs' % (float(hi), float(high))
    if (step / fine).denominator != 1:
        return 'resolution %s, %s occurs' % (float(fine), float(step))
    return None


def fits(kind, need):
    if isinstance(need, tuple):
        return holds(kind, *need)
    name = re.match(r'\w+', kind).group(0).lower()
    if isinstance(need, frozenset):
        if name in ('varchar', 'char'):
            n = int(re.search(r'\((\d+)\)', kind).group(1))
            return None if n >= max(map(len, need)) else 'too short for some of the names'
        if name == 'text':
            return None
        if name != 'enum':
            return 'cannot hold names'
        have = set(re.findall(r"'([^']*)'", kind[:kind.index(')')]))
        return None if have >= need else 'does not allow %s' % ', '.join(sorted(need - have))
    ok = {'datetime': ('datetime', ), 'date': ('date', 'datetime'), 'time': ('time', 'datetime')}[need]
    return None if name in ok else 'is not a %s' % need


@prop('C45', 180, 'every column that the exporter writes exists in the shipped schema with a type whose range and resolution hold what '
      'the instruments can report (interval inclusion on the parsed DDL); only columns always written are NOT NULL; the unique keys '
      'are the ones that identify a row')
def shipped_schema(lab):
    it = lab.engine(['weatherlink.exporter.mysql'])
    tables = sql.schema(open(lab.root + '/' + FILE).read())
    for name, (columns, required, serial, keys) in sorted(want.TABLES.items()):
        t = tables.get(name)
        e = '%s %s' % (FILE, name)
        if not lab.oblige(e, 'table exists', t is not None, 'no such table'):
            continue
        for c, need in sorted(columns.items()):
            col = t.cols.get(c)
            if not lab.oblige('%s.%s' % (e, c), 'column exists', col is not None, 'no such column'):
                continue
            why = fits(col[3], need)
            lab.oblige('%s.%s' % (e, c), 'type %s' % col[3].split(' COMMENT')[0][:60], why is None, '%s: %s' % (col[3].split(' COMMENT')[0][:60], why))
            if c not in required:
                lab.oblige('%s.%s' % (e, c), 'may be absent', col[1], 'NOT NULL, but not every row has it')
        lab.oblige(e, 'primary key', t.pk == serial and t.auto == serial, 'the primary key is not the automatic %s' % serial)
        have = [set(u) for u in t.unique if u != (serial, )]
        lab.oblige(e, 'unique keys', sorted(map(sorted, have)) == sorted(map(sorted, keys)), 'unique keys %s, required %s' % (
            [sorted(x) for x in have], [sorted(x) for x in keys]))
        extra = [c for c, d in t.cols.items() if c not in columns and c != serial and not d[1] and 'DEFAULT' not in d[3].upper()]
        lab.oblige(e, 'nothing else required', not extra, 'NOT NULL columns that are never written: %s' % ', '.join(extra))
    m = lab.where(it, 'weatherlink.exporter.mysql:MySQLExporter')
    cm = it.freeze(it.lookup('weatherlink.exporter.mysql:MySQLExporter.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP'), it.new_state())
    tn = it.lookup('weatherlink.exporter.mysql:MySQLExporter.DEFAULT_ARCHIVE_TABLE_NAME')
    t = tables.get(tm.pyval(tn))
    lab.oblige(m, 'default table', t is not None, 'table %s is not in the schema' % tm.show(tn))
    if t is not None:
        for k, g, v in cm.args[1]:
            lab.oblige(m, 'column for %s' % tm.show(k), tm.pyval(v) in t.cols, 'column %s is not in the schema' % tm.show(v))
    lab.done(it)
