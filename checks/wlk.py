"""C10-C11: importing .wlk files."""
import itertools

from wlsa.runner import prop
from wlsa.harness import *
from wlsa import ext

I, S, M = 'weatherlink.importer:Importer.', 'spec.wlk:', 'weatherlink.models:'
NAME = sym('file_name', 'str')


def stream_of(itp, h, st, ex, node):
    if ('S', h) not in st.heap:
        itp.raise_(tm.TRUE, ext.excv('AttributeError', const('read')), st, ex, node)
    return h


def block(kind, size, fails=False):
    """A well-formed or malformed block of the file, by position."""
    def fn(itp, f, args, kw, st, ex, node):
        a = [x for x in args if x.op != 'class'] + [v for k, v in sorted(kw.items(), key=lambda p: ORDER.index(p[0]))]
        h = stream_of(itp, a[0], st, ex, node)
        cur = st.heap[('S', h)]
        itp.event('.read', h, (num(size),), {}, st, node, 'bytes', ex)
        st.heap[('S', h)] = tm.p_add(cur, num(size, 'int', 0))
        if fails:
            itp.raise_(atom_bool(tm.app('malformed', (cur,), 'bool')), ext.excv('ValueError', const('malformed')), st, ex, node)
        return mk(kind, tuple([cur] + a[1:]), 'obj')
    return fn


ORDER = ['file_handle', 'year', 'month', 'day']


def header(counts):
    def fn(itp, f, args, kw, st, ex, node):
        a = [x for x in args if x.op != 'class'] + list(kw.values())
        h = stream_of(itp, a[0], st, ex, node)
        itp.event('.read', h, (num(212),), {}, st, node, 'bytes', ex)
        st.heap[('S', h)] = num(212, 'int', 0)
        days = [inst(M + 'DayIndex', [('record_count', num(n, 'int', 0)), ('start_index', sym('start%d' % i, 'int'))])
                for i, n in enumerate(counts)]
        return inst(M + 'Header', [('version_code', sym('version', 'bytes')), ('record_count', sym('total', 'int')),
                                   ('day_indexes', list_(days))])
    return fn


def months(tier):
    """Record counts of the 32 index entries: every pattern of a few counts over three days, at several places."""
    sizes = (-1, 0, 1, 2, 3, 4) if tier != 'quick' else (0, 1, 2, 3, 4)
    out = []
    for first in (0, 3):
        for p in itertools.product(sizes, repeat=3):
            for at in ((1,) if tier == 'quick' or first else (1, 14, 29)):
                c = [first] + [0] * 31
                c[at:at + 3] = p
                out.append(c)
    out += [[0] + [2] * 31, [0] + [3] * 31, [2] * 32, [0] * 32, [0] + [1] * 31, [0] * 31 + [5], [5] + [0] * 31,
            [0] + [1, 2, 3] * 10 + [4], [0] * 28 + [3, 3, 3, 3], [0, 9] + [0] * 30, [0, 26] + [2] * 30, [0, 1443, 3] + [0] * 29]
    return out


@prop('C10', 200, 'for every pattern of record counts of the family, every name and every content, the blocks read, what they '
      'become and the closing of the file are those of the reference, also when any block is malformed or cannot be read')
def c10(lab):
    def base(fails):
        return {M + 'DailySummary.load_from_wlk': block('summary', 176, fails),
                M + 'ArchiveIntervalRecord.load_from_wlk': block('record', 88, fails)}
    it = lab.engine(['weatherlink.importer', 'spec.wlk'], base(False))
    e = lab.where(it, I + 'import_data')
    for counts in months(lab.tier):
        it.overrides[M + 'Header.load_from_wlk'] = header(counts)
        label = 'counts %s' % ','.join(map(str, counts)).rstrip(',0')
        for what, p, r in (('records', 'package_records', 'records'), ('by day', 'package_by_day', 'by_day')):
            lab.same(e, '%s, %s' % (what, label), observe(it, it.lookup(S + p), [NAME]), observe(it, it.lookup(S + r), [NAME]))
    for counts in ([0, 3, 0, 2] + [0] * 28, [0] * 32):
        it.overrides[M + 'Header.load_from_wlk'] = header(counts)
        lab.same(e, 'imported twice', observe(it, it.lookup(S + 'package_twice'), [NAME]),
                 observe(it, it.lookup(S + 'twice'), [NAME]))
    lab.done(it)
    it = lab.engine(['weatherlink.importer', 'spec.wlk'], base(True), exc_mode=True, exc_family='OSError')
    for counts in ([0, 3, 2] + [0] * 29, [0] * 31 + [3], [0] * 32):
        it.overrides[M + 'Header.load_from_wlk'] = header(counts)
        lab.same(e, 'with failing reads, counts %s' % counts, observe(it, it.lookup(S + 'package_records'), [NAME]),
                 observe(it, it.lookup(S + 'records'), [NAME]))
    lab.done(it)
    lab.assumptions.append('the decoding of a block is that of C01 and C02')


NAMES = ['', '.wlk', 'x.wlk', '2016-04.wlk', '/data/station/2016-04.wlk', '2016-04.WLK', '2016-04.wl', '2016-04wlk', '2016-04.wlk.bak',
         '2016_04.wlk', '2016-04-01.wlk', 'a-2016-04.wlk', '2016-ab.wlk', '1999-12.wlk', '2016-12.wlk',
         '2016-01.wlk', '12016-04.wlk', 'C:\\x\\2015-10.wlk', '-----.wlk', '2016-00.wlk', '0000-01.wlk', 'é2016-04.wlk']


@prop('C11', 20, 'for every file name, the outcome of the constructor and the year and month are those of the reference')
def c11(lab):
    it = lab.engine(['weatherlink.importer', 'spec.wlk'], unpack_counts=True)
    e = lab.where(it, I + '__init__')
    lab.same(e, 'any name', observe(it, it.lookup(S + 'package_named'), [NAME]), observe(it, it.lookup(S + 'named'), [NAME]))
    lab.same(e, 'no name', observe(it, it.lookup(S + 'package_named'), [NONE]), observe(it, it.lookup(S + 'named'), [NONE]))
    for n in NAMES:
        lab.same(e, 'the name %r' % n, observe(it, it.lookup(S + 'package_named'), [const(n)]),
                 observe(it, it.lookup(S + 'named'), [const(n)]))
    lab.assumptions.append('a .wlk file name ends in at least the eleven characters of YYYY-MM.wlk; shorter ones are not compared')
    lab.done(it)
