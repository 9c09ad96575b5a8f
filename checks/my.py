"""C30-C37, C41-C43: the MySQL exporter."""
import datetime
import itertools

from wlsa.runner import prop
from wlsa.harness import *
from wlsa import ext, db, interp, sql
from wlsa import terms as tm

M, S = 'weatherlink.exporter.mysql:MySQLExporter.', 'spec.my:'
MODS = ['weatherlink.exporter.mysql', 'spec.my']


def n(x):
    return num(x, 'int', 0)


def day(*p):
    p = list(p) + [0] * (7 - len(p))
    return ext.mk_dt(*([n(x) if isinstance(x, int) else x for x in p] + [NONE]))


def uninterpreted(name, sorts):
    def f(it, fn, args, kw, st, ex, node):
        args = tuple(db.collapse(it, it.freeze(a, st)) for a in args)
        for a in args:
            if a.op == 'cursor':
                # the callee may leave rows unread
                st.heap[db.U] = and_(st.heap[db.U], atom_bool(mk('app', ('stops.early', (a,)), 'bool')))
        if isinstance(sorts, str):
            return mk('app', (name, args), sorts)
        return tuple_(*[opt(mk('app', ('%s.%d' % (name, i), args), s)) for i, s in enumerate(sorts)])
    return {'weatherlink.utils:' + name: f}


OVER = {}
OVER.update(uninterpreted('calculate_10_minute_wind_average', ['dec', 'str', 'dt', 'dt']))
OVER.update(uninterpreted('calculate_heating_degree_days', 'dec'))
OVER.update(uninterpreted('calculate_cooling_degree_days', 'dec'))


def bench(lab, tables=None, **flags):
    it = lab.engine(MODS, OVER, **flags)
    text = open(lab.root + '/weatherlink/exporter/mysql.sql').read()
    it.db = db.Database(sql.schema(text), tables)
    return it


def identity(it, key):
    """Column values that a row of the summaries is known by."""
    return {c: v for c, v in it.db.known.get(key, {}).items()}


def content(it, heap, want, kinds):
    """The committed rows of these kinds, with the columns that want(name) accepts."""
    def state(st):
        rows = []
        for k, g, row in st.heap.get(heap, db.EMPTY).args[1]:
            ident = identity(it, k)
            kind = ident.get('summary_type')
            if kind is None or kind.args[1] not in kinds:
                continue
            cols = [(c, gc, v) for c, gc, v in row.args[1] if c.op == 'const' and c is not db.NEW and want(c.args[1]) and
                    not (c.args[1] in ident and v is ident[c.args[1]])]
            rows.append((k, g, dict_(None, cols)))
        return dict_(None, rows)
    return state


ALL = ('DAILY', 'WEEKLY', 'MONTHLY', 'YEARLY')


def agree(lab, it, what, calls, want, kinds):
    def run(f):
        st = it.new_state()
        args = [it.alloc('list', st, seq('list', [('e', TRUE, d) for d in ds])) for ds in calls]
        return observe(it, it.lookup(f), args, {}, st, keep=lambda e: False, state=content(it, db.C, want, kinds))
    a, b = run(S + 'package_summaries'), run(S + 'reference_summaries')
    return lab.same(lab.where(it, M + 'recalculate_summaries_for_dates'), what, a, b)


UNKNOWN = [sym('year', 'int'), sym('month', 'int'), sym('day', 'int'), sym('hour', 'int'), sym('minute', 'int')]


def statistic(c):
    return not c.endswith('_timestamp') and '_10_minute_' not in c and 'degree_days' not in c and 'direction' not in c and \
        not (c.startswith('wind_run_distance_') and c.endswith('_average'))


WEEK = [(2013, 12, 31, 5), (2016, 2, 29), (2014, 6, 18, 12, 30), (2011, 1, 2, 23, 59), (2015, 11, 30)]
WEEKS = [(y, m, d, (m * d) % 24, d) for y in (2008, 2009, 2010, 2012, 2015, 2017, 2024) for m, d in (
    (1, 1), (1, 4), (2, 27), (3, 1), (4, 30), (5, 16), (8, 31), (10, 3), (12, 29), (12, 31))]


def timestamp(c):
    return c.endswith('_timestamp') or c in ('wind_direction_prevailing', 'wind_speed_high_direction')


def rolled(c):
    return not statistic(c) and not timestamp(c) or c in ('week_start', 'week_end')


def weeks(lab):
    return WEEK + (WEEKS if lab.tier == 'thorough' else [])


RULE = ('the rows that recalculate_summaries_for_dates has committed, column by column, as queries over the tables, equal those of the '
        'reference: %s; SQL statements are read as what they select, group, order, and write')


@prop('C32', floor=6, rule=RULE % 'minimum, maximum, mean and total of the right archive column over the right period')
def statistics_of_periods(lab):
    it = bench(lab)
    agree(lab, it, 'statistics of any day, its month and its year', [[day(*UNKNOWN)]], statistic, ('DAILY', 'MONTHLY', 'YEARLY'))
    for d in weeks(lab):
        agree(lab, it, 'statistics of the week of %d-%02d-%02d' % d[:3], [[day(*d)]], statistic, ('WEEKLY',))
    lab.done(it)


@prop('C33', floor=6, rule=RULE % 'first time at which each extreme was reached, and most frequent wind directions')
def times_of_extremes(lab):
    it = bench(lab)
    agree(lab, it, 'times of the extremes of any day, its month and its year', [[day(*UNKNOWN)]], timestamp,
          ('DAILY', 'MONTHLY', 'YEARLY'))
    for d in weeks(lab):
        agree(lab, it, 'times of the extremes of the week of %d-%02d-%02d' % d[:3], [[day(*d)]], timestamp, ('WEEKLY',))
    lab.done(it)


@prop('C35', floor=6, rule=RULE % 'degree days, strongest ten minutes, and average wind runs, from the summaries of the shorter periods')
def rollups(lab):
    it = bench(lab)
    agree(lab, it, 'rollups of any day, its month and its year', [[day(*UNKNOWN)]],
          lambda c: rolled(c) and c != 'wind_run_distance_weekly_average', ('DAILY', 'MONTHLY', 'YEARLY'))
    for d in weeks(lab):
        agree(lab, it, 'rollups of the week of %d-%02d-%02d, and of its year' % d[:3], [[day(*d)]],
              lambda c: rolled(c), ('WEEKLY', 'YEARLY'))
    lab.done(it)


HISTORIES = [
    ('the same day twice', [[(2014, 6, 18, 1), (2014, 6, 18, 23, 30)]]),
    ('two days of a week in two months', [[(2014, 9, 30, 12), (2014, 10, 1, 12)]]),
    ('two days of a week in two years, the later first', [[(2013, 1, 1, 2), (2012, 12, 31, 2)]]),
    ('two weeks of a month', [[(2014, 6, 18, 1), (2014, 6, 23, 1)]]),
    ('the same day of two months and of two years', [[(2014, 6, 18), (2014, 7, 18), (2015, 6, 18)]]),
    ('the last week of a week year after the first', [[(2014, 1, 1), (2014, 12, 29)]]),
    ('no day', [[]]),
    ('one call after another', [[(2014, 6, 18)], [(2014, 6, 19), (2014, 6, 18)]]),
]


@prop('C34', floor=8, rule=RULE % 'every period that contains a given date, after the summaries that it is made of, once per date or many times')
def schedule(lab):
    it = bench(lab)
    some = {'temperature_outside_average', 'temperature_outside_low', 'temperature_outside_low_timestamp', 'week_start', 'week_end', 'rain_total'}
    for what, calls in HISTORIES:
        agree(lab, it, what, [[day(*d) for d in ds] for ds in calls], lambda c: c in some or rolled(c), ALL)
    lab.done(it)


EVENTS, ARCHIVE, SUMMARY = 'weather_rain_event', 'weather_archive_record', 'weather_calculated_summary'


def records(shape, rates='symbolic'):
    """Archive rows for a list of (minutes since the row before, rainy)."""
    at = datetime.datetime(2014, 6, 18, 22, 30)
    out = []
    for i, (minutes, wet) in enumerate(shape):
        at += datetime.timedelta(minutes=minutes)
        amount = num(tm.Fraction(2 ** (i % 40), 100) if wet else 0, 'dec', -2)
        rate = sym('rate%d' % i, 'dec') if rates == 'symbolic' else num(tm.Fraction(rates[i % len(rates)], 100), 'dec', -2)
        out.append((ext.known_term(at, 'dt'), amount, rate))
    return out


def archive(it, st, rows, others=(EVENTS, SUMMARY)):
    """The archive holds these records; other tables are empty."""
    db.start(st)
    del it.db.statements[:]
    for t in others:
        st.heap[('DB', 'table', t)] = st.heap[('DB', 'saved', t)] = seq('list', [])
    rows = [{'timestamp_station': t, 'rain_total': a, 'rain_rate_high': r} for t, a, r in rows]
    t = seq('list', [('e', TRUE, db.row_term(r)) for r in rows])
    st.heap[('DB', 'table', ARCHIVE)] = st.heap[('DB', 'saved', ARCHIVE)] = t


def rain(lab, it, what, runs):
    """find_new_rain_events once after each of the archives."""
    def package(st, ex):
        archive(it, st, [])
        e = it.call(it.lookup(S + 'package_exporter'), [], {}, st, None, ex, None)
        counts = []
        for rows in runs:
            archive(it, st, rows, ())
            counts.append(it.call_method(e, 'find_new_rain_events', [], {}, st, None, ex, None))
        return tuple_(list_(counts), st.heap[('DB', 'saved', EVENTS)])

    def reference(st, ex):
        rs = list_([list_([tuple_(*r) for r in rows]) for rows in runs])
        return it.call(it.lookup(S + 'reference_runs'), [rs], {}, st, None, ex, None)
    a = observe(it, package, st=it.new_state(), events=False)
    b = observe(it, reference, st=it.new_state(), events=False)
    return lab.same(lab.where(it, M + 'find_new_rain_events'), what, a, b)


def shapes(length):
    import itertools
    for wets in itertools.product((True, False), repeat=length):
        for gaps in itertools.product((5, 180, 181, 1500), repeat=length - 1):
            yield list(zip((0,) + gaps, wets))


def show_shape(shape):
    return ' '.join('%s%s' % ('+%d ' % g if i else '', 'wet' if w else 'dry') for i, (g, w) in enumerate(shape))


@prop('C36', floor=100, rule='the rain events and the counts of find_new_rain_events, run over archives of known times, equal those of the '
      'reference, which groups wet records: every shape of a few records, in one run and in two; long events; rates unknown')
def rain_events(lab):
    it = bench(lab, tables=[ARCHIVE, EVENTS, SUMMARY], unroll=5000)
    it.db.limit = 300
    for k in range(0, 4 if lab.tier == 'quick' else 5):
        for shape in shapes(k) if k else [[]]:
            rows = records(shape)
            for cut in range(k):
                rain(lab, it, '%s; seen after %d' % (show_shape(shape), cut), [rows[:cut], rows] if cut else [rows])
    it.db.limit = 5000
    for what, shape in LONG:
        rain(lab, it, what, [records(shape, [3, 5, 7, 7, 1])])
    it.db.strict = True
    for shape in [[]] + [s for k in (1, 2) for s in shapes(k)] + [s for _, s in LONG[1:]]:
        rain(lab, it, '%s; an old connector' % show_shape(shape[:4]), [records(shape, [3, 5, 7, 7, 1])])
    lab.done(it)


LONG = [
    ('a wet day of one-minute records', [(1, True)] * 1600),
    ('a long event and one after it', [(1, i % 7 == 0) for i in range(3000)] + [(181, True), (60, False), (200, False)]),
    ('several events', [(60, i % 9 in (0, 1, 3)) for i in range(60)]),
]


MEASURED = ['temperature_outside', 'temperature_outside_low', 'temperature_outside_high', 'temperature_inside', 'humidity_outside',
            'humidity_inside', 'barometric_pressure', 'wind_speed', 'wind_speed_high', 'rain_amount', 'rain_rate', 'rain_amount_clicks',
            'rain_rate_clicks', 'solar_radiation', 'solar_radiation_high', 'uv_index', 'uv_index_high', 'evapotranspiration']
KEYS = ['timestamp', 'date', 'minutes_covered']
WHOLE = {'wind_speed', 'wind_speed_high', 'humidity_outside', 'humidity_inside', 'rain_amount_clicks', 'rain_rate_clicks',
         'solar_radiation', 'solar_radiation_high', 'timestamp', 'minutes_covered'}
DERIVED = ['wind_run_distance_total', 'temperature_wet_bulb', 'temperature_wet_bulb_low', 'temperature_wet_bulb_high',
           'dew_point_outside', 'dew_point_outside_low', 'dew_point_outside_high', 'dew_point_inside', 'heat_index_outside',
           'heat_index_outside_low', 'heat_index_outside_high', 'heat_index_inside', 'wind_chill', 'wind_chill_low', 'wind_chill_high',
           'thw_index', 'thw_index_low', 'thw_index_high', 'thsw_index', 'thsw_index_low', 'thsw_index_high']


def value_of(name, k=0):
    """A value like no other that is not zero."""
    i = (KEYS + MEASURED).index(name) + 100 * k
    if name == 'date':
        return day(2014, 6, 18, 1 + k, 30)
    return num(i + 1, 'int', 0) if name in WHOLE else num(tm.Fraction(10 * i + 13, 10), 'dec', -1)


def reading(name):
    return sym(name, 'dt' if name == 'date' else 'int' if name in WHOLE else 'dec')


def record(values):
    return dict_(None, [(const(k), TRUE, v) for k, v in values.items() if v is not None])


def plain_record(k=0, **changes):
    out = {n: value_of(n, k) for n in KEYS + MEASURED}
    out.update(changes)
    return out


def deriving(bench, *names, values=None):
    """calculate_all_record_values is a function of the record, with these keys; or gives these values."""
    def f(it, fn, args, kw, st, ex, node):
        r = it.freeze(args[0] if args else kw['record'], st)
        r = r.args[2] if r.op == 'inst' else r
        given = dict((k.args[1], ite3(g, v, NONE)) for k, g, v in r.args[1] if k.op == 'const')
        given = tuple(given.get(n, NONE) for n in KEYS + MEASURED)
        return it.alloc('dict', st, dict_(None, [
            (const(n), TRUE, mk('app', ('record.' + n, given), 'dec') if values is None else values[n]) for n in names]))
    bench.overrides['weatherlink.utils:calculate_all_record_values'] = f
    return bench


def archived(it, want=lambda c: True):
    """The committed rows, by table, whatever they are known by."""
    def state(st):
        out = []
        for k, g, row in st.heap.get(db.C, db.EMPTY).args[1]:
            cols = [(c, gc, v) for c, gc, v in row.args[1] if c.op == 'const' and c is not db.NEW and want(c.args[1]) and v is not NONE]
            out.append(('e', constrain(g, st.pc), tuple_(k.args[0], dict_(None, cols))))
        return seq('list', out)
    return state


def exported(lab, it, what, settings, args, want=lambda c: True, names=('package_export', 'reference_export')):
    settings = list_([tuple_(const(k), v) for k, v in settings])

    def run(f):
        return observe(it, it.lookup(S + f), [settings] + args, {}, it.new_state(), keep=lambda e: False, state=archived(it, want))
    return lab.same(lab.where(it, M + 'export_record'), what, run(names[0]), run(names[1]))


def custom_columns(rename=lambda n: 'c_' + n, without=()):
    names = ['timestamp_utc', 'summary_year', 'summary_month', 'summary_day', 'wind_direction_prevailing',
             'wind_direction_speed_high'] + KEYS + MEASURED + DERIVED
    return dict_(None, [(const(n), TRUE, const('__do_not_insert_this_value__' if n in without else rename(n))) for n in names])


COLUMNS = {'timestamp': 'timestamp_weatherlink', 'date': 'timestamp_station', 'wind_direction_prevailing': 'wind_speed_direction',
           'wind_direction_speed_high': 'wind_speed_high_direction', 'rain_amount': 'rain_total', 'rain_rate': 'rain_rate_high',
           'rain_amount_clicks': 'rain_clicks', 'rain_rate_clicks': 'rain_click_rate_high'}
INSERTED = ('the row that export_record has committed equals that of the reference, column by column: ')


@prop('C30', 60, INSERTED + 'every attribute known, missing, None and zero; every wind direction; derived values there and not; '
      'columns renamed and left out; tables renamed; records one after another')
def inserts(lab):
    for name in [None, 'unknown'] + DERIVED:
        it = deriving(bench(lab), *([name] if name else []))
        exported(lab, it, 'derived values: %s' % name, [], [list_([record(plain_record())])])
    it = deriving(bench(lab), 'thw_index')
    for m in KEYS + MEASURED:
        exported(lab, it, 'derived from any %s' % m, [], [list_([record(plain_record(**{m: reading(m)}))])])
        if m not in KEYS:
            exported(lab, it, 'derived without %s' % m, [], [list_([record(plain_record(**{m: None}))])])
    it = deriving(bench(lab), *DERIVED, values={m: num(tm.Fraction(i, 10) + 200, 'dec', -1) for i, m in enumerate(DERIVED)})
    exported(lab, it, 'the keys of a record only', [], [list_([record({m: reading(m) for m in KEYS})])])
    for m in MEASURED:
        exported(lab, it, 'any %s' % m, [], [list_([record(plain_record(**{m: reading(m)}))])])
        exported(lab, it, '%s of zero' % m, [], [list_([record(plain_record(**{m: ZERO}))])])
        exported(lab, it, 'no %s' % m, [], [list_([record(plain_record(**{m: NONE}))])])
        exported(lab, it, 'a record without %s' % m, [], [list_([record(plain_record(**{m: None}))])])
    for k in list(range(16)) + [None]:
        a, b = (NONE if k is None else n(k)), (NONE if k is None else n((k * 3 + 1) % 16))
        exported(lab, it, 'wind direction %s' % k, [], [a, b, record(plain_record())], names=('package_directions', 'reference_directions'))
    exported(lab, it, 'one wind direction', [], [n(3), NONE, record(plain_record())], names=('package_directions', 'reference_directions'))
    exported(lab, it, 'the other wind direction', [], [NONE, n(0), record(plain_record())], names=('package_directions', 'reference_directions'))
    exported(lab, it, 'three records', [], [list_([record(plain_record(k)) for k in range(3)])])
    for x in (NONE, const('')):
        exported(lab, it, 'the default table again', [('table', const('other')), ('table', x)], [list_([record(plain_record())])])
    exported(lab, it, 'the default columns again', [('columns', custom_columns()), ('columns', NONE)], [list_([record(plain_record())])])
    without = ['rain_amount_clicks', 'thw_index_low', 'wind_direction_speed_high']
    exported(lab, it, 'columns left out', [('columns', custom_columns(lambda c: COLUMNS.get(c, c), without))],
             [n(3), n(4), record(plain_record())], names=('package_directions', 'reference_directions'))
    it.db_other = ('other',)
    exported(lab, it, 'another table', [('table', const('other'))], [list_([record(plain_record())])])
    exported(lab, it, 'another table with other columns', [('table', const('other')), ('columns', custom_columns())],
             [n(3), n(4), record(plain_record())], names=('package_directions', 'reference_directions'))
    for w in (['timestamp_utc'], ['summary_year', 'summary_month', 'summary_day'], ['timestamp', 'date'], MEASURED, DERIVED):
        exported(lab, it, 'another table without %s' % w[0], [('columns', custom_columns(without=w)), ('table', const('other'))],
                 [n(15), n(0), record(plain_record())], names=('package_directions', 'reference_directions'))
    lab.done(it)
    if not lab.failures:
        # (only now: code that treats some values alike has many cases here)
        it = deriving(bench(lab), *DERIVED)
        exported(lab, it, 'any record', [], [list_([record({m: reading(m) for m in KEYS + MEASURED})])])
    lab.done(it)


def when(c):
    return c in ('timestamp_utc', 'timestamp_station', 'summary_year', 'summary_month', 'summary_day', 'timestamp_weatherlink')


@prop('C31', 10, INSERTED + 'timestamps and summary keys, for any date and every kind of time zone')
def times_of_records(lab):
    it = deriving(bench(lab))
    zones = [[]] + [[z] for z in (NONE, sym('zone', 'str'), sym('zone', 'tz'), sym('zone', 'tzinfo'))]
    zones += [[sym('zone', 'str'), NONE], [sym('zone', 'tz'), sym('name', 'str')]]
    for zs in zones:
        for what, d in (('any date', reading('date')), ('any time', day(*UNKNOWN)), ('a date', day(2014, 12, 31, 23, 59))):
            exported(lab, it, '%s, %s' % (what, ' then '.join(z.sort for z in zs) or 'default zone'), [('zone', z) for z in zs],
                     [list_([record(plain_record(date=d))])], when)
    exported(lab, it, 'records one after another', [('zone', sym('zone', 'str'))],
             [list_([record(plain_record(date=sym('first', 'dt'))), record(plain_record(1, date=sym('second', 'dt')))])], when)
    lab.done(it)



FAMILY = 'mysql.connector.errors.OperationalError'
FAILED = ('failed',)


class Fault(object):
    """The call of the connector that comes up as number k fails; again: and so do the ones after it that undo."""

    def __init__(self, k, again):
        self.k, self.again, self.n, self.seen = k, again, 0, []

    def __call__(self, it, name, st, ex, node):
        i = self.n
        self.n += 1
        self.seen.append((it.where()[-1], getattr(node, 'lineno', 0), name))
        if self.k is None:
            return
        if i < self.k:
            return
        if FAILED in st.heap:
            if self.again and name in ('.close', '.rollback'):
                it.raise_(TRUE, mk('excval', (const('another failure'),), 'exc'), st, ex, node)
        elif i == self.k:
            st.heap[FAILED] = TRUE
            it.raise_(TRUE, mk('excval', (const('the failure'),), 'exc'), st, ex, node)
        else:
            raise interp.Dead()


def orderly(lab, it, entry, what, f):
    """After each way that f may end: nothing is left open, unread or uncommitted, and a failure is reported as it was."""
    st, ex, ends = it.new_state(), [], []
    db.start(st)
    del it.db.cursors[:]
    try:
        f(st, ex)
        ends.append((st, None))
    except interp.Dead:
        pass
    ends += [(e.st, e) for e in ex]
    for s, e in ends:
        if s.pc is FALSE or it.db.fault.k is not None and FAILED not in s.heap:
            continue
        def holds(c):
            return and_(s.pc, c) is FALSE
        for c in it.db.cursors:
            lab.oblige(entry, what, holds(s.heap.get(('QO', c), FALSE)), 'a cursor is not closed')
        pending = s.heap[db.P]
        if it.db.fault.k is None:
            lab.oblige(entry, what, e is None, 'ends in an exception' if e is None else 'raises %s' % tm.show(e.value))
            lab.oblige(entry, what, holds(pending), 'changes are not committed')
            lab.oblige(entry, what, holds(s.heap[db.U]), 'rows of a result are not read')
        else:
            lab.oblige(entry, what, e is not None, 'the failure is not reported')
            lab.oblige(entry, what, holds(and_(pending, not_(s.heap[db.R]))), 'part of the changes stays in the transaction')
            if e is not None:
                v = constrain(e.value, s.pc)
                lab.oblige(entry, what, v is mk('excval', (const('the failure'),), 'exc'), 'another exception hides it')


def failing(lab, it, entry, what, f, every=True):
    it.exc_family = FAMILY
    it.db.fault = fault = Fault(None, False)
    orderly(lab, it, entry, what, f)
    ks = range(fault.n)
    if not every:
        first, last = {}, {}
        for k, s in enumerate(fault.seen):
            first.setdefault(s, k)
            last[s] = k
        ks = sorted(set(first.values()) | set(last.values()))
    seen = fault.seen
    for k in ks:
        for again in (False, True):
            it.db.fault = Fault(k, again)
            orderly(lab, it, entry, '%s, failure in %s at call %d (%s)%s' % (
                what, seen[k][0].split(':')[-1], k + 1, seen[k][2][1:], ', and in closing' if again else ''), f)
    it.db.fault = None


@prop('C37', 100, 'a database call at a time fails, and with it the ones that clean up: the state in which each method leaves the '
      'connection, and the exception that leaves it')
def failures(lab):
    it = deriving(bench(lab), values={})
    rows = [list_([record(plain_record(k)) for k in range(2)])]
    failing(lab, it, lab.where(it, M + 'export_record'), 'two records',
            lambda st, ex: it.call(it.lookup(S + 'package_export'), [list_([])] + rows, {}, st, None, ex, None))
    lab.done(it)
    it2 = bench(lab)

    def summaries(st, ex):
        ds = it2.alloc('list', st, seq('list', [('e', TRUE, day(2014, 6, 18))]))
        return it2.call(it2.lookup(S + 'package_summaries'), [ds], {}, st, None, ex, None)
    failing(lab, it2, lab.where(it2, M + 'recalculate_summaries_for_dates'), 'summaries', summaries, lab.tier != 'quick')
    lab.done(it2)
    it3 = bench(lab, tables=[ARCHIVE, EVENTS, SUMMARY], unroll=5000)
    for what, shape in (('no rain', [(0, False)]), ('an event', [(0, True), (5, True), (200, False)]), ('no end', [(0, True)]),
                        ('two events', [(0, True), (5, False), (400, True), (300, False)]), ('a long event', [(1, True)] * 1500)):
        def rain_of(st, ex):
            archive(it3, st, records(shape, [3, 5, 7]))
            e = it3.call(it3.lookup(S + 'package_exporter'), [], {}, st, None, ex, None)
            return it3.call_method(e, 'find_new_rain_events', [], {}, st, None, ex, None)
        failing(lab, it3, lab.where(it3, M + 'find_new_rain_events'), what, rain_of)
    lab.done(it3)


def column_of(row, c):
    for x, g, v in row.args[1]:
        if x is c:
            return v
    return None


@prop('C41', 9, 'at every commit of a run, every row that the run writes is either as it was before or as it is at the end of the run')
def whole_rows(lab):
    it = bench(lab)
    e = lab.where(it, M + 'recalculate_summaries_for_dates')
    for what, ds in (('any day', None), ('a day of one month', [(2014, 6, 18)]), ('a day in a week of two months', [(2014, 9, 30)]),
                     ('a day in a week of two years', [(2014, 12, 30)]),
                     ('days of two weeks', [(2014, 6, 18), (2014, 6, 30)])):
        ds = [day(*UNKNOWN)] if ds is None else [day(*x) for x in ds]
        st, ex = it.new_state(), []
        it.db.commits = []
        arg = it.alloc('list', st, seq('list', [('e', TRUE, x) for x in ds]))
        it.call(it.lookup(S + 'package_summaries'), [arg], {}, st, None, ex, None)
        lab.oblige(e, what + ': commits', bool(it.db.commits), 'nothing is committed')
        last = {k: row for k, g, row in st.heap[db.C].args[1]}
        for i, (pc, rows, _) in enumerate(it.db.commits):
            for k, g, row in rows.args[1]:
                if k not in last:
                    lab.oblige(e, what, False, 'a row disappears')
                ident = identity(it, k)
                name = ident['summary_type'].args[1] if 'summary_type' in ident else tm.show(k)
                bad = None
                for c, gc, v in last[k].args[1]:
                    w = column_of(row, c)
                    if w is None or not Diff().equal(constrain(w, st.pc), constrain(v, st.pc)):
                        bad = c
                        break
                lab.oblige(e, '%s: the %s summary at commit %d' % (what, name, i + 1), bad is None, 'column %s is not yet known' % (bad and bad.args[1]))
    lab.done(it)
    it = bench(lab, tables=[ARCHIVE, EVENTS, SUMMARY], unroll=5000)
    e = lab.where(it, M + 'find_new_rain_events')
    for what, shape in (('an event', [(0, True), (5, True), (200, False)]), ('no end', [(0, True), (5, True)]),
                        ('two events', [(0, True), (5, False), (400, True), (300, False), (20, False)])) + tuple(LONG[:2]):
        st, ex = it.new_state(), []
        archive(it, st, records(shape, [3, 5, 7]))
        it.db.commits = []
        x = it.call(it.lookup(S + 'package_exporter'), [], {}, st, None, ex, None)
        it.call_method(x, 'find_new_rain_events', [], {}, st, None, ex, None)
        lab.oblige(e, what + ': commits', bool(it.db.commits), 'nothing is committed')
        end = [v for _, _, v in st.heap[('DB', 'saved', EVENTS)].args[1]]
        for i, (pc, _, tables) in enumerate(it.db.commits):
            for _, _, v in tables[EVENTS].args[1]:
                lab.oblige(e, '%s: an event at commit %d' % (what, i + 1), any(v is w for w in end), 'an event is not complete')
    lab.done(it)


@prop('C42', 20, 'the value that get_newest_timestamp returns equals that of the reference, for archives of up to four records in every order')
def newest(lab):
    it = bench(lab, tables=[ARCHIVE, EVENTS, SUMMARY])
    e = lab.where(it, M + 'get_newest_timestamp')
    stamps = [913638450, 0, 1 << 40, 913638451]
    for k in range(5):
        for order in itertools.permutations(stamps[:k]):
            def run(f):
                st = it.new_state()
                archive(it, st, [])
                rows = [{'record_id': n(i + 1), 'timestamp_weatherlink': n(x), 'timestamp_station': day(2014, 6, 18, i), 'timestamp_utc':
                         day(2014, 6, 18, 23 - i)} for i, x in enumerate(order)]
                t = seq('list', [('e', TRUE, db.row_term(r)) for r in rows])
                st.heap[('DB', 'table', ARCHIVE)] = st.heap[('DB', 'saved', ARCHIVE)] = t
                return observe(it, it.lookup(S + f), st=st, events=False)
            lab.same(e, 'records %s' % (order,), run('package_newest'), run('newest'))
    lab.done(it)


@prop('C43', 40, 'over every sequence of connect and disconnect up to the bound, and with blocks, with every choice of failing calls, '
      'the calls of the connector and the exceptions that leave are those of the reference')
def connections(lab):
    who = [sym('user', 'str'), sym('password', 'str'), sym('database', 'str')]
    every = who + [sym('host', 'str'), sym('port', 'int')]
    steps = [s for k in range(1, 6 if lab.tier == 'quick' else 8) for s in itertools.product(('connect', 'disconnect'), repeat=k)
             if not any(s[i] == s[i + 1] == 'connect' for i in range(k - 1))]
    work = sym('work', 'func')
    for mode in (False, True):
        it = bench(lab, exc_mode=mode, exc_family=FAMILY)
        e = lab.where(it, M + 'connect')
        tail = ' with failing calls' if mode else ''

        def both(what, names, args):
            lab.same(e, what + tail, *[observe(it, it.lookup(S + x), [tuple_(*args[0])] + args[1:]) for x in names])
        for s in steps:
            both(', '.join(s), ('package_link', 'link'), [every, tuple_(*[const(x) for x in s])])
        for k in (3, 4):
            both('%d arguments' % k, ('package_link', 'link'), [every[:k], tuple_(const('connect'))])
        lab.done(it)
    for mode in (False, True):
        for family in (FAMILY, 'RuntimeError', 'KeyboardInterrupt') if mode else (None,):
            it = bench(lab, exc_mode=mode, exc_family=family)
            if family in ('RuntimeError', 'KeyboardInterrupt'):
                it.may_raise = lambda name: name == 'callback'
            e = lab.where(it, M + '__exit__')
            tail = ' with failing calls (%s)' % family if mode else ''
            both('one with block', ('package_during', 'during'), [every, work])
            both('two with blocks', ('package_during_twice', 'during_twice'), [every, work])
            both('disconnected inside the block', ('package_during_closed', 'during_closed'), [every, work])
            lab.done(it)
