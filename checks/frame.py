"""C46: what calls leave alone."""
from wlsa.runner import prop, REGISTRY
from wlsa.harness import *
from wlsa import terms as tm
from wlsa import interp
from checks import my, weather
from checks.records import CRC

# what may change beside the object that the method belongs to
MAY_CHANGE = {'weatherlink.exporter.wunderground:WundergroundExporter.send_rapid_update': ('wind_gust', 'wind_gust_direction')}
PARTS = ('C01', 'C02', 'C03', 'C04', 'C08', 'C09', 'C11', 'C12', 'C13', 'C14', 'C15', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C26',
         'C27', 'C28', 'C29', 'C31', 'C38', 'C40', 'C43')
THOROUGH = ('C10', 'C16', 'C17', 'C25', 'C30', 'C32', 'C34', 'C36', 'C39', 'C42')


class FrameLab(Lab):
    """Runs the entry points of another check and looks at what their calls change; the comparisons of that check are left out."""

    def __init__(self, lab, touched):
        Lab.__init__(self, lab.root)
        self.tier, self.pid, self.touched = 'quick', lab.pid, touched

    def engine(self, *a, **k):
        it = Lab.engine(self, *a, **k)
        it.frame_hook = self.watch
        return it

    def same(self, *a, **k):
        return True

    def oblige(self, *a, **k):
        return True

    def fail(self, *a, **k):
        pass

    def same_any(self, entry, what, ways, parts=(0, 1, 2)):
        for w in ways:
            w()

    def watch(self, it, fn, args, kwargs, st):
        mine = args[0] if args and fn.cls is not None and args[0].op == 'ref' else None
        roots = [('argument', a) for a in (args[1:] if mine is not None else args)] + [('argument', a) for a in kwargs.values()
                                                                                       if isinstance(a, T)]
        kept = {}
        for k, v in it.base.heap.items():
            if k[0] in ('C', 'E') and str(k[1]).startswith('weatherlink') and not str(k[-1]).startswith('_'):
                kept[k] = '%s.%s' % (str(k[1]).rpartition('.')[2], k[-1])
                roots.append((kept[k], v))
        for m, fid in [x for x in it.modules.items() if x[0].startswith('weatherlink')]:
            for name, v in it.base.envs[fid].items():
                if not name.startswith('_') and v is not tm.UNBOUND:
                    kept[('env', fid, name)] = '%s.%s' % (m, name)
                    roots.append((kept[('env', fid, name)], v))
        made = it.__dict__.setdefault('frame_made', set())      # what the package has allocated; the rest is its caller's
        own, ids = set(), {}
        if mine is not None:
            own = reach(it, st, [mine])
            for i in own:
                ids.setdefault(i, 'argument')
            own &= made
        for what, v in roots:
            for i in reach(it, st, [v]):
                ids.setdefault(i, what)
        for k in st.heap:
            if isinstance(k[0], int) and k[0] in ids and (k[0] not in own or ids[k[0]] != 'argument') and (mine is None or k[0] != mine.args[0]):
                kept[k] = ids[k[0]]
        before = {k: value(st, k) for k in kept}
        pre = set(k[0] for k in st.heap)

        def after(end, exits):
            states = [end] + [e.st for e in exits]
            for s in states:
                made.update(k[0] for k in s.heap if isinstance(k[0], int) and k[0] not in pre)
            t = self.touched.setdefault(fn.qual, {})
            for k, v in before.items():
                bad = None
                for s in states:
                    if s.pc is tm.FALSE:
                        continue
                    w = value(s, k)
                    if w is v:
                        continue
                    x, y = strip(fn.qual, v), strip(fn.qual, w)
                    x, y = [constrain(z, s.pc) if isinstance(z, T) and z.hasite else z for z in (x, y)]
                    if x is not y and not alike(x, y, s.pc):
                        bad = '%s: %s becomes %s' % (kept[k], tm.show(x, 4)[:120], tm.show(y, 4)[:120])
                t[(kept[k])] = t.get(kept[k]) or bad
        return after


def alike(x, y, pc):
    if not isinstance(x, T) or not isinstance(y, T):
        return False
    try:
        return compare(Obs([(pc, [x, NONE, NONE])]), Obs([(pc, [y, NONE, NONE])])) is None
    except tm.AnalysisError:
        return False


def value(st, k):
    if k[0] == 'env':
        return st.envs[k[1]].get(k[2])
    return st.heap.get(k)


def strip(qual, v):
    names = MAY_CHANGE.get(qual)
    if names and isinstance(v, T) and v.op == 'dict':
        return dict_(v.args[0], [(k, g, x) for k, g, x in v.args[1] if not (tm.isconst(k) and tm.pyval(k) in names)])
    return v


def refs(t, seen, out):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ref':
                out.add(x.args[0])
                continue
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def reach(it, st, roots):
    by = {}
    for k in st.heap:
        if isinstance(k[0], int):
            by.setdefault(k[0], []).append(k)
    done, todo, seen = set(), set(), set()
    for r in roots:
        refs(r, seen, todo)
    while todo:
        i = todo.pop()
        if i in done:
            continue
        done.add(i)
        for k in by.get(i, ()):
            refs(st.heap[k], seen, todo)
        todo -= done
    return done


FORMULAS = [
    ('convert_fahrenheit_to_kelvin', 't'), ('convert_kelvin_to_fahrenheit', 't'), ('convert_fahrenheit_to_celsius', 't'),
    ('convert_celsius_to_fahrenheit', 't'), ('convert_inches_of_mercury_to_kilopascals', 'p'),
    ('convert_inches_of_mercury_to_millibars', 'p'), ('convert_miles_per_hour_to_meters_per_second', 'w'),
    ('calculate_dew_point', 'th'), ('calculate_heat_index', 'th'), ('calculate_wind_chill', 'tw'), ('calculate_thw_index', 'thw'),
    ('calculate_thsw_index', 'thsw'), ('calculate_cooling_degree_days', 't'), ('calculate_heating_degree_days', 't')]
DECODERS = [('ArchiveIntervalRecord.load_from_wlk', [sym('y', 'int'), sym('m', 'int'), sym('d', 'int')]), ('DailySummary.load_from_wlk', [
    sym('y', 'int'), sym('m', 'int'), sym('d', 'int')]), ('Header.load_from_wlk', []), ('ArchiveIntervalRecord.load_from_download', [
        sym('minutes', 'int')]), ('LoopRecord.load_loop_2_from_connection', [])]


def again(lab, it, qual, first, second):
    """A call after another one ends as if it were the first."""
    f = it.lookup(qual)
    outcomes = []
    for before in (True, False):
        st = it.new_state()
        if before:
            try:
                it.call(f, [x(st, 'before') if callable(x) else x for x in first], {}, st, None, [], None)
            except interp.Dead:
                continue
        pc = st.pc
        outcomes.append((observe(it, f, [x(st, 'stream') if callable(x) else x for x in second], {}, st, keep=lambda e: False), pc))
    lab.same(lab.where(it, qual), 'called again', outcomes[0][0], outcomes[1][0], outcomes[0][1])


@prop('C46', 400, 'heap frame condition at every outermost call of the package: class-level tables, module globals and everything '
      'reachable from the arguments have the same value at every normal and exceptional exit as at entry; a call after another '
      'one has the value graph of a first call')
def frames(lab):
    touched = {}
    for pid in PARTS + (THOROUGH if lab.tier == 'thorough' else ()):
        sub = FrameLab(lab, touched)
        try:
            REGISTRY[pid].fn(sub)
        except tm.AnalysisError as e:
            lab.assumptions.append('the calls of check %s were not all followed: %s' % (pid, str(e)[:200]))
        lab.functions |= sub.functions
        lab.call_sites += sub.call_sites
    sub = FrameLab(lab, touched)
    it = my.deriving(my.bench(sub), values={})
    my.agree(sub, it, '', [[my.day(2016, 4, 10), my.day(2016, 4, 6)], [my.day(2016, 4, 6)]], lambda c: True, my.ALL)
    it = my.deriving(my.bench(sub), 'thw_index')
    my.exported(sub, it, '', [('columns', my.custom_columns())], [my.n(3), my.n(4), my.record(my.plain_record())],
                names=('package_directions', 'reference_directions'))
    it = my.deriving(my.bench(sub), 'thw_index', 'dew_point_inside')
    few = dict_(None, [x for x in my.custom_columns().args[1] if tm.pyval(x[0]) not in my.DERIVED])
    my.exported(sub, it, '', [('columns', few)], [list_([my.record(my.plain_record())])])
    it = my.deriving(my.bench(sub), 'thw_index')
    my.exported(sub, it, '', [], [my.n(3), my.n(4), my.record(my.plain_record())], names=('package_directions', 'reference_directions'))
    it = my.bench(sub, tables=[my.ARCHIVE, my.EVENTS, my.SUMMARY], unroll=5000)
    it.db.limit = 300
    my.rain(sub, it, '', [my.records([(0, True), (5, False)]), my.records([(0, True), (5, False), (300, True)])])
    it = sub.engine(['weatherlink.utils'], weather.uninterpreted(*weather.ARGS), zero_division=False)
    for shape in ((10, ), (5, 5, 5), (1, 11)):
        st = it.new_state()
        rows = [it.alloc('list', st, seq('list', [('e', TRUE, x) for x in (sym('s%d' % i, 'dec'), sym('d%d' % i, 'any'), sym('t%d' % i, 'dt'), const(m))]))
                for i, m in enumerate(shape)]
        it.call(it.lookup('weatherlink.utils:calculate_10_minute_wind_average'), [it.alloc('list', st, seq('list', [('e', TRUE, r) for r in rows]))],
                {}, st, None, [], None)
    for without in my.KEYS + my.MEASURED:
        st = it.new_state()
        try:
            it.call(it.lookup('weatherlink.utils:calculate_all_record_values'), [it.alloc('dict', st, my.record({
                m: my.reading(m) for m in my.KEYS + my.MEASURED if m != without}))], {}, st, None, [], None)
        except interp.Dead:
            pass
    for q, t in sorted(touched.items()):
        for what, bad in sorted(t.items()):
            lab.oblige(q, '%s is left as it was' % what, bad is None, bad)
    it = lab.engine(['weatherlink.utils', 'weatherlink.models'], CRC, zero_division=False)
    for name, args in FORMULAS:
        again(lab, it, 'weatherlink.utils:' + name, [sym(a + '1', 'dec') for a in args], [sym(a + '2', 'dec') for a in args])
    it = lab.engine(['weatherlink.utils', 'weatherlink.models'], CRC)
    for name, args in DECODERS:
        again(lab, it, 'weatherlink.models:' + name, [stream] + args, [stream] + args)
    lab.done(it)
