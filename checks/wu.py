"""C38-C40: uploads to the Weather Underground."""
from wlsa.runner import prop
from wlsa.harness import *
from wlsa import ext
from wlsa import terms as tm
from checks.weather import uninterpreted

W, S = 'weatherlink.exporter.wunderground:WundergroundExporter.', 'spec.wu:'
MODS = ['weatherlink.exporter.wunderground', 'spec.wu']
SIMPLE = ['wind_speed', 'wind_direction_prevailing_degrees', 'wind_speed_high', 'wind_direction_speed_high_degrees',
          'humidity_outside', 'temperature_outside', 'barometric_pressure', 'solar_radiation', 'uv_index', 'temperature_inside',
          'humidity_inside']
RAPID = ['wind_speed', 'wind_direction_degrees', 'wind_speed_2_minute_average', 'wind_speed_10_minute_gust',
         'wind_speed_10_minute_gust_direction_degrees', 'humidity_outside', 'dew_point', 'temperature_outside',
         'rain_amount_1_hour', 'rain_amount_today', 'barometric_pressure', 'solar_radiation', 'uv_index', 'temperature_inside',
         'humidity_inside']
WHO = [sym('station', 'str'), sym('password', 'str')]
AT = sym('date', 'dt')


def fields(names, values=None, n=''):
    values = values or {}
    return dict_(None, [(const('date'), TRUE, AT)] + [
        (const(k), TRUE, values.get(k, opt(sym(k + n, 'dec')))) for k in names])


def pieces(t):
    """The text t as pieces, each under its condition, in order."""
    if t.op == 'ite':
        c = atom_bool(t.args[0])
        return ([(and_(c, g), x) for g, x in pieces(t.args[1])] + [(and_(not_(c), g), x) for g, x in pieces(t.args[2])])
    if t.op == 'seq' and t.args[0] == 'str':
        return [(and_(g, g2), y) for _, g, x in t.args[1] for g2, y in pieces(x)]
    return [(TRUE, t)]


def address(e):
    """A request by its address and its parameters, in any order."""
    def leaf(url):
        params = {}
        base = []

        def put(name, g, x):
            entry = params.setdefault(name, [FALSE, []])
            entry[0] = or_(entry[0], g)
            if x is not None:
                entry[1].append((g, x))

        def step(at, g, x):
            """Where the text goes on, under g, when it was at a place and x follows."""
            kind, name = at
            if not (x.op == 'const' and x.sort == 'str'):
                x = [x]
            else:
                x = [c for part in _split(x.args[1]) for c in part]
            for part in x:
                if part == '&':
                    if kind == 'name' and name:
                        put(name, g, None)
                    kind, name = 'name', ''
                elif kind == 'base':
                    base.append((g, const(part) if isinstance(part, str) else part))
                elif kind == 'value':
                    put(name, g, const(part) if isinstance(part, str) else part)
                elif isinstance(part, str):
                    head, eq, tail = part.partition('=')
                    name += head
                    if eq:
                        kind = 'value'
                        put(name, g, const(tail) if tail else None)
                else:
                    kind = 'value'
                    put(name + '...', g, part)
            return kind, name

        states = {('base', ''): TRUE}
        for g, x in pieces(url):
            after = {}
            for at, h in states.items():
                on, off = and_(h, g), and_(h, not_(g))
                if on is not FALSE:
                    to = step(at, on, x)
                    after[to] = or_(after.get(to, FALSE), on)
                if off is not FALSE:
                    after[at] = or_(after.get(at, FALSE), off)
            states = after
        for (kind, name), g in states.items():
            if kind == 'name' and name:
                put(name, g, None)
        return tuple_(text(TRUE, base), dict_(None, [(const(k), g, text(g, v)) for k, (g, v) in sorted(params.items())]))
    return tuple(tm.lift(leaf, (a,)) if i == 0 and a.op != 'ite' else leaf(a) if i == 0 else a for i, a in enumerate(e.args)), e.kw


def _split(s):
    """The text in parts, its separators apart."""
    for n, part in enumerate(s.replace('?', '&').split('&')):
        yield (['&'] if n else []) + ([part] if part else [])


def text(g, xs):
    """Pieces joined; alternatives under complementary conditions are one piece."""
    out = []
    i = 0
    for c, x in xs:
        c = constrain(c, g)
        if c is FALSE:
            continue
        if out and and_(out[-1][0], c) is FALSE and c is not TRUE:
            out[-1] = (or_(out[-1][0], c), ite3(out[-1][0], out[-1][1], x))
        else:
            out.append((c, x))
    return seq('str', [('s', c, x) for c, x in out]) if len(out) != 1 or out[0][0] is not TRUE else out[0][1]


def engine(lab, dew=True, **flags):
    it = lab.engine(MODS, uninterpreted('calculate_dew_point') if dew else {}, **flags)
    it.views['.get'] = address
    return it


def answered(it, status=200, said='success'):
    it.shapes['.status_code'] = lambda itp, o, st: num(status, 'int')
    it.shapes['.text'] = lambda itp, o, st: const(said)


ZONES = [('the default zone', const('default')), ('no zone', NONE), ('a zone name', sym('zone', 'str')),
         ('another zone of pytz', sym('zone', 'tz')),
         ('another zone', sym('zone', 'tzinfo'))]


def agree(lab, e, its, what, names, args, ways=None, **kw):
    lab.same_any(e, what, [
        lambda it=it: [observe(it, it.lookup(S + n), args, **kw) for n in names] for it in (ways or its)])


@prop('C38', 20, 'for every station, password, zone, date and choice of readings, the request made has the address and '
      'parameters of the reference')
def c38(lab):
    its = [engine(lab), engine(lab, False)]
    for it in its:
        answered(it)
    for kind, names in (('simple', SIMPLE), ('rapid', RAPID)):
        e = lab.where(its[0], W + 'send_%s_update' % kind)
        for what, zone in ZONES:
            agree(lab, e, its, '%s update, %s' % (kind, what), ('package_' + kind, kind), WHO + [zone, fields(names)])
        for n in names:
            for v in ('dec', 'int'):
                only = {k: sym(k, v) if k == n else NONE for k in names}
                agree(lab, e, its, '%s update with %s %s only' % (kind, v, n), ('package_' + kind, kind),
                      WHO + [const('default'), fields(names, only)])
    for it in its:
        lab.done(it)


def packet(n, speed=NONE, direction=NONE):
    v = {k: NONE for k in RAPID}
    v['wind_speed'], v['wind_direction_degrees'] = speed, direction
    return dict_(None, [(const('date'), TRUE, AT)] + [(const(k), TRUE, x) for k, x in v.items()])


def archive(speed=NONE):
    return dict_(None, [(const('date'), TRUE, AT)] + [(const(k), TRUE, speed if k == 'wind_speed' else NONE) for k in SIMPLE])


def reading(n):
    return opt(sym('speed' + str(n), 'dec')), opt(sym('direction' + str(n), 'dec'))


def histories(tier):
    """Sequences of (speed, direction) packets and archive records (None)."""
    calm, five = (NONE, NONE), (num(5), num(100))
    x = (sym('speed', 'dec'), opt(sym('direction', 'dec')))
    any_ = reading('')
    yield 'any reading, then none', [any_] + [calm] * 51
    yield 'a reading, then a steady wind', [x] + [five] * 51
    yield 'a steady wind, then a reading, then a steady wind', [five] * 3 + [x] + [five] * 30
    yield 'a steady wind in changing directions', [(num(5), num(10 * k + 10)) for k in range(36)]
    yield 'a rising wind', [(num(k), num(360 - k)) for k in range(53)]
    yield 'a falling wind', [(num(60 - k), num(k + 1)) for k in range(53)]
    yield 'a falling wind in one direction, with gaps', [(num(60 - k), num(90)) if k % 7 else calm for k in range(53)]
    yield 'calm packets with directions', [(ZERO, num(45)), (ZERO, num(50)), (num(3), NONE), (ZERO, num(55))]
    yield 'directions only', [(NONE, num(10 * k + 10)) for k in range(5)]
    yield 'three readings', [reading(k) for k in range(3)]
    yield 'archive records between the packets', [five, None, x, None, None, five, None, calm]
    yield 'archive records only', [None] * 3
    yield 'a reading, then archive records', [x] + [None, five] * 3 + [None] * 47 + [five]
    if tier != 'quick':
        yield 'four readings', [reading(k) for k in range(4)]
        for k in (1, 2, 23, 24, 25, 26):
            yield 'two readings %d apart' % k, [reading(0)] + [calm] * (k - 1) + [reading(1)] + [calm] * 51


@prop('C39', 12, 'for every history of the family, each request carries the gust and the average direction of the reference windows')
def c39(lab):
    it = engine(lab)
    answered(it)
    e = lab.where(it, W + 'send_rapid_update')
    for what, h in histories(lab.tier):
        kinds = list_([tm.boolc(x is None) for x in h])
        args = [kinds, list_([archive(num(50)) if x is None else packet(n, *x) for n, x in enumerate(h)])]
        agree(lab, e, [it], what, ('package_history', 'history'), args)
    lab.done(it)


@prop('C40', 6, 'for every response, the update ends as in the reference: only a status from 200 to 299 with the text success is no error')
def c40(lab):
    for fail in (False, True):
        it = engine(lab, **(dict(exc_mode=True, exc_family='OSError') if fail else {}))
        for kind, names in (('simple', SIMPLE), ('rapid', RAPID)):
            e = lab.where(it, W + 'send_%s_update' % kind)
            args = WHO + [const('default'), fields(names, {k: NONE for k in names})]
            agree(lab, e, [it], '%s update%s' % (kind, ', the request may fail' if fail else ''), ('package_' + kind, kind), args,
                  refusal='' if fail else '*')
        agree(lab, e, [it], 'an update after a failed one', ('package_retry', 'retry'), [packet(0, num(5), num(90)), packet(1)],
              refusal='*')
        if not fail:
            for status, said in ((200, 'success'), (199, 'success'), (204, 'success'), (299, 'success'), (300, 'success'), (404, ''),
                                 (200, 'success\n'), (200, 'SUCCESS'), (200, ''), (200, 'unsuccessful'), (500, 'success')):
                answered(it, status, said)
                args = WHO + [const('default'), fields(SIMPLE, {k: NONE for k in SIMPLE})]
                agree(lab, lab.where(it, W + 'send_simple_update'), [it], 'status %d with text %r' % (status, said),
                      ('package_simple', 'simple'), args, refusal='*')
        lab.done(it)
