"""C22-C29: derived weather values."""
from wlsa.runner import prop
from wlsa.harness import *
from wlsa import terms as tm

U = 'weatherlink.utils:'
S = 'spec.weather:'
MODS = ['weatherlink.utils', 'weatherlink.models', 'spec.weather']


def uninterpreted(*names):
    """The named functions as opaque functions of their arguments (None where they may give None)."""
    out = {}
    for n in names:
        t = n in ('calculate_heat_index', 'calculate_wind_chill', 'calculate_thw_index')

        def fn(itp, f, args, kw, st, ex, node, n=n, t=t):
            order = ARGS[n]
            xs = list(args) + [kw[k] for k in order[len(args):]]
            xs = [itp.freeze(x, st) for x in xs]
            v = tm.app(n, tuple(dec_(x) for x in xs), 'dec')
            if t:
                c = tm.app(n + '?', tuple(dec_(x) for x in xs), 'bool')
                return lift_ite(c, v)
            return v
        out[U + n] = fn
    return out


def lift_ite(c, v):
    return tm.lift(lambda a, b: ite3(tm.truth(a), b, NONE), (c, v))


def dec_(x):
    """int and Decimal of the same value are the same input."""
    def leaf(y):
        return tm.canon_num(y)
    return tm.lift(leaf, (x,))


ARGS = {
    'calculate_heat_index': ('temperature', 'relative_humidity'),
    'calculate_dew_point': ('temperature', 'relative_humidity'),
    'calculate_wind_chill': ('temperature', 'wind_speed'),
    'calculate_thw_index': ('temperature', 'relative_humidity', 'wind_speed'),
    'calculate_thsw_index': ('temperature', 'relative_humidity', 'solar_radiation', 'wind_speed'),
    'calculate_wet_bulb_temperature': ('temperature', 'relative_humidity', 'barometric_pressure'),
}


def formula(lab, it, repo, ref, names, sorts=('dec', 'int'), assume=TRUE, null=()):
    e = lab.where(it, U + repo)
    for s in sorts:
        args = [sym(n, s) for n in names]
        a = observe(it, it.lookup(U + repo), args, st=it.new_state())
        b = observe(it, it.lookup(S + ref), args, st=it.new_state())
        lab.same(e, 'every %s input' % ('Decimal' if s == 'dec' else s), a, b, assume)
    for k in null:
        args = [NONE if n == k else sym(n, 'dec') for n in names]
        a = observe(it, it.lookup(U + repo), args, st=it.new_state())
        b = observe(it, it.lookup(S + ref), args, st=it.new_state())
        lab.same(e, 'missing %s' % k, a, b, assume)


@prop('C22', 14, 'every unit conversion equals the reference as a polynomial over the rationals, with its quantum and rounding')
def c22(lab):
    it = lab.engine(MODS, zero_division=False)
    for repo, ref in (
            ('convert_fahrenheit_to_kelvin', 'f_to_k'), ('convert_kelvin_to_fahrenheit', 'k_to_f'),
            ('convert_fahrenheit_to_celsius', 'f_to_c'), ('convert_celsius_to_fahrenheit', 'c_to_f'),
            ('convert_inches_of_mercury_to_kilopascals', 'inhg_to_kpa'),
            ('convert_inches_of_mercury_to_millibars', 'inhg_to_mb'),
            ('convert_miles_per_hour_to_meters_per_second', 'mph_to_mps')):
        formula(lab, it, repo, ref, ['x'])
    lab.done(it)


@prop('C23', 6, 'heat index and THW index: same pieces, thresholds, coefficients, adjustments and rounding as the reference '
      'for every temperature, humidity and wind speed')
def c23(lab):
    it = lab.engine(MODS, zero_division=False)
    formula(lab, it, 'calculate_heat_index', 'heat_index', ['t', 'rh'], null=('rh',))
    lab.done(it)
    it = lab.engine(MODS, uninterpreted('calculate_heat_index'), zero_division=False)
    it2 = lab.engine(MODS, zero_division=False)
    e = lab.where(it, U + 'calculate_thw_index')
    for s, nul in (('dec', None), ('int', None), ('dec', 'ws')):
        args = [NONE if n == nul else sym(n, s) for n in ('t', 'rh', 'ws')]
        st = it.new_state()
        c = lab.condition(it, S + 'heat_index_zero', args[:2], st)
        lab.same_any(e, 'missing wind' if nul else 'every %s input' % s, [
            lambda: (observe(it, it.lookup(U + 'calculate_thw_index'), args, st=it.new_state()),
                     observe(it, it.lookup(S + 'thw_index'), args, st=it.new_state()), c),
            lambda: (observe(it2, it2.lookup(U + 'calculate_thw_index'), args, st=it2.new_state()),
                     observe(it2, it2.lookup(S + 'thw_index_inline'), args, st=it2.new_state()), TRUE)])
    lab.done(it)
    lab.assumptions.append('a heat index is never exactly zero (it exists from 70 degrees up)')


@prop('C24', 3, 'wind chill: same threshold, calm case, coefficients, exponent, cap and rounding as the reference for every '
      'temperature and wind speed')
def c24(lab):
    it = lab.engine(MODS, zero_division=False)
    formula(lab, it, 'calculate_wind_chill', 'wind_chill', ['t', 'ws'], null=('ws',))
    lab.done(it)


@prop('C25', 4, 'dew point and wet bulb temperature equal the reference formulas, rounding included, for every input')
def c25(lab):
    it = lab.engine(MODS, zero_division=False)
    formula(lab, it, 'calculate_dew_point', 'dew_point', ['t', 'rh'])
    formula(lab, it, 'calculate_wet_bulb_temperature', 'wet_bulb', ['t', 'rh', 'p'])
    lab.done(it)


@prop('C26', 3, 'THSW index equals the reference formula, rounding included, for every input')
def c26(lab):
    it = lab.engine(MODS, zero_division=False)
    formula(lab, it, 'calculate_thsw_index', 'thsw_index', ['t', 'rh', 'sr', 'ws'], null=('rh', 'sr', 'ws'))
    lab.done(it)


RECORD = ('wind_speed', 'wind_speed_high', 'humidity_outside', 'humidity_inside', 'barometric_pressure',
          'temperature_outside', 'temperature_outside_low', 'temperature_outside_high', 'temperature_inside',
          'solar_radiation', 'solar_radiation_high')


@prop('C27', 10, 'the values derived from one record (which exist, from which readings, first, lowest and highest) equal the '
      'reference for every combination of missing and present readings')
def c27(lab):
    it = lab.engine(MODS, uninterpreted(*ARGS), zero_division=False)
    e = lab.where(it, U + 'calculate_all_record_values')

    def rec():
        f = [(n, opt(sym(n, 'dec'))) for n in RECORD] + [('minutes_covered', sym('minutes_covered', 'int'))]
        return inst('weatherlink.models:ArchiveIntervalRecord', f)
    a = observe(it, it.lookup(U + 'calculate_all_record_values'), [rec()], st=it.new_state())
    b = observe(it, it.lookup(S + 'derived'), [rec()], st=it.new_state())
    from checks.records import each_field
    each_field(lab, e, a, b, TRUE)
    lab.done(it)


@prop('C28', 4, 'cooling and heating degree days equal the reference for every average, and exactly one or none exists')
def c28(lab):
    it = lab.engine(MODS, zero_division=False)
    formula(lab, it, 'calculate_cooling_degree_days', 'cooling', ['average'])
    formula(lab, it, 'calculate_heating_degree_days', 'heating', ['average'])
    lab.done(it)
