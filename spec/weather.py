"""Reference formulas of the derived weather values (units: degrees Fahrenheit, percent, inches of mercury, mph, W/m2)."""
import datetime
import decimal

from spec.common import *
from weatherlink.utils import (
    calculate_dew_point, calculate_heat_index, calculate_thsw_index, calculate_thw_index, calculate_wet_bulb_temperature,
    calculate_wind_chill,
)

UP, DOWN, EVEN = decimal.ROUND_CEILING, decimal.ROUND_FLOOR, decimal.ROUND_HALF_EVEN


def dec(v):
    return D(v or 0)


# units

def f_to_k(f):
    return ((f + D('459.67')) * 5 / 9).quantize(D('0.001'), rounding=EVEN)


def k_to_f(k):
    return (k * D(9) / 5 - D('459.67')).quantize(D('0.001'), rounding=EVEN)


def f_to_c(f):
    return ((f - D(32)) * 5 / 9).quantize(D('0.001'), rounding=EVEN)


def c_to_f(c):
    return (c * D(9) / 5 + 32).quantize(D('0.001'), rounding=EVEN)


def inhg_to_kpa(p):
    return (p / D('0.295299830714')).quantize(D('0.01'), rounding=EVEN)


def inhg_to_mb(p):
    return (p / D('0.0295299830714')).quantize(D('0.01'), rounding=EVEN)


def mph_to_mps(v):
    return (v * D('0.44704')).quantize(D('0.00001'), rounding=EVEN)


# indexes

def heat_index(t, humidity):
    if t < 70:
        return None
    r = dec(humidity)
    simple = (t + D('0.5') * (t + D('61.0') + (t - D('68.0')) * D('1.2') + r * D('0.094'))) / 2
    if simple < 80:
        return simple.quantize(TENTH, rounding=UP)
    h = (
        D('-42.379') + D('2.04901523') * t + D('10.14333127') * r - D('0.22475541') * t * r - D('0.00683783') * t * t -
        D('0.05481717') * r * r + D('0.00122874') * t * t * r + D('0.00085282') * t * r * r -
        D('0.00000199') * t * t * r * r
    )
    if r < 13 and t >= 80 and t <= 112:
        away = t - 95 if t > 95 else 95 - t
        h = h - (13 - r) / 4 * ((17 - away) / D(17)).sqrt()
    elif r > 85 and t >= 80 and t <= 87:
        h = h + (r - 85) / 10 * ((87 - t) / D(5))
    return h.quantize(TENTH, rounding=UP)


def wind_chill(t, speed):
    if t > 40:
        return None
    v = dec(speed)
    if v == 0:
        return t
    p = v ** D('0.16')
    w = (D('35.74') + D('0.6215') * t - D('35.75') * p + D('0.4275') * t * p).quantize(TENTH, rounding=DOWN)
    if w > t:
        return t
    return w


def thw_index(t, humidity, speed):
    h = calculate_heat_index(t, humidity)
    if h is None:
        return None
    return h - (D('1.072') * dec(speed)).quantize(TENTH, rounding=UP)


def thw_index_inline(t, humidity, speed):
    h = heat_index(t, humidity)
    if not h:
        return None
    return h - (D('1.072') * dec(speed)).quantize(TENTH, rounding=UP)


def heat_index_zero(t, humidity):
    return calculate_heat_index(t, humidity) != 0


def thsw_index(t, humidity, radiation, speed):
    c = f_to_c(t)
    q = dec(radiation)
    v = mph_to_mps(dec(speed))
    absorbed = q * D('0.25') / 7 + q / 28
    vapour = dec(humidity) / 100 * D('6.105') * (D('17.27') * c / (D('237.7') + c)).exp()
    a = c + D('0.348') * vapour - D('0.70') * v + D('0.70') * absorbed / (v + 10) - D('4.25')
    return c_to_f(a).quantize(TENTH, rounding=EVEN)


def dew_point(t, humidity):
    c = f_to_c(t)
    y = (dec(humidity) / 100 * ((D('17.67') - c / D('234.5')) * (c / (D('243.5') + c))).exp()).ln()
    return c_to_f(D('243.5') * y / (D('17.67') - y)).quantize(TENTH, rounding=EVEN)


def wet_bulb(t, humidity, pressure):
    c = f_to_c(t)
    dry = 1 - dec(humidity) / 100
    p = inhg_to_mb(pressure)
    d = (
        c - (D('14.55') + D('0.114') * c) * dry - ((D('2.5') + D('0.007') * c) * dry) ** 3 -
        (D('15.9') + D('0.117') * c) * dry ** 14
    )
    e = D('6.11') * 10 ** (D('7.5') * d / (D('237.7') + d))
    slope = 4098 * e / (d + D('237.7')) ** 2
    g = D('0.00066') * p
    return c_to_f((g * c + slope * d) / (g + slope)).quantize(TENTH, rounding=EVEN)


# degree days

def cooling(average):
    if average > 65:
        return average - 65
    return None


def heating(average):
    if average < 65:
        return 65 - average
    return None


# values derived from one record

def derived(record):
    out = {}
    speed, gust = record.get('wind_speed'), record.get('wind_speed_high')
    humidity, inside_humidity = record.get('humidity_outside'), record.get('humidity_inside')
    pressure = record.get('barometric_pressure')
    now = record.get('temperature_outside')
    low = record.get('temperature_outside_low')
    high = record.get('temperature_outside_high')
    inside = record.get('temperature_inside')
    sun, sun_high = record.get('solar_radiation'), record.get('solar_radiation_high')

    if speed:
        out['wind_run_distance_total'] = D(speed) / 60 * record['minutes_covered']
    if humidity and pressure:
        if now is not None:
            out['temperature_wet_bulb'] = calculate_wet_bulb_temperature(now, humidity, pressure)
        if low is not None:
            out['temperature_wet_bulb_low'] = calculate_wet_bulb_temperature(low, humidity, pressure)
        if high is not None:
            out['temperature_wet_bulb_high'] = calculate_wet_bulb_temperature(high, humidity, pressure)
    if inside_humidity and inside is not None:
        out['dew_point_inside'] = calculate_dew_point(inside, inside_humidity)
        index = calculate_heat_index(inside, inside_humidity)
        if index is not None:
            out['heat_index_inside'] = index
    winds = [D(speed) if speed else D(0), gust if gust else 0]
    if humidity:
        spread(out, 'dew_point_outside', [calculate_dew_point(t, humidity) for t in (now, low, high) if t is not None])
        spread(out, 'heat_index_outside', [calculate_heat_index(t, humidity) for t in (now, low, high) if t is not None])
        spread(out, 'thw_index', [
            calculate_thw_index(t, humidity, w) for t in (now, high, low) if t is not None for w in winds
        ])
        spread(out, 'thsw_index', [
            calculate_thsw_index(t, humidity, s, w)
            for s in (sun, sun_high) if s for t in (now, high, low) if t is not None for w in winds
        ])
    spread(out, 'wind_chill', [
        calculate_wind_chill(t, w) for w in winds if w for t in (now, high, low) if t is not None
    ])
    return out


def spread(out, name, values):
    known = [v for v in values if v is not None]
    if known:
        out[name] = known[0]
        out[name + '_low'] = min(known)
        out[name + '_high'] = max(known)
