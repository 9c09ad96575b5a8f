"""Time stamps, rain collectors and wind directions."""
import datetime

from spec.common import *
from spec.records import sector
from weatherlink.models import RainCollectorTypeDatabase, RainCollectorTypeSerial, WindDirection, BarometricTrend

CM_TO_IN = D('0.393701')


def to_timestamp(d):
    return ((d.year - 2000) * 512 + d.month * 32 + d.day) * 65536 + d.hour * 100 + d.minute


def identity(d):
    return d


def from_timestamp(t):
    date, time = t // 65536, t % 65536
    return datetime.datetime(2000 + date // 512, date % 512 // 32, date % 32, time // 100, time % 100)


def round_trip(d):
    return datetime.datetime(d.year, d.month, d.day, d.hour, d.minute)


def timestamp_domain(t):
    return t >= 0


def inches_serial(which, clicks):
    if which == 0x00:
        return clicks * D('0.01')
    if which == 0x10:
        return clicks * D('0.02') * CM_TO_IN
    if which == 0x20:
        return clicks * D('0.01') * CM_TO_IN
    raise ValueError(which)


def centimeters_serial(which, clicks):
    if which == 0x00:
        return clicks * D('0.01') / CM_TO_IN
    if which == 0x10:
        return clicks * D('0.02')
    if which == 0x20:
        return clicks * D('0.01')
    raise ValueError(which)


def inches_database(which, clicks):
    if which == 0x0000:
        return clicks * D('0.1')
    if which == 0x1000:
        return clicks * D('0.01')
    if which == 0x2000:
        return clicks * D('0.02') * CM_TO_IN
    if which == 0x3000:
        return clicks * D('0.1') * CM_TO_IN
    if which == 0x6000:
        return clicks * D('0.01') * CM_TO_IN
    raise ValueError(which)


def centimeters_database(which, clicks):
    if which == 0x0000:
        return clicks * D('0.1') / CM_TO_IN
    if which == 0x1000:
        return clicks * D('0.01') / CM_TO_IN
    if which == 0x2000:
        return clicks * D('0.02')
    if which == 0x3000:
        return clicks * D('0.1')
    if which == 0x6000:
        return clicks * D('0.01')
    raise ValueError(which)


# the source, addressed the way a user addresses it

def use_inches_serial(which, clicks):
    return RainCollectorTypeSerial(which).clicks_to_inches(clicks)


def use_centimeters_serial(which, clicks):
    return RainCollectorTypeSerial(which).clicks_to_centimeters(clicks)


def use_inches_database(which, clicks):
    return RainCollectorTypeDatabase(which).clicks_to_inches(clicks)


def use_centimeters_database(which, clicks):
    return RainCollectorTypeDatabase(which).clicks_to_centimeters(clicks)


def use_degrees(code):
    return WindDirection(code).degrees


def degrees(code):
    if code < 0 or code > 15:
        raise ValueError(code)
    return 360.0 if code == 0 else code * 22.5


def use_direction_name(code):
    return WindDirection(code).name


def direction_name(code):
    if code < 0 or code > 15:
        raise ValueError(code)
    return COMPASS[code]


def use_trend(code):
    return BarometricTrend(code).name


def trend(code):
    names = {-60: 'falling_rapidly', -20: 'falling_slowly', 0: 'steady', 20: 'rising_slowly', 60: 'rising_rapidly'}
    if code not in names:
        raise ValueError(code)
    return names[code]
