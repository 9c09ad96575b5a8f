"""Shared pieces of the reference semantics (interpreted, never executed, by the analysis)."""
import datetime
import decimal
import struct

from weatherlink.models import WindDirection

WHOLE = None
D = decimal.Decimal
TENTH = D('0.1')
HUNDREDTH = D('0.01')
THOUSANDTH = D('0.001')

COMPASS = ('N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW')

DIRECTIONS = [
    WindDirection.N, WindDirection.NNE, WindDirection.NE, WindDirection.ENE, WindDirection.E, WindDirection.ESE,
    WindDirection.SE, WindDirection.SSE, WindDirection.S, WindDirection.SSW, WindDirection.SW, WindDirection.WSW,
    WindDirection.W, WindDirection.WNW, WindDirection.NW, WindDirection.NNW,
]


def take(data, offset, code):
    return struct.unpack_from('<' + code, data, offset)[0]


def direction(code):
    """Direction code 0-15 clockwise from north, 255 for none; anything else is not a direction."""
    if code == 255:
        return None
    if code < 0 or code > 15:
        raise ValueError(code)
    return DIRECTIONS[code]


def degrees_of(code):
    if code == 255:
        return None
    return 360.0 if code == 0 else code * 22.5


def scaled(raw, missing, scale):
    if missing is not None and raw == missing:
        return None
    if scale is None:
        return raw
    return raw * scale


def timestamp_of(d):
    return (d.day + d.month * 32 + (d.year - 2000) * 512) * 65536 + d.hour * 100 + d.minute
