"""What the binary records mean: offset, width, signedness, scale and no-data code of every field."""
import datetime
import decimal
import struct

from spec.common import *
from weatherlink.models import RainCollectorTypeDatabase, RainCollectorTypeSerial, BarometricTrend, WindDirection
from weatherlink.models import calculate_weatherlink_crc

CM = D('0.393701')

ARCHIVE_WLK = (
    ('minutes_covered', 1, 'b', WHOLE, None),
    ('minutes_past_midnight', 4, 'h', WHOLE, None),
    ('temperature_outside', 6, 'h', TENTH, 32767),
    ('temperature_outside_high', 8, 'h', TENTH, -32768),
    ('temperature_outside_low', 10, 'h', TENTH, 32767),
    ('temperature_inside', 12, 'h', TENTH, 32767),
    ('barometric_pressure', 14, 'h', THOUSANDTH, 0),
    ('humidity_outside', 16, 'h', TENTH, 255),
    ('humidity_inside', 18, 'h', TENTH, 255),
    ('wind_speed', 24, 'h', TENTH, 255),
    ('wind_speed_high', 26, 'h', TENTH, 0),
    ('number_of_wind_samples', 30, 'h', WHOLE, 0),
    ('solar_radiation', 32, 'h', WHOLE, -32768),
    ('solar_radiation_high', 34, 'h', WHOLE, -32768),
    ('uv_index', 36, 'B', TENTH, 255),
    ('uv_index_high', 37, 'B', TENTH, 255),
)


def archive_wlk(handle, year, month, day):
    data = handle.read(88)
    if take(data, 0, 'b') != 1:
        raise AssertionError('not an archive record')
    prevailing, high = take(data, 28, 'B'), take(data, 29, 'B')
    r = {}
    r['wind_direction_prevailing'] = direction(prevailing)
    r['wind_direction_speed_high'] = direction(high)
    r['wind_direction_prevailing_degrees'] = degrees_of(prevailing)
    r['wind_direction_speed_high_degrees'] = degrees_of(high)
    for name, offset, code, scale, missing in ARCHIVE_WLK:
        r[name] = scaled(take(data, offset, code), missing, scale)
    rain = take(data, 20, 'H')
    clicks = rain % 4096
    rate = take(data, 22, 'h')
    kind = rain // 4096
    if kind == 0:
        r['rain_collector_type'], size = RainCollectorTypeDatabase.inches_0_1, D('0.1')
    elif kind == 1:
        r['rain_collector_type'], size = RainCollectorTypeDatabase.inches_0_01, D('0.01')
    elif kind == 2:
        r['rain_collector_type'], size = RainCollectorTypeDatabase.millimeters_0_2, D('0.02') * CM
    elif kind == 3:
        r['rain_collector_type'], size = RainCollectorTypeDatabase.millimeters_1_0, D('0.1') * CM
    elif kind == 6:
        r['rain_collector_type'], size = RainCollectorTypeDatabase.millimeters_0_1, D('0.01') * CM
    else:
        raise ValueError('unknown rain collector')
    r['rain_amount_clicks'] = clicks
    r['rain_rate_clicks'] = rate
    r['rain_amount'] = clicks * size
    r['rain_rate'] = rate * size
    d = datetime.datetime(year, month, day, 0, 0) + datetime.timedelta(minutes=take(data, 4, 'h'))
    r['date'] = d
    r['timestamp'] = timestamp_of(d)
    return r


SUMMARY = (
    ('minutes', 2, 'h', WHOLE, None),
    ('temperature_outside_high', 4, 'h', TENTH, -32768),
    ('temperature_outside_low', 6, 'h', TENTH, 32767),
    ('temperature_inside_high', 8, 'h', TENTH, -32768),
    ('temperature_inside_low', 10, 'h', TENTH, 32767),
    ('temperature_outside_average', 12, 'h', TENTH, 32767),
    ('temperature_inside_average', 14, 'h', TENTH, 32767),
    ('wind_chill_high', 16, 'h', TENTH, -32768),
    ('wind_chill_low', 18, 'h', TENTH, 32767),
    ('dew_point_high', 20, 'h', TENTH, -32768),
    ('dew_point_low', 22, 'h', TENTH, 32767),
    ('wind_chill_average', 24, 'h', TENTH, 32767),
    ('dew_point_average', 26, 'h', TENTH, 32767),
    ('humidity_outside_high', 28, 'h', TENTH, 255),
    ('humidity_outside_low', 30, 'h', TENTH, 255),
    ('humidity_inside_high', 32, 'h', TENTH, 255),
    ('humidity_inside_low', 34, 'h', TENTH, 255),
    ('humidity_outside_average', 36, 'h', TENTH, 255),
    ('barometric_pressure_high', 38, 'h', THOUSANDTH, 0),
    ('barometric_pressure_low', 40, 'h', THOUSANDTH, 0),
    ('barometric_pressure_average', 42, 'h', THOUSANDTH, 0),
    ('wind_speed_high', 44, 'h', TENTH, 0),
    ('wind_speed_average', 46, 'h', TENTH, 0),
    ('wind_daily_run', 48, 'h', TENTH, 0),
    ('wind_speed_high_10_minute_average', 50, 'h', TENTH, -32768),
    ('rain_total', 54, 'h', THOUSANDTH, None),
    ('rain_rate_high', 56, 'h', HUNDREDTH, None),
    ('total_wind_packets', 92, 'h', WHOLE, -32768),
    ('heat_index_high', 102, 'h', TENTH, -32768),
    ('heat_index_low', 104, 'h', TENTH, 32767),
    ('heat_index_average', 106, 'h', TENTH, 32767),
    ('thw_index_high', 112, 'h', TENTH, -32768),
    ('thw_index_low', 114, 'h', TENTH, 32767),
    ('integrated_heating_degree_days', 116, 'h', TENTH, 0),
    ('temperature_wet_bulb_high', 118, 'h', TENTH, -32768),
    ('temperature_wet_bulb_low', 120, 'h', TENTH, 32767),
    ('temperature_wet_bulb_average', 122, 'h', TENTH, 32767),
    ('integrated_cooling_degree_days', 163, 'h', TENTH, 0),
)


def daily_summary(handle, year, month, day):
    data = handle.read(176)
    if take(data, 0, 'b') != 2 or take(data, 88, 'b') != 3:
        raise AssertionError('not a daily summary')
    r = {}
    r['wind_speed_high_direction'] = direction(take(data, 52, 'B'))
    r['wind_speed_high_10_minute_average_direction'] = direction(take(data, 53, 'B'))
    for name, offset, code, scale, missing in SUMMARY:
        r[name] = scaled(take(data, offset, code), missing, scale)
    r['date'] = datetime.date(year, month, day)
    return r


def header(handle):
    data = handle.read(20)
    days = []
    for i in range(32):
        index = handle.read(6)
        days.append({'record_count': take(index, 0, 'h'), 'start_index': take(index, 2, 'l')})
    return {'version_code': data[:16], 'record_count': take(data, 16, 'l'), 'day_indexes': days}


ARCHIVE_DOWNLOAD = (
    ('temperature_outside', 4, 'h', TENTH, 32767),
    ('temperature_outside_high', 6, 'h', TENTH, -32768),
    ('temperature_outside_low', 8, 'h', TENTH, 32767),
    ('barometric_pressure', 14, 'H', THOUSANDTH, 0),
    ('solar_radiation', 16, 'h', WHOLE, 32767),
    ('number_of_wind_samples', 18, 'H', WHOLE, 0),
    ('temperature_inside', 20, 'h', TENTH, 32767),
    ('humidity_inside', 22, 'B', WHOLE, 255),
    ('humidity_outside', 23, 'B', WHOLE, 255),
    ('wind_speed', 24, 'B', WHOLE, 255),
    ('wind_speed_high', 25, 'B', WHOLE, 0),
    ('uv_index', 28, 'B', TENTH, 255),
    ('evapotranspiration', 29, 'B', THOUSANDTH, 0),
    ('solar_radiation_high', 30, 'h', WHOLE, 32767),
    ('uv_index_high', 32, 'B', TENTH, 255),
)


def archive_download(handle, minutes):
    data = handle.read(52)
    date, time = take(data, 0, 'h'), take(data, 2, 'h')
    if date < 1:
        return None
    if take(data, 42, 'B') != 0:
        raise AssertionError('not a revision B record')
    high, prevailing = take(data, 26, 'B'), take(data, 27, 'B')
    r = {'minutes_covered': minutes}
    r['wind_direction_speed_high'] = direction(high)
    r['wind_direction_prevailing'] = direction(prevailing)
    r['wind_direction_prevailing_degrees'] = degrees_of(prevailing)
    r['wind_direction_speed_high_degrees'] = degrees_of(high)
    for name, offset, code, scale, missing in ARCHIVE_DOWNLOAD:
        r[name] = scaled(take(data, offset, code), missing, scale)
    clicks, rate = take(data, 10, 'H'), take(data, 12, 'H')
    r['rain_collector_type'] = RainCollectorTypeSerial.inches_0_01
    r['rain_amount_clicks'] = clicks
    r['rain_rate_clicks'] = rate
    r['rain_amount'] = clicks * D('0.01')
    r['rain_rate'] = rate * D('0.01')
    r['timestamp'] = date * 65536 + time
    r['date'] = datetime.datetime(2000 + date // 512, date // 32 % 16, date % 32, time // 100, time % 100)
    return r


LOOP2 = (
    ('barometric_pressure', 7, 'H', THOUSANDTH, 0),
    ('temperature_inside', 9, 'h', TENTH, 32767),
    ('humidity_inside', 11, 'B', WHOLE, 255),
    ('temperature_outside', 12, 'h', TENTH, 32767),
    ('wind_speed', 14, 'B', WHOLE, 255),
    ('wind_direction_degrees', 16, 'H', WHOLE, 0),
    ('wind_speed_10_minute_average', 18, 'H', TENTH, 0),
    ('wind_speed_2_minute_average', 20, 'H', TENTH, 0),
    ('wind_speed_10_minute_gust', 22, 'H', TENTH, 0),
    ('wind_speed_10_minute_gust_direction_degrees', 24, 'H', WHOLE, 0),
    ('dew_point', 30, 'h', WHOLE, 255),
    ('humidity_outside', 33, 'B', WHOLE, 255),
    ('heat_index', 35, 'h', WHOLE, 255),
    ('wind_chill', 37, 'h', WHOLE, 255),
    ('thsw_index', 39, 'h', WHOLE, 255),
    ('rain_rate_clicks', 41, 'H', WHOLE, None),
    ('uv_index', 43, 'B', TENTH, 255),
    ('solar_radiation', 44, 'H', WHOLE, 32767),
    ('rain_clicks_this_storm', 46, 'H', WHOLE, None),
    ('rain_clicks_today', 50, 'H', WHOLE, None),
    ('rain_clicks_15_minutes', 52, 'H', WHOLE, None),
    ('rain_clicks_1_hour', 54, 'H', WHOLE, None),
    ('evapotranspiration', 56, 'H', THOUSANDTH, 0),
    ('rain_clicks_24_hours', 58, 'H', WHOLE, None),
    ('minute_in_hour', 79, 'B', WHOLE, 60),
)

LOOP2_FIXED = (
    (4, 'B', 1), (5, 'H', 0x7FFF), (15, 'B', 0xFF), (26, 'H', 0x7FFF), (28, 'H', 0x7FFF), (32, 'B', 0xFF),
    (34, 'B', 0xFF), (71, 'B', 0xFF), (83, 'H', 0x7FFF), (85, 'H', 0x7FFF), (87, 'H', 0x7FFF), (89, 'H', 0x7FFF),
    (91, 'H', 0x7FFF), (93, 'H', 0x7FFF),
)

TRENDS = {
    -60: BarometricTrend.falling_rapidly, -20: BarometricTrend.falling_slowly, 0: BarometricTrend.steady,
    20: BarometricTrend.rising_slowly, 60: BarometricTrend.rising_rapidly,
}

SECTORS = (
    ('NNE', 12, 34), ('NE', 35, 56), ('ENE', 57, 79), ('E', 80, 101), ('ESE', 102, 124), ('SE', 125, 146),
    ('SSE', 147, 169), ('S', 170, 191), ('SSW', 192, 214), ('SW', 215, 236), ('WSW', 237, 259), ('W', 260, 281),
    ('WNW', 282, 304), ('NW', 305, 326), ('NNW', 327, 349),
)


def sector(degrees):
    """Compass point of a whole number of degrees 1..360, None outside."""
    if degrees < 1 or degrees > 360:
        return None
    for name, low, high in SECTORS:
        if low <= degrees <= high:
            return getattr(WindDirection, name)
    return WindDirection.N


def loop2(handle):
    data = handle.read(99)
    if data[:3] != b'LOO' or data[95:96] != b'\n' or data[96:97] != b'\r':
        raise AssertionError('not a LOOP packet')
    for offset, code, value in LOOP2_FIXED:
        if take(data, offset, code) != value:
            raise AssertionError('not a LOOP2 packet')
    r = {'record_type': 2, 'crc_match': calculate_weatherlink_crc(data) == 0}
    for name, offset, code, scale, missing in LOOP2:
        r[name] = scaled(take(data, offset, code), missing, scale)
    trend = take(data, 3, 'b')
    r['barometric_trend'] = TRENDS[trend] if trend in TRENDS else None
    r['wind_direction'] = sector(take(data, 16, 'H'))
    r['wind_speed_10_minute_gust_direction'] = sector(take(data, 24, 'H'))
    for source, target in (
        ('rain_rate_clicks', 'rain_rate'), ('rain_clicks_this_storm', 'rain_amount_this_storm'),
        ('rain_clicks_today', 'rain_amount_today'), ('rain_clicks_15_minutes', 'rain_amount_15_minutes'),
        ('rain_clicks_1_hour', 'rain_amount_1_hour'), ('rain_clicks_24_hours', 'rain_amount_24_hours'),
    ):
        r[target] = r[source] * D('0.01') if r[source] else None
    return r


def download_domain(handle):
    return take(handle.read(52), 2, 'h') >= 0
