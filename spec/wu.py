"""What an upload to the Weather Underground consists of."""
import datetime
import pytz
import requests
from six.moves.urllib.parse import quote

from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import ArchiveIntervalRecord, LoopRecord
from weatherlink.utils import calculate_dew_point


# the package, driven through its public interface

def exporter(station, password, zone):
    e = WundergroundExporter(station, password)
    if zone != 'default':
        e.station_time_zone = zone
    return e


def package_simple(station, password, zone, fields):
    exporter(station, password, zone).send_simple_update(ArchiveIntervalRecord(fields))


def package_rapid(station, password, zone, fields):
    exporter(station, password, zone).send_rapid_update(LoopRecord(fields))


def package_history(kinds, history):
    """Updates one after another."""
    e = exporter('id', 'pass', 'default')
    for simple, fields in zip(kinds, history):
        if simple:
            e.send_simple_update(ArchiveIntervalRecord(fields))
        else:
            e.send_rapid_update(LoopRecord(fields))


# the reference

SIMPLE = [
    ('windspeedmph', 'wind_speed'),
    ('winddir', 'wind_direction_prevailing_degrees'),
    ('windgustmph', 'wind_speed_high'),
    ('windgustdir', 'wind_direction_speed_high_degrees'),
    ('humidity', 'humidity_outside'),
    ('tempf', 'temperature_outside'),
    ('baromin', 'barometric_pressure'),
    ('solarradiation', 'solar_radiation'),
    ('UV', 'uv_index'),
    ('indoortempf', 'temperature_inside'),
    ('indoorhumidity', 'humidity_inside'),
]
RAPID = [
    ('windspeedmph', 'wind_speed'),
    ('winddir', 'wind_direction_degrees'),
    ('windgustmph', None),
    ('windgustdir', None),
    ('windspdmph_avg2m', 'wind_speed_2_minute_average'),
    ('windgustmph_10m', 'wind_speed_10_minute_gust'),
    ('windgustdir_10m', 'wind_speed_10_minute_gust_direction_degrees'),
    ('humidity', 'humidity_outside'),
    ('dewptf', 'dew_point'),
    ('tempf', 'temperature_outside'),
    ('rainin', 'rain_amount_1_hour'),
    ('dailyrainin', 'rain_amount_today'),
    ('baromin', 'barometric_pressure'),
    ('solarradiation', 'solar_radiation'),
    ('UV', 'uv_index'),
    ('indoortempf', 'temperature_inside'),
    ('indoorhumidity', 'humidity_inside'),
]


def utc(date, zone):
    if zone == 'default' or zone is None:
        zone = pytz.timezone('America/Chicago')
    elif isinstance(zone, str):
        zone = pytz.timezone(zone)
    if hasattr(zone, 'localize'):
        return zone.localize(date).astimezone(pytz.UTC).replace(tzinfo=None)
    return date.replace(tzinfo=zone).astimezone(pytz.UTC).replace(tzinfo=None)


def start(host, station, password, date, zone):
    return (
        'http://' + host + '.wunderground.com/weatherstation/updateweatherstation.php?action=updateraw&softwaretype=WeatherLink'
        '&ID=' + quote(station, safe='') + '&PASSWORD=' + quote(password, safe='') +
        '&dateutc=' + quote(utc(date, zone).strftime('%Y-%m-%d %H:%M:%S'), safe='')
    )


def parameter(name, value):
    if value is None:
        return ''
    return '&' + name + '=' + quote(str(value), safe='')


def send(session, url):
    r = session.get(url)
    if r.status_code < 200 or r.status_code >= 300:
        raise AssertionError('status')
    if r.text != 'success':
        raise AssertionError('text')


def simple_url(station, password, zone, fields):
    url = start('weatherstation', station, password, fields['date'], zone)
    for name, field in SIMPLE:
        url += parameter(name, fields[field])
    if fields['temperature_outside'] is not None and fields['humidity_outside']:
        url += parameter('dewptf', calculate_dew_point(fields['temperature_outside'], fields['humidity_outside']))
    return url


def gust_of(latest):
    """Highest wind speed of the latest minute (25 packets, the newest of equals) and its direction."""
    speed = direction = None
    for r in latest[:25]:
        if r['wind_speed'] is not None and (speed is None or r['wind_speed'] > speed):
            speed = r['wind_speed']
            direction = r['wind_direction_degrees']
    return speed, direction


def average_of(latest):
    """Mean direction of the latest two minutes (49 packets), of those that have one."""
    total = n = 0
    for r in latest[:49]:
        if r['wind_direction_degrees'] is not None:
            total += r['wind_direction_degrees']
            n += 1
    return total / n if n else None


def rapid_url(station, password, zone, latest):
    fields = latest[0]
    speed, direction = gust_of(latest)
    url = start('rtupdate', station, password, fields['date'], zone)
    for name, field in RAPID:
        if name == 'windgustmph':
            url += parameter(name, speed)
        elif name == 'windgustdir':
            url += parameter(name, direction)
        else:
            url += parameter(name, fields[field])
    return url + parameter('winddir_avg2m', average_of(latest))


def package_retry(fields, again):
    """An update, and whether or not it failed, another one."""
    e = exporter('id', 'pass', 'default')
    try:
        e.send_rapid_update(LoopRecord(fields))
    except Exception:
        pass
    e.send_rapid_update(LoopRecord(again))


def simple(station, password, zone, fields):
    send(requests.Session(), simple_url(station, password, zone, fields))


def rapid(station, password, zone, fields):
    send(requests.Session(), rapid_url(station, password, zone, [fields]))


def history(kinds, history):
    """Updates one after another; the last fifty are remembered, of which the rapid ones count."""
    session = requests.Session()
    latest = []
    for simple, fields in zip(kinds, history):
        latest = [(simple, fields)] + latest[:49]
        if simple:
            send(session, simple_url('id', 'pass', 'default', fields))
        else:
            send(session, rapid_url('id', 'pass', 'default', [f for s, f in latest if not s]))


def retry(fields, again):
    session = requests.Session()
    try:
        send(session, rapid_url('id', 'pass', 'default', [fields]))
    except Exception:
        pass
    send(session, rapid_url('id', 'pass', 'default', [again, fields]))
