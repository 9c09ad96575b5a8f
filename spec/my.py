"""What the MySQL exporter does to the database, as seen from its tables."""
import datetime
import decimal

import mysql.connector
import pytz
import six

from weatherlink.exporter.mysql import MySQLExporter, COLUMN_MAP_DO_NOT_INSERT
from weatherlink.models import ArchiveIntervalRecord, WindDirection
from weatherlink import utils


# the package, driven through its public interface

def package_summaries(*calls):
    e = MySQLExporter('user', 'secret', 'weather')
    e.connect()
    for dates in calls:
        e.recalculate_summaries_for_dates(dates)


def package_rain(e):
    return e.find_new_rain_events()


def package_exporter():
    e = MySQLExporter('user', 'secret', 'weather')
    e.connect()
    return e


def package_export(settings, records):
    e = MySQLExporter('user', 'secret', 'weather')
    for name, value in settings:
        if name == 'columns':
            e.archive_table_column_map = dict(value) if value else value
        elif name == 'table':
            e.archive_table_name = value
        else:
            e.station_time_zone = value
    e.connect()
    for record in records:
        e.export_record(ArchiveIntervalRecord(record))


def package_directions(settings, prevailing, high, record):
    record = dict(record)
    record['wind_direction_prevailing'] = None if prevailing is None else WindDirection(prevailing)
    record['wind_direction_speed_high'] = None if high is None else WindDirection(high)
    package_export(settings, [record])


def exporter_of(settings):
    e = MySQLExporter(settings[0], settings[1], settings[2], *settings[3:])
    return e


def package_link(settings, steps):
    e = exporter_of(settings)
    for step in steps:
        try:
            if step == 'connect':
                e.connect()
            else:
                e.disconnect()
        except Exception:
            print('failed', step)


def package_during(settings, work):
    with exporter_of(settings):
        work()


def package_during_twice(settings, work):
    e = exporter_of(settings)
    try:
        with e:
            work(1)
    except Exception:
        print('failed')
    with e:
        work(2)


def package_during_closed(settings, work):
    e = exporter_of(settings)
    with e:
        work(1)
        e.disconnect()
        work(2)


def package_newest():
    e = MySQLExporter('user', 'secret', 'weather')
    e.connect()
    return e.get_newest_timestamp()


# the reference

class Link(object):
    def __init__(self, settings):
        host = settings[3] if len(settings) > 3 else '127.0.0.1'
        port = settings[4] if len(settings) > 4 else 3306
        self.how = {'user': settings[0], 'password': settings[1], 'database': settings[2], 'host': host, 'port': port}
        self.link = None

    def connect(self):
        self.link = mysql.connector.connect(**self.how)

    def disconnect(self):
        link, self.link = self.link, None
        if link is not None:
            link.close()

    def during(self, work):
        self.connect()
        try:
            work()
        except BaseException:
            try:
                self.disconnect()
            except BaseException:
                pass
            raise
        self.disconnect()


def link(settings, steps):
    x = Link(settings)
    for step in steps:
        try:
            if step == 'connect':
                x.connect()
            else:
                x.disconnect()
        except Exception:
            print('failed', step)


def during(settings, work):
    Link(settings).during(work)


def during_twice(settings, work):
    x = Link(settings)
    try:
        x.during(lambda: work(1))
    except Exception:
        print('failed')
    x.during(lambda: work(2))


def during_closed(settings, work):
    x = Link(settings)

    def body():
        work(1)
        x.disconnect()
        work(2)
    x.during(body)


def newest():
    connection = mysql.connector.connect(host='127.0.0.1', port=3306, database='weather', user='user', password='secret')
    return one(connection.cursor(), 'SELECT max(timestamp_weatherlink) FROM weather_archive_record', [])


GAP = datetime.timedelta(hours=3)


def reference_rain(records):
    """The rain events of an archive in order of time, of records (time, amount, rate), and whether the last one goes on."""
    groups = []
    for record in records:
        if record[1] > 0:
            if groups and record[0] - groups[-1][-1][0] <= GAP:
                groups[-1].append(record)
            else:
                groups.append([record])
    events = []
    for g in groups:
        total = highest = rates = g[0][1] - g[0][1]
        at = None
        for time, amount, rate in g:
            total = total + amount
            rates = rates + rate
            if at is None or rate > highest:
                highest = rate
                at = time
        ends = g is not groups[-1] or records[-1][0] - g[-1][0] >= GAP
        events.append({
            'timestamp_start': g[0][0],
            'timestamp_end': g[-1][0] if ends else None,
            'timestamp_rain_rate_high': at,
            'rain_total': total,
            'rain_rate_average': (rates / len(g)).quantize(decimal.Decimal('0.01')),
            'rain_rate_high': highest,
        })
    return events


def reference_runs(runs):
    """The results of one run after another, each after more records, and the events in the end."""
    counts = []
    ended = 0
    for records in runs:
        events = reference_rain(records)
        now = len([e for e in events if e['timestamp_end'] is not None])
        counts.append((now - ended, len(events) - now))
        ended = now
    return counts, events


# column of a summary, statistic, column of the archive
STATISTICS = [
    ('wind_speed_high', 'max', 'wind_speed_high'),
    ('wind_speed_average', 'avg', 'wind_speed'),
    ('wind_run_distance_total', 'sum', 'wind_run_distance_total'),
    ('rain_total', 'sum', 'rain_total'),
    ('rain_rate_high', 'max', 'rain_rate_high'),
    ('solar_radiation_low', 'min', 'solar_radiation'),
    ('solar_radiation_high', 'max', 'solar_radiation_high'),
    ('solar_radiation_average', 'avg', 'solar_radiation'),
    ('uv_index_low', 'min', 'uv_index'),
    ('uv_index_high', 'max', 'uv_index_high'),
    ('uv_index_average', 'avg', 'uv_index'),
    ('evapotranspiration', 'sum', 'evapotranspiration'),
]
# measurements whose records have one value only
for name in ('temperature_inside', 'humidity_outside', 'humidity_inside', 'barometric_pressure', 'dew_point_inside',
             'heat_index_inside'):
    STATISTICS += [(name + '_low', 'min', name), (name + '_high', 'max', name), (name + '_average', 'avg', name)]
# measurements whose records have their own lows and highs
for name in ('temperature_outside', 'temperature_wet_bulb', 'dew_point_outside', 'heat_index_outside', 'wind_chill', 'thw_index',
             'thsw_index'):
    STATISTICS += [(name + '_low', 'min', name + '_low'), (name + '_high', 'max', name + '_high'), (name + '_average', 'avg', name)]

# extremes whose time is kept, by their column in a summary
TIMES = [
    'temperature_outside_low', 'temperature_outside_high', 'humidity_outside_low', 'humidity_outside_high',
    'barometric_pressure_low', 'barometric_pressure_high', 'wind_speed_high', 'rain_rate_high', 'solar_radiation_high',
    'uv_index_high', 'temperature_wet_bulb_low', 'temperature_wet_bulb_high', 'dew_point_outside_low', 'dew_point_outside_high',
    'heat_index_outside_high', 'wind_chill_low', 'thw_index_low', 'thw_index_high', 'thsw_index_low', 'thsw_index_high',
]
NOTHING_AT_ZERO = ['wind_speed_high', 'rain_rate_high', 'solar_radiation_high', 'uv_index_high']


def one(c, statement, arguments):
    c.execute(statement, arguments)
    row = c.fetchone()
    return None if row is None else row[0]


def statistics(c, where, arguments):
    out = {}
    for column, statistic, source in STATISTICS:
        out[column] = one(c, 'SELECT ' + statistic + '(' + source + ') FROM weather_archive_record WHERE ' + where, arguments)
    return out


def directions(c, where, arguments, values):
    high = values['wind_speed_high']
    prevailing = strongest = None
    if high is not None and high != 0:
        prevailing = one(c, 'SELECT wind_speed_direction FROM weather_archive_record WHERE ' + where + ' AND wind_speed_direction IS '
                         'NOT NULL GROUP BY wind_speed_direction ORDER BY count(*) DESC LIMIT 1', arguments)
        strongest = one(c, 'SELECT wind_speed_high_direction FROM weather_archive_record WHERE ' + where + ' AND wind_speed_high = %s '
                        'AND wind_speed_high_direction IS NOT NULL GROUP BY wind_speed_high_direction ORDER BY count(*) DESC LIMIT 1',
                        arguments + [high])
    return {'wind_direction_prevailing': prevailing, 'wind_speed_high_direction': strongest}


def times(c, where, arguments, values, from_days):
    sources = {}
    for column, _, source in STATISTICS:
        sources[column] = source
    out = {}
    for column in TIMES:
        value = values[column]
        at = None
        if value is not None and not (value == 0 and column in NOTHING_AT_ZERO):
            if from_days:
                at = one(c, "SELECT " + column + "_timestamp FROM weather_calculated_summary WHERE summary_type = 'DAILY' AND " + where +
                         " AND " + column + " = %s ORDER BY " + column + "_timestamp LIMIT 1", arguments + [value])
            else:
                at = one(c, 'SELECT timestamp_station FROM weather_archive_record WHERE ' + where + ' AND ' + sources[column] +
                         ' = %s ORDER BY timestamp_station LIMIT 1', arguments + [value])
        out[column + '_timestamp'] = at
    return out


def summary(c, kind, year, month, week, day, start, end):
    """The row of a period; a new one is empty."""
    key = [kind, year, month, week, day]
    found = one(c, 'SELECT summary_id FROM weather_calculated_summary WHERE summary_type = %s AND summary_year = %s AND '
                'summary_month = %s AND summary_week = %s AND summary_day = %s', key)
    if found is None:
        c.execute('INSERT INTO weather_calculated_summary (summary_type, summary_year, summary_month, summary_week, summary_day, '
                  'week_start, week_end) VALUES (%s, %s, %s, %s, %s, %s, %s)', key + [start, end])
        found = c.lastrowid
    return found


def keep(c, row, values):
    for column, value in values.items():
        c.execute('UPDATE weather_calculated_summary SET ' + column + ' = %s WHERE summary_id = %s', [value, row])


def rollup(c, row, where, arguments):
    values = {}
    for column in ('integrated_heating_degree_days', 'integrated_cooling_degree_days'):
        values[column] = one(c, 'SELECT sum(' + column + ') FROM weather_calculated_summary WHERE ' + where, arguments)
    c.execute('SELECT wind_speed_high_10_minute_average, wind_speed_high_10_minute_average_direction, '
              'wind_speed_high_10_minute_average_start, wind_speed_high_10_minute_average_end FROM weather_calculated_summary WHERE ' +
              where + ' AND wind_speed_high_10_minute_average IS NOT NULL ORDER BY wind_speed_high_10_minute_average DESC LIMIT 1',
              arguments)
    best = c.fetchone()
    if best is None:
        best = [None, None, None, None]
    values['wind_speed_high_10_minute_average'] = best[0]
    values['wind_speed_high_10_minute_average_direction'] = best[1]
    values['wind_speed_high_10_minute_average_start'] = best[2]
    values['wind_speed_high_10_minute_average_end'] = best[3]
    keep(c, row, values)


def run_average(c, row, column, where, arguments):
    v = one(c, 'SELECT avg(wind_run_distance_total) FROM weather_calculated_summary WHERE ' + where, arguments)
    keep(c, row, {column: v})


def daily(c, d):
    where, arguments = 'summary_year = %s AND summary_month = %s AND summary_day = %s', [d.year, d.month, d.day]
    values = statistics(c, where, arguments)
    mean = values['temperature_outside_average']
    values.update(directions(c, where, arguments, values))
    values.update(times(c, where, arguments, values, False))
    row = summary(c, 'DAILY', d.year, d.month, 0, d.day, None, None)
    keep(c, row, values)
    c.execute('SELECT wind_speed, wind_speed_direction, timestamp_station, minutes_covered FROM weather_archive_record WHERE ' +
              where + ' ORDER BY timestamp_station', arguments)
    average, direction, start, end = utils.calculate_10_minute_wind_average(c.fetchall())
    keep(c, row, {
        'wind_speed_high_10_minute_average': average,
        'wind_speed_high_10_minute_average_direction': direction,
        'wind_speed_high_10_minute_average_start': None if start is None else start - datetime.timedelta(seconds=60),
        'wind_speed_high_10_minute_average_end': None if end is None else end.time(),
        'integrated_heating_degree_days': None if mean is None else utils.calculate_heating_degree_days(mean),
        'integrated_cooling_degree_days': None if mean is None else utils.calculate_cooling_degree_days(mean),
    })


def weekly(c, d):
    monday = datetime.datetime(d.year, d.month, d.day) - datetime.timedelta(days=d.weekday())
    sunday = monday + datetime.timedelta(days=6)
    year, week, _ = d.isocalendar()
    where, arguments = 'timestamp_station >= %s AND timestamp_station < %s', [monday, monday + datetime.timedelta(days=7)]
    values = statistics(c, where, arguments)
    values.update(directions(c, where, arguments, values))
    values.update(times(c, where, arguments, values, False))
    row = summary(c, 'WEEKLY', year, 0, week, 0, monday.date(), sunday.date())
    keep(c, row, values)
    days = []
    arguments = []
    for i in range(7):
        day = monday + datetime.timedelta(days=i)
        days.append('(summary_year = %s AND summary_month = %s AND summary_day = %s)')
        arguments = arguments + [day.year, day.month, day.day]
    where = "summary_type = 'DAILY' AND (" + ' OR '.join(days) + ')'
    rollup(c, row, where, arguments)
    run_average(c, row, 'wind_run_distance_daily_average', where, arguments)


def monthly(c, year, month):
    where, arguments = 'summary_year = %s AND summary_month = %s', [year, month]
    values = statistics(c, where, arguments)
    values.update(directions(c, where, arguments, values))
    values.update(times(c, where, arguments, values, True))
    row = summary(c, 'MONTHLY', year, month, 0, 0, None, None)
    keep(c, row, values)
    where = "summary_type = 'DAILY' AND " + where
    rollup(c, row, where, arguments)
    run_average(c, row, 'wind_run_distance_daily_average', where, arguments)


def yearly(c, year):
    where, arguments = 'summary_year = %s', [year]
    values = statistics(c, where, arguments)
    values.update(directions(c, where, arguments, values))
    values.update(times(c, where, arguments, values, True))
    row = summary(c, 'YEARLY', year, 0, 0, 0, None, None)
    keep(c, row, values)
    rollup(c, row, "summary_type = 'MONTHLY' AND " + where, arguments)
    run_average(c, row, 'wind_run_distance_daily_average', "summary_type = 'DAILY' AND " + where, arguments)
    run_average(c, row, 'wind_run_distance_weekly_average', "summary_type = 'WEEKLY' AND " + where, arguments)
    run_average(c, row, 'wind_run_distance_monthly_average', "summary_type = 'MONTHLY' AND " + where, arguments)


def reference_summaries(*calls):
    connection = mysql.connector.connect(host='127.0.0.1', port=3306, database='weather', user='user', password='secret')
    c = connection.cursor()
    for dates in calls:
        days, weeks, months, years = [], [], [], []
        for d in dates:
            if (d.year, d.month, d.day) not in days:
                days.append((d.year, d.month, d.day))
                daily(c, d)
        for d in dates:
            if d.isocalendar()[:2] not in weeks:
                weeks.append(d.isocalendar()[:2])
                weekly(c, d)
        for d in dates:
            if (d.year, d.month) not in months:
                months.append((d.year, d.month))
                monthly(c, d.year, d.month)
        for d in dates:
            if d.year not in years:
                years.append(d.year)
                yearly(c, d.year)
    connection.commit()


COLUMNS = {
    'timestamp': 'timestamp_weatherlink',
    'date': 'timestamp_station',
    'wind_direction_prevailing': 'wind_speed_direction',
    'wind_direction_speed_high': 'wind_speed_high_direction',
    'rain_amount': 'rain_total',
    'rain_rate': 'rain_rate_high',
    'rain_amount_clicks': 'rain_clicks',
    'rain_rate_clicks': 'rain_click_rate_high',
}
MEASURED = [
    'timestamp', 'date', 'minutes_covered', 'temperature_outside', 'temperature_outside_low', 'temperature_outside_high',
    'temperature_inside', 'humidity_outside', 'humidity_inside', 'barometric_pressure', 'wind_speed', 'wind_speed_high', 'rain_amount',
    'rain_rate', 'rain_amount_clicks', 'rain_rate_clicks', 'solar_radiation', 'solar_radiation_high', 'uv_index', 'uv_index_high',
    'evapotranspiration',
]
DERIVED = [
    'wind_run_distance_total', 'temperature_wet_bulb', 'temperature_wet_bulb_low', 'temperature_wet_bulb_high', 'dew_point_outside',
    'dew_point_outside_low', 'dew_point_outside_high', 'dew_point_inside', 'heat_index_outside', 'heat_index_outside_low',
    'heat_index_outside_high', 'heat_index_inside', 'wind_chill', 'wind_chill_low', 'wind_chill_high', 'thw_index', 'thw_index_low',
    'thw_index_high', 'thsw_index', 'thsw_index_low', 'thsw_index_high',
]
DIRECTIONS = ['N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW']


def reference_insert(c, settings, record):
    table, columns, zone = 'weather_archive_record', COLUMNS, 'America/Chicago'
    for name, value in settings:
        if name == 'columns':
            columns = value or COLUMNS
        elif name == 'table':
            table = value or 'weather_archive_record'
        else:
            zone = 'America/Chicago' if value is None else value
    if isinstance(zone, str):
        zone = pytz.timezone(zone)
    date = record['date']
    date = zone.localize(date) if hasattr(zone, 'localize') else date.replace(tzinfo=zone)
    out = {
        'timestamp_utc': date.astimezone(pytz.UTC).replace(tzinfo=None),
        'summary_year': record['date'].year,
        'summary_month': record['date'].month,
        'summary_day': record['date'].day,
    }
    for name in MEASURED:
        if name in record:
            out[name] = record[name]
    for name in ('wind_direction_prevailing', 'wind_direction_speed_high'):
        if record.get(name) is not None:
            out[name] = DIRECTIONS[record[name]]
    for name, value in utils.calculate_all_record_values(ArchiveIntervalRecord(record)).items():
        if name in DERIVED:
            out[name] = value
    names, values = [], []
    for name, value in out.items():
        column = columns.get(name, name)
        if column != '__do_not_insert_this_value__':
            names.append(column)
            values.append(value)
    c.execute('INSERT INTO ' + table + ' (' + ', '.join(names) + ') VALUES (' + ', '.join(['%s' for _ in names]) + ')', values)


def reference_export(settings, records):
    connection = mysql.connector.connect(host='127.0.0.1', port=3306, database='weather', user='user', password='secret')
    for record in records:
        c = connection.cursor()
        reference_insert(c, settings, record)
        c.close()
        connection.commit()


def reference_directions(settings, prevailing, high, record):
    record = dict(record)
    record['wind_direction_prevailing'] = prevailing
    record['wind_direction_speed_high'] = high
    reference_export(settings, [record])
