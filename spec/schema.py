"""C45: what the tables must be able to hold.  (lowest, highest, resolution) of what the sensors can report over a year, from the
documented ranges of the instruments; calculated temperatures have three digits and a tenth."""

TEMPERATURE = (-999, 999, '0.1')                # calculated ones exceed the range of the sensors
HUMIDITY = (0, 100, '1')
PRESSURE = (0, 33, '0.001')
WIND = (0, 255, '1')
MEAN_WIND = (0, 255, '0.1')
SUN = (0, 1999, '1')
UV = (0, '25.5', '0.1')
RUN = (0, 200 * 24 * 366, '0.1')
YEAR = (1970, 2100, '1')
MONTH = (0, 12, '1')
DAY = (0, 31, '1')
WEEK = (0, 53, '1')
CLICKS = (0, 65535, '1')
COMPASS = frozenset(['N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW'])
PERIODS = frozenset(['DAILY', 'WEEKLY', 'MONTHLY', 'YEARLY'])
MOMENT, DATE, TIME = 'datetime', 'date', 'time'
COLD = (0, (65 + 40) * 366, '0.1')              # a year at the lowest temperature of the sensor
WARM = (0, (150 - 65) * 366, '0.1')

RECORD = {
    'timestamp_weatherlink': (0, ((100 << 9) + (12 << 5) + 31 << 16) + 2359, '1'),
    'timestamp_station': MOMENT, 'timestamp_utc': MOMENT,
    'minutes_covered': (1, 120, '1'), 'summary_year': YEAR, 'summary_month': MONTH, 'summary_day': DAY,
    'temperature_outside': TEMPERATURE, 'temperature_outside_low': TEMPERATURE, 'temperature_outside_high': TEMPERATURE,
    'temperature_inside': TEMPERATURE, 'humidity_outside': HUMIDITY, 'humidity_inside': HUMIDITY,
    'barometric_pressure': PRESSURE, 'wind_speed': WIND, 'wind_speed_direction': COMPASS, 'wind_speed_high': WIND,
    'wind_speed_high_direction': COMPASS, 'wind_run_distance_total': (0, 255 * 2, '0.01'),
    'rain_total': (0, '409.5', '0.01'), 'rain_rate_high': (0, '655.35', '0.01'), 'rain_clicks': CLICKS,
    'rain_click_rate_high': CLICKS, 'solar_radiation': SUN, 'solar_radiation_high': SUN, 'uv_index': UV, 'uv_index_high': UV,
    'evapotranspiration': (0, '0.255', '0.001'),
}
for _name in ('temperature_wet_bulb', 'dew_point_outside', 'heat_index_outside', 'wind_chill', 'thw_index', 'thsw_index'):
    RECORD.update({_name: TEMPERATURE, _name + '_low': TEMPERATURE, _name + '_high': TEMPERATURE})
RECORD.update({'dew_point_inside': TEMPERATURE, 'heat_index_inside': TEMPERATURE})
RECORD_REQUIRED = {'timestamp_weatherlink', 'timestamp_station', 'timestamp_utc', 'minutes_covered', 'summary_year',
                   'summary_month', 'summary_day'}

SUMMARY = {
    'summary_type': PERIODS, 'summary_year': YEAR, 'summary_month': MONTH, 'summary_week': WEEK, 'summary_day': DAY,
    'week_start': DATE, 'week_end': DATE,
    'wind_speed_average': MEAN_WIND, 'wind_direction_prevailing': COMPASS, 'wind_speed_high': WIND,
    'wind_speed_high_direction': COMPASS, 'wind_speed_high_timestamp': MOMENT,
    'wind_speed_high_10_minute_average': MEAN_WIND, 'wind_speed_high_10_minute_average_direction': COMPASS,
    'wind_speed_high_10_minute_average_start': MOMENT, 'wind_speed_high_10_minute_average_end': TIME,
    'wind_run_distance_total': RUN, 'wind_run_distance_daily_average': RUN, 'wind_run_distance_weekly_average': RUN,
    'wind_run_distance_monthly_average': RUN,
    'rain_total': (0, '999.99', '0.01'), 'rain_rate_high': (0, '655.35', '0.01'), 'rain_rate_high_timestamp': MOMENT,
    'evapotranspiration': (0, '199.99', '0.001'),
    'integrated_heating_degree_days': COLD, 'integrated_cooling_degree_days': WARM,
}
for _name, _range, _low, _high in (
        ('temperature_outside', TEMPERATURE, True, True), ('temperature_inside', TEMPERATURE, False, False),
        ('humidity_outside', HUMIDITY, True, True), ('humidity_inside', HUMIDITY, False, False),
        ('barometric_pressure', PRESSURE, True, True), ('solar_radiation', SUN, False, True), ('uv_index', UV, False, True),
        ('temperature_wet_bulb', TEMPERATURE, True, True), ('dew_point_outside', TEMPERATURE, True, True),
        ('dew_point_inside', TEMPERATURE, False, False), ('heat_index_outside', TEMPERATURE, False, True),
        ('heat_index_inside', TEMPERATURE, False, False), ('wind_chill', TEMPERATURE, True, False),
        ('thw_index', TEMPERATURE, True, True), ('thsw_index', TEMPERATURE, True, True)):
    SUMMARY.update({_name + '_average': _range, _name + '_low': _range, _name + '_high': _range})
    if _low:
        SUMMARY[_name + '_low_timestamp'] = MOMENT
    if _high:
        SUMMARY[_name + '_high_timestamp'] = MOMENT
SUMMARY_REQUIRED = {'summary_type', 'summary_year', 'summary_month', 'summary_week', 'summary_day'}

EVENT = {
    'timestamp_start': MOMENT, 'timestamp_end': MOMENT, 'timestamp_rain_rate_high': MOMENT,
    'rain_total': (0, '999.99', '0.01'), 'rain_rate_average': (0, '655.35', '0.01'), 'rain_rate_high': (0, '655.35', '0.01'),
}
EVENT_REQUIRED = {'timestamp_start', 'timestamp_rain_rate_high', 'rain_total'}

TABLES = {
    'weather_archive_record': (RECORD, RECORD_REQUIRED, 'record_id', [{'timestamp_weatherlink'}]),
    'weather_calculated_summary': (SUMMARY, SUMMARY_REQUIRED, 'summary_id',
                                   [{'summary_type', 'summary_year', 'summary_month', 'summary_day', 'summary_week'}]),
    'weather_rain_event': (EVENT, EVENT_REQUIRED, 'event_id', [{'timestamp_start'}]),
}
