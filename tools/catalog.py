"""The properties, in one place: writes properties.jsonl and MANIFEST.json (run: python3 tools/catalog.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

M, U, S, P, DL, IM = ('weatherlink/models.py', 'weatherlink/utils.py', 'weatherlink/serial.py', 'weatherlink/poller.py',
                      'weatherlink/downloader.py', 'weatherlink/importer.py')
MY, WU = 'weatherlink/exporter/mysql.py', 'weatherlink/exporter/wunderground.py'
PROPS = []
NA = []
GRAPH = 'abstract interpretation to a gated value graph; normal-form comparison with a reference'
NOTE = ('Sound for the modelled Python semantics on every input in the quantifier: one symbolic pass joins all paths, and the '
        'resulting normal form must equal that of the reference in /verif/spec. ')
TRUST = 'Trusts the models of the library calls in /verif/wlsa and the reference; binary rounding is not modelled.'


def prop(pid, title, statement, over, text, why, files, mech, technique=GRAPH, note=''):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append((dict(
        id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}), technique, NOTE + note + TRUST))


def na(pid, title, statement, over, text, why, files, mech, reason):
    assert len(title) <= 80, (pid, len(title))
    NA.append((dict(
        id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}), reason))


IN, HI, FA, CR, SC, CO = 'inputs', 'histories', 'fault_sequences', 'crash_points', 'schedules', 'configurations'

prop('C01', 'Archive records of .wlk files decode exactly',
     'Every field of a record decoded from a .wlk archive record is the value at its documented byte offset, with its documented '
     'width, signedness and scale; a field holding its no-data code decodes as absent. Rain is the 12-bit click count times the '
     'click size of the collector type in the upper 4 bits, and the date is the day plus the minutes past midnight. A record '
     'that does not carry its version marker is an error.',
     [IN], 'every 88-byte record image and every year, month and day',
     'Tests decode a few sample records; 2^704 images exist and each field has its own corner values (no-data codes, negatives).',
     [M], [('record format and attribute map', M + ':ArchiveIntervalRecord.load_from_wlk')])
prop('C02', 'Daily summaries, header and day index of .wlk files decode exactly',
     'Every field of a decoded .wlk daily summary, file header and day index entry is the value at its documented byte offset '
     'with its documented width, signedness and scale; a summary field holding its no-data code decodes as absent. Both version '
     'markers of a summary are verified, and a mismatch is an error.',
     [IN], 'every 212-byte header, 6-byte index entry and 176-byte summary image',
     'Tests decode a few sample summaries; each of the 42 fields has its own offset, sign, scale and no-data code.',
     [M], [('summary format and attribute map', M + ':DailySummary.load_from_wlk'), ('header', M + ':Header.load_from_wlk'),
           ('day index', M + ':DayIndex.load_from_wlk')])
prop('C03', 'Downloaded archive records decode exactly',
     'Every field of a record decoded from a WeatherLink download is the value at its documented byte offset with its documented '
     'width, signedness and scale; no-data codes decode as absent. A record with an empty date stamp yields no record, a record '
     'of another revision is an error, and the date and time come from the two packed stamps.',
     [IN], 'every 52-byte record image and every archive interval',
     'Tests decode a handful of canned downloads; corner values of each field are not in them.',
     [M], [('record format and attribute map', M + ':ArchiveIntervalRecord.load_from_download')])
prop('C04', 'LOOP2 packets decode exactly and report their CRC',
     'Every field of a decoded LOOP2 packet is the value at its documented byte offset with its documented width, signedness and '
     'scale; no-data codes decode as absent, and derived fields (trend, compass points, rain amounts) follow from the decoded '
     'ones. Fixed bytes of the packet are verified, and the CRC flag is true exactly when the CRC of all 99 bytes is zero.',
     [IN], 'every 99-byte packet image',
     'Tests decode a few packets; the flag and the corner codes depend on all 792 bits.',
     [M], [('packet format and attribute map', M + ':LoopRecord.load_loop_2_from_connection'),
           ('CRC', M + ':calculate_weatherlink_crc')])
prop('C05', 'Each record reader consumes exactly one record',
     'Reading one archive record, downloaded record, daily summary, file header or LOOP2 packet takes exactly the bytes of that '
     'record off the stream, on every path including ignored records, so the next read starts at the next record.',
     [IN, HI], 'every record image, every position in a stream',
     'Tests compare decoded sequences of a few files; a path that reads a byte more or less shows only with particular records.',
     [M], [('reads of fixed length', M + ':load_from_wlk, load_from_download, load_loop_2_from_connection')])
prop('C06', 'The CRC is the CRC-CCITT of all bytes, in order, from zero',
     'The WeatherLink CRC of a byte string is the 16-bit CRC with polynomial 0x1021, starting at 0, taken over every byte in '
     'order; the CRC of data followed by its own CRC (high byte first) is therefore 0.',
     [IN], 'every byte string of every length', 'Tests check a few strings; a wrong table entry shows for 1 of 256 byte values.',
     [M], [('table and fold', M + ':calculate_weatherlink_crc'), ('table', M + ':WEATHERLINK_CRC_TABLE')],
     'abstract interpretation with an affine GF(2) bit-vector domain; fold schema',
     'The step of the fold is shown to be, bit for bit, the affine CRC step; all 256 table entries are read. ')
prop('C07', 'Packed time stamps encode, decode and order as calendar times',
     'Packing a date and time into a record time stamp and unpacking it gives the same minute back, and of two moments the later '
     'one has the greater stamp. The encoding is the documented one (day + 32 month + 512 (year-2000), 100 hour + minute).',
     [IN], 'every minute from 2000 to 2127, pairs of moments for the ordering',
     'Tests try single dates; float division or a changed factor breaks only particular dates.',
     [M], [('packing', M + ':convert_datetime_to_timestamp'), ('unpacking', M + ':convert_timestamp_to_datetime')])
prop('C08', 'Rain clicks convert with the click size of the collector type',
     'For each rain collector type code, of the console and of the database, the amount in inches and in centimetres is the click '
     'count times the documented size of one click; unknown codes are errors.',
     [IN, CO], 'every click count, every collector type code of both code tables',
     'Tests check a few counts for some collector types.',
     [M], [('click sizes', M + ':RainCollectorTypeSerial, RainCollectorTypeDatabase')])
prop('C09', 'Compass points are the 16 sectors of 22.5 degrees',
     'A direction code n from 0 to 15 is the compass point with 22.5 n degrees (360 for north), and a direction in whole degrees '
     'from 1 to 360 is the nearest compass point; any other number of degrees is no direction.',
     [IN], 'every direction code and every whole number of degrees',
     'Tests sample directions; an error in the 360-entry table shows for one degree value.',
     [M], [('direction table', M + ':WindDirection.from_degrees'), ('degrees', M + ':WindDirection.__init__')])
prop('C22', 'Unit conversions are exact linear maps with documented rounding',
     'Conversions between Fahrenheit, Celsius and kelvin, of inches of mercury to kilopascals and millibars, and of miles per hour '
     'to metres per second, equal the documented factor and offset, rounded to the documented number of places, for every value.',
     [IN], 'every int and Decimal input', 'Tests compare a table of values to few places.',
     [U], [('conversions', U + ':convert_*')])
prop('C23', 'Heat index and THW index follow the reference formulas everywhere',
     'The heat index is absent below 70 degrees and otherwise the NWS simple, regression or adjusted formula according to the '
     'documented thresholds, rounded up to tenths; the THW index is the heat index less 1.072 times the wind speed (rounded up to '
     'tenths), and absent whenever the heat index is. A missing humidity or wind speed counts as zero.',
     [IN], 'every temperature, humidity and wind speed, int or Decimal, missing humidity or wind speed included',
     'Tests compare charts of sample points; thresholds, adjustments and missing readings lie between the points.',
     [U], [('heat index', U + ':calculate_heat_index'), ('THW index', U + ':calculate_thw_index')])
prop('C24', 'Wind chill follows the reference formula everywhere',
     'Wind chill is absent above 40 degrees, the temperature itself with no wind, and otherwise the NWS formula rounded down to '
     'tenths but never above the temperature.',
     [IN], 'every temperature and wind speed, int or Decimal, missing wind speed included',
     'Tests compare a chart; the cap, the threshold and the calm case are single points of it.',
     [U], [('wind chill', U + ':calculate_wind_chill')])
prop('C25', 'Dew point and wet bulb temperature follow the reference formulas',
     'Dew point and wet bulb temperature equal the documented formulas of temperature, humidity and pressure, with the '
     'intermediate conversions and the final rounding to tenths.',
     [IN], 'every temperature, humidity and pressure, int or Decimal', 'Tests compare sample points within a tolerance.',
     [U], [('dew point', U + ':calculate_dew_point'), ('wet bulb', U + ':calculate_wet_bulb_temperature')])
prop('C26', 'THSW index follows the reference formula everywhere',
     'The THSW index equals the documented formula of temperature, humidity, solar radiation and wind speed, rounded to tenths; '
     'a missing humidity, radiation or wind speed counts as zero.',
     [IN], 'every temperature, humidity, solar radiation and wind speed, int or Decimal, missing values included',
     'Tests compare sample points within a tolerance.', [U], [('THSW index', U + ':calculate_thsw_index')])
prop('C27', 'Values derived from a record use the right readings when present',
     'From one record, each derived value (wind run, wet bulb, dew point, heat index, wind chill, THW, THSW) exists exactly when '
     'the readings it needs exist; the plain value comes from the first available of current, high and low readings in the '
     'documented order, and its low and high are the least and greatest over all combinations of readings. A derived value or '
     'temperature of zero is a value, not an absence.',
     [IN], 'every record: every combination of missing, zero and present readings',
     'Tests use a few complete records; 2^11 combinations of missing readings exist.',
     [U], [('derivation', U + ':calculate_all_record_values')])
prop('C28', 'Degree days are the distance of the average from 65 degrees',
     'Cooling degree days are the excess of the average temperature over 65 degrees and heating degree days the deficit; at most '
     'one of the two exists, and neither at exactly 65.',
     [IN], 'every average temperature, int or Decimal', 'Tests sample averages.',
     [U], [('degree days', U + ':calculate_cooling_degree_days, calculate_heating_degree_days')])


prop('C29', 'The ten-minute wind average takes the windiest last ten minutes',
     'The reported ten-minute wind average is the greatest average of the wind speed over ten consecutive minutes, minutes of one '
     'record sharing its speed (the first of equal ones), if it is above zero; it comes with the most common wind direction and '
     'the first and last time of that window. Without ten minutes of readings, or with a record longer than that, there is none.',
     [IN], 'every list of records of the listed length patterns, with all speeds, directions and times',
     'Tests use one list of readings; ties, gaps, calm days and records longer than the window are other inputs.',
     [U], [('sliding window', U + ':calculate_10_minute_wind_average')],
     note='Record lengths are enumerated; speeds, directions and times are symbolic. ')

prop('C10', 'A month file yields every record and summary, each under its own day',
     'Importing opens the named file once, reads the header and then, for each day 1 to 31 in order, that day\'s blocks as counted '
     'by its index entry: first the daily summary, then the records, all dated with the year and month of the name. The records '
     'appear in file order, in one list and by day; the file is closed however the import ends.',
     [IN, FA, HI], 'every pattern of record counts of the family, every content, every failing or malformed block, two imports',
     'Tests import one or two sample files; gaps, empty months and unreadable blocks are not in them.',
     [IM], [('import', IM + ':Importer.import_data')],
     note='Record counts: 32 count vectors (empty, single day, gaps, last day, mixed), more in the thorough tier. ')
prop('C11', 'The month of a .wlk file is taken from its name, other names are refused',
     'A missing name, or one that does not end in .wlk, is a ValueError, as is one whose last eleven characters are not a year, a '
     'hyphen and a month. Otherwise year and month are the numbers in those characters.',
     [IN], 'every file name of at least eleven characters, with any directory', 'Tests use two or three names.',
     [IM], [('constructor', IM + ':Importer.__init__')])
prop('C12', 'A download asks for the header and then the data of one start time',
     'A download without user name, password or token is a ValueError and requests nothing. Otherwise it makes two requests, for '
     'action headers and then data, carrying the same start stamp and the percent-encoded credentials; the data request asks for '
     'an unencoded stream. The next download starts afresh.',
     [IN, HI], 'every user name, password, token and start (a time, a stamp or none), two downloads in a row',
     'Tests use one plain account; characters that need encoding and a second download are not in them.',
     [DL], [('download', DL + ':Downloader.download')])
prop('C13', 'A download with an unexpected response is refused',
     'The header response must be text and name model 16 and give version, interval, record count and maximum, however spaced; '
     'the data response must be an unencoded binary octet stream. Anything else is an exception, raised before the data is asked '
     'for or read; the values kept are those of the response.',
     [IN], 'every pair of responses: any headers and any header text',
     'Tests serve a few canned responses; the ways in which a response can be wrong are not enumerable by example.',
     [DL], [('validation', DL + ':Downloader.download')])
prop('C14', 'A download yields the records announced, up to the first empty one',
     'After the responses are accepted the records are decoded one after another from the data stream with the announced '
     'interval, up to the announced number or the first empty record, and kept in order; a malformed record is an exception. '
     'A second download replaces the records of the first.',
     [IN, HI], 'every record count and every data stream, two downloads in a row', 'Tests serve one or two short streams.',
     [DL], [('record loop', DL + ':Downloader.download')])
prop('C15', 'Nothing follows a console command that was not acknowledged',
     'After a command the link reads one byte: NAK or "!" raises NotAcknowledgedError, anything else but ACK (and a closed '
     'connection) raises InvalidAcknowledgementError, and in neither case is anything more sent, read or started. Only ACK lets '
     'the command go on.',
     [IN, FA], 'every command, every answer byte and a closed connection',
     'Tests give a few answers to a few commands; there are 257 answers and six commands, each with its own next step.',
     [S, P], [('ACK check', S + ':SerialCommunicator.confirm_ack'), ('command', S + ':SerialCommunicator._send_instruction')])
prop('C16', 'The console connection has one socket at a time and never leaks it',
     'Connecting opens one socket to host and port; connecting twice, or disconnecting when not connected, is a ValueError '
     'without effect. If connecting fails the socket is closed and the failure raised; after a disconnect, even a failing one, '
     'the link can connect again.',
     [HI, FA], 'every sequence of connect and disconnect calls up to the bound, every choice of failing socket calls',
     'Tests walk the happy path; the state after each possible failure is what the next call depends on.',
     [S], [('connection', S + ':SerialIPCommunicator.connect, disconnect')],
     note='Call sequences up to length 6 (4 with failing calls); longer in the thorough tier. ')
prop('C17', 'A with block always disconnects and never masks its own failure',
     'Entering a communicator as a context connects and leaving it disconnects, whether the block ends or raises. An exception of '
     'the block leaves unchanged, even if disconnecting fails too; a failing disconnect after a block that ended is raised.',
     [FA, HI], 'every failure of connecting, of the block, and of disconnecting, and a second block after it',
     'Tests raise one exception in one block.', [S],
     [('context manager', S + ':SerialCommunicator.__enter__, __exit__')])
prop('C18', 'A setting read is returned only if complete and its CRC is right',
     'Reading a setting sends EEBRD with address and hexadecimal length, and after ACK reads exactly length + 2 bytes. A short '
     'response, or (unless waived) a wrong CRC, is a CRCValidationError; the result is the data, with its CRC only on request. '
     'Setup bits are that byte under the mask.',
     [IN, FA], 'every address, length, flag combination, response and mask',
     'Tests read one or two settings with canned responses.', [S],
     [('reading', S + ':ConfigurationSettingMixin.read_config_setting'), ('setup bits', S + ':ConfigurationSettingMixin.read_setup_bit')])
prop('C19', 'A setting is written with its length checked and its CRC appended',
     'Writing a setting whose length differs from the declared hexadecimal length is a ValueError before anything is sent. '
     'Otherwise EEBWR with address and length is sent, and after ACK the value followed by its CRC, high byte first.',
     [IN, FA], 'every address, length, value and answer', 'Tests write one or two values.', [S],
     [('writing', S + ':ConfigurationSettingMixin.write_config_setting')])
prop('C20', 'A poll returns exactly the packets asked for, in order',
     'Polling sends LPS with packet type and number of packets, and after ACK decodes exactly that many packets from the '
     'connection, in order, leaving it at the byte after the last one. The read handle is closed however the poll ends.',
     [IN, FA, HI], 'every number of packets, two polls in a row, every failing read', 'Tests poll a packet or two.', [P],
     [('polling', P + ':Poller.poll, _receive_loop_packets')])
prop('C21', 'Background polling runs once at a time, stops on request and can restart',
     'Starting sends the command and starts one thread, which hands each packet to the callback in order; starting while running '
     'or stopping while not running is a ValueError without effect. After a stop the thread reads no further packet and sends a '
     'carriage return. After the thread ended or a start failed, polling can be started again.',
     [HI, FA, SC], 'every sequence of start, stop and thread-run steps up to the bound, the callback stopping at any packet, any '
     'failing start, read or callback',
     'Tests start and stop once; what matters is the state left by each ending.', [P],
     [('background polling', P + ':Poller.start_background_polling, stop_background_polling, _poll_in_background')],
     note='Step sequences up to length 4 and up to 3 packets; the thread runs between steps (no interleaving inside a step). ')

prop('C30', 'A record is stored with every value it has in the column of that value',
     'Exporting a record inserts one row and commits it: every measurement the record has (zero is a value) goes to the column that '
     'the column map names, wind directions under the names of their compass points, values derived by calculate_all_record_values '
     'to theirs; missing values are NULL or left out. Columns mapped to the do-not-insert marker are left out, and the '
     'configured table and column names are used; setting them to None restores the defaults.',
     [IN, CO], 'every record (each value known, zero, None or absent), every wind direction, renamed and omitted columns, other tables, '
     'several records in a row',
     'Tests export one or two records with a mock cursor; which values are missing, zero or remapped varies freely.', [MY],
     [('insert', MY + ':MySQLExporter.export_record'), ('columns', MY + ':MySQLExporter.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP'),
      ('schema', 'weatherlink/exporter/mysql.sql')],
     note='Each value is symbolic with the others fixed, then all at once; presence of values and column maps are enumerated. ')
prop('C31', 'A stored record has its station time, the UTC time of it, and its local day',
     'The row of a record has the station-local date and time as they are in the record, the same instant in UTC (naive), and year, '
     'month and day of the local date as summary keys. The time zone is the one set, by name or as a pytz or other tzinfo object; '
     'America/Chicago when none is set or it is reset to None. Ambiguous and skipped times are resolved as the zone does by default.',
     [IN, CO], 'every date and time and every kind of time zone',
     'Tests use one zone and one date; offsets change through the year and between zones.', [MY],
     [('timestamps', MY + ':MySQLExporter.export_record'), ('zone', MY + ':MySQLExporter.station_time_zone')])
prop('C32', 'A summary has the minimum, maximum, mean and total of its period',
     'For each calendar day, ISO week (Monday to Sunday), month and year recalculated, each statistic of the row for it is the minimum, '
     'maximum, average or sum of the archive column it is named after (extremes from the low and high columns where they exist), over '
     'exactly the archive records of the period, whatever else the tables hold; NULL where there are none. Week rows use the ISO '
     'year and week, and give its first and last day.',
     [IN, HI], 'every date (weeks: the enumerated ones around month and year ends), every content of the tables',
     'Tests check statements or a few rows; period boundaries and columns are many.', [MY],
     [('statistics', MY + ':MySQLExporter.recalculate_summaries_for_dates'), ('schema', 'weatherlink/exporter/mysql.sql')],
     note='Daily, monthly and yearly rows for a symbolic date; weekly rows for a family of dates. ')
prop('C33', 'Each extreme of a summary has the first time at which it was reached',
     'The timestamp of a low or high in a summary is the earliest time in the period at which the value was recorded; it is NULL if '
     'there is no value, or if the high of wind, rain rate, sun or UV is zero (a zero of anything else is a value). Prevailing '
     'wind direction, and direction of the highest wind, are the most frequent ones in the period (of all records, and of those with '
     'that highest wind), NULL without wind.',
     [IN, HI], 'every date (weeks: the enumerated ones) and every content of the tables',
     'Tests do not hold ties, zeros, and missing values together.', [MY],
     [('times of extremes', MY + ':MySQLExporter.recalculate_summaries_for_dates')],
     note='Which of several equally frequent directions is reported is not decided. ')
prop('C34', 'Recalculating for some dates brings every period that contains them up to date',
     'After recalculate_summaries_for_dates, the rows of every day given, and of every ISO week, month and year that contains one of '
     'them, are as computed from the archive and from the summaries of shorter periods as they then are, and are committed; each has '
     'one row, that is inserted or updated; rows of other periods are not touched. Order and repetition of the dates do not matter, '
     'nor do earlier calls.',
     [HI, IN], 'the enumerated lists of dates: repeated, out of order, across weeks, months and years, none, and two calls in a row',
     'Tests pass one or two dates.', [MY],
     [('schedule', MY + ':MySQLExporter.recalculate_summaries_for_dates')])
prop('C35', 'Longer summaries add up and average what the shorter ones hold',
     'A day has heating and cooling degree days of its mean outside temperature, and the strongest ten minutes of wind in its records '
     '(start one minute before the first of its minutes, end as a time). A week and a month sum the degree days of their days, a year '
     'those of its months, and each takes over the strongest ten minutes among them. Average wind runs per day, week and month are '
     'means over the rows of the days, weeks and months in the period (NULL without any).',
     [IN, HI], 'every date (weeks: the enumerated ones) and every content of the tables',
     'Tests do not follow values from one level of summary to the next.', [MY],
     [('roll-up', MY + ':MySQLExporter.recalculate_summaries_for_dates')],
     note='Which of several equally strong ten minutes is reported is not decided. ')
prop('C36', 'Rain events are the maximal runs of rain without a three-hour gap',
     'find_new_rain_events stores one event for each maximal run of wet records in which no gap exceeds three hours, with first and '
     'last wet time, total, highest rate with the first time of it, and mean rate of the wet records to two places. The last event has no '
     'end while less than three hours of records follow it, and is completed by a later run; earlier ended events stay as they are. It '
     'returns the number of events ended and of ongoing ones (0 or 1); events may have any number of records.',
     [HI, IN], 'every sequence of up to three records (four in the thorough tier) wet or dry 5, 180, 181 or 1500 minutes apart, found in '
     'one run or two, any rain rates; long events',
     'Tests hold one short series; gaps, dry records, reruns and long events interact.', [MY],
     [('rain events', MY + ':MySQLExporter.find_new_rain_events')],
     note='Archives are enumerated, rain rates are symbolic; records that arrive late with an older time are not covered. ')
prop('C37', 'A failing database call leaves no open cursor and nothing half done',
     'Whichever call of the connector fails in export_record, recalculate_summaries_for_dates or find_new_rain_events, the exception '
     'that reaches the caller is that failure (also if closing or rolling back then fails too), the cursor is closed, and if anything '
     'was written since the last commit a rollback has been attempted. When nothing fails, everything is committed, every cursor is '
     'closed, and every result is read before the next statement.',
     [FA, HI], 'every connector call of the operations failing, alone or with the calls that clean up',
     'Tests let one call fail with a mock; every call is a point of failure.', [MY],
     [('cursor context', MY + ':MySQLExporter._get_cursor'), ('operations', MY + ':MySQLExporter.export_record, '
       'recalculate_summaries_for_dates, find_new_rain_events')],
     note='Failures are enumerated by call (quick: first and last per call site in the summaries); failures other than of the connector are '
     'not covered. ')
prop('C41', 'Summaries and rain events are committed whole',
     'At every commit that recalculate_summaries_for_dates or find_new_rain_events makes, each summary row and event row in the '
     'tables is either what it was before the call or what it is at the end of it: no commit publishes a row that is still '
     'incomplete, so an interruption between commits cannot leave one.',
     [CR, HI], 'every commit of the enumerated runs, any content of the tables',
     'Tests look at the end of a run; an interruption shows what was committed in between.', [MY],
     [('commits', MY + ':MySQLExporter.recalculate_summaries_for_dates, find_new_rain_events')])
prop('C42', 'The newest timestamp is the greatest one stored',
     'get_newest_timestamp returns the greatest WeatherLink timestamp in the archive table, in whatever order records were stored, and '
     'None if there are none.',
     [HI, IN], 'archives of up to four records in every order', 'Tests do not store records out of order.', [MY],
     [('newest', MY + ':MySQLExporter.get_newest_timestamp')])
prop('C43', 'The database connection is opened as configured and closed exactly once',
     'Connecting opens one connection with exactly the host, port, database, user and password given (127.0.0.1 and 3306 by default); '
     'disconnecting closes it once and forgets it even if closing fails, and does nothing when there is none. A with block connects, '
     'always disconnects, and lets the exception of the block out unchanged even if closing fails; a failing close after a block that '
     'ended is raised.',
     [HI, FA], 'every sequence of connect and disconnect up to the bound (no connect twice in a row), with blocks once and twice, every '
     'failing call', 'Tests connect to a mock once.', [MY],
     [('connection', MY + ':MySQLExporter.connect, disconnect'), ('context manager', MY + ':MySQLExporter.__enter__, __exit__')])
prop('C38', 'An upload carries every reading present, under its parameter, at UTC time',
     'Each update makes one request to its address (rtupdate for rapid ones) with action, software type, station, password and '
     'the record\'s date in UTC, and one parameter per reading that is present (zero is present), under its documented name; all '
     'values percent-encoded in full. A simple update adds the dew point when temperature and a humidity above zero are present.',
     [IN, CO], 'every station, password, date, time zone (named, pytz or not, none) and every combination of readings',
     'Tests send one record of each kind; which readings are missing or zero and what needs encoding varies.', [WU],
     [('upload', WU + ':WundergroundExporter._send_update'), ('parameters', WU + ':WundergroundExporter.ATTRIBUTE_MAP_*')])
prop('C39', 'Rapid uploads carry the gust and direction average of their window',
     'A rapid update reports as gust the highest wind speed of the latest 25 rapid samples (the newest of equals) with the '
     'direction of that sample, and as two-minute direction the arithmetic mean of the directions among the latest 49; samples '
     'without a reading do not contribute, and no reading in the window means no parameter. Simple updates between do not '
     'disturb them.',
     [HI, IN], 'every history of updates of the family (up to 53 updates, some simple), with any readings at chosen places',
     'Tests send one rapid update; the windows only show after dozens.', [WU],
     [('gust', WU + ':_get_wind_gust'), ('average direction', WU + ':_get_2_minute_average_wind_direction')],
     note='Histories are enumerated; readings are symbolic at chosen places. ')
prop('C40', 'An upload succeeds only if the service says success',
     'An update ends without error only if the response has a status from 200 to 299 and exactly the text success; anything else '
     'is an AssertionError, a failing request is raised as it is, and the next update is not affected by it.',
     [IN, FA], 'every status and response text, every failing request, an update after a failed one',
     'Tests mock one success and a few failures.', [WU], [('verification', WU + ':WundergroundExporter._send_update')])

prop('C44', 'A record is a mapping whose items are its attributes',
     'Every value of a record (archive records, LOOP packets, daily summaries, headers, day indexes) is an item and an attribute of '
     'the same name, whether given at construction, set as an attribute or set as an item. An attribute it lacks is an '
     'AttributeError (so that records can be copied, pickled and probed) and a key it lacks a KeyError; records share nothing.',
     [IN, HI], 'every value, every field name of every reader, reads and changes in either way, names looked up by copying and probing',
     'Tests read a few attributes of a few records.', [M], [('mapping with attributes', M + ':RecordDict')])
prop('C45', 'The shipped tables can hold everything that is stored',
     'The shipped schema has every column that the exporter writes, of a type whose range and resolution hold what the instruments '
     'can report over a record or a year (documented sensor ranges, calculated temperatures of three digits and a tenth, the 16 '
     'compass names, the summary types). Only columns every row has are required; a record is identified by its timestamp, a '
     'summary by its type and period, a rain event by its start, and nothing else.',
     [IN, CO], 'every column of the three tables and every value in the documented ranges',
     'No test reads the schema; overflow needs the extreme year.', [MY, 'weatherlink/exporter/mysql.sql'],
     [('schema', 'weatherlink/exporter/mysql.sql'), ('column map', MY + ':MySQLExporter.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP')],
     'interval inclusion of value ranges in the column types of the parsed DDL',
     note='Whole percents and miles per hour are the required resolution of humidity and wind speed. ')
prop('C46', 'Calls change nothing they were not asked to change',
     'A call of the package leaves the records, lists, dictionaries and other values it was given, and the class-level tables and '
     'module constants of the package, as they were, on every normal and exceptional exit; only the object that a method is called '
     'on changes (and a rapid update adds wind_gust and wind_gust_direction to its record). So the result of a decoder or formula '
     'does not depend on earlier calls.',
     [IN, HI, FA], 'every input, every exit of every public call, every second call after a first one',
     'Tests build fresh inputs for each call and look only at results; a changed shared table shows two calls later.',
     [M, U, S, DL, IM, MY, WU], [('shared tables', M + ':RECORD_ATTRIBUTE_MAP tables'), ('column map', MY + ':MySQLExporter'),
                                 ('attribute maps', WU + ':WundergroundExporter')],
     'heap frame-condition (effect) analysis at every outermost call, over abstract interpretation to a gated value graph',
     note='New public class-level state counts as a change. ')
prop('C47', 'Credentials go to their own service and nowhere else',
     'The WeatherLink password and API token are sent only in the address of requests to https://api.weatherlink.com, the Weather '
     'Underground password only in the address of requests to its two upload hosts, and the MySQL password only as the password of '
     'the connection. They are never printed or logged, nor part of any error that the package raises.',
     [IN, FA], 'every call of the downloader and the two exporters, every answer or failure of the service',
     'Tests look at requests made for ordinary answers; a credential in the message of an error shows only when that error happens.',
     [DL, MY, WU], [('download address', DL + ':Downloader.download'), ('upload address', WU + ':WundergroundExporter'),
                    ('connection', MY + ':MySQLExporter.connect')],
     'taint analysis on the gated value graph: sources password and token, sinks every effect argument and raised error',
     note='Errors raised inside requests or the connector, which may quote an address, are outside the claim. ')
na('N01', 'Derived weather values agree with published tables within rounding',
   'Heat index, wind chill, dew point, wet bulb and THSW index agree with the tables of the National Weather Service and of Davis '
   'to the published precision over the ranges of the tables.',
   [IN], 'every temperature, humidity, wind speed and radiation of the tables',
   'Tests compare a few table cells.', [U], [('formulas', U + ':calculate_heat_index')],
   'Quantifies over decimal and floating-point rounding of long polynomials against measured tables that are not in the source; the '
   'formulas themselves are decided symbolically (C22-C29), their numeric error is not a static question in reach here.')
na('N02', 'The summary tables survive a crash of the database server',
   'After a crash of the MySQL server every committed archive record, rain event and summary is still there and no half of a '
   'transaction is.',
   [CR], 'every crash point of the server',
   'Needs a crashing server.', [MY], [('transactions', MY + ':MySQLExporter')],
   'Durability and atomicity are guarantees of the storage engine, not of this source; what the exporter commits, and what is left '
   'after any statement fails, is decided (C31-C37).')


def main():
    from wlsa import runner
    runner.load_checks(HERE)
    have = set(runner.REGISTRY)
    rows, checks, nas = [], [], []
    for p, technique, note in PROPS:
        if p['id'] not in have:
            print('no check yet: ' + p['id'])
            continue
        rows.append(p)
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                           thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=technique, level='other', level_note=note))
    for p, reason in NA:
        rows.append(p)
        nas.append({'property': p['id'], 'reason': reason})
    for pid in sorted(have - {p['id'] for p in rows}):
        print('not described: ' + pid)
    rows.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in rows:
            f.write(json.dumps(p) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': nas}, f, indent=1)
        f.write('\n')
    design(runner.REGISTRY)


def design(registry):
    """The parts of DESIGN.md that follow from the tables: between the markers."""
    import glob
    out = []
    for p, technique, note in PROPS:
        c = registry.get(p['id'])
        if not c:
            continue
        out.append('- **%s %s.** *Decided by:* %s (at least %d obligations). *Quantifies over:* %s. *Beyond tests:* %s%s' % (
            p['id'], p['title'], c.rule, c.floor, p['quantifier']['text'], p['why_tests_cant'],
            ' *Bounds:* ' + note[len(NOTE):-len(TRUST)].strip() if note[len(NOTE):-len(TRUST)].strip() else ''))
    for p, reason in NA:
        out.append('- **%s %s.** *Not applicable:* %s' % (p['id'], p['title'], reason))
    seeds = ['| change | caught by | what it breaks | needs |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m.get('caught_by', m['property']), m['what_it_breaks'], m['needs']))
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    for name, lines in (('properties', out), ('changes', seeds)):
        a, b = '<!-- %s -->\n' % name, '<!-- end of %s -->' % name
        i, j = text.index(a) + len(a), text.index(b)
        text = text[:i] + '\n'.join(lines) + '\n' + text[j:]
    open(path, 'w').write(text)


if __name__ == '__main__':
    main()
