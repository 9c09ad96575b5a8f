From 73081563df7591123bb1abb6d5d0960c5f53a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 01/21] fix: Poller default packet type comes from Poller, not
 LoopRecord (AttributeError on construction)

---
 weatherlink/poller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 26acce8..657686b 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -30,7 +30,7 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 	def __init__(self, *args, **kwargs):
 		super(Poller, self).__init__(*args, **kwargs)
 
-		self.packet_type = LoopRecord.PACKET_TYPE_LOOP2
+		self.packet_type = self.PACKET_TYPE_LOOP2
 		self._stop_event = None
 
 	def poll(self, num_packets):
-- 
2.43.0


From 21217b8921ea1f4ce760bb57eef3a1325713a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 02/21] fix: read .wlk wind direction codes as unsigned bytes
 so 255 means missing

---
 weatherlink/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 1cda6cd..18fb505 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -224,8 +224,8 @@ class DailySummary(RecordDict):
 		'h'  # average wind speed in tenths of miles per hour
 		'h'  # daily wind run total in tenths of miles
 		'h'  # highest 10-minute average wind speed in tenths of miles per hour
-		'b'  # direction code (0-15, 255) for high wind speed
-		'b'  # direction code for highest 10-minute average wind speed
+		'B'  # direction code (0-15, 255) for high wind speed
+		'B'  # direction code for highest 10-minute average wind speed
 		'h'  # daily rain total in thousandths of inches
 		'h'  # hi daily rain rate in hundredths of inches per hour
 		'2x'  # daily UV dose (ignored)
@@ -340,8 +340,8 @@ class ArchiveIntervalRecord(RecordDict):
 		'h'  # high rain rate this time period in raw clicks/hr
 		'h'  # wind speed in tenths of miles per hour
 		'h'  # hi wind speed this time period in tenths of miles per hour
-		'b'  # prevailing wind direction (0-15, 255)
-		'b'  # hi wind speed direction (0-15, 255)
+		'B'  # prevailing wind direction (0-15, 255)
+		'B'  # hi wind speed direction (0-15, 255)
 		'h'  # number of wind samples this time period
 		'h'  # average solar rad this time period in watts / meter squared
 		'h'  # high solar radiation this time period in watts / meter squared
-- 
2.43.0


From d59bec46a217b98dc1ded2f57f3892f5ef1e8e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 03/21] fix: SerialIPCommunicator sends and reads bytes on
 Python 3

---
 weatherlink/serial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 39ac244..b710e29 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -210,6 +210,8 @@ class SerialIPCommunicator(SerialCommunicator):
 			self._socket = None
 
 	def _send_data(self, data):
+		if isinstance(data, six.text_type):
+			data = data.encode('ascii')
 		self._socket.sendall(data)
 
 	def _read_data(self, length):
@@ -220,7 +222,7 @@ class SerialIPCommunicator(SerialCommunicator):
 		handle = None
 		exc = None
 		try:
-			handle = self._socket.makefile()
+			handle = self._socket.makefile('rb')
 			yield handle
 		except Exception as e:
 			exc = e
-- 
2.43.0


From 035f62d11d2e00ba4668a8208df7f20f8e8a8383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 04/21] fix: read_config_setting rejects a truncated response
 (an empty one has a CRC of zero)

---
 weatherlink/serial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index b710e29..dde8a92 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -273,7 +273,11 @@ class ConfigurationSettingMixin(SerialCommunicator):
 		self._send_instruction(self.CONFIG_READ_INSTRUCTION % (setting_address, setting_length, ))
 
 		with self._get_file_handle() as handle:
-			setting = handle.read(int('0x%s' % setting_length, 16) + 2)  # must read the CRC
+			length = int('0x%s' % setting_length, 16) + 2  # must read the CRC
+			setting = handle.read(length)
+
+		if len(setting) != length:
+			raise CRCValidationError('Expected %s bytes in response, received %s.' % (length, repr(setting)))
 
 		if confirm_crc and calculate_weatherlink_crc(setting) != 0:
 			raise CRCValidationError('CRC for response %s does not resolve to zero.' % repr(setting))
-- 
2.43.0


From 983f06d512e09b026c76cc765107b1f0b39bea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 05/21] fix: confirm_ack raises AcknowledgmentError, not
 IndexError, when the connection is closed

---
 weatherlink/serial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index dde8a92..319801e 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -112,7 +112,10 @@ class SerialCommunicator(object):
 		:raises NotAcknowledgedError: If the byte read is an NAK byte (0x15) or a ! (0x21)
 		:raises InvalidAcknowledgementError: If the byte read is not an ACK byte (0x06)
 		"""
-		ack = self._read_data(1)[0]
+		ack = self._read_data(1)
+		if not ack:
+			raise InvalidAcknowledgementError('Expected ACK response 0x06, but the connection was closed.')
+		ack = ack[0]
 		NotAcknowledgedError.raise_if_not_acknowledged(ack)
 		InvalidAcknowledgementError.raise_if_not_acknowledged(ack)
 
-- 
2.43.0


From cdf02b260d0ab8685d69ed2c0199d4a7c2f03386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 06/21] fix: background polling can be started again after it
 stopped, finished or failed to start

---
 weatherlink/poller.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 657686b..58112ab 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -44,10 +44,14 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 
 		self._stop_event = threading.Event()
 
-		self._send_poll_instruction(num_packets)
+		try:
+			self._send_poll_instruction(num_packets)
 
-		thread = threading.Thread(target=self._receive_loop_packets, args=(num_packets, callback, ))
-		thread.start()
+			thread = threading.Thread(target=self._poll_in_background, args=(num_packets, callback, ))
+			thread.start()
+		except:
+			self._stop_event = None
+			raise
 
 	def stop_background_polling(self):
 		if not self._stop_event:
@@ -55,6 +59,12 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 
 		self._stop_event.set()
 
+	def _poll_in_background(self, num_packets, callback):
+		try:
+			self._receive_loop_packets(num_packets, callback)
+		finally:
+			self._stop_event = None
+
 	def _send_poll_instruction(self, num_packets):
 		self._send_instruction(self.POLL_INSTRUCTION % (self.packet_type, num_packets, ))
 
-- 
2.43.0


From dc1974d7e760cbe6bc9bae290acbddf6e56c27b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 07/21] fix: URL-encode the credentials in the download request

---
 weatherlink/downloader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/weatherlink/downloader.py b/weatherlink/downloader.py
index a059c63..a4e1ef6 100644
--- a/weatherlink/downloader.py
+++ b/weatherlink/downloader.py
@@ -1,6 +1,8 @@
 from __future__ import absolute_import
 
 import requests
+# noinspection PyUnresolvedReferences
+from six.moves.urllib.parse import quote as url_quote
 
 from weatherlink.models import (
 	ArchiveIntervalRecord,
@@ -39,9 +41,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_HEADERS,
 		)
 
@@ -53,9 +55,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_DOWNLOAD,
 		)
 
-- 
2.43.0


From 868612574c191ac6f66f0978a25c7d5d3f9b3162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 08/21] fix: localize station times with pytz instead of
 replace(), which applies the local mean time offset

---
 weatherlink/exporter/mysql.py        | 4 +++-
 weatherlink/exporter/wunderground.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e6751c3..e37d1cc 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -223,7 +223,9 @@ class MySQLExporter(object):
 	def _add_timestamp_values_to_arguments(self, record, arguments):
 		column_map = self.archive_table_column_map
 
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		zone = self.station_time_zone
+		d = zone.localize(record.date) if hasattr(zone, 'localize') else record.date.replace(tzinfo=zone)
+		d = d.astimezone(pytz.UTC).replace(tzinfo=None)
 		arguments[column_map['timestamp_utc']] = d
 		arguments[column_map['summary_year']] = record.date.year
 		arguments[column_map['summary_month']] = record.date.month
diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 659b9e6..dad5796 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -131,7 +131,9 @@ class WundergroundExporter(object):
 		self._station_time_zone = pytz.timezone(value) if isinstance(value, six.string_types) else value
 
 	def _send_update(self, url, attribute_map, attribute_calculations, record):
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		zone = self.station_time_zone
+		d = zone.localize(record.date) if hasattr(zone, 'localize') else record.date.replace(tzinfo=zone)
+		d = d.astimezone(pytz.UTC).replace(tzinfo=None)
 
 		url = '%s&ID=%s&PASSWORD=%s&dateutc=%s' % (
 			url,
-- 
2.43.0


From 156b1318aa76fb25e56941b84ded7703c516b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 09/21] fix: Wunderground parameter values are converted to
 strings before quoting; quote the station ID

---
 weatherlink/exporter/wunderground.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index dad5796..81df1ab 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -137,20 +137,20 @@ class WundergroundExporter(object):
 
 		url = '%s&ID=%s&PASSWORD=%s&dateutc=%s' % (
 			url,
-			self.station_id,
+			url_quote(self.station_id, safe=''),
 			url_quote(self.password, safe=''),
 			url_quote(d.strftime('%Y-%m-%d %H:%M:%S'), safe=''),
 		)
 
 		for parameter, field in attribute_map or []:
 			if field and record[field] is not None:
-				url += '&%s=%s' % (parameter, url_quote(record[field], safe=''), )
+				url += '&%s=%s' % (parameter, url_quote(str(record[field]), safe=''), )
 
 		for parameter, function in attribute_calculations or []:
 			if function:
 				value = function(self, record)
 				if value is not None:
-					url += '&%s=%s' % (parameter, url_quote(value, safe=''), )
+					url += '&%s=%s' % (parameter, url_quote(str(value), safe=''), )
 
 		response = self._session.get(url)
 
-- 
2.43.0


From 1326f408c56a2c2c5a1851517e33c1db4d759c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 10/21] fix: wind gust calculation does not compare None with a
 number (TypeError on Python 3)

---
 weatherlink/exporter/wunderground.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 81df1ab..c21c845 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -26,9 +26,8 @@ def _get_wind_gust(exporter, *_):
 		i += 1
 
 		if record['wind_speed'] is not None:
-			old_gust = gust
-			gust = max(gust, record['wind_speed'])
-			if gust != old_gust:
+			if gust is None or record['wind_speed'] > gust:
+				gust = record['wind_speed']
 				gust_direction = record['wind_direction_degrees']
 
 	return gust, gust_direction
-- 
2.43.0


From 59c2c62d664d8f47935d9dd49ae5de7e6e5d0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 11/21] fix: simple Wunderground update omits the dew point
 when temperature or humidity is missing

---
 weatherlink/exporter/wunderground.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index c21c845..d98a86f 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -80,7 +80,8 @@ class WundergroundExporter(object):
 		('windgustdir_10m', None, ),  # TODO
 		(
 			'dewptf',
-			lambda e, r: weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside']),
+			lambda e, r: weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside'])
+			if r['temperature_outside'] is not None and r['humidity_outside'] else None,
 		),
 		('rainin', None, ),  # TODO rain last hour
 		('dailyrainin', None, ),  # TODO rain today
-- 
2.43.0


From cd2e3f45346c6bf83bf21dc99ff1ae1dbac130f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 12/21] fix: a day without any outside temperature has no
 degree days (TypeError in the daily summary)

---
 weatherlink/exporter/mysql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e37d1cc..bc4316f 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -320,8 +320,10 @@ class MySQLExporter(object):
 				wsh10mae = wsh10mae.time()
 
 			# Calculate degree days
-			hdd = weatherlink.utils.calculate_heating_degree_days(average_temperature)
-			cdd = weatherlink.utils.calculate_cooling_degree_days(average_temperature)
+			hdd = cdd = None
+			if average_temperature is not None:
+				hdd = weatherlink.utils.calculate_heating_degree_days(average_temperature)
+				cdd = weatherlink.utils.calculate_cooling_degree_days(average_temperature)
 
 			# Update the summary with these daily-only expensive calculations
 			cursor.execute(
-- 
2.43.0


From 54c18cd752bb1f477031d470c3e3df737fcd713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 13/21] fix: a temperature (or derived value) of exactly zero
 is a value, not a missing one

---
 weatherlink/utils.py | 64 +++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index 44a3fd5..ae71650 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -643,7 +643,7 @@ def calculate_10_minute_wind_average(records):
 
 
 def _append_to_list(l, v):
-	if v:
+	if v is not None:
 		l.append(v)
 
 
@@ -668,29 +668,29 @@ def calculate_all_record_values(record):
 		arguments['wind_run_distance_total'] = distance
 
 	if humidity_outside and barometric_pressure:
-		if temperature_outside:
+		if temperature_outside is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb'] = a
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_low, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_low'] = a
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_high, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_high'] = a
 
 	if humidity_outside:
 		a = []
 		b = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside, humidity_outside))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_low, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_low, humidity_outside))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_high, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_high, humidity_outside))
 		if a:
@@ -702,45 +702,49 @@ def calculate_all_record_values(record):
 			arguments['heat_index_outside_low'] = min(b)
 			arguments['heat_index_outside_high'] = max(b)
 
-	if humidity_inside and temperature_inside:
+	if humidity_inside and temperature_inside is not None:
 		a = calculate_dew_point(temperature_inside, humidity_inside)
 		b = calculate_heat_index(temperature_inside, humidity_inside)
-		if a:
+		if a is not None:
 			arguments['dew_point_inside'] = a
-		if b:
+		if b is not None:
 			arguments['heat_index_inside'] = b
 
-	if (wind_speed or wind_speed_high) and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if (wind_speed or wind_speed_high) and (
+		temperature_outside is not None or temperature_outside_high is not None or temperature_outside_low is not None
+	):
 		a = []
-		if wind_speed and temperature_outside:
+		if wind_speed and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed))
-		if wind_speed and temperature_outside_high:
+		if wind_speed and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed))
-		if wind_speed and temperature_outside_low:
+		if wind_speed and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed))
-		if wind_speed_high and temperature_outside:
+		if wind_speed_high and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed_high))
-		if wind_speed_high and temperature_outside_high:
+		if wind_speed_high and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed_high))
-		if wind_speed_high and temperature_outside_low:
+		if wind_speed_high and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed_high))
 		if a:
 			arguments['wind_chill'] = a[0]
 			arguments['wind_chill_low'] = min(a)
 			arguments['wind_chill_high'] = max(a)
 
-	if humidity_outside and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if humidity_outside and (
+		temperature_outside is not None or temperature_outside_high is not None or temperature_outside_low is not None
+	):
 		ws = wind_speed if wind_speed else 0
 		wsh = wind_speed_high if wind_speed_high else 0
 
 		a = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, wsh))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, wsh))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, wsh))
 		if a:
@@ -750,10 +754,10 @@ def calculate_all_record_values(record):
 
 		if solar_radiation or solar_radiation_high:
 			a = []
-			if temperature_outside and solar_radiation:
+			if temperature_outside is not None and solar_radiation:
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, ws))
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, wsh))
-			if temperature_outside_high and solar_radiation:
+			if temperature_outside_high is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, ws),
@@ -762,7 +766,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside_low and solar_radiation:
+			if temperature_outside_low is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, ws),
@@ -771,7 +775,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside and solar_radiation_high:
+			if temperature_outside is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, ws),
@@ -780,7 +784,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_high and solar_radiation_high:
+			if temperature_outside_high is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, ws),
@@ -789,7 +793,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_low and solar_radiation_high:
+			if temperature_outside_low is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation_high, ws),
-- 
2.43.0


From d78b021f252b9e84d82a6a5de3720849b37b1618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 14/21] fix: rapid updates fail after a simple update with the
 same Weather Underground exporter

---
 weatherlink/exporter/wunderground.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index d98a86f..91fc2c4 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -21,6 +21,8 @@ def _get_wind_gust(exporter, *_):
 	gust_direction = None
 
 	for record in exporter.record_queue:
+		if 'wind_direction_degrees' not in record:
+			continue  # An archive record from a simple update is not a rapid sample
 		if i > 24:  # 1 minute
 			break
 		i += 1
@@ -38,6 +40,8 @@ def _get_2_minute_average_wind_direction(exporter, *_):
 	current_direction_list = []
 
 	for record in exporter.record_queue:
+		if 'wind_direction_degrees' not in record:
+			continue  # An archive record from a simple update is not a rapid sample
 		if i > 48:  # 2 minutes
 			break
 		i += 1
-- 
2.43.0


From 5d90586c5923dbd6354f7868f2e99d416895e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 15/21] fix: keep the timestamp of a summary extreme of exactly
 zero

---
 weatherlink/exporter/mysql.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index bc4316f..a1f0b72 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -474,6 +474,10 @@ class MySQLExporter(object):
 		(49, ('thsw_index_high', 'thsw_index_high', ), 'thsw_index_high_timestamp', ),
 	)
 
+	# A high of zero in one of these columns means that there was none (no wind, rain, or sun), so it has no timestamp.
+	# In any other column, zero is a measurement like any other.
+	NO_TIMESTAMP_FOR_ZERO = frozenset({'wind_speed_high', 'rain_rate_high', 'solar_radiation_high', 'uv_index_high'})
+
 	def _recalculate_summary_from_arguments(
 		self, cursor, where_clause, where_arguments, summary_type, year, month, week, day,
 		week_start=None, week_end=None,
@@ -538,7 +542,7 @@ class MySQLExporter(object):
 			timestamp_columns += ', ' + rule[2] + ' = %s'
 
 			value = summary_values[rule[0]]
-			if not value:
+			if value is None or (not value and rule[1][1] in self.NO_TIMESTAMP_FOR_ZERO):
 				timestamp_values.append(None)
 				continue
 
-- 
2.43.0


From 6f883c76cf8c5581c72f915a2be66f949c568fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 16/21] fix: record average wind run distances of zero, and
 clear ones that no longer exist

---
 weatherlink/exporter/mysql.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index a1f0b72..c4d8f78 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -655,12 +655,11 @@ class MySQLExporter(object):
 		)
 		wind_run_distance_total_average = cursor.fetchone()[0]
 
-		if wind_run_distance_total_average:
-			cursor.execute(
-				'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
-				'WHERE summary_id = %s;',
-				[wind_run_distance_total_average, summary_id],
-			)
+		cursor.execute(
+			'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
+			'WHERE summary_id = %s;',
+			[wind_run_distance_total_average, summary_id],
+		)
 
 	def find_new_rain_events(self):
 		found_rain_events = 0
-- 
2.43.0


From 44f12c714162b6477a93ce644b472f025b7a3d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 17/21] fix: roll back when a database operation fails, so that
 the next commit does not include half of it

---
 weatherlink/exporter/mysql.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index c4d8f78..c379ef0 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -198,6 +198,13 @@ class MySQLExporter(object):
 				except:
 					if not exc:
 						raise
+			if exc:
+				# noinspection PyBroadException
+				try:
+					self._connection.rollback()
+				except:
+					# Only allow the original exception to be raised
+					pass
 
 	def export_record(self, record):
 		argument_map = {}
-- 
2.43.0


From c507ba30a925778feef7aaec0a1dad94741fc9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 18/21] fix: read all the wind records of a day before the next
 statement

---
 weatherlink/exporter/mysql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index c379ef0..613cef5 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -315,7 +315,10 @@ class MySQLExporter(object):
 				'ORDER BY timestamp_station;'
 			)
 			cursor.execute(query, [year, month, day])
-			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(cursor)
+			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(
+				# The util function may stop early, and unread rows would make the next statement fail
+				cursor.fetchall()
+			)
 
 			if wsh10mas:
 				# The date represents the end of the record time span, so change it to the beginning for the start time
-- 
2.43.0


From 26f14c37de95d8ff5b2a5c1e06ff677945b8ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 19/21] fix: record rain events of more than 1440 records

---
 weatherlink/exporter/mysql.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 613cef5..e240437 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -703,14 +703,7 @@ class MySQLExporter(object):
 				event_rain_rates = [start_record[2]]
 				event_max_rain_rate = event_rain_rates[0]
 				event_max_rate_time = last_rain
-				# At a 1-minute resolution (the max), 400 records is greater than 3 hours, so we can limit to that
-				# This limit might have to be increased if the 3-hour rain event threshold is changed
-				cursor.execute(
-					'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
-					'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
-					[start_record[0]],
-				)
-				for (timestamp_station, rain_total, rain_rate_high) in cursor:
+				for (timestamp_station, rain_total, rain_rate_high) in self._rain_records_after(cursor, start_record[0]):
 					last_record = timestamp_station
 
 					if (timestamp_station - last_rain).total_seconds() > THREE_HOURS_IN_SECONDS:
@@ -760,6 +753,20 @@ class MySQLExporter(object):
 
 		return found_rain_events, ongoing_rain_events
 
+	@staticmethod
+	def _rain_records_after(cursor, timestamp):
+		# An event can last for any number of records, so read them in batches until the caller has seen enough
+		records = [(timestamp, )]
+		while records:
+			cursor.execute(
+				'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
+				'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
+				[records[-1][0]],
+			)
+			records = cursor.fetchall()
+			for record in records:
+				yield record
+
 	def get_newest_timestamp(self):
 		with self._get_cursor('SELECT max(timestamp_weatherlink) FROM weather_archive_record;', []) as cursor:
 			return cursor.fetchone()[0]
-- 
2.43.0


From dd1433f0694cb2317411bff7568be996d8ccd111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 20/21] fix: reading an attribute that a record lacks raises
 AttributeError, so records can be copied and pickled

---
 weatherlink/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 18fb505..5cf8893 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -156,7 +156,10 @@ class RecordDict(dict):
 		super(RecordDict, self).__init__(*args, **kwargs)
 
 	def __getattr__(self, name):
-		return self.__getitem__(name)
+		try:
+			return self[name]
+		except KeyError:
+			raise AttributeError(name)
 
 	def __setattr__(self, name, value):
 		self[name] = value
-- 
2.43.0


From 9a65f0fee10628cc5df9fca11c5f2afea8389eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 21/21] fix: the degree days of a cold or hot year do not fit
 the summary table (more than 9999.9 are out of range)

---
 weatherlink/exporter/mysql.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.sql b/weatherlink/exporter/mysql.sql
index 9d974d1..18c48f2 100644
--- a/weatherlink/exporter/mysql.sql
+++ b/weatherlink/exporter/mysql.sql
@@ -149,8 +149,8 @@ CREATE TABLE `weather_calculated_summary` (
     `thsw_index_low_timestamp` datetime null COMMENT 'The date and time that thsw_index_low was recorded',
     `thsw_index_high` decimal(4,1) NULL COMMENT 'The high temperature-humidity-sun-wind index temperature during the summary period in ºF',
     `thsw_index_high_timestamp` datetime null COMMENT 'The date and time that thsw_index_high was recorded',
-    `integrated_heating_degree_days` decimal(5,1) unsigned NULL COMMENT 'The total heating degree days for the summary period in ºF',
-    `integrated_cooling_degree_days` decimal(5,1) unsigned NULL COMMENT 'The total cooling degree days for the summary period in ºF',
+    `integrated_heating_degree_days` decimal(6,1) unsigned NULL COMMENT 'The total heating degree days for the summary period in ºF',
+    `integrated_cooling_degree_days` decimal(6,1) unsigned NULL COMMENT 'The total cooling degree days for the summary period in ºF',
     PRIMARY KEY (`summary_id`),
     UNIQUE INDEX `g$summary_locator_day` (`summary_type`, `summary_year`, `summary_month`, `summary_day`, `summary_week`),
     INDEX `g$summary_locator_week` (`summary_type`, `summary_year`, `summary_week`)
-- 
2.43.0

