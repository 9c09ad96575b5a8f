"""What a download from the WeatherLink archive service consists of."""
import requests
from six.moves.urllib.parse import quote

from weatherlink.downloader import Downloader
from weatherlink.models import ArchiveIntervalRecord, convert_datetime_to_timestamp


# the package, driven through its public interface

def package_download(username, password, token, since):
    d = Downloader(username, password, token)
    d.download(since)
    return d.records, d.console_version, d.record_minute_span, d.record_count, d.max_account_records


# the reference

def address_of(username, password, token, timestamp, action):
    return (
        'https://api.weatherlink.com/webdl.php?timestamp=' + str(timestamp) + '&user=' + quote(username, safe='') +
        '&pass=' + quote(password, safe='') + '&apiToken=' + quote(token, safe='') + '&action=' + action
    )


def parse(text):
    values = {}
    for line in text.splitlines():
        name, value = line.split('=', 1)
        values[name.strip()] = value.strip()
    return values


def records_of(stream, count, span):
    out = []
    for i in range(count):
        record = ArchiveIntervalRecord.load_from_download(stream, span)
        if not record:
            break
        out.append(record)
    return out


def download(username, password, token, since):
    if not username or not password or not token:
        raise ValueError('missing')
    session = requests.Session()
    stamp = convert_datetime_to_timestamp(since)
    r = session.get(address_of(username, password, token, stamp, 'headers'))
    if r.headers['Content-Type'] not in ('text/html', 'text/plain'):
        raise AssertionError('type')
    values = parse(r.text)
    if values['Model'] != '16':
        raise AssertionError('model')
    version = values['ConsoleVer']
    span = int(values['ArchiveInt'])
    count = int(values['Records'])
    most = int(values['MaxRecords'])
    r = session.get(address_of(username, password, token, stamp, 'data'), headers={'Accept-Encoding': 'identity'}, stream=True)
    if r.headers['Content-Type'] != 'application/octet-stream':
        raise AssertionError('type')
    if r.headers['Content-Transfer-Encoding'] != 'binary':
        raise AssertionError('encoding')
    if r.headers.get('Content-Encoding') in ('br', 'compress', 'deflate', 'gzip'):
        raise ValueError('encoding')
    return records_of(r.raw, count, span), version, span, count, most


def package_download_twice(username, password, token, since, again):
    d = Downloader(username, password, token)
    d.download(since)
    d.download(again)
    return d.records, d.console_version, d.record_minute_span, d.record_count, d.max_account_records


def download_twice(username, password, token, since, again):
    download(username, password, token, since)
    return download(username, password, token, again)
