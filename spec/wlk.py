"""What importing a .wlk file consists of."""
from weatherlink.importer import Importer
from weatherlink.models import ArchiveIntervalRecord, DailySummary, Header


# the package, driven through its public interface

def package_named(file_name):
    i = Importer(file_name)
    return i.year, i.month


def package_records(file_name):
    i = Importer(file_name)
    i.import_data()
    return i.records, i.header


def package_by_day(file_name):
    i = Importer(file_name)
    i.import_data()
    return i.daily_summaries, i.daily_records


def package_twice(file_name):
    i = Importer(file_name)
    i.import_data()
    i.import_data()
    return i.records, i.daily_summaries, i.daily_records


# the reference

def named(file_name):
    if not file_name or not file_name.endswith('.wlk'):
        raise ValueError('not a .wlk file')
    year, month = file_name[-11:][:7].split('-')
    return int(year), int(month)


def blocks(file_name):
    """Every day's block, in order: the first entry is the summary, the rest are records."""
    year, month = named(file_name)
    out = []
    with open(file_name, 'rb') as f:
        header = Header.load_from_wlk(f)
        for day in range(1, len(header.day_indexes)):
            for r in range(header.day_indexes[day].record_count - 1):
                kind = DailySummary if r == 0 else ArchiveIntervalRecord
                out.append((day, r, kind.load_from_wlk(f, year, month, day)))
    return header, out


def records(file_name):
    header, entries = blocks(file_name)
    return [entry for day, r, entry in entries if r > 0], header


def by_day(file_name):
    header, entries = blocks(file_name)
    return by_day_of(entries)


def twice(file_name):
    blocks(file_name)
    header, entries = blocks(file_name)
    summaries, days = by_day_of(entries)
    return [entry for day, r, entry in entries if r > 0], summaries, days


def by_day_of(entries):
    summaries, days = {}, {}
    for day, r, entry in entries:
        if r == 0:
            summaries[day] = entry
        else:
            days.setdefault(day, []).append(entry)
    return summaries, days
