"""Highest 10-minute wind average of one day."""
import collections
import datetime

from spec.common import *


def minutes_of(end, n):
    """The ends of the n minutes that end at end."""
    return [end - datetime.timedelta(minutes=n - 1 - i) for i in range(n)]


def verdict(best, directions, times):
    if not best > 0:
        return None, None, None, None
    direction = start = end = None
    if directions:
        direction = collections.Counter(directions).most_common()[0][0]
    if times:
        start = times[0]
        end = times[-1]
    return best, direction, start, end


def wind_average(records):
    """One sample per minute covered; the window is the last ten samples."""
    samples = []
    best, directions, times = 0, [], []
    for speed, direction, end, covered in records:
        n = int(covered)
        if n > 10:
            return None, None, None, None
        for t in minutes_of(end, n):
            samples.append((D(speed or 0), direction, t))
        window = samples[-10:]
        if len(window) == 10:
            average = sum([w[0] for w in window]) / 10
            if average > best:
                best = average
                directions = [w[1] for w in window]
                times = [w[2] for w in window]
    return verdict(best, directions, times)


def wind_average_rolling(records):
    """The same with rolling windows, for any number of records."""
    speeds = collections.deque(maxlen=10)
    ways = collections.deque(maxlen=10)
    ends = collections.deque(maxlen=10)
    best, directions, times = 0, [], []
    for speed, direction, end, covered in records:
        n = int(covered)
        if n > 10:
            return None, None, None, None
        speeds.extend([D(speed or 0)] * n)
        ways.extend([direction] * n)
        ends.extend(end - datetime.timedelta(minutes=i) for i in range(n - 1, -1, -1))
        if len(speeds) == 10:
            average = sum(speeds) / 10
            if average > best:
                best = average
                directions = list(ways)
                times = list(ends)
    return verdict(best, directions, times)
