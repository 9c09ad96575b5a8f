"""C29: the highest 10-minute wind average."""
import itertools

from wlsa.runner import prop
from wlsa.harness import *

U = 'weatherlink.utils:calculate_10_minute_wind_average'
S = 'spec.wind:wind_average'


def patterns(tier):
    """Numbers of minutes of the records of a day, such that every window composition of up to two ten-minute windows occurs:
    all lists over a few sizes, and the long ones with records of a minute or two."""
    sizes = (1, 2, 3, 5, 9, 10, 11)
    out = [()]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        out += itertools.product(sizes if n < 3 or tier != 'quick' else (1, 3, 5, 9, 10, 11), repeat=n)
    out += [(1,) * n for n in (9, 10, 11, 12)] + [(2,) * 6, (3,) * 5, (4,) * 4, (5,) * 4, (6, 7, 8), (1,) * 9 + (5,), (5,) + (1,) * 6,
                                                (2, 2, 2, 2, 1, 1, 1), (4, 4, 1, 1, 4), (15,), (60, 10), (10, 1440)]
    return sorted(set(out), key=lambda p: (len(p), p))


@prop('C29', 200, 'for every pattern of record lengths of the family, the value graph of the result is that of the reference '
      'window of the last ten minutes, for all speeds, directions and times')
def c29(lab):
    it = lab.engine(['weatherlink.utils', 'spec.wind'])
    e = lab.where(it, U)

    def records(ms, missing=None, whole=False):
        return tuple_(*[
            tuple_(NONE if i == missing else sym('speed%d' % i, 'int' if whole else 'dec'), sym('dir%d' % i, 'any'),
                   sym('end%d' % i, 'dt'), const(m)) for i, m in enumerate(ms)])

    def same(what, rs):
        a = observe(it, it.lookup(U), [rs], st=it.new_state())
        b = observe(it, it.lookup(S), [rs], st=it.new_state())
        lab.same(e, what, a, b)
    for ms in patterns(lab.tier):
        same('records of %s minutes' % (list(ms),), records(ms))
    for ms in ((10,), (5, 5), (10, 5), (5, 5, 5)):
        same('whole speeds, records of %s minutes' % (list(ms),), records(ms, whole=True))
        for i in range(len(ms)):
            same('speed %d missing, records of %s minutes' % (i + 1, list(ms)), records(ms, i))
    lab.done(it)
    lab.assumptions.append('decided for every list of records whose lengths follow one of the listed patterns (the window holds '
                           'the last ten minutes, so longer days repeat these transitions); speeds, directions and times are '
                           'arbitrary; wind speeds are not negative')
