"""C07-C09: time stamps, rain collectors, wind directions."""
from wlsa.runner import prop
from wlsa.harness import *
from wlsa.compare import nonneg, with_ranges, fm, lin
from wlsa import terms as tm
from fractions import Fraction

M = 'weatherlink.models:'
S = 'spec.tables:'


def both(lab, it, entry, what, a, b, args, assume=TRUE, known=None):
    """repo-side and reference function on the same arguments."""
    oa = observe(it, it.lookup(a), args, st=it.new_state())
    ob = observe(it, it.lookup(b), args, st=it.new_state())
    return lab.same(entry, what, oa, ob, assume, known=known)


def moment(name):
    """Any moment that a packed time stamp can hold."""
    part = lambda n, lo, hi: sym(name + '.' + n, 'int', lo, hi)
    return tm.app('datetime', (part('year', 2000, 2127), part('month', 1, 12), part('day', 1, 31), part('hour', 0, 23), part('minute', 0, 59),
                               part('second', 0, 59), part('us', 0, 999999), NONE), 'dt')


@prop('C07', 10, 'encoding and decoding of time stamps have the reference normal form, decoding after encoding is the '
      'identity on minutes, and the encoding is strictly increasing in calendar order (linear arithmetic on the field ranges)')
def c07(lab):
    it = lab.engine(['weatherlink.models', 'spec.tables'])
    to, fro = M + 'convert_datetime_to_timestamp', M + 'convert_timestamp_to_datetime'
    d, e = moment('d'), moment('e')
    wto, wfro = lab.where(it, to), lab.where(it, fro)
    both(lab, it, wto, 'encoding of a datetime', to, S + 'to_timestamp', [d])
    for s in ('int', 'date'):
        both(lab, it, wto, 'a value of type %s is returned as it is' % s, to, S + 'identity', [sym('x', s)])
    both(lab, it, wto, 'None is returned as it is', to, S + 'identity', [NONE])
    t = sym('t', 'int')
    st = it.new_state()
    dom = lab.condition(it, S + 'timestamp_domain', [t], st)
    both(lab, it, wfro, 'decoding of a time stamp', fro, S + 'from_timestamp', [t], dom)
    st = it.new_state()

    def trip(st, ex):
        x = it.call(it.lookup(to), [d], {}, st, None, ex, None)
        return it.call(it.lookup(fro), [x], {}, st, None, ex, None)
    oa = observe(it, trip, st=it.new_state())
    ob = observe(it, it.lookup(S + 'round_trip'), [d], st=it.new_state())
    lab.same(wfro, 'decoding inverts encoding', oa, ob)
    # order
    ex = []
    st = it.new_state()
    td = it.call(it.lookup(to), [d], {}, st, None, ex, None)
    te = it.call(it.lookup(to), [e], {}, st, None, ex, None)
    names = ('year', 'month', 'day', 'hour', 'minute')
    F = lambda x: list(x.args[1][:5])
    fd, fe = F(d), F(e)
    if td.op == 'poly' and te.op == 'poly':
        for i, n in enumerate(names):
            # equal down to field i, then d earlier: the stamp of d must be smaller
            ineqs = []
            for j in range(i):
                p = dict(tm.to_poly(tm.p_add(fd[j], fe[j], -1)))
                ineqs += [lin(p, 1, 0, True, ONE), lin(p, -1, 0, True, ONE)]
            p = dict(tm.to_poly(tm.p_add(fd[i], fe[i], -1)))
            ineqs.append(lin(p, 1, -1, True, ONE))
            q = dict(tm.to_poly(tm.p_add(te, td, -1)))
            ineqs.append(lin(q, 1, 0, True, ONE))
            lab.oblige(wto, 'an earlier %s gives a smaller stamp' % n, not fm(with_ranges(ineqs), 5000))
    else:
        lab.oblige(wto, 'the encoding is linear in the calendar fields', False, show(td, 5))
    lab.done(it)
    lab.assumptions.append('years from 2000 to 2127')


@prop('C08', 8, 'inches and centimetres per click of every rain collector code equal the reference, linear in the clicks, '
      'for both code tables and every code; unknown codes are errors')
def c08(lab):
    it = lab.engine(['weatherlink.models', 'spec.tables'])
    w, c = sym('which', 'int'), sym('clicks', 'dec')
    for k in ('inches', 'centimeters'):
        for t, cls in (('serial', 'Serial'), ('database', 'Database')):
            both(lab, it, 'weatherlink/models.py RainCollectorType%s.clicks_to_%s' % (cls, k), 'every code, any clicks',
                 S + 'use_%s_%s' % (k, t), S + '%s_%s' % (k, t), [w, c])
            both(lab, it, 'weatherlink/models.py RainCollectorType%s.clicks_to_%s' % (cls, k),
                 'every code, whole clicks', S + 'use_%s_%s' % (k, t), S + '%s_%s' % (k, t), [w, sym('n', 'int')])
    lab.done(it)


@prop('C09', 4, 'compass points, their degrees and the sector of every whole number of degrees equal the reference')
def c09(lab):
    it = lab.engine(['weatherlink.models', 'spec.tables'])
    n = sym('n', 'int')
    e = lab.where(it, M + 'WindDirection.from_degrees')
    both(lab, it, e, 'the sector of any whole number of degrees', M + 'WindDirection.from_degrees', 'spec.records:sector',
         [n])
    both(lab, it, 'weatherlink/models.py WindDirection', 'degrees of a direction code', S + 'use_degrees', S + 'degrees', [n])
    both(lab, it, 'weatherlink/models.py WindDirection', 'direction codes', S + 'use_direction_name',
         S + 'direction_name', [n])
    both(lab, it, 'weatherlink/models.py BarometricTrend', 'trend codes', S + 'use_trend', S + 'trend', [n])
    lab.done(it)
