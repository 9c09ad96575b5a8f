"""C44: records as mappings."""
from wlsa.runner import prop
from wlsa.harness import *
from checks.records import keys_of, CRC, Y, MO, D

M, S = 'weatherlink.models:', 'spec.mapping:'
CLASSES = ['RecordDict', 'ArchiveIntervalRecord', 'LoopRecord', 'DailySummary']
# what copying, pickling, printing and comparing look for on an object before anything else
PROBES = ['beta', 'delta', '__deepcopy__', '__copy__', '__getnewargs_ex__', '_repr_html_', 'shape']


READERS = [('ArchiveIntervalRecord', 'archive_wlk', [Y, MO, D]), ('ArchiveIntervalRecord', 'archive_download', [sym('minutes', 'int')]),
           ('LoopRecord', 'loop2', []), ('DailySummary', 'daily_summary', [Y, MO, D])]


@prop('C44', 24, 'building, reading, changing and probing a record of each class equals the reference mapping, for all values; every '
      'field name of every reader is free as an attribute')
def mapping(lab):
    it = lab.engine(['weatherlink.models', 'spec.mapping', 'spec.records'], CRC)
    a, b, c = [sym(x, 'any') for x in 'abc']

    def run(what, entry, repo, ref, args, refargs):
        o = []
        for q, xs in ((repo, args), (ref, refargs)):
            st = it.new_state()
            xs = [x(st) if callable(x) else x for x in xs]
            o.append(observe(it, it.lookup(S + q), xs, {}, st))
        lab.same(entry, what, *o)

    def names(ns):
        return lambda st: it.alloc('list', st, seq('list', [('e', TRUE, const(n)) for n in ns]))
    for cls in CLASSES:
        k = it.lookup(M + cls)
        e = lab.where(it, M + 'RecordDict')
        run('%s as mapping and object' % cls, e, 'package_use', 'use', [k, a, b, c], [a, b, c])
        run('%s changed as an object and then as a mapping' % cls, e, 'package_again', 'again', [k, a, b], [a, b])
        run('%s probed' % cls, e, 'package_probe', 'probe', [k, a, names(PROBES)], [a, names(PROBES)])
        run('%s, attribute it lacks' % cls, e, 'package_attribute', 'attribute', [k, a], [a])
        run('%s, key it lacks' % cls, e, 'package_item', 'item', [k, a], [a])
        run('two of %s' % cls, e, 'package_two', 'two', [k, a, b], [a, b])
    run('header and day index', lab.where(it, M + 'Header'), 'package_header', 'header',
        [it.lookup(M + 'Header'), it.lookup(M + 'DayIndex'), a, b, c], [a, b])
    for cls, reader, args in READERS:
        st = it.new_state()
        o = observe(it, it.lookup('spec.records:' + reader), [stream(st)] + args, st=st, keep=lambda e: False)
        ns = sorted({n for pc, parts in o.cases for n in keys_of(parts[0])})
        lab.oblige(lab.where(it, M + cls), 'fields of %s known' % reader, len(ns) > 20, 'only %r' % ns)
        vs = lambda st: it.alloc('list', st, seq('list', [('e', TRUE, sym('v.' + n, 'any')) for n in ns]))
        run('every field of %s as attribute and as key (%d)' % (reader, len(ns)), lab.where(it, M + 'RecordDict'),
            'package_fields', 'fields', [it.lookup(M + cls), names(ns), vs], [names(ns), vs])
    lab.done(it)
