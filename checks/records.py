"""C01-C05, C07-C09: what the binary records mean."""
from wlsa.runner import prop
from wlsa.harness import *
from wlsa import terms as tm

M = 'weatherlink.models:'
S = 'spec.records:'
CRC = {M + 'calculate_weatherlink_crc':
       lambda itp, fn, args, kw, st, ex, node: tm.app('crc', (args[0],), 'int')}


def reader(lab, fields, repo, ref, args, parts, what, assume=None, flags=None, overrides=CRC):
    it = lab.engine(['weatherlink.models', 'spec.records'], overrides, **(flags or {}))

    def run(q):
        st = it.new_state()
        s = stream(st)
        return observe(it, it.lookup(q), [s] + args, st=st, state=lambda s2: s2.heap[('S', s)], keep=lambda e: False)
    a, b = run(M + repo), run(S + ref)
    c = TRUE
    if assume:
        st = it.new_state()
        c = lab.condition(it, S + assume, [stream(st)], st)
    lab.same(lab.where(it, M + repo), what, a, b, c, parts)
    if fields:
        # one obligation per field of the record
        each_field(lab, lab.where(it, M + repo), a, b, c)
    lab.done(it)


def each_field(lab, entry, a, b, assume):
    """Per-field obligations: the record (dictionary) of every returning case."""
    names = set()
    for o in (a, b):
        for pc, parts in o.cases:
            names |= keys_of(parts[0])
    for n in sorted(names):
        lab.same(entry, 'field %s' % n, project(a, n), project(b, n), assume, (0,))


def keys_of(t):
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            stack += [x.args[1], x.args[2]]
        elif x.op == 'outcome' and x.args[0] == 'return':
            stack.append(x.args[1])
        elif x.op == 'dict':
            out |= set(tm.pyval(k) for k, g, v in x.args[1] if tm.isconst(k))
    return out


def project(o, name):
    def rec(t):
        if t.op == 'ite':
            return ite3(atom_bool(t.args[0]), rec(t.args[1]), rec(t.args[2]))
        if t.op == 'outcome' and t.args[0] == 'return':
            return mk('outcome', ('return', rec(t.args[1])), 'any')
        if t.op == 'dict':
            for k, g, v in t.args[1]:
                if tm.isconst(k) and tm.pyval(k) == name:
                    return ite3(g, v, mk('absent', (), 'absent'))
            return mk('absent', (), 'absent')
        return t
    return Obs([(pc, [rec(parts[0]), NONE, NONE]) for pc, parts in o.cases])


Y, MO, D = [sym(n, 'int') for n in ('year', 'month', 'day')]


@prop('C01', 25, 'every field of a .wlk archive record has the offset, width, sign, scale and no-data code of the format, '
      'for every record image (normal forms of reader and reference are equal)')
def c01(lab):
    reader(lab, True, 'ArchiveIntervalRecord.load_from_wlk', 'archive_wlk', [Y, MO, D], (0,), 'archive record')


@prop('C02', 40, 'every field of a .wlk daily summary has the offset, width, sign, scale and no-data code of the format; '
      'the header and the day indexes likewise')
def c02(lab):
    reader(lab, True, 'DailySummary.load_from_wlk', 'daily_summary', [Y, MO, D], (0,), 'daily summary')
    reader(lab, True, 'Header.load_from_wlk', 'header', [], (0,), 'file header and day indexes')


@prop('C03', 25, 'every field of a downloaded archive record has the offset, width, sign, scale and no-data code of the '
      'format; empty records give no record and wrong revisions an error')
def c03(lab):
    reader(lab, True, 'ArchiveIntervalRecord.load_from_download', 'archive_download', [sym('minutes', 'int')], (0,),
           'downloaded record', 'download_domain')
    lab.assumptions.append('the time stamp of a downloaded record (HHMM) is not negative')


@prop('C04', 35, 'every field of a LOOP2 packet has the offset, width, sign, scale and no-data code of the format, its '
      'fixed bytes are verified and the CRC of the whole packet decides the match flag')
def c04(lab):
    reader(lab, True, 'LoopRecord.load_loop_2_from_connection', 'loop2', [], (0,), 'LOOP2 packet')


@prop('C05', 5, 'each record reader takes exactly the bytes of one record off its stream on every path, so the next read '
      'starts at the next record')
def c05(lab):
    for repo, ref, args in (
            ('ArchiveIntervalRecord.load_from_wlk', 'archive_wlk', [Y, MO, D]),
            ('DailySummary.load_from_wlk', 'daily_summary', [Y, MO, D]),
            ('Header.load_from_wlk', 'header', []),
            ('ArchiveIntervalRecord.load_from_download', 'archive_download', [sym('minutes', 'int')]),
            ('LoopRecord.load_loop_2_from_connection', 'loop2', [])):
        reader(lab, False, repo, ref, args, (2,), 'bytes taken off the stream')
