"""C12-C14: downloads from the WeatherLink archive service."""
from wlsa.runner import prop
from wlsa.harness import *
from wlsa import ext

D, S = 'weatherlink.downloader:Downloader.', 'spec.download:'
WHO = [sym('username', 'str'), sym('password', 'str'), sym('token', 'str')]
WHEN = [('a time', sym('since', 'dt')), ('a timestamp', sym('since', 'int')), ('no time', ZERO)]
TEXT = 'Model=16\r\nConsoleVer=Sep 23 2009\r\nMaxRecords=10240\r\nRecords=%d\r\nArchiveInt=%d\r\n'


def requests_made(e):
    return e.name in ('.get', '.post', '.request')


def answered(it, kinds, text):
    """Responses with the given content type, transfer encoding and text."""
    first = {'Content-Type': kinds[0]}
    second = {'Content-Type': kinds[1], 'Content-Transfer-Encoding': kinds[2]}

    def headers(itp, o, st):
        late = 'stream' in [k for k, v in o.args[3]] if o.op == 'res' else False
        return dict_(None, [(const(k), TRUE, const(v)) for k, v in (second if late else first).items()])
    it.shapes['.headers'] = headers
    it.shapes['.text'] = lambda itp, o, st: const(text)


def opaque(itp, f, args, kw, st, ex, node):
    return sym('record', 'obj')


@prop('C12', 8, 'for every user name, password, token and start, the requests made are those of the reference')
def c12(lab):
    for kind in ('text/html', 'text/plain'):
        it = lab.engine(['weatherlink.downloader', 'spec.download'],
                        {'weatherlink.models:ArchiveIntervalRecord.load_from_download': opaque})
        answered(it, (kind, 'application/octet-stream', 'binary'), TEXT % (1, 10))
        e = lab.where(it, D + 'download')
        for name, since in WHEN:
            lab.same(e, 'requests for %s (%s)' % (name, kind),
                     observe(it, it.lookup(S + 'package_download'), WHO + [since], keep=requests_made, ret=lambda v, st: NONE),
                     observe(it, it.lookup(S + 'download'), WHO + [since], keep=requests_made, ret=lambda v, st: NONE))
        both = [observe(it, it.lookup(S + n), WHO + [sym('since', 'dt')] * 2, keep=requests_made, ret=lambda v, st: NONE)
                for n in ('package_download_twice', 'download_twice')]
        lab.same(e, 'requests of two downloads (%s)' % kind, *both)
        lab.done(it)


@prop('C13', 3, 'for every pair of responses (headers and text), the download is refused at the same point as in the '
      'reference, and the header values kept are its values')
def c13(lab):
    it = lab.engine(['weatherlink.downloader', 'spec.download'],
                    {'weatherlink.models:ArchiveIntervalRecord.load_from_download': opaque}, unpack_counts=True)

    def get(itp, o, args, kw, st, ex, node):
        return itp.event('.get', o, (), {}, st, node, 'obj', ex)
    it.shapes['.get()'] = get
    e = lab.where(it, D + 'download')
    since = sym('since', 'dt')

    def seen(name):
        return observe(it, it.lookup(S + name), WHO + [since], keep=requests_made, refusal='*',
                       ret=lambda v, st: tuple_(*v.args[1:]) if v.op == 'tuple' else v)
    lab.same(e, 'any two responses', seen('package_download'), seen('download'))
    # and piece by piece, with the rest as it should be
    good = ('text/html', 'application/octet-stream', 'binary')
    for text in ('', 'Model=16', TEXT % (3, 10), TEXT.replace('=', ' = ') % (3, 10), TEXT.replace('Model=16', 'Model=17') % (3, 10),
                 TEXT.replace('Model=16', 'Model=6') % (3, 10), TEXT.replace('Model=16', '') % (3, 10),
                 TEXT.replace('\r\n', '\n') % (512, 60), (TEXT + 'Note=a=b\n') % (1, 1)):
        answered(it, good, text)
        lab.same(e, 'the header text %r' % text, seen('package_download'), seen('download'))
    for i, kinds in ((0, ('text/plain', 'application/json', 'text/html; charset=UTF-8', 'image/png', '')),
                     (1, ('text/html', 'text/plain', 'application/json', '')),
                     (2, ('base64', 'chunked', ''))):
        for k in kinds:
            answered(it, good[:i] + (k,) + good[i + 1:], TEXT % (2, 5))
            lab.same(e, 'a response with %r' % k, seen('package_download'), seen('download'))
    lab.assumptions.append('which exception refuses a response is not compared')
    lab.done(it)


def record(itp, f, args, kw, st, ex, node):
    """The next 52 bytes of the response: a record, none, or malformed."""
    a = list(args) + [v for k, v in sorted(kw.items())]
    h = a[-2]
    if ('S', h) not in st.heap:
        itp.raise_(tm.TRUE, ext.excv('AttributeError', const('read')), st, ex, node)
    cur = st.heap[('S', h)]
    itp.event('.read', h, (num(52),), {}, st, node, 'bytes', ex)
    st.heap[('S', h)] = tm.lift(tm.p_add, (cur, num(52, 'int')))
    itp.raise_(tm.lift(lambda c: atom_bool(tm.app('malformed', (c,), 'bool')), (cur,)), ext.excv('ValueError', const('malformed')),
               st, ex, node)
    return tm.lift(lambda c, s: ite3(atom_bool(tm.app('empty', (c,), 'bool')), NONE, mk('record', (h, c, s), 'obj')), (cur, a[-1]))


@prop('C14', 6, 'for every record count and every response stream, the records are those of the reference loop')
def c14(lab):
    good = ('text/html', 'application/octet-stream', 'binary')
    since = sym('since', 'dt')
    first = lambda v, st: v.args[0] if v.op == 'tuple' else v
    ignore = lambda e: e.name not in ('.get', '.close')
    its = [lab.engine(['weatherlink.downloader', 'spec.download'], o, unpack_counts=True) for o in
           ({'weatherlink.models:ArchiveIntervalRecord.load_from_download': record}, {})]
    e = lab.where(its[0], D + 'download')

    def agree(what, n, args, ways=2):
        lab.same_any(e, what, [
            lambda it=it: [observe(it, it.lookup(S + p + n), WHO + args, keep=ignore, ret=first, refusal='*')
                           for p in ('package_', '')] for it in its[:ways]])
    for n, span in ((0, 10), (1, 10), (2, 1), (3, 30), (4, 120), (7, 15)):
        for it in its:
            answered(it, good, TEXT % (n, span))
        agree('%d records' % n, 'download', [since], 2 if n < 2 else 1)
    for it in its:
        it.shapes.pop('.text')
    agree('any number of records', 'download', [since])
    agree('a second download', 'download_twice', [since, since])
    for it in its:
        lab.done(it)
    lab.assumptions.append('which exception ends a malformed response is not compared')
