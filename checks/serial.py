"""C15-C21: the console link, its commands and polling."""
import itertools

from wlsa.runner import prop
from wlsa.harness import *
from wlsa import ext

S = 'spec.console:'
WS, WP = 'weatherlink.serial:', 'weatherlink.poller:'
HOST, PORT = sym('host', 'str'), sym('port', 'int')
ADDRESS, LENGTH = sym('address', 'str'), sym('length', 'str')


def crc(itp, f, args, kw, st, ex, node):
    return tm.app('crc', (itp.freeze(args[0], st),), 'int')


def packet(itp, f, args, kw, st, ex, node):
    """A LOOP2 packet: the next 99 bytes of the connection."""
    h = args[-1]
    if ('S', h) not in st.heap:
        itp.raise_(tm.TRUE, ext.excv('AttributeError', const('read')), st, ex, node)
    cur = st.heap[('S', h)]
    itp.event('.read', h, (num(99),), {}, st, node, 'bytes', ex)
    st.heap[('S', h)] = tm.lift(tm.p_add, (cur, num(99, 'int')))
    return tm.lift(lambda c: mk('packet', (h, c), 'obj'), (cur,))


ABSTRACT = {'weatherlink.models:calculate_weatherlink_crc': crc,
            'weatherlink.models:LoopRecord.load_loop_2_from_connection': packet}


def bench(lab, **flags):
    return lab.engine(['weatherlink.serial', 'weatherlink.poller', 'spec.console'], dict(ABSTRACT, **flags.pop('more', {})),
                      short_reads=True, **flags)


def both(lab, it, e, what, package, reference, args):
    a, b = it.new_state(), it.new_state()
    a.heap['started'] = b.heap['started'] = tuple_()
    lab.same(e, what, observe(it, it.lookup(S + package), args, st=a), observe(it, it.lookup(S + reference), args, st=b))


COMMANDS = [
    ('confirm_ack', WS + 'SerialCommunicator.confirm_ack', 'package_confirm', 'confirm', [HOST, PORT]),
    ('read_config_setting', WS + 'ConfigurationSettingMixin.read_config_setting', 'package_read', 'read',
     [HOST, PORT, ADDRESS, LENGTH, sym('confirm', 'bool'), sym('with_crc', 'bool')]),
    ('write_config_setting', WS + 'ConfigurationSettingMixin.write_config_setting', 'package_write', 'write',
     [HOST, PORT, ADDRESS, LENGTH, sym('value', 'bytes')]),
    ('read_setup_bit', WS + 'ConfigurationSettingMixin.read_setup_bit', 'package_setup_bit', 'setup_bit',
     [HOST, PORT, sym('mask', 'int')]),
    ('poll', WP + 'Poller.poll', 'package_poll', 'poll', [HOST, PORT, sym('n', 'int')]),
]


@prop('C15', 200, 'for each of the 257 possible answers to each command, and for an arbitrary answer, the effects and outcome '
      'are those of the reference, in which only ACK lets anything follow the command')
def c15(lab):
    answers = [b''] + [bytes([i]) for i in range(256)]
    few = answers if lab.tier != 'quick' else [b'', b'\x06', b'\x15', b'!', b'\x00', b'\x05', b'\x07', b'\x14', b'\x16', b' ',
                                               b'"', b'\x11', b'\x12', b'\n', b'\r', b'\xff']
    it = bench(lab)
    answer = [None]

    def recv(itp, o, args, kw, st, ex, node):
        r = itp.event('.recv', o, args, kw, st, node, 'bytes', ex)
        return r if answer[0] is None else const(answer[0])
    it.shapes['.recv()'] = recv
    for name, q, p, r, args in COMMANDS:
        e = lab.where(it, q)
        for a in [None] + (answers if name == 'confirm_ack' else few):
            answer[0] = a
            both(lab, it, e, 'any answer' if a is None else 'answer %r to the command' % a, p, r, args)
    e = lab.where(it, WP + 'Poller.start_background_polling')
    noop, never = sym('seen', 'func'), sym('wanted', 'func')
    for a in [None] + few:
        answer[0] = a
        both(lab, it, e, 'any answer' if a is None else 'answer %r to the command' % a, 'package_background',
             'reference_background', [HOST, PORT, tuple_(const('start'), const('start')), sym('n', 'int'), never, noop])
    lab.done(it)


@prop('C16', 100, 'over every sequence of connect and disconnect calls up to the bound, with every choice of failing socket '
      'calls, effects and outcomes are those of the reference link')
def c16(lab):
    for mode in (False, True):
        it = bench(lab, exc_mode=mode, exc_family='OSError')
        e = lab.where(it, WS + 'SerialIPCommunicator.connect')
        for n in range(1, (5 if mode else 7) if lab.tier == 'quick' else (7 if mode else 9)):
            for steps in itertools.product(('connect', 'disconnect'), repeat=n):
                both(lab, it, e, '%s%s' % (', '.join(steps), ' with failing calls' if mode else ''), 'package_link', 'link',
                     [HOST, PORT, tuple_(*[const(s) for s in steps])])
        lab.done(it)
    lab.assumptions.append('socket calls fail with OSError')


@prop('C17', 6, 'with and without failures of the body, of connecting and of closing, the effects and the exception that '
      'leaves a with block are those of the reference')
def c17(lab):
    for mode in (False, True):
        for family in (None, 'OSError', 'RuntimeError', 'KeyboardInterrupt'):
            if family is not None and not mode:
                continue
            it = bench(lab, exc_mode=mode, exc_family=family)
            if family in ('RuntimeError', 'KeyboardInterrupt'):
                it.may_raise = lambda name: name == 'callback'
            e = lab.where(it, WS + 'SerialCommunicator.__exit__')
            tail = '' if not mode else ' with failing calls (%s)' % (family or 'any exception')
            work = sym('work', 'func')
            both(lab, it, e, 'one with block' + tail, 'package_during', 'during', [HOST, PORT, work])
            both(lab, it, e, 'two with blocks' + tail, 'package_during_twice', 'during_twice', [HOST, PORT, work])
            if not mode:
                both(lab, it, e, 'disconnected inside the block', 'package_during_closed', 'during_closed', [HOST, PORT])
                both(lab, it, e, 'already connected', 'package_during_open', 'during_open', [HOST, PORT, work])
            lab.done(it)


@prop('C18', 5, 'effects, exceptions and result of reading a setting are those of the reference for every address, length, '
      'flag, response and CRC')
def c18(lab):
    it = bench(lab)
    q = WS + 'ConfigurationSettingMixin.'
    c, w = sym('confirm', 'bool'), sym('with_crc', 'bool')
    e = lab.where(it, q + 'read_config_setting')
    both(lab, it, e, 'any setting', 'package_read', 'read', [HOST, PORT, ADDRESS, LENGTH, c, w])
    both(lab, it, e, 'default flags', 'package_read_default', 'read_default', [HOST, PORT, ADDRESS, LENGTH])
    e = lab.where(it, q + 'read_setup_bit')
    both(lab, it, e, 'any mask', 'package_setup_bit', 'setup_bit', [HOST, PORT, sym('mask', 'int')])
    for m in (0x01, 0x02, 0x04, 0x08, 0x30, 0x40, 0x80, 0xff):
        both(lab, it, e, 'mask %#x' % m, 'package_setup_bit', 'setup_bit', [HOST, PORT, num(m, 'int', 0)])
    e = lab.where(it, q + 'read_rain_collector_type')
    both(lab, it, e, 'rain collector', 'package_collector', 'collector', [HOST, PORT])
    lab.done(it)


@prop('C19', 2, 'effects and exceptions of writing a setting are those of the reference for every address, length and value')
def c19(lab):
    it = bench(lab)
    e = lab.where(it, WS + 'ConfigurationSettingMixin.write_config_setting')
    both(lab, it, e, 'any setting', 'package_write', 'write', [HOST, PORT, ADDRESS, LENGTH, sym('value', 'bytes')])
    for n in (0, 1, 2, 16, 255):
        both(lab, it, e, 'length %02X' % n, 'package_write', 'write',
             [HOST, PORT, ADDRESS, const('%02X' % n), sym('value', 'bytes')])
    lab.done(it)


@prop('C20', 10, 'the command, the bytes consumed and the packets returned are those of the reference for every number of '
      'packets, and the connection is left at the byte after the last packet')
def c20(lab):
    it = bench(lab)
    e = lab.where(it, WP + 'Poller.poll')
    n, m = sym('n', 'int'), sym('m', 'int')
    both(lab, it, e, 'any number of packets', 'package_poll', 'poll', [HOST, PORT, n])
    both(lab, it, e, 'default port', 'package_poll_default_port', 'poll_default_port', [HOST, n])
    both(lab, it, e, 'two polls', 'package_poll_twice', 'poll_twice', [HOST, PORT, n, m])
    for k in (1, 2, 3):
        both(lab, it, e, 'packet type %d' % k, 'package_poll_of', 'poll_of', [HOST, PORT, num(k, 'int', 0), n])
    for k in range(5):
        both(lab, it, e, '%d packets' % k, 'package_poll', 'poll', [HOST, PORT, num(k, 'int', 0)])
    lab.done(it)
    it = bench(lab, exc_mode=True, may_raise=lambda name: name in ('.read', '.close'))
    for k in range(4):
        both(lab, it, e, '%d packets with failing reads' % k, 'package_poll', 'poll', [HOST, PORT, num(k, 'int', 0)])
    lab.done(it)


@prop('C21', 100, 'over every sequence of start, stop and run-to-the-end steps up to the bound, with the listener asking to '
      'stop on any packet and any call failing, effects and outcomes are those of the reference background')
def c21(lab):
    for mode, label in ((None, ''), ('read', ' with failing reads'), ('thread', ' with failing thread starts'),
                        ('seen', ' with a failing listener')):
        it = bench(lab)
        if mode:
            it.exc_mode = True
            it.exc_family = 'RuntimeError' if mode != 'read' else 'OSError'
            it.may_raise = lambda name: name in {'read': ('.read',), 'thread': ('thread.start',), 'seen': ('callback',)}[mode]

        it.overrides[S + 'pending'] = ext.threads_pending
        it.overrides[S + 'run_thread'] = ext.run_thread
        e = lab.where(it, WP + 'Poller.start_background_polling')
        wanted, seen = sym('wanted', 'func'), sym('seen', 'func')
        longest = (4 if mode is None else 3) + (lab.tier != 'quick')
        for n in range(1, longest + 1):
            for steps in itertools.product(('start', 'stop', 'run'), repeat=n):
                if 'start' not in steps and n > 1:
                    continue
                for k in (1,) if n > 2 else (0, 1, 2, 3):
                    both(lab, it, e, '%s; %d packets%s' % (', '.join(steps), k, label), 'package_background',
                         'reference_background',
                         [HOST, PORT, tuple_(*[const(s) for s in steps]), num(k, 'int', 0), wanted, seen])
        lab.done(it)
    lab.assumptions.append('the thread runs between, not inside, the calls of the other threads; the stop flag is sampled '
                           'before each packet, so a stop during a packet equals a stop by the listener')
