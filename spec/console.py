"""What the console protocol requires of a connection: written straight against the socket."""
import socket
import struct
import threading

from weatherlink.models import LoopRecord, calculate_weatherlink_crc
from weatherlink.poller import IPPoller
from weatherlink.serial import (
    CRCValidationError, InvalidAcknowledgementError, NotAcknowledgedError, SerialIPCommunicator,
)

ACK, NAK, BANG = 0x06, 0x15, 0x21


# the package, driven through its public interface

def package_confirm(host, port):
    c = SerialIPCommunicator(host, port)
    c.connect()
    return c.confirm_ack()


def package_read(host, port, address, length, confirm, with_crc):
    p = IPPoller(host, port)
    p.connect()
    return p.read_config_setting(address, length, confirm, with_crc)


def package_read_default(host, port, address, length):
    p = IPPoller(host, port)
    p.connect()
    return p.read_config_setting(address, length)


def package_write(host, port, address, length, value):
    p = IPPoller(host, port)
    p.connect()
    return p.write_config_setting(address, length, value)


def package_setup_bit(host, port, mask):
    p = IPPoller(host, port)
    p.connect()
    return p.read_setup_bit(mask)


def package_collector(host, port):
    p = IPPoller(host, port)
    p.connect()
    return p.read_rain_collector_type()


def package_poll(host, port, n):
    p = IPPoller(host, port)
    p.connect()
    return p.poll(n)


def package_poll_default_port(host, n):
    p = IPPoller(host)
    p.connect()
    return p.poll(n)


def package_poll_twice(host, port, n, m):
    p = IPPoller(host, port)
    p.connect()
    a = p.poll(n)
    return a, p.poll(m)


def package_poll_of(host, port, kind, n):
    p = IPPoller(host, port)
    if kind == 1:
        p.packet_type = p.PACKET_TYPE_LOOP1
    elif kind == 2:
        p.packet_type = p.PACKET_TYPE_LOOP2
    else:
        p.packet_type = p.PACKET_TYPE_LOOP1 | p.PACKET_TYPE_LOOP2
    p.connect()
    return p.poll(n)


# the reference

def dial(host, port):
    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    s.connect((host, port))
    return s


def acknowledged(s):
    answer = s.recv(1)
    if not answer:
        raise InvalidAcknowledgementError()
    code = answer[0]
    if code == NAK or code == BANG:
        raise NotAcknowledgedError()
    if code != ACK:
        raise InvalidAcknowledgementError()


def command(s, text):
    s.sendall(text.encode('ascii'))
    acknowledged(s)


def confirm(host, port):
    acknowledged(dial(host, port))


def read(host, port, address, length, confirm_crc, with_crc):
    s = dial(host, port)
    command(s, 'EEBRD %s %s\n' % (address, length))
    n = int(length, 16)
    handle = s.makefile('rb')
    data = handle.read(n + 2)
    handle.close()
    if len(data) != n + 2:
        raise CRCValidationError()
    if confirm_crc and calculate_weatherlink_crc(data) != 0:
        raise CRCValidationError()
    if with_crc:
        return data
    return data[:-2]


def read_default(host, port, address, length):
    return read(host, port, address, length, True, False)


def setup_bit(host, port, mask):
    data = read(host, port, '2B', '01', True, False)
    return data[0] & mask


def collector(host, port):
    return setup_bit(host, port, 0x30)


def write(host, port, address, length, value):
    s = dial(host, port)
    if len(value) != int(length, 16):
        raise ValueError()
    command(s, 'EEBWR %s %s\n' % (address, length))
    data = value + struct.pack('>H', calculate_weatherlink_crc(value))
    if calculate_weatherlink_crc(data) != 0:
        raise CRCValidationError()
    s.sendall(data)


def packets(s, kind, n):
    handle = s.makefile('rb')
    out = []
    try:
        for i in range(n):
            if kind == 3:
                p = LoopRecord.load_loop_1_2_from_connection(handle)
            elif kind == 1:
                p = LoopRecord.load_loop_1_from_connection(handle)
            else:
                p = LoopRecord.load_loop_2_from_connection(handle)
            out.append(p)
    except Exception:
        try:
            handle.close()
        except Exception:
            pass
        raise
    handle.close()
    return out


def poll(host, port, n):
    s = dial(host, port)
    command(s, 'LPS 2 %s\n' % n)
    return packets(s, 2, n)


def poll_default_port(host, n):
    return poll(host, 22222, n)


def poll_twice(host, port, n, m):
    s = dial(host, port)
    command(s, 'LPS 2 %s\n' % n)
    a = packets(s, 2, n)
    command(s, 'LPS 2 %s\n' % m)
    return a, packets(s, 2, m)


def poll_of(host, port, kind, n):
    s = dial(host, port)
    command(s, 'LPS %s %s\n' % (kind, n))
    return packets(s, kind, n)


# connection lifecycle: the same sequence of calls on the package's link and on the reference link

class Link(object):
    def __init__(self, host, port):
        self.host = host
        self.port = port
        self.open = None

    def connect(self):
        if self.open is not None:
            raise ValueError()
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            s.connect((self.host, self.port))
        except Exception:
            try:
                s.close()
            except OSError:
                pass
            raise
        self.open = s

    def disconnect(self):
        if self.open is None:
            raise ValueError()
        s = self.open
        self.open = None
        s.close()

    def during(self, work):
        self.connect()
        try:
            work()
        except Exception:
            try:
                self.disconnect()
            except Exception:
                pass
            raise
        self.disconnect()


def drive(link, steps):
    seen = []
    for step in steps:
        try:
            if step == 'connect':
                link.connect()
            else:
                link.disconnect()
            seen.append('done')
        except ValueError:
            seen.append('refused')
        except OSError:
            seen.append('failed')
    return seen


def package_link(host, port, steps):
    return drive(IPPoller(host, port), steps)


def link(host, port, steps):
    return drive(Link(host, port), steps)


def package_during(host, port, work):
    c = IPPoller(host, port)
    with c:
        work()


def during(host, port, work):
    Link(host, port).during(work)


def package_during_twice(host, port, work):
    c = IPPoller(host, port)
    try:
        with c:
            work(1)
    except Exception:
        pass
    with c:
        work(2)


def during_twice(host, port, work):
    c = Link(host, port)
    try:
        c.during(lambda: work(1))
    except Exception:
        pass
    c.during(lambda: work(2))


def package_during_closed(host, port):
    c = IPPoller(host, port)
    with c:
        c.disconnect()


def during_closed(host, port):
    c = Link(host, port)
    c.connect()
    c.disconnect()
    raise ValueError()


def package_during_open(host, port, work):
    c = IPPoller(host, port)
    c.connect()
    with c:
        work()


def during_open(host, port, work):
    c = Link(host, port)
    c.connect()
    raise ValueError()


# background polling: the package and a reference background, driven by the same steps

def pending():
    """Whether a started thread has not run yet; modelled by the check."""


def run_thread():
    """Runs what the next started thread is to do; modelled by the check."""


def run_threads():
    for i in range(3):
        if pending():
            try:
                run_thread()
            except Exception:
                pass


class Background(object):
    """What a poller does with background polling, told without its state: one run at a time."""

    def __init__(self, host, port, kind):
        self.s = dial(host, port)
        self.kind = kind
        self.running = False
        self.stopping = False

    def start_background_polling(self, n, callback):
        if self.running:
            raise ValueError()
        command(self.s, 'LPS %s %s\n' % (self.kind, n))
        t = threading.Thread(target=self.work, args=(n, callback))
        t.start()
        self.running = True
        self.stopping = False

    def stop_background_polling(self):
        if not self.running:
            raise ValueError()
        self.stopping = True

    def work(self, n, callback):
        try:
            handle = self.s.makefile('rb')
            try:
                for i in range(n):
                    if self.stopping:
                        self.s.sendall(b'\r')
                        break
                    callback(LoopRecord.load_loop_2_from_connection(handle))
            finally:
                handle.close()
        finally:
            self.running = False


def background(p, steps, n, wanted, seen):
    """wanted(packet): whether the listener asks to stop on that packet; seen(packet): the listener's own effect."""
    out = []

    def listener(packet):
        seen(packet)
        if wanted(packet):
            p.stop_background_polling()
    for step in steps:
        try:
            if step == 'start':
                p.start_background_polling(n, listener)
            elif step == 'stop':
                p.stop_background_polling()
            else:
                run_threads()
            out.append('done')
        except ValueError:
            out.append('refused')
        except OSError:
            out.append('failed')
        except RuntimeError:
            out.append('broken')
    return out


def package_background(host, port, steps, n, wanted, seen):
    p = IPPoller(host, port)
    p.connect()
    return background(p, steps, n, wanted, seen)


def reference_background(host, port, steps, n, wanted, seen):
    return background(Background(host, port, 2), steps, n, wanted, seen)
