"""Simulated TCP network: sockets, listeners, pipes, faults, and the poller/waker
used by tornado's (and asyncio's) real event loops.

Delivery is in order per direction. Latency, segmentation, buffer sizes, short
reads/writes, stalls, resets, half-open peers, refused or blackholed connects
are controlled by `NetConf` knobs or direct calls from the scenario.
"""
import errno
import os
import random
import socket as _socket
from collections import deque

from . import core

READ, WRITE, ERROR = 1, 4, 0x18
FD_BASE = 1000
SYN_TIMEOUT = 127.0


def _err(e):
    return OSError(e, os.strerror(e))


class NetConf(object):
    """Per-run network behaviour."""
    def __init__(self, **kw):
        self.lat_min = 0.0001
        self.lat_max = 0.002
        self.grid = 0.0          # quantise delivery times to this grid
        self.seg = 0             # 0: whole writes; n: cut into pieces of 1..n bytes
        self.seg_prob = 1.0
        self.short_send = 0.0    # probability that send() accepts only part
        self.short_recv = 0.0    # probability that recv() returns only part
        self.bufsize = 1 << 20   # bytes in flight + unread per direction
        self.conn_lat_max = 0.01
        self.accept_err = 0.0    # probability that accept() fails with EMFILE
        for k, v in kw.items():
            if not hasattr(self, k):
                raise ValueError(k)
            setattr(self, k, v)


class Net(object):
    def __init__(self, sim, conf=None):
        self.sim = sim
        self.conf = conf or NetConf()
        self.rng = sim.net_rng
        self.fds = {}
        self.listeners = {}
        self.blackhole = set()       # ports whose SYNs vanish
        self.connect_delay = {}      # port -> extra delay for connects
        self.nport = 40000
        self.nconn = 0
        self.on_connect = None     # called when a connection attempt starts
        self.fail_open = {}        # 'socket' | 'bind' | 'listen' -> errno, for the next call
        self.conns = []
        sim.net = self
        self.on_wire = None          # optional fn(endpoint, bytes) at delivery

    # fd table: lowest free number, as POSIX does
    def alloc_fd(self, obj):
        fd = FD_BASE
        while fd in self.fds:
            fd += 1
        self.fds[fd] = obj
        return fd

    def free_fd(self, fd):
        self.fds.pop(fd, None)

    def quant(self, t):
        g = self.conf.grid
        if g:
            n = int(t / g)
            while n * g < t:
                n += 1
            t = n * g
        return t

    def latency(self):
        c = self.conf
        return self.rng.uniform(c.lat_min, c.lat_max)

    def ephemeral(self):
        self.nport += 1
        return self.nport


class Endpoint(object):
    """One side of a TCP connection."""
    def __init__(self, net, name):
        self.net = net
        self.name = name
        self.peer = None
        self.rx = bytearray()
        self.rx_fin = False
        self.err = 0             # pending error (RST etc.)
        self.dead = False        # connection is gone (after error was set)
        self.closed = False      # local close() called
        self.rebooted = False    # host vanished and is back: answers RST
        self.tx_fin = False
        self.inflight = 0        # bytes we sent, not yet delivered to peer
        self.last_delivery = 0.0
        self.held = None         # list of (kind, data) when our outgoing path is partitioned
        self.on_event = None     # callback for raw peers
        self.total_rx = 0
        self.total_tx = 0
        self.consumed = 0        # bytes the local application has read
        self.paused = False
        self.bufsize = net.conf.bufsize
        self.seg = net.conf.seg
        self.connected = False
        self.laddr = None
        self.raddr = None

    # -- sending ---------------------------------------------------
    def space(self):
        p = self.peer
        if p is None:
            return 0
        return max(0, self.bufsize - self.inflight - (0 if p.closed else len(p.rx)))

    def send(self, data):
        if self.err:
            e, self.err = self.err, 0
            raise _err(e)
        if self.dead or self.tx_fin or self.closed:
            raise _err(errno.EPIPE)
        if not self.connected:
            raise _err(errno.EAGAIN)
        n = min(len(data), self.space())
        if n <= 0:
            raise _err(errno.EAGAIN)
        c = self.net.conf
        if n > 1 and c.short_send and self.net.rng.random() < c.short_send:
            n = self.net.rng.randint(1, n)
            self.net.sim.fault('short_send')
        self._transmit('data', bytes(data[:n]))
        self.inflight += n
        self.total_tx += n
        return n

    def _transmit(self, kind, data=b''):
        net = self.net
        if self.held is not None:
            self.held.append((kind, data))
            return
        if kind == 'data' and self.seg and net.rng.random() < net.conf.seg_prob:
            pos = 0
            seg = max(self.seg, len(data) // 60)      # bounds the cost of big writes
            while pos < len(data):
                n = net.rng.randint(1, seg)
                self._put('data', data[pos:pos + n])
                if pos:
                    net.sim.fault('segment_cut')
                pos += n
            return
        self._put(kind, data)

    def _put(self, kind, data):
        net = self.net
        t = max(self.last_delivery, net.sim.now + net.latency())
        t = net.quant(t)
        self.last_delivery = t
        net.sim.at(t, self._arrive, kind, data)

    def _arrive(self, kind, data):
        p = self.peer
        if kind == 'data':
            self.inflight -= len(data)
        if p is None:
            return
        p._receive(kind, data)

    def hold(self):
        """Partition the outgoing direction."""
        if self.held is None:
            self.held = []

    def release(self):
        if self.held is not None:
            h, self.held = self.held, None
            for kind, data in h:
                self._transmit(kind, data)

    # -- receiving -------------------------------------------------
    def _receive(self, kind, data):
        sim = self.net.sim
        sim.log('rx', self.name, kind, data)
        if kind == 'syn-ack':
            if not self.closed and not self.dead:
                self.connected = True
                self._notify()
            elif not self.dead:
                # closed while connecting: the kernel sends RST
                self._transmit('rst')
            return
        if kind in ('refused', 'syn-timeout'):
            if not self.dead and not self.closed:
                self.err = errno.ECONNREFUSED if kind == 'refused' else errno.ETIMEDOUT
                self.dead = True
                self._notify()
            return
        if self.dead:
            if self.rebooted and kind == 'data' and self.peer is not None:
                # a rebooted host does not know this connection
                self.net.sim.after(self.net.latency(), self.peer._receive, 'rst', b'')
            return
        if kind == 'rst':
            self.err = errno.ECONNRESET
            self.dead = True
            self._notify()
            return
        if self.closed:
            if kind == 'data':
                self.dead = True
                self._transmit('rst')
            return
        if kind == 'data':
            self.rx += data
            self.total_rx += len(data)
        elif kind == 'fin':
            self.rx_fin = True
        self._notify()

    def _notify(self):
        if self.on_event is not None:
            self.on_event()

    def recv(self, n):
        if self.rx:
            c = self.net.conf
            if c.short_recv and len(self.rx) > 1 and n > 1 and \
                    self.net.rng.random() < c.short_recv:
                n = self.net.rng.randint(1, min(n, len(self.rx)))
                self.net.sim.fault('short_recv')
            data = bytes(self.rx[:n])
            del self.rx[:n]
            self.consumed += len(data)
            if self.peer is not None and self.peer.on_event is not None:
                # window opened: a raw peer may continue sending
                self.net.sim.after(0, self.peer._notify)
            return data
        if self.err:
            e, self.err = self.err, 0
            raise _err(e)
        if self.rx_fin or self.dead:
            return b''
        raise _err(errno.EAGAIN)

    def readable(self):
        return bool(self.rx) or self.rx_fin or self.err != 0 or self.dead

    def writable(self):
        if self.err or self.dead:
            return True
        return self.connected and self.space() > 0

    def hup(self):
        return self.dead or self.err != 0

    def shutdown_write(self):
        if not self.tx_fin and not self.dead:
            self.tx_fin = True
            self._transmit('fin')

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.on_event = None
        if self.dead:
            return
        if self.peer is None or not self.connected:
            if self.peer is None:
                self.dead = True
            return
        if self.rx:
            self.rx = bytearray()
            self.dead = True
            self._transmit('rst')
        elif not self.tx_fin:
            self.tx_fin = True
            self._transmit('fin')

    def abort(self):
        """Send RST and forget the connection (fault or SO_LINGER 0 close)."""
        if self.dead:
            return
        self.dead = True
        self.err = errno.ECONNRESET
        self._transmit('rst')
        self._notify()

    def vanish(self):
        """The host behind this endpoint disappears: no FIN, no RST, ever."""
        self.closed = True
        self.dead = True
        self.on_event = None
        self.held = []


def make_pair(net, client_name, server_name):
    a = Endpoint(net, client_name)
    b = Endpoint(net, server_name)
    a.peer = b
    b.peer = a
    return a, b


class Listener(object):
    def __init__(self, net, addr):
        self.net = net
        self.addr = addr
        self.queue = deque()
        self.closed = False
        self.on_accept = None     # raw listeners
        self.backlog = 128


def net_connect(net, ep, port, laddr_host='127.0.0.1'):
    """Start connecting endpoint `ep` to `port`."""
    sim = net.sim
    rng = net.rng
    net.nconn += 1
    if net.on_connect is not None:
        net.on_connect(port)
    ep.laddr = (laddr_host, net.ephemeral())
    ep.raddr = ('127.0.0.1', port)
    delay = rng.uniform(net.conf.lat_min, max(net.conf.lat_min, net.conf.conn_lat_max))
    delay += net.connect_delay.get(port, 0)
    srv = Endpoint(net, ep.name + '/srv')
    srv.laddr = ep.raddr
    srv.raddr = ep.laddr

    def syn(retry=1.0, waited=0.0):
        if ep.closed or ep.dead:
            return
        if port in net.blackhole:
            # SYNs vanish: the kernel repeats them with growing delays, then gives up
            if not waited:
                sim.fault('connect_blackholed')
            if waited + retry > SYN_TIMEOUT:
                sim.after(SYN_TIMEOUT - waited, ep._receive, 'syn-timeout', b'')
            else:
                sim.after(retry, syn, retry * 2, waited + retry)
            return
        l = net.listeners.get(port)
        if l is None or l.closed:
            sim.fault('connect_refused')
            sim.at(net.quant(sim.now + net.latency()), ep._receive, 'refused', b'')
            return
        ep.peer = srv
        srv.peer = ep
        srv.connected = True
        net.conns.append((ep, srv))
        if l.on_accept is not None:
            l.on_accept(srv)
        else:
            l.queue.append(srv)
        srv._put('syn-ack', b'')
        sim.log('syn', port, ep.name)
    sim.at(net.quant(sim.now + delay), syn)


class SimSocket(object):
    """Enough of socket.socket for tornado and asyncio."""
    def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0,
                 fileno=None, _ep=None):
        sim = core.SIM
        self.net = sim.net if sim is not None else None
        self.family = family if family not in (0, -1) else _socket.AF_INET
        self.type = type
        self.proto = proto
        self._ep = _ep
        self._listener = None
        self._bound = None
        self._connecting = False
        self._closed = False
        self._sim = sim
        self._fd = -1
        if self.net and self.net.fail_open and _ep is None:
            self._may_fail('socket')
        self._fd = self.net.alloc_fd(self) if self.net else -1

    def _alive(self):
        return core.SIM is self._sim and not self._closed

    def fileno(self):
        return -1 if self._closed else self._fd

    def setblocking(self, flag):
        pass

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, level, opt, *a):
        if opt == _socket.SO_ERROR:
            if self._ep is not None and self._ep.err:
                e, self._ep.err = self._ep.err, 0
                return e
            return 0
        return 0

    def _may_fail(self, call):
        e = self.net.fail_open.pop(call, None) if self.net.fail_open else None
        if e is not None:
            self.net.sim.fault('%s_fails' % call)
            raise _err(e)

    def bind(self, addr):
        self._may_fail('bind')
        port = addr[1]
        if port == 0:
            port = self.net.ephemeral()
        l = self.net.listeners.get(port)
        if l is not None and not l.closed:
            self.net.sim.fault('port_in_use')
            raise _err(errno.EADDRINUSE)
        self._bound = (addr[0] or '0.0.0.0', port)

    def listen(self, backlog=128):
        self._may_fail('listen')
        l = self.net.listeners.get(self._bound[1])
        if l is not None and not l.closed:
            raise _err(errno.EADDRINUSE)
        self._listener = Listener(self.net, self._bound)
        self.net.listeners[self._bound[1]] = self._listener

    def accept(self):
        if self._closed:
            raise _err(errno.EBADF)
        l = self._listener
        if not l.queue:
            raise _err(errno.EAGAIN)
        c = self.net.conf
        if c.accept_err and self.net.rng.random() < c.accept_err:
            self.net.sim.fault('accept_emfile')
            raise _err(errno.EMFILE)
        ep = l.queue.popleft()
        return SimSocket(_ep=ep), ep.raddr

    def getsockname(self):
        if self._bound:
            return self._bound
        if self._ep is not None:
            return self._ep.laddr
        return ('0.0.0.0', 0)

    def getpeername(self):
        if self._ep is None or (self._ep.dead and not self._ep.raddr):
            raise _err(errno.ENOTCONN)
        return self._ep.raddr

    def connect(self, addr):
        if self._closed:
            raise _err(errno.EBADF)
        name = 'c%d' % (self.net.nconn + 1)
        self._ep = Endpoint(self.net, name)
        net_connect(self.net, self._ep, addr[1])
        self._connecting = True
        raise _err(errno.EINPROGRESS)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno
        return 0

    def send(self, data, flags=0):
        if self._closed:
            raise _err(errno.EBADF)
        if core.SIM is not self._sim:
            raise _err(errno.EPIPE)
        if self._ep is None:
            raise _err(errno.ENOTCONN)
        return self._ep.send(data)

    def recv(self, n, flags=0):
        if self._closed:
            raise _err(errno.EBADF)
        if core.SIM is not self._sim:
            return b''
        if self._ep is None:
            raise _err(errno.ENOTCONN)
        return self._ep.recv(n)

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buf))
        buf[:len(d)] = d
        return len(d)

    def shutdown(self, how):
        if self._ep is not None:
            self._ep.shutdown_write()

    def close(self):
        if self._closed:
            return
        self._closed = True
        if core.SIM is not self._sim or self.net is None:
            return
        self.net.free_fd(self._fd)
        if self._listener is not None:
            self._listener.closed = True
            if self.net.listeners.get(self._bound[1]) is self._listener:
                del self.net.listeners[self._bound[1]]
            for ep in self._listener.queue:
                ep.abort()
            self._listener.queue.clear()
        if self._ep is not None:
            self._ep.close()

    def detach(self):
        fd = self._fd
        self._closed = True
        return fd

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # poller interface
    def poll_events(self):
        ev = 0
        if self._listener is not None:
            return READ if self._listener.queue else 0
        ep = self._ep
        if ep is None:
            return 0
        if ep.readable():
            ev |= READ
        if ep.writable():
            ev |= WRITE
        if ep.hup():
            ev |= ERROR
        return ev


class _WakeFd(object):
    def __init__(self):
        self.flag = False

    def poll_events(self):
        return READ if self.flag else 0


class SimWaker(object):
    """tornado.platform.posix.Waker over the simulated fd table."""
    def __init__(self):
        self.net = core.SIM.net
        self.obj = _WakeFd()
        self._fd = self.net.alloc_fd(self.obj)

    def fileno(self):
        return self._fd

    def write_fileno(self):
        return self._fd

    def wake(self):
        self.obj.flag = True

    def consume(self):
        self.obj.flag = False

    def close(self):
        self.net.free_fd(self._fd)


class SimPoller(object):
    """The `impl` of tornado's PollIOLoop: poll() is the scheduling seam."""
    def __init__(self):
        self.sim = core.SIM
        self.net = self.sim.net
        self.regs = {}
        self.loop = None
        self.stall_until = 0.0
        self.polls = 0

    def register(self, fd, events):
        if fd in self.regs:
            raise _err(errno.EEXIST)
        self.regs[fd] = events

    def modify(self, fd, events):
        if fd not in self.regs:
            raise _err(errno.ENOENT)
        self.regs[fd] = events

    def unregister(self, fd):
        if fd not in self.regs:
            raise _err(errno.ENOENT)
        del self.regs[fd]

    def close(self):
        self.regs.clear()

    def _ready_list(self):
        out = []
        fds = self.net.fds
        for fd, mask in self.regs.items():
            obj = fds.get(fd)
            if obj is None:
                continue
            ev = obj.poll_events()
            # error conditions are always reported
            ev &= (mask | ERROR)
            if ev:
                out.append((fd, ev))
        return out

    def _pred(self):
        if self.loop is not None and self.loop._callbacks:
            return True
        fds = self.net.fds
        for fd, mask in self.regs.items():
            obj = fds.get(fd)
            if obj is not None and obj.poll_events() & (mask | ERROR):
                return True
        return False

    def poll(self, timeout):
        sim = self.sim
        if core.SIM is not sim:
            raise core.SimKilled()
        self.polls += 1
        sim.now += core.TICK
        if timeout <= 0:
            sim.yield_()
        else:
            sim.block(self._pred, sim.now + timeout)
        if self.stall_until > sim.now:
            sim.fault('loop_stall')
            sim.block(None, self.stall_until)
        evs = self._ready_list()
        if len(evs) > 1:
            sim.rng.shuffle(evs)
        if evs:
            sim.log('poll', evs)
        return evs


class RawConn(object):
    """Scripted TCP peer driven by simulator events (no event loop)."""
    def __init__(self, net, ep, name=''):
        self.net = net
        self.sim = net.sim
        self.ep = ep
        self.name = name or ep.name
        self.out = bytearray()
        self.lines = []            # (t, gseq, line bytes)
        self.buf = bytearray()
        self.eof = None            # (t, 'fin'|'rst'|'refused')
        self.reading = True
        self.closed_locally = False
        self.fin_after_flush = False
        self.half_after_flush = False
        self.on_line = None
        self.on_connect = None
        self.on_close = None
        self._connected_seen = ep.connected
        ep.on_event = self._event
        self.raw_rx = bytearray()
        self.rcv_limit = None

    @classmethod
    def connect(cls, net, port, name, **kw):
        ep = Endpoint(net, name)
        c = cls(net, ep, name)
        net_connect(net, ep, port)
        return c

    @property
    def connected(self):
        return self.ep.connected

    def _event(self):
        ep = self.ep
        if ep.connected and not self._connected_seen:
            self._connected_seen = True
            if self.on_connect:
                self.on_connect(self)
        if self.reading:
            while ep.rx:
                data = bytes(ep.rx)
                del ep.rx[:]
                self._data(data)
                if not self.reading:
                    break
        if not ep.rx and self.eof is None:
            if ep.err or ep.dead:
                e = ep.err
                self._eof('refused' if e == errno.ECONNREFUSED else 'rst')
            elif ep.rx_fin and self.reading:
                self._eof('fin')
        self._flush()

    def _data(self, data):
        self.raw_rx += data
        self.buf += data
        while True:
            i = self.buf.find(b'\n')
            if i < 0:
                break
            line = bytes(self.buf[:i])
            del self.buf[:i + 1]
            rec = (self.sim.now, self.sim.stamp(), line)
            self.lines.append(rec)
            if self.on_line:
                self.on_line(self, line)

    def _eof(self, how):
        self.eof = (self.sim.now, how)
        self.sim.log('eof', self.name, how)
        if self.on_close:
            self.on_close(self, how)
        if how == 'fin' and not self.closed_locally:
            # ordinary peers close their side too
            self.sim.after(0, self.close)

    def send(self, data):
        self.out += data
        self._flush()

    def _flush(self):
        if self.out and self.ep.connected and not self.ep.dead and not self.ep.closed:
            while self.out:
                try:
                    n = self.ep.send(self.out)
                except OSError:
                    break
                del self.out[:n]
        if self.half_after_flush and not self.out and self.ep.connected and not self.ep.closed:
            self.half_after_flush = False
            self.ep.shutdown_write()
        if self.fin_after_flush and not self.out and not self.ep.closed and self.ep.connected:
            self.fin_after_flush = False
            self.close()

    def stop_reading(self):
        self.reading = False

    def start_reading(self):
        self.reading = True
        if not self.ep.closed:
            self._event()

    def close(self):
        """Graceful close (FIN, or RST if unread data)."""
        if not self.closed_locally:
            self.closed_locally = True
            self.ep.close()

    def finish(self):
        """Close after everything queued has been handed to the network."""
        self.fin_after_flush = True
        self._flush()

    def half_close(self):
        """FIN once connected and everything queued is sent; keeps reading."""
        self.half_after_flush = True
        self._flush()

    def reset(self):
        self.closed_locally = True
        self.ep.abort()

    def vanish(self):
        self.closed_locally = True
        self.ep.vanish()


class RawListener(object):
    """Scripted TCP server socket driven by simulator events."""
    def __init__(self, net, port, on_conn):
        self.net = net
        self.port = port
        self.on_conn = on_conn
        self.conns = []
        self.l = None
        self.up()

    def up(self):
        if self.l is None or self.l.closed:
            self.l = Listener(self.net, ('127.0.0.1', self.port))
            self.l.on_accept = self._accept
            assert self.port not in self.net.listeners
            self.net.listeners[self.port] = self.l

    def down(self):
        if self.l is not None and not self.l.closed:
            self.l.closed = True
            del self.net.listeners[self.port]

    def _accept(self, ep):
        c = RawConn(self.net, ep, 'srv%d' % (len(self.conns) + 1))
        self.conns.append(c)
        self.on_conn(c)


def _getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    if host in (None, ''):
        host = '0.0.0.0'
    if host == 'localhost':
        host = '127.0.0.1'
    if isinstance(port, str):
        port = int(port)
    return [(_socket.AF_INET, _socket.SOCK_STREAM, 6, '', (host, port or 0))]


def _socketpair(*a, **kw):
    net = core.SIM.net
    a, b = make_pair(net, 'pairA', 'pairB')
    a.connected = b.connected = True
    a.laddr = b.laddr = a.raddr = b.raddr = ('127.0.0.1', 0)
    # a self-pipe is local memory: deliver at once
    a._put = lambda kind, data: a._arrive(kind, data)
    b._put = lambda kind, data: b._arrive(kind, data)
    return SimSocket(_ep=a), SimSocket(_ep=b)


SimIOLoop = None
_real = {}


def install():
    """Patch the network and event loop seams. core.install() must have run."""
    global SimIOLoop
    if SimIOLoop is not None:
        return SimIOLoop
    import asyncio
    import selectors
    import signal
    import ssl      # noqa: F401  (subclasses the real socket class)
    import concurrent.futures.thread   # noqa: F401
    _real['socket'] = _socket.socket
    _socket.socket = SimSocket
    _socket.getaddrinfo = _getaddrinfo
    _socket.socketpair = _socketpair

    def set_wakeup_fd(*a, **k):
        raise ValueError('simulated: not available')
    signal.set_wakeup_fd = set_wakeup_fd

    import tornado.ioloop
    import tornado.netutil
    import tornado.tcpclient
    import tornado.platform.auto
    import tornado.platform.posix
    import tornado.platform.asyncio as tasync

    def no_cloexec(fd):
        pass
    for m in (tornado.netutil, tornado.tcpclient, tornado.platform.auto,
              tornado.platform.posix, tornado.ioloop):
        if hasattr(m, 'set_close_exec'):
            m.set_close_exec = no_cloexec
    tornado.ioloop.Waker = SimWaker

    class _SimIOLoop(tornado.ioloop.PollIOLoop):
        def initialize(self, **kwargs):
            impl = SimPoller()
            kwargs.pop('impl', None)
            super(_SimIOLoop, self).initialize(impl=impl, time_func=core.sim_time, **kwargs)
            impl.loop = self
            sim = core.SIM
            if not hasattr(sim, 'loops'):
                sim.loops = []
            sim.loops.append(self)

        def stall(self, dt):
            self._impl.stall_until = max(self._impl.stall_until, core.SIM.now + dt)

        @property
        def sim_polls(self):
            return self._impl.polls

    tornado.ioloop.IOLoop.configure(_SimIOLoop)

    # The shipped managed loop on Python 3 is AsyncIOLoop: keep the real class, over
    # a real asyncio SelectorEventLoop with a simulated selector.
    class SimSelector(selectors._BaseSelectorImpl):
        def __init__(self):
            super(SimSelector, self).__init__()
            self.sim = core.SIM
            self.net = self.sim.net
            self.stall_until = 0.0
            self.polls = 0

        def _mask(self, key):
            m = 0
            if key.events & selectors.EVENT_READ:
                m |= READ
            if key.events & selectors.EVENT_WRITE:
                m |= WRITE
            return m | ERROR

        def _ready_list(self):
            out = []
            for fd, key in self._fd_to_key.items():
                obj = self.net.fds.get(fd)
                if obj is None:
                    continue
                ev = obj.poll_events() & self._mask(key)
                if ev:
                    out.append((key, ev))
            return out

        def _pred(self):
            return bool(self._ready_list())

        def select(self, timeout=None):
            sim = self.sim
            if core.SIM is not sim:
                raise core.SimKilled()
            self.polls += 1
            sim.now += core.TICK
            if timeout is not None and timeout <= 0:
                sim.yield_()
            else:
                sim.block(self._pred, None if timeout is None else sim.now + timeout)
            if self.stall_until > sim.now:
                sim.fault('loop_stall')
                sim.block(None, self.stall_until)
            res = []
            for key, ev in self._ready_list():
                e = 0
                if ev & (READ | ERROR):
                    e |= selectors.EVENT_READ
                if ev & (WRITE | ERROR):
                    e |= selectors.EVENT_WRITE
                e &= key.events
                if e:
                    res.append((key, e))
            if len(res) > 1:
                sim.rng.shuffle(res)
            if res:
                sim.log('select', [(k.fd, e) for k, e in res])
            return res

    def new_event_loop():
        sel = SimSelector()
        loop = asyncio.SelectorEventLoop(sel)
        loop.sim_selector = sel
        return loop
    asyncio.new_event_loop = new_event_loop
    real_async = tasync.AsyncIOLoop

    def stall(self, dt):
        s = self.asyncio_loop.sim_selector
        s.stall_until = max(s.stall_until, core.SIM.now + dt)
    real_async.stall = stall
    real_async.sim_polls = property(lambda self: self.asyncio_loop.sim_selector.polls)
    SimIOLoop = _SimIOLoop
    return SimIOLoop
