#!/usr/bin/env python3
"""C27: the Python client (zmq_client.py) against a C++ target (clientsrv.cpp), with stand-ins for ZMQ and Qt."""
import gc, importlib, math, os, re, struct, subprocess, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vfpy as vf

REPO = os.environ.get('VERIF_REPO', '/repo')

class Failed(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg

# ---------------------------------------------------------------- clock

class Clock:
    now = 1e9
    def time(self):
        Clock.now += 1. / 1024
        return Clock.now

clock = Clock()

# ---------------------------------------------------------------- PySide6

loop = dict(app=None, single=[], posted=[], timers=[])

class BoundSignal:
    def __init__(self): self.slots = []
    def connect(self, f): self.slots.append(f)
    def disconnect(self, f=None):
        self.slots = [] if f is None else [x for x in self.slots if x != f]
    def emit(self, *a):
        for f in list(self.slots):
            f(*a)

class Signal:
    def __init__(self, *a): pass
    def __set_name__(self, owner, name): self.name = name
    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return obj.__dict__.setdefault('_signal_' + self.name, BoundSignal())

class Property(property):
    def __init__(self, type, fget=None, fset=None, notify=None, constant=False, **kw):
        property.__init__(self, fget, fset)

def Slot(*a, **kw):
    return lambda f: f

class QObject:
    def __init__(self, parent=None): self.__dict__['_parent'] = parent
    def setParent(self, p): self.__dict__['_parent'] = p
    def receivers(self, s): return len(getattr(self, s[1:].split('(')[0]).slots) if hasattr(self, s[1:].split('(')[0]) else 0
    def event(self, e): return False

class QEvent:
    User = 1000
    def __init__(self, t): self._t = t
    def type(self): return self._t

class QTimer(QObject):
    timeout = Signal()
    def __init__(self, parent=None):
        super().__init__(parent)
        self._active, self._interval, self._single = False, 0, False
        loop['timers'].append(self)
    def setInterval(self, x): self._interval = int(x)
    def interval(self): return self._interval
    def setSingleShot(self, x): self._single = x
    def setTimerType(self, x): pass
    def start(self): self._active = True
    def stop(self): self._active = False
    def isActive(self): return self._active
    @staticmethod
    def singleShot(ms, f): loop['single'].append(f)

class QSocketNotifier(QObject):
    Read = 0
    activated = Signal()
    def __init__(self, fd, what, parent=None):
        super().__init__(parent)
        self._enabled = True
        loop['notifier'] = self
    def setEnabled(self, e): self._enabled = e

class QCoreApplication(QObject):
    aboutToQuit = Signal()
    @staticmethod
    def instance(): return loop['app']
    @staticmethod
    def postEvent(o, e, prio=0): loop['posted'].append((o, e))
    @staticmethod
    def sendEvent(o, e): return o.event(e)

class QLocale:
    def decimalPoint(self): return '.'
    def groupSeparator(self): return ','
    def toDouble(self, s):
        try: return float(s), True
        except ValueError: return 0., False

class Anything:
    def __getattr__(self, n): return 0

core = types.ModuleType('PySide6.QtCore')
for x in (QObject, Signal, Slot, Property, QTimer, QLocale, QEvent, QCoreApplication, QSocketNotifier):
    setattr(core, x.__name__, x)
core.Qt = Anything()
core.QStandardPaths = Anything()
core.QEventLoop = Anything
core.SIGNAL = lambda s: '2' + s
gui = types.ModuleType('PySide6.QtGui')
gui.QKeyEvent = Anything
sys.modules.update({'PySide6': types.ModuleType('PySide6'), 'PySide6.QtCore': core, 'PySide6.QtGui': gui})

# ---------------------------------------------------------------- zmq

class ZMQError(Exception):
    def __init__(self, errno):
        super().__init__('zmq error %d' % errno)
        self.errno = errno

EAGAIN, EFSM = 11, 156384763

class Socket:
    """A REQ socket, connected to the target."""
    def __init__(self, ctx):
        self.ctx, self.state, self.req, self.rep, self.closed = ctx, 0, None, None, False
        self.polls = 0
    def setsockopt(self, *a): pass
    def connect(self, *a): pass
    def fileno(self): return 99
    def send(self, m, *a):
        assert isinstance(m, (bytes, bytearray)) and not self.closed
        if self.state != 0:
            raise ZMQError(EFSM)
        self.state, self.req = 1, bytes(m)
        if self.ctx.r.random() < .3:
            self.handle()
    def handle(self):
        if self.state == 1:
            self.rep = self.ctx.request(self.req)
            self.state = 2
    def ready(self): return self.state == 2
    def recv_multipart(self, flags=0):
        if self.state == 0:
            raise ZMQError(EFSM)
        if self.state == 1:
            if not flags or self.ctx.r.random() < .3:
                self.handle()
            else:
                self.polls = 0
                raise ZMQError(EAGAIN)
        self.state = 0
        r, k = self.rep, self.ctx.r.randrange(3)
        return [r] if k else [r[:len(r) // 2], r[len(r) // 2:]]
    def poll(self, timeout=None):
        if self.state == 0:
            self.polls += 1
            if self.polls > 100:
                raise Failed('stuck', 'the client waits for a response to a request that it did not send')
            return 0
        self.ctx.between()
        self.handle()
        return 1
    def close(self, *a): self.closed = True

class Context:
    def __init__(self, target, r): self.target, self.r = target, r
    def socket(self, t): return Socket(self)
    def request(self, m): return self.target.request(m)
    def between(self): self.target.between()

zmq = types.ModuleType('zmq')
zmq.REQ, zmq.REP, zmq.PAIR, zmq.NOBLOCK, zmq.POLLIN, zmq.EAGAIN = 3, 4, 0, 1, 1, EAGAIN
zmq.CONNECT_TIMEOUT, zmq.RCVTIMEO, zmq.SNDTIMEO = 79, 27, 28
zmq.ZMQError, zmq.Context = ZMQError, Context
sys.modules['zmq'] = zmq
for n in ('serial', 'crcmod'):
    sys.modules[n] = types.ModuleType(n)
sys.modules['crcmod'].mkCrcFun = lambda *a, **k: lambda data: 0

pkg = types.ModuleType('libstored')
pkg.__path__ = [os.path.join(REPO, 'python/libstored')]
sys.modules['libstored'] = pkg
zc = importlib.import_module('libstored.zmq_client')
zc.time = clock

import logging
logging.getLogger('libstored').setLevel(logging.CRITICAL)

# ---------------------------------------------------------------- target

class Obj:
    pass

FIXED = {0x20: '<?', 0x38: '<b', 0x30: '<B', 0x39: '<h', 0x31: '<H', 0x3b: '<i', 0x33: '<I', 0x3f: '<q', 0x37: '<Q', 0x2b: '<f', 0x2f: '<d', 0x23: '<I', 0x27: '<Q'}
NAMES = {0x20: 'bool', 0x38: 'int8', 0x30: 'uint8', 0x39: 'int16', 0x31: 'uint16', 0x3b: 'int32', 0x33: 'uint32', 0x3f: 'int64', 0x37: 'uint64', 0x2b: 'float', 0x2f: 'double', 0x23: 'ptr32', 0x27: 'ptr64', 1: 'blob', 2: 'string', 0: 'void'}

BAD = object()

def conv(o, raw):
    """What a client should show for what the store holds."""
    t = o.type & 0x3f
    if t in FIXED:
        v = struct.unpack(FIXED[t], raw[:o.size] if t != 0x20 else bytes([raw[0] != 0]))[0]
        return v
    if t == 1:
        return bytes(raw[:o.size])
    if t == 2:
        try:
            return raw[:o.size].split(b'\0')[0].decode()
        except UnicodeDecodeError:
            return BAD
    return b''

def unconv(o, v):
    """What the store should hold when the client writes."""
    t = o.type & 0x3f
    if t in FIXED:
        return struct.pack(FIXED[t], v)
    if t == 1:
        return bytes(v)
    if t == 2:
        return v.encode()
    return b''

def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    return type(a) == type(b) and a == b

def sameraw(o, a, b):
    t = o.type & 0x3f
    if t == 2:
        return a[:o.size].split(b'\0')[0] == b[:o.size].split(b'\0')[0]
    if t in (0x2b, 0x2f):
        return same(conv(o, a), conv(o, b))
    return a == b

def value(r, o):
    t = o.type & 0x3f
    if t in FIXED:
        f = FIXED[t]
        if t == 0x20:
            return r.random() < .5
        if t in (0x2b, 0x2f):
            k = r.randrange(8)
            v = [0., -0., float('inf'), float('nan')][r.randrange(4)] if k == 0 else float(r.randrange(-1000000, 1000000)) if k < 3 else r.uniform(-1, 1) * 10. ** r.randrange(-30, 30) if k < 6 else struct.unpack(f, r.randbytes(o.size))[0]
            return struct.unpack(f, struct.pack(f, v))[0]
        k = r.randrange(4)
        b = r.randbytes(o.size) if k else bytes(r.choice([0, 0xff, 0x80, 0x7f, 1]) for _ in range(o.size))
        return struct.unpack(f, b)[0]
    if t == 1:
        return vf.rbytes(r, o.size)
    if t == 2:
        s = ''.join(r.choice('ab 0;/\n\r\\!?éλ') for _ in range(vf.size(r, o.size)))
        while len(s.encode()) > o.size:
            s = s[:-1]
        return s
    return b''

class Target:
    proc = None

    def __init__(self, r, n):
        self.r, self.history, self.traces, self.attaching, self.drift = r, [], 0, False, 0
        if Target.proc is None or Target.proc.poll() is not None:
            Target.proc = subprocess.Popen([vf.ctx.args['exe']], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.objs, self.log, self.busy = [], [], False
        # last: what the object held when it was last accessed; seen: everything a client may have got from it, samples: by time stamp
        pre = r.choice([['-'], ['/S'], ['/S', '/T'], ['/Sto', '/Store']]) if n > 1 or r.random() < .5 else ['-']
        stores = ' '.join('%d %s' % (r.randrange(1000), p) for p in pre)
        names = {}
        for l in self.cmd('N %d %s' % (len(pre), stores)):
            if l[0] == 'P':
                k, nm = l[2:].split(' ', 1)
                names[int(k)] = pre[int(k)] if pre[int(k)] != '-' else nm
            elif l[0] == 'O':
                s, i, t, sz, fn, nm = l[2:].split(' ', 5)
                o = Obj()
                o.s, o.i, o.type, o.size, o.func, o.base = int(s), int(i), int(t), int(sz), int(fn), nm
                o.last, o.seen, o.samples, o.cobj, o.lastop = None, [], {}, None, None
                self.objs.append(o)
        always = vf.ctx.args.get('always') == '1'
        for o in self.objs:
            o.name = (names[o.s] + o.base) if len(pre) > 1 or always else o.base
        self.byname = {o.name: o for o in self.objs}
        self.by = {(o.s, o.i): o for o in self.objs}
        self.timevar = None
        c = [o for o in self.objs if o.base == '/t (us)']
        self.timevars = c
        self.ts = 0
        self.tick()

    def cmd(self, s):
        p = Target.proc
        try:
            p.stdin.write(s.encode() + b'\n')
            p.stdin.flush()
            res = []
            while True:
                l = p.stdout.readline()
                if not l:
                    raise BrokenPipeError
                l = l.decode('latin1').rstrip('\n')
                if l == '.':
                    return res
                res.append(l)
        except (BrokenPipeError, OSError):
            p.wait()
            raise Failed('crash', 'the target crashed (%s) at command %s' % (p.returncode, s[:200]))

    def request(self, m):
        vf.verbose('    req', m)
        rep = None
        if self.attaching:
            self.tick() # so the client gets the actual time
        for l in self.cmd('Q ' + m.hex()):
            if l[0] == 'R':
                n, h = (l[2:] + ' ').split(' ')[0:2]
                rep = bytes.fromhex(h)
                if n != '1':
                    raise Failed('response', 'the target gave %s responses to %r' % (n, m))
            else:
                self.event(l)
        vf.verbose('    rep', rep)
        self.history = self.history[-14:] + ['%r -> %r' % (m[:60], rep[:60])]
        vf.count('requests')
        return rep

    def event(self, l, ts=None):
        s, i, h = (l[2:] + ' ').split(' ')[0:3]
        o = self.by[int(s), int(i)]
        raw = bytes.fromhex(h)
        v = conv(o, raw)
        o.seen.append(v)
        if ts is not None:
            o.samples[ts] = v
            return
        o.last = raw
        o.lastop = l[0]
        self.log.append((o, l[0]))

    def set(self, o, raw):
        self.cmd('W %d %d %s' % (o.s, o.i, raw.hex()))

    def get(self, o):
        return bytes.fromhex(self.cmd('G %d %d' % (o.s, o.i))[0][2:])

    def tick(self, offset=0):
        clock.time()
        # The offset prevents that a sample has the same time as a read.
        self.ts = int((clock.now + (clock.now - 1e9) * self.drift) * 1e6) + offset
        for o in self.timevars:
            self.set(o, struct.pack('<Q', self.ts))

    def trace(self):
        self.traces += 1
        self.tick(13 * self.traces % 900 + 13)
        for l in self.cmd('T'):
            self.event(l, self.ts)
            vf.count('samples taken')
        # It takes some time to get the sample.
        for _ in range(8):
            clock.time()

    def between(self):
        """Something happens at the target while the client waits."""
        r = self.r
        if self.busy or r.random() < .7:
            return
        self.busy = True
        if r.random() < .5:
            self.change(r.choice(self.objs))
        else:
            self.trace()
        self.busy = False

    def change(self, o):
        if o not in self.timevars:
            self.set(o, unconv(o, value(self.r, o)))

# ---------------------------------------------------------------- cases

class Watch:
    """Observes the signals of an object of a client."""
    def __init__(self, case, o, c):
        self.case, self.o, self.c = case, o, c
        self.times, self.last = {}, None
        c.valueChanged.connect(self.changed)
        c.valueUpdated.connect(self.updated)
    def changed(self):
        v = self.c.value
        if v is not None and not any(same(v, x) for x in reversed(self.o.seen)):
            raise Failed('wrong value', '%s changed to %r at the client, which it never held at the target; it held %r' % (self.o.name, v, self.o.seen[-3:]))
    def updated(self):
        """A sample has the value of its own time."""
        o, t = self.o, self.c.t
        if self.case.client is None or o in self.case.target.timevars:
            return
        if len(o.samples) != len(self.times):
            for ts, v in o.samples.items():
                self.times[self.case.client.timestampToTime(ts)] = v
        if t in self.times:
            if not same(self.c.value, self.times[t]) and self.times[t] is not BAD:
                raise Failed('sample', 'the sample of %s is %r instead of %r' % (o.name, self.c.value, self.times[t]))
            vf.count('samples received')

class Case:
    def __init__(self, r):
        self.r = r
        self.target = Target(r, 2)
        self.decimated = False
        self.client = self.multi = None
        self.attrs = set(vars(zc.ZmqClient))
        self.streams = {}
        self.traced = {}
        self.polled = {}
        self.fast = {}
        self.macros = []

    def new(self, multi=False):
        r = self.r
        loop.update(app=None, single=[], posted=[], timers=[], notifier=None)
        self.loop = not multi and r.random() < .5
        if self.loop:
            loop['app'] = QCoreApplication()
        n0 = set(vars(zc.ZmqClient))
        tv = [o.name for o in self.target.timevars]
        c = zc.ZmqClient(multi=multi, context=Context(self.target, r), t=r.choice([None] + tv))
        if self.loop:
            self.events(True)
        objs = c.list()
        self.listed(c, objs)
        new = [n for n in vars(zc.ZmqClient) if n not in n0]
        if len(new) != len(objs):
            raise Failed('attributes', '%d objects, but %d attributes' % (len(objs), len(new)))
        for n, o in zip(new, objs):
            if getattr(c, n) is not o:
                raise Failed('attributes', 'client.%s is %r instead of %s' % (n, getattr(getattr(c, n), 'name', None), o.name))
        return c

    def listed(self, c, objs):
        t = self.target
        if sorted(o.name for o in objs) != sorted(t.byname):
            raise Failed('list', 'the client lists other objects: %r' % sorted(set(t.byname) ^ set(o.name for o in objs))[:5])
        for o in objs:
            x = t.byname[o.name]
            if o.type != x.type or o.size != x.size:
                raise Failed('list', '%s has type %x, size %d, instead of %x, %d' % (o.name, o.type, o.size, x.type, x.size))
            n = NAMES.get(x.type & 0x3f)
            if n in ('blob', 'string'):
                n += ':%d' % x.size
            if x.func:
                n = '(%s)' % n
            if o.typeName != n:
                raise Failed('list', '%s has type %s instead of %s' % (o.name, o.typeName, n))
            if self.r.random() < 4 / len(objs) and (c.find(o.name) is not o or c[o.name] is not o):
                raise Failed('find', 'cannot find %s' % o.name)

    def attach(self):
        t = self.target
        for o in t.objs:
            o.cobj, o.last, o.seen, o.lastop, o.samples = None, None, [], None, {}
        t.tick()
        t.attaching = True
        self.client = self.new()
        t.attaching = False
        for co in self.client.list():
            o = t.byname[co.name]
            o.cobj, o.watch = co, Watch(self, o, co)
        self.traced, self.polled, self.fast, self.macros, self.streams = {}, {}, {}, [], {}

    def detach(self):
        c, self.client = self.client, None
        c.close()
        for n in set(vars(zc.ZmqClient)) - self.attrs:
            delattr(zc.ZmqClient, n)

    def events(self, all=False):
        """Run the event loop: once, or until nothing happens anymore."""
        r = self.r
        for _ in range(10000):
            some = False
            n = loop['notifier']
            s = self.client.socket if self.client else None
            if s is not None and s.state == 1 and (all or r.random() < .5):
                s.handle()
            if n is not None and n._enabled and (s is None or s.ready() or r.random() < .1):
                n.activated.emit()
                some = s is not None
            if loop['single']:
                l, loop['single'] = loop['single'], []
                for f in l:
                    f()
                some = True
            if loop['posted'] and (all or r.random() < .5):
                o, e = loop['posted'].pop(0)
                o.event(e)
                some = True
            if not all or not some:
                return
        raise Failed('stuck', 'the client keeps sending requests')

    def timers(self):
        for t in [t for t in loop['timers'] if t._active]:
            if t._active and self.r.random() < .8:
                if t._single: t._active = False
                t.timeout.emit()

    def check(self, o, what):
        """The client shows what the target held at the last access."""
        if o.last is None or self.target.drift:
            return
        v = conv(o, o.last)
        if v is BAD:
            return
        if not same(o.cobj.value, v):
            raise Failed('shown value', 'after %s, %s is %r at the client, but %r at the target' % (what, o.name, o.cobj.value, v))
        vf.count('values compared')

    def quiet(self, what):
        self.events(True)
        for o in self.target.objs:
            if o not in self.traced and o not in self.fast and o not in self.dirty and o not in self.target.timevars:
                self.check(o, what)

    def step(self):
        r, t, c = self.r, self.target, self.client
        o = r.choice(self.focus or t.objs[:6]) if self.focus or r.random() < .5 else r.choice(t.objs)
        istime = o in t.timevars
        k = r.choice(['poll', 'poll', 'poll', 'poll', 'change', 'trace', 'trace', 'trace', 'process', 'process', 'events', 'timers', 'read', 'aread', 'write', 'multi', 'state'] if self.focus else ['read', 'read', 'write', 'write', 'set value', 'set string', 'aread', 'aread', 'awrite', 'change', 'change', 'change', 'trace', 'trace', 'trace', 'poll', 'poll',
            'timers', 'events', 'events', 'alias', 'release', 'mem', 'stream', 'macro', 'format', 'multi', 'process', 'time', 'echo', 'long', 'file', 'state', 'decimate'])
        vf.verbose('step', k, o.name, 'loop' if self.loop else '')
        vf.count('op ' + k)
        if k == 'read':
            alias = r.random() < .7
            n = len(t.log)
            v = o.cobj.read(alias) if r.random() < .7 or not alias else o.cobj.read()
            acc = [x for x, _ in t.log[n:]]
            if o not in acc:
                raise Failed('wrong object', 'reading %s accessed %r' % (o.name, [x.name for x in acc]))
            e = conv(o, o.last)
            if e is not BAD and not same(v, e):
                raise Failed('read', 'reading %s of type %s gave %r instead of %r' % (o.name, o.cobj.typeName, v, e))
            if o not in self.traced and not istime:
                self.dirty.pop(o, None)
                self.check(o, 'a read')
            vf.count('reads')
        elif k in ('write', 'set value', 'set string') and not istime:
            v = value(r, o)
            if k == 'set string' and (o.type & 0x3f) in FIXED:
                ty = o.type & 0x3f
                s = repr(v) if ty in (0x2b, 0x2f) else r.choice(['true', 'True', '1'] if v else ['false', '0', 'no']) if ty == 0x20 else r.choice(['%d', '0x%x', '%d'] if v >= 0 else ['%d']) % v if r.random() < .8 or ty in (0x23, 0x27) else format(v, ',')
                if ty == 0x20:
                    pass
                def w(): o.cobj.valueString = s
            elif k == 'set value':
                def w(): o.cobj.value = v
            else:
                def w():
                    if not o.cobj.write(v):
                        raise Failed('write', 'writing %r to %s of type %s failed' % (v, o.name, o.cobj.typeName))
            if k == 'set string' and (o.type & 0x3f) == 1:
                return
            if k == 'set string' and (o.type & 0x3f) == 2:
                def w(): o.cobj.valueString = v
            o.seen.append(v)
            self.events(True)
            n = len(t.log)
            t.busy = True
            w()
            if self.loop:
                self.events(True)
            t.busy = False
            if (o, 'w') not in t.log[n:]:
                raise Failed('write', '%s %r to %s did not write it' % (k, v, o.name))
            if any(op == 'w' and x is not o for x, op in t.log[n:]):
                raise Failed('wrong object', 'writing %s wrote another object' % o.name)
            if not sameraw(o, o.last, unconv(o, v)):
                raise Failed('write', 'wrote %r to %s of type %s, which got %r' % (v, o.name, o.cobj.typeName, o.last))
            vf.count('writes')
            if o not in self.traced and o not in self.fast:
                self.dirty.pop(o, None)
                self.check(o, 'a write')
        elif k == 'aread':
            o.cobj.asyncRead()
        elif k == 'awrite' and not istime:
            v = value(r, o)
            o.seen.append(v)
            o.cobj.asyncWrite(v)
        elif k == 'change':
            for _ in range(r.randrange(1, 6)):
                t.change(r.choice(t.objs))
        elif k == 'trace':
            for _ in range(r.randrange(1, 5)):
                if r.random() < .7 and self.traced:
                    t.change(r.choice(list(self.traced)))
                t.trace()
        elif k == 'poll':
            i = r.choice([.05, .05, .05, .05, .2, None, .01] if self.focus else [.01, .05, .2, .2, 2, None, None])
            self.poll(o, i)
        elif k == 'timers':
            self.timers()
            if r.random() < .5:
                self.finish()
        elif k == 'events':
            if r.random() < .5:
                self.events()
            else:
                self.quiet('all requests')
        elif k == 'process':
            c.traceProcess()
            if not self.loop or r.random() < .5:
                self.events(True)
        elif k == 'alias':
            p = r.choice([None, None, 'x', 'y', 'a', '0', ' '])
            tmp = r.random() < .6
            c.acquireAlias(o.cobj, p, tmp, None if tmp else self)
        elif k == 'release':
            a = r.choice(['x', 'y', 'a', '0', ' '])
            # permanent aliases of the polling are not ours
            if not any(x.cobj.alias == a for x in list(self.fast) + list(self.traced) + t.timevars):
                c.releaseAlias(a, self)
        elif k == 'mem' and vf.ctx.args.get('mem') == '1':
            base = int(t.cmd('B')[0][2:], 16)
            off = r.randrange(256)
            n = r.randrange(1, 257 - off)
            before = bytes.fromhex(t.cmd('C')[0][2:])
            if r.random() < .5:
                d = r.randbytes(n)
                if not c.writeMem(base + off, d):
                    raise Failed('memory', 'cannot write %d bytes' % n)
                e = before[:off] + d + before[off + n:]
                if bytes.fromhex(t.cmd('C')[0][2:]) != e:
                    raise Failed('memory', 'writeMem of %d bytes at %d does something else' % (n, off))
            else:
                d = c.readMem(base + off, n)
                if d is None or bytes(d) != before[off:off + n]:
                    raise Failed('memory', 'readMem of %d bytes at %d gave %r instead of %r' % (n, off, d, before[off:off + n]))
            vf.count('memory accesses')
        elif k == 'stream':
            self.stream()
        elif k == 'macro':
            self.macro()
        elif k == 'format':
            o.cobj.format = r.choice(o.cobj.formats)
            v, s, ty = o.cobj.value, o.cobj.valueString, o.type & 0x3f
            if v is not None and ty in FIXED and ty not in (0x2b, 0x2f, 0x20) and o.cobj.format in ('default', 'hex', 'bin'):
                if (int(s.replace(',', ''), 0) - v) % (1 << 8 * o.size):
                    raise Failed('format', '%s is %r, but shows %s as %s' % (o.name, v, o.cobj.format, s))
            elif v is not None and ty in (0x2b, 0x2f) and o.cobj.format == 'default' and math.isfinite(v):
                if abs(float(s.replace(',', '')) - v) > abs(v) * (1e-5 if ty == 0x2b else 1e-14):
                    raise Failed('format', '%s is %r, but shows %s' % (o.name, v, s))
            elif v is not None and ty == 2 and o.cobj.format == 'default' and s != v:
                raise Failed('format', '%s is %r, but shows %s' % (o.name, v, s))
        elif k == 'multi' and vf.ctx.case % 2:
            self.second(o)
        elif k == 'time':
            tv = c.time()
            if tv is not None and tv.name not in [x.name for x in t.timevars]:
                raise Failed('time', 'the time is %s' % tv.name)
        elif k == 'echo':
            s = ''.join(r.choice('ab ;/\\!?') for _ in range(vf.size(r, 50)))
            if c.echo(s) != s:
                raise Failed('echo', 'echo differs')
            if c.identification() != 'target':
                raise Failed('echo', 'wrong identification')
        elif k == 'long':
            # Use more aliases than there are.
            for x in r.sample(t.objs, min(len(t.objs), 110)):
                if x not in self.traced and x not in t.timevars:
                    x.cobj.read()
                    self.dirty.pop(x, None)
                    self.check(x, 'reading all')
        elif k == 'decimate' and r.random() < .3:
            c.traceDecimate(r.randrange(1, 4))
            self.decimated = True
        elif k == 'state' and r.random() < .2:
            self.events(True)
            self.state()

    def poll(self, o, i):
        c = self.client
        if i is None:
            o.cobj.poll(None)
        else:
            o.cobj.poll(i)
        # what happened is up to the capabilities; see what it does
        for x in (self.traced, self.fast, self.polled):
            x.pop(o, None)
        self.dirty[o] = True
        if i is not None:
            if not o.cobj.polling:
                raise Failed('polling', '%s is not polled' % o.name)
            tr = i < .1
            if tr: self.traced[o] = True
            if i < .9: self.fast[o] = True
            self.polled[o] = True
        elif o.cobj.polling:
            raise Failed('polling', '%s is still polled' % o.name)
        vf.count('polls')

    def second(self, o):
        """Another client, for which the target must not keep any state."""
        r, t = self.r, self.target
        self.events(True)
        keep = dict(loop)
        n0 = set(vars(zc.ZmqClient))
        me, self.client = self.client, None
        t.attaching = True
        c = self.new(True)
        t.attaching = False
        for n in set(vars(zc.ZmqClient)) - n0:
            delattr(zc.ZmqClient, n)
        co = c.find(o.name)
        if o not in t.timevars and r.random() < .5:
            v = value(r, o)
            o.seen.append(v)
            if not co.write(v):
                raise Failed('multi', 'cannot write %r to %s' % (v, o.name))
        v, e = co.read(), conv(o, o.last)
        if e is not BAD and not same(v, e):
            raise Failed('multi', 'another client read %r instead of %r from %s' % (v, e, o.name))
        for x in t.objs:
            # accessed by the other client, so unknown to this one
            if x is o: self.dirty[x] = True
        c.close()
        loop.clear()
        loop.update(keep)
        self.client = me
        self.loop = keep['app'] is not None
        vf.count('other clients')

    def stream(self):
        r, t, c = self.r, self.target, self.client
        n = r.choice('mn')
        if n not in self.streams and len(self.streams) < int(vf.ctx.args.get('streams', 1)):
            # the traces take one too
            s = c.stream(n, raw=True)
            t.cmd('Z %s %s' % (n, b'x'.hex()))
            self.events(True)
            s.poll()
            s.reset()
            self.events(True)
            if n not in c.otherStreams():
                return
            self.streams[n] = [s, b'', b'']
            return
        if n not in self.streams:
            return
        x = self.streams[n]
        for _ in range(r.randrange(4)):
            d = vf.rbytes(r, vf.size(r, 40))
            if d:
                x[1] += d[:int(t.cmd('Z %s %s' % (n, d.hex()))[0].split(' ')[1])]
        flush = r.random() < .5
        if flush:
            x[0].flush()
            self.events(True)
        if self.loop and r.random() < .5:
            got = []
            x[0].poll(callback=got.append)
            self.events(True)
            x[2] += got[0]
        else:
            x[2] += x[0].poll()
        if not x[1].startswith(x[2]):
            raise Failed('stream', 'stream %s gave %r instead of %r' % (n, x[2][-100:], x[1][-100:]))
        if flush and x[1] != x[2]:
            raise Failed('stream', 'stream %s gave %r instead of %r after a flush' % (n, x[2][-100:], x[1][-100:]))
        vf.count('stream bytes', len(x[2]))
        x[1] = x[2] = b'' if x[1] == x[2] else x[2]
        if flush:
            x[1] = x[2] = b''

    def macro(self):
        """A macro of the application."""
        r, t, c = self.r, self.target, self.client
        if len(self.macros) < 2 and r.random() < .5:
            m = zc.Macro(c)
            m.expect = []
            self.macros.append(m)
        if not self.macros:
            return
        m = r.choice(self.macros)
        got = {}
        self.events(True)
        if r.random() < .4 and len(m) < 5:
            o = r.choice(t.objs)
            key = r.randrange(1000)
            if key in [x[0] for x in m.expect]:
                return
            def cb(rep, ts=None, key=key):
                m.got.append((key, bytes(rep)))
            m.got = []
            if m.add('r' + o.name, cb, key):
                m.expect.append((key, o))
            self.dirty[o] = True
        elif m.expect and r.random() < .3:
            key = r.choice(m.expect)[0]
            m.got = []
            m.remove(key)
            m.expect = [x for x in m.expect if x[0] != key]
        if not m.expect:
            return
        m.got = []
        for _, o in m.expect:
            self.dirty[o] = True
        t.busy = True
        ok = m.run(self.loop and r.random() < .5)
        self.events(True)
        t.busy = False
        if not ok or [x[0] for x in m.got] != [x[0] for x in m.expect]:
            raise Failed('macro', 'a macro of %d reads gave %d responses' % (len(m.expect), len(m.got)))
        for (key, rep), (_, o) in zip(m.got, m.expect):
            v, e = o.cobj._decode(rep), conv(o, t.get(o))
            if e is not BAD and not same(v, e):
                raise Failed('macro', 'a macro gave %r for %s instead of %r' % (rep, o.name, e))
        vf.count('macros run')

    def state(self):
        """Polls and formats are restored in a new client."""
        c, t = self.client, self.target
        f = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'client-%d-%d.conf' % (os.getpid(), vf.ctx.case))
        try:
            c.identification()
            c.saveState(f)
            before = {o: (o.cobj.polling, o.cobj.format) for o in t.objs}
            self.detach()
            self.attach()
            self.client.restoreState(f)
        finally:
            if os.path.exists(f):
                os.unlink(f)
        self.events(True)
        for o, (p, fm) in before.items():
            if o.cobj.polling != p or o.cobj.format != fm:
                raise Failed('state', '%s has polling=%s, format=%s, instead of %s, %s' % (o.name, o.cobj.polling, o.cobj.format, p, fm))
            if p:
                i = o.cobj.pollInterval
                if i < .1: self.traced[o] = True
                if i < .9: self.fast[o] = True
                self.polled[o] = True
        self.dirty = dict.fromkeys(t.objs)
        vf.count('states restored')

    def run(self):
        r = self.r
        self.dirty = {}
        # The clock of the target may run faster, such that samples seem newer than what is read.
        self.target.drift = r.choice([0, 0, 0, 2])
        self.attach()
        # Concentrate on polling some objects that have the same type.
        self.focus = None
        if r.random() < .5:
            o = r.choice(self.target.objs)
            self.focus = ([x for x in self.target.objs if x.type == o.type and x not in self.target.timevars] or self.target.objs)[:4]
        for _ in range(r.randrange(10, 80)):
            self.step()
            if self.client is None:
                break
            if r.random() < .01:
                self.events(True)
                self.detach()
                self.dirty = {}
                self.attach()
        self.finish()
        self.target.busy = True
        for o in self.target.objs:
            o.cobj.poll(None)
        self.events(True)
        for o in self.target.objs:
            self.target.change(o)
            e = conv(o, self.target.get(o))
            v = o.cobj.read()
            if e is not BAD and not same(v, e):
                raise Failed('read', 'finally, reading %s gave %r instead of %r' % (o.name, v, e))

    def fire(self):
        for t in [t for t in loop['timers'] if t._active]:
            if t._active:
                t.timeout.emit()
        self.events(True)

    def drain(self):
        c = self.client
        s = getattr(getattr(c, '_tracing', None), '_stream', None)
        if s is None:
            return
        for _ in range(2):
            s.flush()
            self.events(True)
            for _ in range(2):
                c.traceProcess()
                self.events(True)

    def finish(self):
        """Everything that is polled gets the current value."""
        t = self.target
        t.busy = True
        self.events(True)
        if self.decimated:
            self.client.traceDecimate(1)
            self.decimated = False
        self.drain()
        for o in self.polled:
            t.change(o)
        t.trace()
        t.trace()
        self.drain()
        self.fire()
        self.drain()
        large = sum(2 * o.size + 2 for o in self.traced) + 30 > int(vf.ctx.args.get('buffer', 1024))
        for o in self.polled:
            e = conv(o, t.get(o))
            if e is not BAD and o not in t.timevars and not t.drift and not (large and o in self.traced) and not same(o.cobj.value, e):
                raise Failed('poll', '%s is polled at %s s, but the client shows %r instead of %r' % (o.name, o.cobj.pollInterval, o.cobj.value, e))
            vf.count('polled values compared')
        t.busy = False

def case(r):
    vf.label('case')
    Clock.now = 1e9
    gc.collect()
    attrs = set(vars(zc.ZmqClient))
    c = Case.__new__(Case)
    c.target = c.client = None
    try:
        c.__init__(r)
        c.run()
    except Failed as f:
        vf.violation(f.key, f.msg + ('\nlast requests:\n  ' + '\n  '.join(c.target.history) if c.target else ''))
    finally:
        try:
            if c.client is not None:
                c.detach()
        except Exception:
            pass
        for n in set(vars(zc.ZmqClient)) - attrs:
            delattr(zc.ZmqClient, n)
    vf.sig([(o.name, op) for o, op in c.target.log] if c.target else 0)

vf.main(case)
