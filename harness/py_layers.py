#!/usr/bin/env python3
"""C28: the protocol layers of the Python package against the C++ ones (interop.cpp)."""
import os, subprocess, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vfpy as vf

REPO = os.environ.get('VERIF_REPO', '/repo')

# The modules that protocol.py needs, but that are not installed here.
def mkCrcFun(poly, initCrc, rev, xorOut):
    assert not rev and not xorOut
    w = poly.bit_length() - 1
    table = []
    for b in range(256):
        x = b << (w - 8)
        for _ in range(8):
            x = (x << 1) ^ (poly if x >> (w - 1) else 0)
        table.append(x & ((1 << w) - 1))
    def f(data):
        crc = initCrc
        for b in bytes(data):
            crc = ((crc << 8) & ((1 << w) - 1)) ^ table[(crc >> (w - 8)) ^ b]
        return crc
    return f

crcmod = types.ModuleType('crcmod')
crcmod.mkCrcFun = mkCrcFun
sys.modules['crcmod'] = crcmod
sys.modules['zmq'] = types.ModuleType('zmq')
import importlib.util
spec = importlib.util.spec_from_file_location('protocol', os.path.join(REPO, 'python/libstored/protocol.py'))
protocol = importlib.util.module_from_spec(spec)
spec.loader.exec_module(protocol)

class Cpp:
    """A C++ stack."""
    proc = None

    def __init__(self, desc, mtu, app=0):
        if Cpp.proc is None or Cpp.proc.poll() is not None:
            Cpp.proc = subprocess.Popen([vf.ctx.args['exe']], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.environ.get('VF_INTEROP_ERR', '/dev/stderr'), 'a'))
        self.frames, self.msgs, self.nondebug, self.executed = [], [], bytearray(), 0
        self.cmd('S %s %d %d' % (desc, mtu, app))

    def cmd(self, s):
        p = Cpp.proc
        try:
            p.stdin.write(s.encode() + b'\n')
            p.stdin.flush()
            while True:
                l = p.stdout.readline()
                if not l:
                    raise BrokenPipeError
                l = l.decode().rstrip('\n')
                if l == '.':
                    return
                d = l[2:]
                if l[0] == 'F': self.frames.append(bytes.fromhex(d))
                elif l[0] == 'M': self.msgs.append(bytes.fromhex(d))
                elif l[0] == 'T': self.nondebug += bytes.fromhex(d)
                elif l[0] == 'X': self.executed = int(d)
        except (BrokenPipeError, OSError):
            p.wait()
            raise Failed('crash', 'the C++ stack crashed (%s) at command %s' % (p.returncode, s[:200]))

    def encode(self, m): self.cmd('E ' + m.hex())
    def decode(self, m): self.cmd('D ' + m.hex())
    def inject(self, m): self.cmd('N ' + m.hex())
    def take(self):
        f, self.frames = self.frames, []
        return f

class Failed(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key

class Bottom(protocol.ProtocolLayer):
    def __init__(self, mtu, frames):
        super().__init__()
        self._mtu = mtu
        self.frames = frames
    def encode(self, data):
        self.frames.append(bytes(data))
    @property
    def mtu(self):
        return self._mtu

class Py:
    """A Python stack."""
    def __init__(self, desc, mtu):
        self.frames, self.msgs, self.nondebug = [], [], bytearray()
        self.stack = protocol.buildStack(desc)
        self.term = None
        for l in self.stack:
            if isinstance(l, protocol.TerminalLayer):
                l.fdout = lambda x: self.nondebug.extend(x)
                self.term = l
            last = l
        self.bottom = Bottom(mtu, self.frames)
        self.bottom.wrap(last)
        self.stack.up = lambda x: self.msgs.append(bytes(x))
    def encode(self, m): self.stack.encode(bytes(m))
    def decode(self, m): self.bottom.decode(bytearray(m))
    def inject(self, m): self.term.inject(m)
    def timeout(self): self.stack.timeout()
    def take(self):
        f = list(self.frames)
        del self.frames[:]
        return f

def genStack(r, arq=False, crc=False, term=None):
    """Returns (list of layers for Python, for C++, mtu)."""
    l = []
    mtu = 0 if r.random() < .4 else r.choice([60, 64, 100, 128, 256, 300, 1000])
    if term is None:
        term = r.random() < .5
    segs = 0
    def seg():
        nonlocal segs
        segs += 1
        if mtu and r.random() < .8 or segs > 1:
            return ('segment', 'segment')
        return ('segment=%d' % r.choice([2, 3, 5, 10, 20]), 'segment=%d' % r.choice([2, 3, 5, 10, 20]))
    if arq:
        if r.random() < .7: l.append(seg())
        l.append(('arq', 'arq=%d' % r.choice([0, 0, 50, 500])))
    n = r.randrange(1 if crc else 0, 4)
    for _ in range(n):
        k = r.randrange(5)
        if k == 0 and not arq: l.append(seg())
        elif k == 1: l.append(('ascii', 'ascii=%d' % r.randrange(2)))
        elif k == 2: l.append(('raw', 'raw'))
        else: l.append(r.choice([('crc8', 'crc8'), ('crc16', 'crc16')]))
    if crc and not any(x[0][:3] == 'crc' for x in l):
        l.append(r.choice([('crc8', 'crc8'), ('crc16', 'crc16')]))
    if term:
        l.append(('ascii', 'ascii=%d' % r.randrange(2)))
        l.append(('term', 'term'))
    if not l:
        l.append(('raw', 'raw'))
    return ','.join(x[0] for x in l), ','.join(x[1] for x in l), mtu, segs > 0

def message(r, m):
    return vf.rbytes(r, vf.size(r, m))

def fragments(r, data):
    out = []
    while data:
        n = r.choice([1, 1, 2, 3, r.randrange(1, len(data) + 1), len(data)])
        out.append(data[:n])
        data = data[n:]
    return out

def plain(r):
    d1, d2, mtu, seg = genStack(r)
    trace = ['%s | %s, mtu %d' % (d1, d2, mtu)]
    vf.label(trace[0])
    p, c = Py(d1, mtu), Cpp(d2, mtu)
    term = p.term is not None
    # Without segmentation, messages should fit.
    maxlen = 400 if seg or not (mtu or 'crc' in d1) else max(1, (mtu or 256) // 2 ** (1 + d1.count('ascii')) - 8)
    for i in range(r.randrange(1, 10)):
        a, b, name = (p, c, 'Python to C++') if i == 0 or r.random() < .5 else (c, p, 'C++ to Python')
        del b.msgs[:], b.nondebug[:]
        sent, nd, frames = [], b'', []
        for _ in range(r.randrange(1, 4)):
            if term and r.random() < .3:
                x = vf.rbytes(r, vf.size(r, 100)).replace(b'\x1b', b'x')
                a.inject(x)
                frames += a.take()
                nd += x
            m = message(r, maxlen)
            if not m and ('segment' in d1 or r.random() < .5):
                m = b'x'
            a.encode(m)
            sent.append(m)
            f = a.take()
            if mtu and any(len(x) > mtu for x in f):
                raise Failed('mtu', '%s: a frame of %d bytes exceeds the MTU; %s' % (name, max(map(len, f)), trace[0]))
            frames += f
        trace.append('%s: %s' % (name, ' '.join(x.hex() for x in sent)))
        if term:
            frames = fragments(r, b''.join(frames))
        for f in frames:
            b.decode(f)
        vf.count('messages', len(sent))
        vf.count('frames', len(frames))
        if b.msgs != sent:
            raise Failed('message', '%s: got %s instead of %s; %s' % (name, [x.hex() for x in b.msgs], [x.hex() for x in sent], ' / '.join(trace)[:1500]))
        if bytes(b.nondebug) != nd:
            raise Failed('non-debug data', '%s: got %s instead of %s; %s' % (name, bytes(b.nondebug), nd, ' / '.join(trace)[:1500]))
    vf.sig('/'.join(trace))
    if vf.ctx.case < 20: vf.sample('/'.join(trace))

def corrupt(r):
    """What one rejects, the other rejects."""
    d1, d2, mtu, seg = genStack(r, crc=True, term=False)
    trace = ['%s | %s, mtu %d' % (d1, d2, mtu)]
    vf.label(trace[0])
    pe, ce = Py(d1, mtu), Cpp(d2, mtu)
    frames = []
    maxlen = 100 if seg else max(1, (mtu or 256) // 2 ** (1 + d1.count('ascii')) - 8)
    ce.encode(b'y')
    for _ in range(r.randrange(1, 6)):
        a = pe if r.random() < .5 else ce
        a.encode(message(r, maxlen) or b'x')
        frames += a.take()
    p, c = Py(d1, mtu), ce
    # The CRC layers are at the bottom, so a corrupt frame does not get at the layers above
    low = d1.split(',')[-1]
    for f in frames:
        x = bytearray(f)
        k = r.randrange(6)
        if k == 0 and x: x[r.randrange(len(x))] ^= 1 << r.randrange(8)
        elif k == 1 and x: del x[r.randrange(len(x)):]
        elif k == 2: x += vf.rbytes(r, r.randrange(1, 4))
        elif k == 3 and x:
            for _ in range(r.randrange(1, 4)): x[r.randrange(len(x))] = r.randrange(256)
        elif k == 4: x = bytearray(vf.rbytes(r, r.randrange(4)))
        if low[:3] != 'crc':
            x = bytearray(f)
        trace.append(x.hex())
        del p.msgs[:], c.msgs[:]
        p.decode(bytes(x))
        c.decode(bytes(x))
        vf.count('frames judged')
        if p.msgs: vf.count('frames accepted')
        # An invalid escape sequence, in a corrupt frame with a correct CRC, is not defined.
        if p.msgs != c.msgs and ('ascii' not in d1 or [len(m) for m in p.msgs] != [len(m) for m in c.msgs]):
            raise Failed('verdict', 'frame %s: Python gives %s, and C++ %s; %s' % (x.hex(), [m.hex() for m in p.msgs], [m.hex() for m in c.msgs], ' / '.join(trace)[:1500]))
    vf.sig('/'.join(trace))

def arq(r):
    """Requests over a lossy channel."""
    d1, d2, mtu, seg = genStack(r, arq=True)
    app = 1 if r.random() < .7 else 2
    trace = ['%s | %s, mtu %d, app %d' % (d1, d2, mtu, app)]
    vf.label(trace[0])
    p, c = Py(d1, mtu), Cpp(d2, mtu, app)
    limited = '=' in d2.split('arq=')[1].split(',')[0] or not d2.split('arq=')[1].startswith('0')
    bits = 'crc' in d1 and r.random() < .5
    loss = r.choice([0, 0, .05, .2, .5])
    term = p.term is not None
    maxlen = 300 if seg else max(1, (mtu or 256) // 2 ** (1 + d1.count('ascii')) - 10)
    def lost(l):
        if r.random() >= l:
            return False
        vf.count('frames lost')
        trace.append('lost')
        return True
    done = 0
    for i in range(r.randrange(1, 12)):
        if i and r.random() < .1:
            # Restart of the client.
            p = Py(d1, mtu)
            trace.append('restart')
            vf.count('client restarts')
        n = r.randrange(2 if seg else 1, maxlen if seg else max(2, maxlen // 3))
        m = bytes([0, r.randrange(0, 200 if seg else 1 + maxlen // 2)]) + vf.rbytes(r, vf.size(r, n))
        m = m[:max(2, maxlen // 2)] if not seg else m
        if not seg and 'crc' not in d1 and not mtu: pass
        trace.append('request ' + m.hex())
        before = done
        del p.msgs[:], c.msgs[:]
        p.encode(m)
        tries, l = 0, loss
        while True:
            # Deliver until nothing is in transit.
            progress = True
            while progress:
                progress = False
                for f in p.take():
                    progress = True
                    vf.count('frames')
                    if mtu and len(f) > mtu: raise Failed('mtu', 'Python: a frame of %d bytes exceeds the MTU; %s' % (len(f), trace[0]))
                    if not lost(l):
                        for x in fragments(r, f) if term else [f]: c.decode(x)
                for f in c.take():
                    progress = True
                    vf.count('frames')
                    if mtu and seg and len(f) > mtu: raise Failed('mtu', 'C++: a frame of %d bytes exceeds the MTU; %s' % (len(f), trace[0]))
                    if not lost(l):
                        for x in fragments(r, f) if term else [f]: p.decode(x)
            if p.msgs:
                break
            tries += 1
            if tries > 6: l = 0
            if tries > 12:
                raise Failed('no response', 'no response is received after %d retransmissions; %s' % (tries, ' / '.join(trace)[-3000:]))
            vf.count('retransmissions')
            trace.append('timeout')
            p.timeout()
        c.cmd('X')
        done = c.executed
        if len(p.msgs) != 1:
            raise Failed('response', '%d responses are received: %s; %s' % (len(p.msgs), [x.hex() for x in p.msgs], ' / '.join(trace)[-3000:]))
        if any(x != m for x in c.msgs):
            raise Failed('request', 'C++ got request %s; %s' % ([x.hex() for x in c.msgs if x != m][0], ' / '.join(trace)[-3000:]))
        want = bytearray(b'%d:' % done + m + b':')
        while len(want) < m[0] * 256 + m[1]:
            want.append((len(want) * 7 + done) & 255)
        if p.msgs[0] != bytes(want):
            raise Failed('response', 'the response is %s instead of %s; %s' % (p.msgs[0].hex(), want.hex(), ' / '.join(trace)[-3000:]))
        if app == 1 and not limited and done != before + 1:
            raise Failed('executed', 'the request is executed %d times; %s' % (done - before, ' / '.join(trace)[-3000:]))
        if done < before + 1 or done > before + 1 and not tries:
            raise Failed('executed', 'the request is executed %d times; %s' % (done - before, ' / '.join(trace)[-3000:]))
        vf.count('requests')
    vf.sig('/'.join(trace))

def case(r):
    k = r.randrange(4)
    try:
        (plain, corrupt, arq, arq)[k](r)
    except Failed as e:
        vf.violation(e.key, str(e))

vf.main(case)
