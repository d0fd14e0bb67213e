"""The checks: what is built, and how it is run, per property."""
import os, random
from . import build as B, stores as S

CHECKS = {}
def check(pid):
    def reg(f):
        CHECKS[pid] = f
        return f
    return reg

# ---------------------------------------------------------------- generated stores

def hostile_stores():
    """Handwritten descriptions of unusual stores."""
    r = []
    d = S.Desc('HBlob')
    d.var('blob', 'only', size=7)
    r.append(d)
    d = S.Desc('HBracket')
    d.begin(); d.var('int32', 'a', arr=2); d.var('uint8', 'a2'); d.end('m', 2)
    d.var('int8', 'matrix[0][0]', b'\1', '1'); d.var('int8', 'matrix[0][1]'); d.var('int8', 'matrix[1][0]', b'\2', '2'); d.var('int8', 'matrix[1][1]')
    d.var('double', 'v', arr=13)
    d.var('float', 'v[0] x', b'\0\0\x80?', '1')
    r.append(d)
    d = S.Desc('HFunc')
    for i, t in enumerate(['bool', 'int8', 'uint16', 'int32', 'uint64', 'float', 'double', 'blob', 'string', 'int64', 'uint8', 'int16', 'uint32']):
        d.var(t, 'fn %s' % t, func=True, size=5)
        d.var(t, 'var %s' % t, size=5)
    d.var('uint16', 'fmany', func=True, arr=150)
    d.begin(); d.var('blob', 'call', func=True, size=300); d.end('fscope', 3)
    r.append(d)
    d = S.Desc('HLong')
    p = 'x' * 70
    d.var('int16', p); d.var('int32', p + 'y'); d.var('int32', p + 'z'); d.var('uint8', p[:-1])
    d.begin(); d.var('string', p, b'h\xc3\xab\0\0', '"h\u00eb"', size=5); d.var('string', 'eur', b'\xe2\x82\xac' + b'\0' * 6, '"€"', size=9); d.end('y' * 130)
    d.begin(); d.begin(); d.begin(); d.begin(); d.var('bool', 'deep'); d.var('ptr64', 'p'); d.end('d', 2); d.end('c'); d.end('b', 2); d.end('a')
    r.append(d)
    d = S.Desc('HBig')
    d.var('blob', 'large', size=70000); d.var('uint8', 'after', b'\7', '7'); d.var('string', 'long string', size=300); d.var('int64', 'last', b'\xff' * 8, '-1')
    r.append(d)
    d = S.Desc('HWide')
    for i in range(300):
        d.var(['int8', 'int32', 'double', 'bool'][i % 4], 'n%d' % i)
    r.append(d)
    d = S.Desc('HPrefix')
    n = ''
    for c in 'a/b/c/de/fg':
        n += c
        if c != '/' :
            d.var('int32', n.split('/')[-1] + str(len(n)))
    for x in ['a', 'aa', 'aaa', 'aaab', 'b', 'ba', 'bab', 'A', 'Z', '~t', '!e', '0x']:
        d.var('uint16', x)
    d.begin(); d.var('uint16', 'x'); d.end('aaaa')
    d.begin(); d.var('uint16', 'x'); d.end('c')
    r.append(d)
    return r

def build_stores(c, harness, n, config='asan', cfgdir=None, big=False, salt=0, hostile=True, light=False, nobj=(1, 2, 5, 10, 20, 20, 30, 60), extra=(), iface='store', **kw):
    r = random.Random('%d/%s/%d' % (c.seed, c.pid if light else 'stores', salt))
    descs = [d for d in hostile_stores() if hostile is True or d.name in hostile] if hostile else []
    descs += list(extra)
    for i in range(n):
        descs.append(S.rand_desc(r, 'R%d' % i, nobj=r.choice(nobj), **kw))
    mem = S.members(descs) if iface == 'store' else {d.name: {} for d in descs}
    files = {}
    for d in descs:
        files[d.name + '_meta.h'] = S.header(d, mem[d.name], iface != 'store')
        files[d.name + '_tu.cpp'] = '#include "%s_meta.h"\n#include "%sif.h"\nVF_%s(%s)\n' % (d.name, iface, iface.upper(), d.name)
    td = B.text_dir(files)
    exe = B.build(harness[:-4], [harness] + [os.path.join(td, d.name + '_tu.cpp') for d in descs], config=config, cfgdir=cfgdir,
        big=big, stores=[(d.name, d.text()) for d in descs], incdirs=[td])
    return exe, descs

STORE_RULE = 'distinct (store, access path, object, value) operations'

def store_check(c, mode):
    exe, descs = build_stores(c, 'storecheck.cpp', c.n(16, 60))
    n = len(descs)
    c.run(exe, n * c.n(60, 1500), ['--mode', mode], timeout=60)
    if mode != 'c01':
        exe, descs = build_stores(c, 'storecheck.cpp', c.n(6, 20), cfgdir='be', big=True, salt=1, hostile=False)
        c.run(exe, len(descs) * c.n(60, 1500), ['--mode', mode], prefix='be:', tag='be')
        exe, descs = build_stores(c, 'storecheck.cpp', c.n(4, 20), cfgdir='unaligned', salt=2, hostile=False)
        c.run(exe, len(descs) * c.n(60, 1500), ['--mode', mode], prefix='unaligned:', tag='unaligned')
    c.rule = STORE_RULE if mode != 'c01' else 'distinct (store, queried name)'

for _p in ('C01', 'C02', 'C03', 'C04'):
    CHECKS[_p] = (lambda m: lambda c: store_check(c, m))(_p.lower())

# ---------------------------------------------------------------- debugger

def debugger_stores():
    d = S.Desc('GBlob') # the debugger's administration is larger than 64 kB for these
    d.var('blob', 'huge', size=65536); d.var('uint8', 'x', b'\7', '7'); d.var('blob', 'half', size=32700); d.var('string', 'text', size=40)
    return [d]

def debugger_check(c, mode):
    for cfg, cases in ((None, c.n(400, 8000)), ('dbgmem', c.n(300, 8000)), ('dbgstatic', c.n(200, 8000)), ('dbgoff', c.n(40, 500))):
        exe, descs = build_stores(c, 'dbgcheck.cpp', c.n(4, 10), cfgdir=cfg, salt=10, hostile=('HBracket', 'HFunc'), nobj=(1, 3, 6, 12),
            extra=debugger_stores() if cfg != 'dbgstatic' else ())
        c.run(exe, cases, ['--mode', mode], prefix=cfg + ':' if cfg else '', tag=cfg or 'default')
    c.rule = 'distinct requests and responses'

for _p in ('C05', 'C06', 'C07'):
    CHECKS[_p] = (lambda m: lambda c: debugger_check(c, m))(_p.lower())

# ---------------------------------------------------------------- synchronizer

def sync_stores():
    r = []
    d = S.Desc('YMed')  # keys of 2 bytes
    for i in range(60):
        d.var(['int32', 'double', 'uint8', 'int16'][i % 4], 'm%d' % i)
    d.var('string', 'text', size=30)
    r.append(d)
    d = S.Desc('YBig')  # keys of 3 bytes
    d.var('uint16', 'first', b'\1\0', '1'); d.var('blob', 'pad', size=66000); d.var('uint8', 'after', b'\7', '7')
    d.var('string', 'label', size=20); d.var('int64', 'last', b'\xff' * 8, '-1'); d.var('float', 'f', arr=5)
    r.append(d)
    d = S.Desc('YOne')
    d.var('int32', 'only')
    r.append(d)
    return r

def sync_check(c, mode):
    for cfg, cases in ((None, c.n(1500, 40000)), ('be', c.n(500, 10000))):
        exe, descs = build_stores(c, 'synccheck.cpp', c.n(6, 12), cfgdir=cfg, big=cfg == 'be', salt=20, hostile=False, nobj=(2, 4, 6, 12, 25), maxblob=20,
            extra=sync_stores(), iface='sync')
        c.run(exe, cases, ['--mode', mode] + (['--directed', '1'] if mode == 'c15' and not cfg else []), prefix=cfg + ':' if cfg else '', tag=cfg or 'default')
    c.rule = 'distinct schedules (topology, connect order, writes, rounds, deliveries)'

for _p in ('C15', 'C16', 'C17', 'C18'):
    CHECKS[_p] = (lambda m: lambda c: sync_check(c, m))(_p.lower())

# ---------------------------------------------------------------- FIFO

@check('C19')
def fifo_check(c):
    src = ['fifocheck.cpp'] + ['fifo_part%d.cpp' % i for i in range(1, 9)]
    asan, tsan, rel = B.build_many(*[dict(name='fifocheck', sources=src, config=k) for k in ('asan', 'tsan', 'rel')])
    c.run(asan, c.n(60000, 3000000), ['--kind', 'single'], prefix='one thread:', tag='single')
    c.run(tsan, c.n(6000, 100000), ['--kind', 'threads'], prefix='threads:', tag='tsan', timeout=120, shards=4)
    c.run(rel, c.n(10000, 400000), ['--kind', 'threads'], prefix='threads:', tag='threads', timeout=120, shards=4)
    c.rule = 'distinct (FIFO type, operation, occupancy) states, and distinct sequences of occupancies seen by the consumer thread'

# ---------------------------------------------------------------- scratch pad

@check('C20')
def spm_check(c):
    asan, rel = B.build_many(*[dict(name='spmcheck', sources=['spmcheck.cpp'], config=k) for k in ('asan', 'rel')])
    c.run(asan, c.n(50000, 3000000), tag='asan', timeout=20)
    c.run(rel, c.n(40000, 3000000), prefix='rel:', tag='rel', timeout=20)
    c.rule = 'distinct (maximum size, operation, amount, chunks, live allocations)'

# ---------------------------------------------------------------- allocator, signals

SMALL_STORE = """int32=1 a
double=2.5 b
string:20 s
blob:10 blo
(int32) f
uint8[4] arr
{
\tint16 x
\tfloat y
} sc
"""

@check('C21')
def alloc_check(c):
    wraps = ['malloc', 'realloc', 'calloc', 'free'] + ['heatshrink_%s_%s' % (x, y) for x in ('encoder', 'decoder') for y in ('alloc', 'free')]
    exe = B.build('alloccheck', ['alloccheck.cpp'], cfgdir='alloc', stores=[('AStore', SMALL_STORE)],
        link=['-Wl,' + ','.join('--wrap=' + w for w in wraps)])
    c.run(exe, c.n(60000, 3000000), timeout=60)
    c.rule = 'distinct sequences of Callable operations, and distinct (workload, allocations, failures)'

# ---------------------------------------------------------------- protocol layers

def proto_exe(config='asan', **kw):
    return B.build('protocheck', ['protocheck.cpp'], config=config, **kw)

def py(name):
    return os.path.join(B.V, 'harness', name)

@check('C08')
def compress_check(c):
    exe = proto_exe()
    c.run(exe, c.n(40000, 3000000), ['--mode', 'C08'], timeout=60)
    f = os.path.join(B.V, 'build', 'compressed-%d.txt' % c.seed)
    c.run(exe, c.n(3000, 30000), ['--mode', 'C08', '--dump', f], shards=1, timeout=60)
    c.run(py('py_heatshrink.py'), c.n(12000, 400000), ['--file', f], prefix='python:', tag='python', timeout=120)
    c.rule = 'distinct compressed streams'

@check('C09')
def stack_check(c):
    c.run(proto_exe(), c.n(30000, 2000000), ['--mode', 'C09'], timeout=60)
    c.rule = 'distinct stacks (layers, parameters and MTU)'

@check('C10')
def crc_check(c):
    c.run(proto_exe(), c.n(20000, 2000000), ['--mode', 'C10'], timeout=60)
    c.rule = 'distinct frame lengths per CRC'

@check('C11')
def terminal_check(c):
    c.run(proto_exe(), c.n(30000, 3000000), ['--mode', 'C11'], timeout=60)
    c.rule = 'distinct texts and message counts'

@check('C12')
def arq_check(c):
    c.run(proto_exe(), c.n(30000, 3000000), ['--mode', 'C12'], timeout=60)
    c.rule = 'distinct histories of delivered, lost and duplicated frames'

@check('C13')
def debugarq_check(c):
    c.run(proto_exe(), c.n(16000, 1500000), ['--mode', 'C13'], timeout=60)
    c.run(proto_exe(cfgdir='dbgmem'), c.n(8000, 800000), ['--mode', 'C13'], prefix='streams:', tag='streams', timeout=60)
    c.rule = 'distinct histories of delivered, lost and duplicated frames'

@check('C14')
def hostile_check(c):
    c.run(proto_exe(), c.n(12000, 1000000), ['--mode', 'C14'], timeout=60)
    c.rule = 'distinct (stack, received bytes) histories'

@check('C22')
def signal_check(c):
    exe = B.build('sigcheck', ['sigcheck.cpp'], stores=[('SStore', SMALL_STORE + 'bool flag\n')])
    c.run(exe, c.n(60000, 3000000), timeout=30)
    c.rule = 'distinct histories of connects, disconnects, calls and writes'

# ---------------------------------------------------------------- poller, transports

@check('C23')
def poller_check(c):
    zmq, poll = B.build_many(dict(name='pollcheck', sources=['pollcheck.cpp']),
        dict(name='pollcheck', sources=['pollcheck.cpp'], defines=['STORED_POLL_POLL=1']))
    c.run(zmq, c.n(20000, 800000), tag='zmq', timeout=120)
    c.run(poll, c.n(20000, 800000), tag='poll', prefix='poll:', timeout=120)
    c.rule = 'distinct histories of pollables, events and polls'

@check('C26')
def transport_check(c):
    exe = B.build('transcheck', ['transcheck.cpp'], link=['-Wl,' + ','.join('--wrap=' + w for w in ('read', 'write', 'zmq_poll', 'usleep'))])
    c.run(exe, c.n(16000, 400000), timeout=60, env={'VERIF_SCRATCH': c.tmp})
    c.rule = 'cases with different messages and schedules'

PIPE_STORE = '''int32=0 i
double=1.5 d
bool=false b
uint8=3 u
(int32) fi
(double) fd
'''

@check('C24')
def pipes_check(c):
    from . import gen_pipes
    src = gen_pipes.generate(c.seed, c.n(10, 40), 10)
    td = B.text_dir({'pipes%d.cpp' % i: s for i, s in enumerate(src)})
    exe = B.build('pipecheck', ['pipecheck.cpp'] + [os.path.join(td, 'pipes%d.cpp' % i) for i in range(len(src))], stores=[('PipeStore', PIPE_STORE)], extra_flags=['-O0'])
    c.run(exe, c.n(60000, 3000000))
    c.rule = 'distinct histories of operations on compositions of pipes'


@check('C25')
def components(c):
    from . import gen_comps
    st, fn, src = gen_comps.generate(c.seed, c.n(8, 40), 8)
    td = B.text_dir({**{'comps%d.cpp' % i: s for i, s in enumerate(src)}, 'compfunctions.inc': fn})
    exe = B.build('compcheck', ['compcheck.cpp'] + [os.path.join(td, 'comps%d.cpp' % i) for i in range(len(src))], stores=[('CStore', st)], extra_flags=['-O1', '-fconstexpr-steps=100000000'], incdirs=[td])
    c.run(exe, c.n(60000, 3000000))
    c.rule = 'distinct histories of parameter changes and invocations of components'


@check('C27')
def client_check(c):
    r = random.Random('%d/client' % c.seed)
    descs = []
    for i in range(c.n(4, 12)):
        d = S.rand_desc(r, 'K%d' % i, nobj=r.choice((3, 6, 12, 25)))
        d.var('uint64', 't (us)')
        descs.append(d)
    for cfg, n, a in ((None, c.n(1000, 60000), []), ('client', c.n(1000, 60000), ['--mem', '1', '--always', '1', '--streams', '2']), ('dbgmem', c.n(1000, 60000), ['--mem', '1', '--streams', '2', '--buffer', '100'])):
        exe, _ = build_stores(c, 'clientsrv.cpp', 0, cfgdir=cfg, hostile=False, extra=descs)
        c.run(py('py_client.py'), n, ['--exe', exe] + a, prefix=(cfg or 'client') + ':', tag=cfg or 'default', timeout=120, env={'VERIF_SCRATCH': c.tmp})
    c.rule = 'distinct histories of accesses by the client'

@check('C28')
def layers_interop(c):
    exe = B.build('interop', ['interop.cpp'])
    c.run(py('py_layers.py'), c.n(8000, 400000), ['--exe', exe], prefix='python:', tag='python', timeout=120)
    c.rule = 'distinct histories of messages, frames and losses between a Python and a C++ stack'
