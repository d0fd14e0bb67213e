"""The interface of common.h for harnesses in Python."""
import hashlib, json, mmap, os, random, struct, sys, traceback
STATUS_LEN = 16 + 4080

class Ctx:
    seed = 1; cases = 1; frm = 0; shard = 0; shards = 1; only = -1
    thorough = False; verbose = False
    case = 0
    def __init__(self):
        self.args = {}; self.counts = {}; self.sigs = set(); self.keys = set(); self.samples = 0; self.violated = False
        self.out = None; self.status = None

ctx = Ctx()

def count(k, n=1):
    ctx.counts[k] = ctx.counts.get(k, 0) + n

def sig(x):
    if not isinstance(x, (bytes, bytearray)):
        x = repr(x).encode('utf-8', 'surrogatepass')
    ctx.sigs.add(struct.unpack('<Q', hashlib.blake2b(bytes(x), digest_size=8).digest())[0])

def sample(t):
    if ctx.samples < 3:
        ctx.samples += 1
        ctx.out.write(json.dumps(dict(t='sample', case=ctx.case, text=t[:1500])) + '\n')

def violation(key, msg):
    ctx.violated = True
    count('violations')
    if key in ctx.keys and ctx.only < 0:
        return
    ctx.keys.add(key)
    ctx.out.write(json.dumps(dict(t='viol', case=ctx.case, key=key, msg=msg[:4000])) + '\n')
    ctx.out.flush()
    if ctx.verbose or ctx.only >= 0:
        print('VIOLATION [%s] %s' % (key, msg), file=sys.stderr)

def verbose(*a):
    if ctx.verbose:
        print(*a, file=sys.stderr)

def label(t):
    if ctx.status:
        b = t.encode('utf-8', 'replace')[:4000] + b'\0'
        ctx.status[16:16 + len(b)] = b

def size(r, m):
    """A length, mostly short."""
    k = r.randrange(4)
    return r.randrange(m + 1) if k == 0 else r.randrange(min(m, 8) + 1) if k < 3 else r.randrange(min(m, 64) + 1)

def rbytes(r, n):
    k = r.randrange(4)
    if k == 0:
        return bytes(r.randrange(256) for _ in range(n))
    if k == 1:
        return bytes(r.choice(b'ab') for _ in range(n))
    if k == 2:
        return bytes(r.randrange(32, 127) for _ in range(n))
    return bytes(r.choice(b'\x00\x1b\x1b\\_\x7f\xff\x80@EC\n\r\x11\x13') for _ in range(n))

def main(runCase):
    a = sys.argv[1:]
    outf, statusf, sigf = os.devnull, None, None
    while a:
        k = a.pop(0)
        if k == '--thorough': ctx.thorough = True
        elif k == '-v': ctx.verbose = True
        elif k.startswith('--'):
            v = a.pop(0)
            if k == '--seed': ctx.seed = int(v)
            elif k == '--cases': ctx.cases = int(v)
            elif k == '--from': ctx.frm = int(v)
            elif k == '--shard': ctx.shard, ctx.shards = map(int, v.split('/'))
            elif k == '--only': ctx.only = int(v)
            elif k == '--out': outf = v
            elif k == '--status': statusf = v
            elif k == '--sigs': sigf = v
            else: ctx.args[k[2:]] = v
    ctx.out = sys.stdout if outf == '-' else open(outf, 'a')
    if statusf:
        with open(statusf, 'wb') as f:
            f.truncate(STATUS_LEN)
        f = open(statusf, 'r+b')
        ctx.status = mmap.mmap(f.fileno(), STATUS_LEN)
    n = 0
    for i in range(ctx.shard, ctx.cases, ctx.shards):
        if i < ctx.frm or (ctx.only >= 0 and i != ctx.only):
            continue
        ctx.case = i
        if ctx.status:
            ctx.status[0:17] = struct.pack('<QQB', i, 1, 0)
        ctx.violated = False
        try:
            runCase(random.Random('%d/%d' % (ctx.seed, i)))
        except (Exception, SystemExit):
            tb = traceback.format_exc()
            # An error that comes from the code under test, is a violation.
            last = traceback.extract_tb(sys.exc_info()[2])[-1]
            if os.environ.get('VERIF_REPO', '/repo') + '/' in tb:
                violation('exception:%s:%s' % (sys.exc_info()[0].__name__, last.name), tb)
            else:
                print('HARNESS-ERROR: ' + tb, file=sys.stderr)
                ctx.out.flush()
                os._exit(99)
        n += 1
        if ctx.status:
            ctx.status[8:16] = struct.pack('<Q', 0)
    ctx.out.write(json.dumps(dict(t='stat', evaluations=n, counts=ctx.counts)) + '\n')
    ctx.out.flush()
    if sigf:
        with open(sigf, 'ab') as f:
            for s in ctx.sigs:
                f.write(struct.pack('<Q', s))
    if ctx.status:
        ctx.status[8:16] = struct.pack('<Q', 2)
    sys.stdout.flush()
    os._exit(0)
