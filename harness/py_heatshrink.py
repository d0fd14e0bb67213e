#!/usr/bin/env python3
"""C08: the decoder of the Python client, fed with what the library emitted, and with any valid or invalid stream."""
import importlib.util, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vfpy as vf

spec = importlib.util.spec_from_file_location('heatshrink', os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'python/libstored/heatshrink.py'))
hs = importlib.util.module_from_spec(spec)
spec.loader.exec_module(hs)

lines = None
decoder = None

def tokens(r, n):
    """A random token stream: its bits and what it means."""
    out = bytearray(256) # what is before the start
    bits = []
    def put(v, n):
        bits.extend((v >> (n - 1 - i)) & 1 for i in range(n))
    for _ in range(n):
        if r.random() < .5:
            c = r.randrange(256)
            put(1, 1); put(c, 8)
            out.append(c)
        else:
            idx, cnt = r.choice((0, 1, 2, 255, r.randrange(256))), r.randrange(16)
            put(0, 1); put(idx, 8); put(cnt, 4)
            for _ in range(cnt + 1):
                out.append(out[-idx - 1])
    while len(bits) % 8:
        bits.append(0)
    return bytes(sum(b << (7 - i) for i, b in enumerate(bits[k:k + 8])) for k in range(0, len(bits), 8)), bytes(out[256:])

def feed(r, d, comp):
    out = bytearray()
    k = r.randrange(4)
    if k == 0:
        return bytes(d.finish(comp))
    pos = 0
    while pos < len(comp):
        n = r.randrange(len(comp) - pos + 1) if k == 1 else r.randrange(1, 8) if k == 2 else r.randrange(30, 36)
        out += d.fill(comp[pos:pos + n])
        pos += n
    return bytes(out + d.finish())

def case(r):
    global lines, decoder
    if lines is None:
        lines = open(vf.ctx.args['file']).read().split()
    d = decoder if decoder and r.random() < .5 else hs.HeatshrinkDecoder()
    decoder = d
    if vf.ctx.case < len(lines):
        orig, comp = (bytes.fromhex(x) for x in lines[vf.ctx.case].split(';'))
        what = 'what the library emitted'
    elif r.random() < .8:
        comp, orig = tokens(r, vf.size(r, 300))
        what = 'a valid stream'
    else:
        # Garbage gives garbage, but at least the next one should be good.
        vf.count('garbage')
        feed(r, d, vf.rbytes(r, vf.size(r, 200)))
        comp, orig = tokens(r, vf.size(r, 30))
        what = 'a valid stream after garbage'
    vf.sig(comp)
    got = feed(r, d, comp)
    vf.count('bytes decoded by Python', len(got))
    vf.count(what)
    if got != orig:
        vf.violation('python decoder', '%s, %s, is decoded as %s, expected %s' % (what, comp.hex()[:400], got.hex()[:400], orig.hex()[:400]))

vf.main(case)
