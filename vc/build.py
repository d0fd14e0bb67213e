"""Builds harnesses from /repo's working tree, outside /repo, in /verif/build.

Every object is cached under a key that covers the contents of everything it can depend on, so a
stale object can never stand in for a changed source.
"""
import functools, threading
import hashlib, os, shutil, subprocess, sys, time, json, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
PY = '/opt/vp/venv/bin/python3' if os.path.exists('/opt/vp/venv/bin/python3') else sys.executable

class BuildError(Exception):
    pass

def _tree_hash(dirs, exts=None):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__', 'data', 'build'))
            for f in sorted(fs):
                if exts and not f.endswith(exts):
                    continue
                p = os.path.join(root, f)
                h.update(p.encode() + b'\0')
                try:
                    with open(p, 'rb') as fp:
                        h.update(fp.read())
                except OSError:
                    pass
                h.update(b'\0')
    return h.hexdigest()

_cpp_key = None
def cpp_key():
    global _cpp_key
    if _cpp_key is None:
        _cpp_key = _tree_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src')])
    return _cpp_key

_gen_key = None
def gen_key():
    global _gen_key
    if _gen_key is None:
        _gen_key = _tree_hash([os.path.join(REPO, d) for d in ('python/libstored/generator', 'fpga/rtl', 'doc')]
            ) + cpp_key()
    return _gen_key

_harness_key = None
def harness_key():
    global _harness_key
    if _harness_key is None:
        _harness_key = _tree_hash([os.path.join(V, 'harness')], ('.h', '.hpp'))
    return _harness_key

def sha(*a):
    h = hashlib.sha256()
    for x in a:
        h.update(x if isinstance(x, bytes) else str(x).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]

_gen_lock = threading.RLock()

def uniq():
    return '%d-%d' % (os.getpid(), threading.get_ident())

def locked(f):
    @functools.wraps(f)
    def g(*a, **k):
        with _gen_lock:
            return f(*a, **k)
    return g

def version():
    try:
        v = open(os.path.join(REPO, 'version', 'version.txt')).read().strip()
    except OSError:
        v = '0.0.0'
    return v

@locked
def gen_include():
    """Directory with the generated version.h (normally made by cmake)."""
    tmpl = open(os.path.join(REPO, 'include/libstored/version.h.in')).read()
    v = version()
    num, _, suffix = v.partition('-')
    parts = (num.split('.') + ['0', '0'])[:3]
    for name, val in (('LIBSTORED_VERSION_MAJOR', parts[0]), ('LIBSTORED_VERSION_MINOR', parts[1]),
            ('LIBSTORED_VERSION_PATCH', parts[2]), ('LIBSTORED_VERSION_SUFFIX', ('-' + suffix) if suffix else ''),
            ('LIBSTORED_VERSION', v), ('PROJECT_VERSION', num), ('PROJECT_VERSION_MAJOR', parts[0]),
            ('PROJECT_VERSION_MINOR', parts[1]), ('PROJECT_VERSION_PATCH', parts[2])):
        tmpl = tmpl.replace('@' + name + '@', val)
    d = os.path.join(BUILD, 'ver-' + sha(tmpl))
    f = os.path.join(d, 'libstored', 'version.h')
    if not os.path.exists(f):
        os.makedirs(os.path.dirname(f), exist_ok=True)
        t = f + '.%s' % uniq()
        open(t, 'w').write(tmpl)
        os.replace(t, f)
    return d

@locked
def py_mirror():
    """A copy of the parts the generator and the Python client need, complete with version.py."""
    key = _tree_hash([os.path.join(REPO, 'python/libstored')], ('.py', '.tx')) + gen_key()
    d = os.path.join(BUILD, 'py-' + sha(key))
    if os.path.exists(os.path.join(d, '.ok')):
        os.utime(os.path.join(d, '.ok'))
        return d
    t = d + '.%s' % uniq()
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    ign = shutil.ignore_patterns('__pycache__', 'data')
    shutil.copytree(os.path.join(REPO, 'python/libstored'), os.path.join(t, 'python/libstored'), ignore=ign)
    for x in ('include', 'src', 'doc', 'fpga', 'LICENSES', 'version', 'cmake'):
        p = os.path.join(REPO, x)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(t, x), ignore=ign)
    for x in ('CMakeLists.txt.tmpl',):
        if os.path.exists(os.path.join(REPO, x)):
            shutil.copy(os.path.join(REPO, x), os.path.join(t, x))
    v = version()
    with open(os.path.join(t, 'python/libstored/version.py'), 'w') as f:
        f.write(f"__version__ = '{v}'\nlibstored_version = '{v}'\n")
    open(os.path.join(t, '.ok'), 'w').close()
    shutil.rmtree(d, ignore_errors=True)
    os.rename(t, d)
    return d

@locked
def gen_stores(files, big=False, out=None):
    """Generates stores; files: list of (name, text). Returns the output dir."""
    mirror = py_mirror()
    key = sha('gen', os.path.basename(mirror), big, *[n + '\1' + t for n, t in files])
    d = os.path.join(BUILD, 'store-' + key)
    if os.path.exists(os.path.join(d, '.ok')):
        os.utime(os.path.join(d, '.ok'))
        return d
    t = d + '.%s' % uniq()
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(os.path.join(t, 'st'))
    paths = []
    for n, text in files:
        p = os.path.join(t, 'st', n + '.st')
        with open(p, 'w', newline='') as f:
            f.write(text)
        paths.append(p)
    env = dict(os.environ, PYTHONPATH=os.path.join(mirror, 'python'), PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([PY, '-m', 'libstored.generator'] + (['-b'] if big else []) + paths + [t],
        env=env, cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if r.returncode != 0:
        raise BuildError('generator failed (%d):\n%s' % (r.returncode, r.stdout.decode(errors='replace')[-4000:]))
    open(os.path.join(t, '.ok'), 'w').close()
    shutil.rmtree(d, ignore_errors=True)
    os.rename(t, d)
    return d

COMMON = ['-std=gnu++17', '-g1', '-fno-omit-frame-pointer', '-DSTORED_DRAFT_API=1', '-DSTORED_HAVE_HEATSHRINK=1',
    '-DSTORED_HAVE_ZMQ=1', '-DSTORED_NAME=stored-verif', '-w']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,null,nonnull-attribute,returns-nonnull-attribute',
    '-fno-sanitize-recover=all', '-DSTORED_ENABLE_ASAN=1', '-DSTORED_ENABLE_UBSAN=1', '-DSTORED_ENABLE_LSAN=1']
CONFIGS = {
    # asserts of the library are monitors too
    'asan': dict(cxx='clang++', flags=['-O1', '-D_DEBUG=1'] + SAN),
    # as a release build: no asserts
    'rel': dict(cxx='clang++', flags=['-O1', '-DNDEBUG=1'] + SAN),
    'tsan': dict(cxx='clang++', flags=['-O1', '-D_DEBUG=1', '-fsanitize=thread']),
    'plain': dict(cxx='clang++', flags=['-O2', '-D_DEBUG=1']),
}
LIBSRC = ['compress', 'debugger', 'directory', 'pipes', 'poller', 'protocol', 'synchronizer', 'util', 'zmq']
LINK = ['-lzmq', '-lheatshrink_dynalloc', '-lpthread']

def _run(cmd, timeout=800):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[:6000]))

_pool = ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4)
_locks = {}
_locks_mutex = threading.Lock()

def _obj(cxx, flags, incs, src, key):
    o = os.path.join(BUILD, 'obj', key + '.o')
    with _locks_mutex:
        lock = _locks.setdefault(o, threading.Lock())
    with lock:
        if os.path.exists(o):
            os.utime(o)
            return o
        os.makedirs(os.path.dirname(o), exist_ok=True)
        t = o + '.%s.tmp.o' % uniq()
        _run([cxx] + flags + incs + ['-c', src, '-o', t])
        os.replace(t, o)
    return o

def build(name, sources, config='asan', cfgdir=None, stores=(), big=False, defines=(), lib=None, extra_flags=(), link=(), incdirs=()):
    """Builds an executable.
    sources: files in /verif/harness (or absolute). stores: [(name, text)]. lib: list of library sources (default: all).
    """
    os.makedirs(BUILD, exist_ok=True)
    c = CONFIGS[config]
    flags = COMMON + c['flags'] + ['-D' + d for d in defines] + list(extra_flags)
    incs = ['-I' + os.path.join(V, 'harness')]
    cfgkey = ''
    if cfgdir:
        cd = os.path.join(V, 'harness', 'cfg', cfgdir)
        incs.append('-I' + cd)
        cfgkey = _tree_hash([cd])
    incs += ['-I' + os.path.join(REPO, 'include'), '-I' + gen_include(), '-isystem', '/usr/include/heatshrink']
    incs += ['-I' + i for i in incdirs]
    sdir = None
    if stores:
        sdir = gen_stores(list(stores), big)
        incs.append('-I' + os.path.join(sdir, 'include'))
    base = sha(c['cxx'], *flags, cfgkey, cpp_key(), REPO)
    hkey = sha(harness_key(), *[_tree_hash([i]) for i in incdirs])
    jobs = []
    for s in (LIBSRC if lib is None else lib):
        p = os.path.join(REPO, 'src', s + '.cpp')
        if os.path.exists(p):
            # library sources do not see the store headers
            jobs.append((p, [i for i in incs if not (sdir and i == '-I' + os.path.join(sdir, 'include')) and i[2:] not in incdirs], sha('lib', base, s)))
    if lib is None:
        # a source file that was added to the library
        for f in sorted(os.listdir(os.path.join(REPO, 'src'))):
            if f.endswith('.cpp') and f[:-4] not in LIBSRC:
                jobs.append((os.path.join(REPO, 'src', f), incs[:], sha('lib', base, f)))
    for n, _ in stores:
        jobs.append((os.path.join(sdir, 'src', n + '.cpp'), incs, sha('store', base, sdir, n)))
    for s in sources:
        p = s if os.path.isabs(s) else os.path.join(V, 'harness', s)
        jobs.append((p, incs, sha('h', base, hkey, sdir or '', p, open(p, 'rb').read())))
    objs = list(_pool.map(lambda j: _obj(c['cxx'], flags, j[1], j[0], j[2]), jobs))
    key = sha('exe', c['cxx'], *flags, *objs, *link)
    exe = os.path.join(BUILD, 'bin', name + '-' + key)
    if os.path.exists(exe):
        os.utime(exe)
    else:
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        t = exe + '.%s' % uniq()
        san = [f for f in c['flags'] if f.startswith('-fsanitize')]
        _run([c['cxx']] + san + objs + list(link) + LINK + ['-o', t])
        os.replace(t, exe)
    return exe

def build_many(*kws):
    """Builds several executables at once; every argument is a dict of arguments of build()."""
    with ThreadPoolExecutor(max_workers=len(kws)) as ex:
        return list(ex.map(lambda k: build(**k), kws))

@locked
def text_dir(files):
    """A directory with the given generated files {name: text}, by content."""
    d = os.path.join(BUILD, 'gen-' + sha(*[n + '\1' + files[n] for n in sorted(files)]))
    if not os.path.exists(os.path.join(d, '.ok')):
        t = d + '.%s' % uniq()
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        for n in files:
            with open(os.path.join(t, n), 'w') as f:
                f.write(files[n])
        open(os.path.join(t, '.ok'), 'w').close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(t, d)
    return d

def prune(max_bytes=2_500_000_000, keep_s=3600):
    """Drops the oldest build products when there are too many of them."""
    items = []
    for sub in ('obj', 'bin'):
        d = os.path.join(BUILD, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                try:
                    st = os.stat(p)
                    items.append((st.st_mtime, st.st_size, p))
                except OSError:
                    pass
    total = sum(x[1] for x in items)
    now = time.time()
    for m, s, p in sorted(items):
        if total <= max_bytes or now - m < keep_s:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= s
