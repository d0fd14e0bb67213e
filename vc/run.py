"""Runs harnesses, collects verdicts and evidence, and decides the outcome of a check."""
import concurrent.futures as cf, hashlib, json, os, re, resource, shlex, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from . import build as B

V = B.V
STATUS_LEN = 4096

class HarnessError(Exception):
    pass

def findings():
    """Known findings: lines 'known: property=<id> key=<key> <text>' (and 'fixed: ...', which suppress nothing)."""
    res = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)\s+(.*)', l.strip())
            if m:
                res.append(m.groups())
    return res

def crash_key(err):
    """Stable identification of a crash, from the report on stderr."""
    m = re.search(r"Assertion `(.*?)' failed", err) or re.search(r'Assertion "(.*?)" failed', err)
    if m:
        return 'assert:' + re.sub(r'\s+', '', m.group(1))[:80]
    kind = None
    m = re.search(r'(?:ERROR|WARNING): (?:AddressSanitizer|ThreadSanitizer|LeakSanitizer|MemorySanitizer): ([A-Za-z][A-Za-z-]*(?: [a-z]+)?)', err)
    if m:
        kind = m.group(1).strip()
        if kind.startswith('SEGV'): kind = 'SEGV'
        kind = kind.replace(' on', '').replace(' ', '-')
    else:
        m = re.search(r'runtime error: ([^\n]*)', err)
        if m:
            kind = 'ub:' + re.sub(r'0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?', 'N', m.group(1))[:60].replace(' ', '-')
    fn = ''
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ (?:in )?(.+?) (/\S+?)(?::\d+)?(?::\d+)?(?: |$|\n)', err):
        if '/src/' in m.group(2) or '/include/libstored' in m.group(2) or '/include/stored' in m.group(2):
            fn = re.sub(r'\(.*', '', m.group(1))
            fn = re.sub(r'<.*', '', fn)
            break
    m = re.search(r'terminate called after throwing an instance of \'(\S+)\'', err) or re.search(r'uncaught exception of type (\S+)', err)
    if not kind and m:
        kind = 'exception:' + m.group(1)
    if not kind:
        return None if not fn else 'crash:' + fn
    return (kind + ('@' + fn if fn else '')).replace(' ', '')

class Check:
    def __init__(self, pid, level='exploration'):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.evaluations = 0
        self.sigs = set()
        self.counts = {}
        self.samples = []
        self.viols = {}     # key -> dict
        self.errors = []
        self.rule = ''
        self.assumptions = []
        self.min_eval = 1
        self.lock = threading.Lock()
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % pid)
        self.nproc = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def violation(self, key, msg, replay=None):
        key = re.sub(r'\s+', '_', key)
        with self.lock:
            if key not in self.viols:
                self.viols[key] = dict(key=key, msg=msg, replay=replay or {})

    def add_counts(self, d):
        with self.lock:
            for k, v in d.items():
                if k.startswith('max:'):
                    self.counts[k] = max(self.counts.get(k, 0), v)
                else:
                    self.counts[k] = self.counts.get(k, 0) + v

    def env(self, extra=None):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=66:detect_leaks=1:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:max_allocation_size_mb=2000:handle_abort=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=66:halt_on_error=1'
        e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:history_size=4:report_atomic_races=1'
        e['LSAN_OPTIONS'] = 'exitcode=67'
        if os.path.exists('/usr/bin/llvm-symbolizer-18'):
            e['ASAN_SYMBOLIZER_PATH'] = '/usr/bin/llvm-symbolizer-18'
        if extra:
            e.update(extra)
        return e

    def _one(self, exe, args, env, timeout, tag, timeout_is):
        """One process; returns (rc, stderr, status). rc: int, or 'timeout'."""
        st = os.path.join(self.tmp, tag + '.status')
        out = os.path.join(self.tmp, tag + '.out')
        sg = os.path.join(self.tmp, tag + '.sigs')
        err = os.path.join(self.tmp, tag + '.err')
        for f in (st, out, sg):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [exe, '--seed', str(self.seed), '--out', out, '--status', st, '--sigs', sg] + (['--thorough'] if self.thorough else []) + args
        with open(err, 'wb') as fe, open(os.devnull) as dn:
            p = subprocess.Popen(cmd, stdin=dn, stdout=fe, stderr=subprocess.STDOUT, env=env, cwd=self.tmp, start_new_session=True)
            # progress watchdog: 'timeout' is the time one case may take without any progress
            last, lastt = None, time.time()
            rc = None
            while True:
                try:
                    rc = p.wait(0.05 if last is None else 0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    with open(st, 'rb') as f:
                        cur = f.read(16)
                except OSError:
                    cur = b''
                if cur != last:
                    last, lastt = cur, time.time()
                elif time.time() - lastt > timeout:
                    try:
                        os.killpg(p.pid, signal.SIGABRT if not timeout_is else signal.SIGKILL)
                        p.wait(5)
                    except Exception:
                        pass
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except Exception:
                        pass
                    p.wait()
                    rc = 'timeout'
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
        status = (0, 0, '')
        try:
            with open(st, 'rb') as f:
                d = f.read(STATUS_LEN)
            status = (struct.unpack('<Q', d[:8])[0], struct.unpack('<Q', d[8:16])[0],
                d[16:].split(b'\0')[0].decode('latin1'))
        except Exception:
            pass
        with open(err, 'rb') as f:
            d = f.read()
        errtext = (d if len(d) < 400000 else d[:200000] + b'\n...\n' + d[-200000:]).decode('latin1')
        recs = []
        if os.path.exists(out):
            for l in open(out, encoding='latin1'):
                try:
                    recs.append(json.loads(l))
                except Exception:
                    pass
        if os.path.exists(sg):
            with open(sg, 'rb') as f:
                d = f.read()
            with self.lock:
                self.sigs.update(struct.unpack('<%dQ' % (len(d) // 8), d[:len(d) // 8 * 8]))
        return rc, errtext, status, recs

    def replay_for(self, exe, args, case, extra=None):
        r = dict(property=self.pid, seed=self.seed, tier=self.tier, case=case, exe=exe,
            cmd='%s --seed %d%s %s --only %d --out -' % (exe, self.seed, ' --thorough' if self.thorough else '', ' '.join(shlex.quote(a) for a in args), case))
        if extra:
            r.update(extra)
        return r

    def run(self, exe, cases, args=(), timeout=60, shards=None, max_crashes=4, env=None, tag=None, hang='violation', prefix='', min_evals=None):
        """Runs `cases` cases of a harness, in shards over the processors."""
        args = [str(a) for a in args]
        shards = min(shards or self.nproc, max(1, cases))
        tag = tag or os.path.basename(exe) + '-' + hashlib.sha1(' '.join(args).encode()).hexdigest()[:6]
        env = self.env(env)
        def shard(i):
            frm = 0
            crashes = 0
            evals = 0
            while True:
                a = args + ['--cases', str(cases), '--shard', '%d/%d' % (i, shards), '--from', str(frm)]
                rc, err, status, recs = self._one(exe, a, env, timeout, '%s-%d' % (tag, i), False)
                done = False
                for r in recs:
                    if r['t'] == 'viol':
                        self.violation(prefix + r['key'], r['msg'], self.replay_for(exe, args + ['--cases', str(cases)], r['case'], dict(report=r['msg'])))
                    elif r['t'] == 'sample':
                        with self.lock:
                            if len(self.samples) < 12:
                                self.samples.append(r['text'])
                    elif r['t'] == 'stat':
                        done = True
                        evals += r['evaluations']
                        self.add_counts(r['counts'])
                if rc == 0 and done:
                    break
                if rc == 99:
                    self.errors.append('harness error in %s (case %d): %s' % (tag, status[0], err[-1500:]))
                    break
                case = status[0]
                if rc == 'timeout':
                    # once more, that case alone
                    rc2, err2, st2, recs2 = self._one(exe, args + ['--cases', str(cases), '--only', str(case)], env, timeout * 2, '%s-%d-re' % (tag, i), False)
                    if rc2 == 'timeout' and hang == 'violation':
                        self.violation(prefix + 'hang', 'case %d does not end (%s)\n%s' % (case, status[2], err2[-3000:]), self.replay_for(exe, args + ['--cases', str(cases)], case))
                        break # others may hang too
                    else:
                        self.errors.append('%s case %d timed out (inconclusive)' % (tag, case))
                        if rc2 not in (0, 'timeout'):
                            rc, err = rc2, err2
                if rc != 'timeout':
                    if rc in (-9, -15):
                        self.errors.append('%s killed at case %d' % (tag, case))
                        break
                    k = crash_key(err)
                    if k is None:
                        k = 'crash:rc%s' % rc
                    if status[1] == 2:
                        k = 'atexit:' + k
                    if rc == 0:
                        self.errors.append('%s ended without result' % tag)
                        break
                    evals += 1
                    self.violation(prefix + k, 'crash in case %d [%s] (rc %s)\n%s' % (case, status[2], rc, err[:6000]), self.replay_for(exe, args + ['--cases', str(cases)], case, dict(stderr=err[:8000], label=status[2])))
                crashes += 1
                if crashes >= max_crashes or (self.viols and time.time() - self.t0 > 300) or status[1] == 2:
                    break
                frm = case + 1
            return evals
        with cf.ThreadPoolExecutor(max_workers=self.nproc) as ex:
            n = sum(ex.map(shard, range(shards)))
        with self.lock:
            self.evaluations += n
        if n < (min_evals if min_evals is not None else 1) and not self.viols:
            self.errors.append('%s observed %d cases only' % (tag, n))
        return n

    def finish(self):
        known = [(k, t) for p, k, t in findings() if p == self.pid]
        alarms = []
        for v in self.viols.values():
            hit = [t for k, t in known if k == v['key']]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, hit[0]))
            else:
                alarms.append(v)
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.sigs), rule=self.rule,
            samples=self.samples or ['(none)'], observed={k: self.counts[k] for k in sorted(self.counts)})
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(alarms))
        with open(os.path.join(V, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        shutil.rmtree(self.tmp, ignore_errors=True)
        rc = 0
        for v in alarms:
            os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
            p = os.path.join(V, 'replays', '%s-%s.json' % (self.pid, hashlib.sha1(v['key'].encode()).hexdigest()[:10]))
            with open(p, 'w') as f:
                json.dump(dict(v['replay'], key=v['key'], msg=v['msg']), f, indent=1)
            print('  [%s] %s' % (v['key'], v['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            rc = 1
        for e in self.errors:
            print('ERROR: ' + e)
        print('%s %s: %d cases, %d distinct, %d violations, %d errors, %.1f s' % (self.pid, self.tier, self.evaluations, len(self.sigs), len(alarms), len(self.errors), time.time() - self.t0))
        if os.environ.get('VERIF_VERBOSE'):
            print(json.dumps(cov['observed'], indent=1))
        if rc == 0 and self.errors:
            rc = 2
        if rc == 0 and (self.evaluations < self.min_eval or not self.sigs):
            print('ERROR: nothing observed')
            rc = 2
        B.prune()
        return rc
