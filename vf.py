#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  vf.py setup                     warm the build cache
  vf.py check Cxx quick|thorough  decide one property
  vf.py replay FILE               reproduce a recorded violation
  vf.py selftest [N]              determinism proof over many seeds/processes
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from checks import PROPS, QUICK_S, THOROUGH_S  # noqa: E402
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
NPROC = min(8, os.cpu_count() or 1)
SIM = os.path.join(VERIF, 'sim')

WRAPS = '''EVP_CIPHER_CTX_new EVP_CIPHER_CTX_free EVP_EncryptInit_ex EVP_DecryptInit_ex EVP_CipherInit_ex
EVP_EncryptUpdate EVP_DecryptUpdate EVP_CipherUpdate EVP_EncryptFinal_ex EVP_DecryptFinal_ex EVP_CipherFinal_ex
EVP_CIPHER_CTX_ctrl HMAC_CTX_new HMAC_CTX_free HMAC_Init_ex HMAC_Update HMAC_Final BIO_new BIO_free_all BIO_free'''.split()
WRAPS_BSSL = 'EVP_AEAD_CTX_new EVP_AEAD_CTX_free EVP_AEAD_CTX_seal EVP_AEAD_CTX_open'.split()
TICKET_WRAP = '_ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE'
ABSL_PKGS = '''absl_strings absl_synchronization absl_status absl_statusor absl_flat_hash_map absl_flat_hash_set
absl_bad_variant_access absl_bad_optional_access absl_variant absl_str_format absl_hash'''.split()

ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer',
        '-fsanitize=shift,bounds,integer-divide-by-zero,return,unreachable,bool,null',
        '-fsanitize-trap=shift,bounds,integer-divide-by-zero,return,unreachable,bool,null']
BASE = ['-std=gnu++14', '-g1', '-w', '-DS2A_CORE_USE_NEW_UPB_APIS']
INCS = ['-I' + REPO, '-I' + os.path.join(VERIF, 'upb_shim'), '-I' + os.path.join(REPO, 'src/proto/upb-generated')]

# name -> settings. 'seq' = single-threaded discrete-event simulation under
# AddressSanitizer; 'sched' = simulated threads at memory-access granularity.
VARIANTS = {
    'ossl': dict(kind='seq', bssl=False),
    'bssl': dict(kind='seq', bssl=True),
    'sched': dict(kind='sched', bssl=False),
    'sched_bssl': dict(kind='sched', bssl=True),
}
SEQ_SRCS = ['main.cc', 'runtime.cc', 'refcrypto.cc', 'vault.cc', 'endpoint.cc', 'w_record.cc', 'w_units.cc', 'w_proxy.cc']
SCHED_SRCS = ['main.cc', 'runtime.cc', 'sched.cc', 'refcrypto.cc', 'vault.cc', 'endpoint.cc', 'w_record.cc', 'w_sched.cc']


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def repo_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, 'src/**/*.cc'), recursive=True)):
        b = os.path.basename(f)
        if re.search(r'_test\.cc$|test_util|_fuzz|benchmark', b) or b == 'fake_access_token_manager.cc':
            continue
        if '/test' in f[len(REPO):]:
            continue
        out.append(f)
    return out


def upb_sources():
    return sorted(glob.glob(os.path.join(REPO, 'src/**/*.upb.c'), recursive=True))


_hash_cache = {}


def file_hash(f):
    if f not in _hash_cache:
        with open(f, 'rb') as h:
            _hash_cache[f] = hashlib.sha256(h.read()).hexdigest()
    return _hash_cache[f]


def headers_key(harness):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(REPO, 'include'), os.path.join(VERIF, 'upb_shim')]
    if harness:
        roots.append(SIM)
    for root in roots:
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.inc')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(file_hash(p).encode())
    return h.hexdigest()


def absl_link(static=True):
    rc, o = sh(['pkg-config', '--static', '--libs'] + ABSL_PKGS) if static else sh(['pkg-config', '--libs'] + ABSL_PKGS)
    if rc:
        rc, o = sh(['pkg-config', '--libs'] + ABSL_PKGS)
    libs = [x for x in o.split() if x.startswith('-labsl') or x.startswith('-L')]
    if static:
        # Whatever part of absl the code may come to use.
        libs += sorted({'-l' + os.path.basename(x)[3:-2] for x in glob.glob('/usr/lib/*/libabsl_*.a')} - set(libs))
        return ['-Wl,-Bstatic', '-Wl,--start-group'] + libs + ['-Wl,--end-group', '-Wl,-Bdynamic']
    return libs


def build(variant):
    """Compiles /repo's current tree with the simulator; returns the binary."""
    v = VARIANTS[variant]
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    cc = ['clang++']
    flags = list(BASE) + INCS
    if v['bssl']:
        flags = ['-isystem', '/usr/include/android'] + flags
    if v['kind'] == 'seq':
        rflags = flags + ['-O1', '-DSIM_ASAN'] + ASAN
        hflags = rflags
        hsrc = [os.path.join(SIM, s) for s in SEQ_SRCS]
    else:
        rflags = flags + ['-O1', '-fsanitize=thread', '-include', os.path.join(SIM, 'inst.h'), '-fno-omit-frame-pointer']
        hflags = flags + ['-O1', '-DSIM_SCHED']
        hsrc = [os.path.join(SIM, s) for s in SCHED_SRCS]
    if v['bssl']:
        hflags = hflags + ['-DSIM_BSSL']
    jobs = []
    for s in repo_sources():
        jobs.append((s, cc + rflags, False))
    for s in hsrc:
        jobs.append((s, cc + hflags, True))
    for s in upb_sources():
        jobs.append((s, ['clang', '-g1', '-w', '-O1', '-DS2A_CORE_USE_NEW_UPB_APIS'] + INCS + (ASAN if v['kind'] == 'seq' else []), False))
    jobs.append((os.path.join(VERIF, 'upb_shim/upb_shim.c'),
                 ['clang', '-g1', '-w', '-O1', '-DS2A_CORE_USE_NEW_UPB_APIS'] + INCS + (ASAN if v['kind'] == 'seq' else []), False))
    hk = {False: headers_key(False), True: headers_key(True)}
    objs, todo = [], []
    for src, cmd, har in jobs:
        key = hashlib.sha256('\0'.join([src, file_hash(src), hk[har]] + cmd).encode()).hexdigest()[:24]
        o = os.path.join(BUILD, 'obj', os.path.basename(src) + '.' + key + '.o')
        objs.append(o)
        if not os.path.exists(o):
            todo.append((src, cmd, o))

    def one(j):
        src, cmd, o = j
        tmp = o + '.%d.tmp' % os.getpid()
        rc, out = sh(cmd + ['-c', src, '-o', tmp])
        if rc:
            return '%s: %s' % (src, out[-3000:])
        os.rename(tmp, o)
        return None
    todo.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        raise CheckError('build failed:\n' + '\n'.join(errs[:3]))
    bk = hashlib.sha256('\0'.join(objs + [file_hash(os.path.abspath(__file__))]).encode()).hexdigest()[:24]
    binp = os.path.join(BUILD, '%s-%s' % (variant, bk))
    if os.path.exists(binp):
        return binp
    link = ['clang++', '-no-pie', '-o', binp + '.tmp%d' % os.getpid()] + objs
    wraps = []
    if v['kind'] == 'seq':
        link += [f for f in ASAN if f.startswith('-fsanitize')]
        wraps = WRAPS + (WRAPS_BSSL if v['bssl'] else [])
        wraps = wraps + [TICKET_WRAP]
    else:
        wraps = sched_wraps(v['bssl'])
    link += ['-Wl,--wrap=' + w for w in wraps]
    link += absl_link()
    if v['bssl']:
        d = '/usr/lib/x86_64-linux-gnu/android'
        link += [d + '/libcrypto.so', d + '/libssl.so', '-Wl,-rpath,' + d]
    else:
        link += ['-lcrypto', '-lssl']
    link += ['-lpthread', '-ldl']
    rc, out = sh(link)
    if rc:
        raise CheckError('link failed:\n' + out[-3000:])
    os.rename(binp + '.tmp%d' % os.getpid(), binp)
    return binp


def sched_wraps(bssl):
    m = '_ZN4absl7debian35Mutex'
    return WRAPS + (WRAPS_BSSL if bssl else []) + [TICKET_WRAP] + '''malloc free calloc realloc strlen memcmp bcmp getenv secure_getenv
        __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_thread_atexit pthread_mutex_lock pthread_mutex_unlock
        pthread_mutex_trylock pthread_mutex_destroy pthread_rwlock_wrlock pthread_rwlock_rdlock pthread_rwlock_trywrlock
        pthread_rwlock_tryrdlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock pthread_once sched_yield
        _ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE
        _ZNK4absl7debian35Mutex10AssertHeldEv _ZNK4absl7debian35Mutex16AssertReaderHeldEv
        _ZN4absl7debian37CondVar4WaitEPNS0_5MutexE _ZN4absl7debian37CondVar6SignalEv
        _ZN4absl7debian37CondVar9SignalAllEv'''.split() + [m + x for x in '''D1Ev 4LockEv 6UnlockEv 7TryLockEv 10ReaderLockEv
        12ReaderUnlockEv 13ReaderTryLockEv 5AwaitERKNS0_9ConditionE 8LockWhenERKNS0_9ConditionE'''.split()]


def run_env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:handle_segv=1:handle_abort=0:handle_sigill=0:handle_sigfpe=0:'
                         'allocator_may_return_null=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190:'
                         'detect_stack_use_after_return=1:symbolize=1:exitcode=99:max_allocation_size_mb=2048')
    e.pop('SIM_NOASLR', None)
    return e



SHM_HDR = 8 * 4  # run, tape_len, hash, pos


def read_shm(path):
    with open(path, 'rb') as f:
        b = f.read(SHM_HDR + 128 + 1024)
    run = int.from_bytes(b[0:8], 'little')
    cls = b[SHM_HDR:SHM_HDR + 128].split(b'\0')[0].decode('utf8', 'replace')
    msg = b[SHM_HDR + 128:].split(b'\0')[0].decode('utf8', 'replace')
    return run, cls, msg


class Part:
    """One variant of the system exploring one world."""

    def __init__(self, prop, variant, binp, seed, scratch):
        self.prop, self.variant, self.bin, self.seed, self.scratch = prop, variant, binp, seed, scratch
        self.viol, self.sigs, self.counters = [], set(), {}
        self.runs = self.events = self.sim_us = self.choices = self.crashes = self.distinct_logs = 0
        self.wall = 0.0
        self.stop = threading.Event()
        self.lock = threading.Lock()

    def worker(self, k, stride, end, deadline):
        start, chunk = k, 400 * stride
        n = 0
        while start < end and time.time() < deadline and not self.stop.is_set():
            stop = min(end, start + chunk)
            out = os.path.join(self.scratch, '%s-%d-%d.out' % (self.variant, k, n))
            shm = os.path.join(self.scratch, '%s-%d.shm' % (self.variant, k))
            n += 1
            with open(shm, 'wb'):
                pass
            p = subprocess.Popen([self.bin, 'run', '--prop', self.prop, '--seed', str(self.seed), '--start', str(start),
                                  '--end', str(stop), '--stride', str(stride), '--time',
                                  '%.1f' % max(0.5, deadline - time.time()), '--out', out, '--shm', shm],
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=run_env())
            while True:
                try:
                    rc = p.wait(timeout=0.25)
                    break
                except subprocess.TimeoutExpired:
                    if self.stop.is_set():
                        p.kill()
                        p.wait()
                        return
                    if time.time() > deadline + 60:
                        p.kill()
                        p.wait()
                        rc = -1
                        break
            nxt = stop
            with self.lock:
                fin = False
                if os.path.exists(out):
                    for l in open(out):
                        if l[0] == 'V':
                            v = json.loads(l[2:])
                            v.update(start=start, stride=stride)
                            self.viol.append(v)
                        elif l[0] == 'S':
                            d = json.loads(l[2:])
                            fin = True
                            self.runs += d['runs']
                            self.events += d['events']
                            self.sim_us += d['sim_us']
                            self.choices += d['choices']
                            self.distinct_logs += d['distinct_logs']
                            for c, x in d['counters'].items():
                                self.counters[c] = self.counters.get(c, 0) + x
                            nxt = d['next']
                        elif l[0] == 'D':
                            self.sigs.add(l[2:].strip())
                    os.unlink(out)
                if rc != 0 or not fin:
                    run, cls, msg = read_shm(shm)
                    self.crashes += 1
                    self.runs += max(0, (run - start) // stride) + 1
                    self.viol.append(dict(run=run, cls=cls or 'crash:unknown', msg=msg or 'the worker died (status %s)' % rc,
                                          start=start, stride=stride))
                    nxt = run + stride
                if self.viol:
                    self.stop.set()
            start = nxt
        return

    def explore(self, runs, seconds):
        t = time.time()
        deadline = t + seconds
        ths = [threading.Thread(target=self.worker, args=(k, NPROC, runs, deadline)) for k in range(NPROC)]
        for x in ths:
            x.start()
        for x in ths:
            x.join()
        self.wall = time.time() - t
        for v in self.viol:
            v['cls'] = v.get('cls') or v.get('class')
            v['variant'] = self.variant
        self.viol.sort(key=lambda v: v['run'])

    def call(self, args, timeout=400):
        shm = os.path.join(self.scratch, 'x%d.shm' % threading.get_ident())
        with open(shm, 'wb'):
            pass
        p = subprocess.run([self.bin] + args + ['--prop', self.prop, '--shm', shm], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=run_env(), timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace'), shm


def one_history(part, start, stride, run):
    """Runs start, start+stride, ..., run in one fresh process; returns the class of a violation in |run|."""
    out = os.path.join(part.scratch, 'h.out')
    if os.path.exists(out):
        os.unlink(out)
    rc, _, _, shm = part.call(['run', '--seed', str(part.seed), '--start', str(start), '--end', str(run + 1), '--stride',
                               str(stride), '--time', '300', '--out', out])
    if rc != 0:
        r, cls, msg = read_shm(shm)
        return (cls or 'crash:unknown', msg) if r == run else (None, None)
    for l in open(out):
        if l[0] == 'V':
            v = json.loads(l[2:])
            if v['run'] == run:
                return v['class'], v['msg']
    return None, None


def confirm(part, v, shrink_s):
    """Gate: repeat the violation in fresh processes, minimise it, return the replay record (or None)."""
    tape = os.path.join(part.scratch, 'min.tape')
    rc, o, e, _ = part.call(['shrink', '--seed', str(part.seed), '--run', str(v['run']), '--out', tape, '--time',
                             str(shrink_s)], timeout=shrink_s + 120)
    if rc == 0 and o.strip():
        d = json.loads(o.strip().splitlines()[-1])
        tr = os.path.join(part.scratch, 'min.trace')
        got = []
        for _ in range(2):
            rc, o, e, _ = part.call(['replay', '--tape', tape, '--trace', tr])
            got.append(json.loads(o.strip().splitlines()[-1]))
        if all(g['class'] == d['class'] and g['hash'] == d['hash'] for g in got):
            return dict(property=part.prop, variant=part.variant, kind='tape', seed=part.seed, run=v['run'],
                        violation=d['class'], message=d['msg'], hash=d['hash'], original_choices=d['orig_len'],
                        minimised_choices=d['len'], shrink_attempts=d['attempts'],
                        tape=[int(x) for x in open(tape).read().split()],
                        trace=open(tr).read().splitlines()[-400:])
        log('minimised schedule does not repeat', d, got)
    else:
        log('single run does not repeat:', e.strip()[-300:])
    # The violation may need state left in the process by earlier runs.
    k = 0
    while True:
        start = max(v['start'], v['run'] - k * v['stride'])
        a = one_history(part, start, v['stride'], v['run'])
        if a[0]:
            b = one_history(part, start, v['stride'], v['run'])
            if a == b:
                return dict(property=part.prop, variant=part.variant, kind='history', seed=part.seed, run=v['run'],
                            start=start, stride=v['stride'], violation=a[0], message=a[1],
                            trace=['runs %d..%d step %d in one process' % (start, v['run'], v['stride'])])
        if start == v['start']:
            return None
        k = max(1, k * 2)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    parts, rc = [], 0
    try:
        nparts = len(cfg['variants'])
        for variant, runs in cfg['variants']:
            binp = build(variant)
            part = Part(prop, variant, binp, seed, scratch)
            part.build_done = time.time()
            cap = QUICK_S / nparts if tier == 'quick' else THOROUGH_S / nparts
            part.explore(runs if tier == 'quick' else 10 ** 9, cap)
            parts.append(part)
            log('%s %s: %d runs in %.1fs, %d violations' % (prop, variant, part.runs, part.wall, len(part.viol)))
            if part.viol:
                break
        confirmed, known, unconfirmed = None, [], []
        kf = [k for k in known_findings() if k[0] == prop]
        for part in parts:
            seen = set()
            for v in part.viol:
                kk = [k for k in kf if k[1] == v['cls'] and re.search(k[2], v['msg'])]
                if kk:
                    known.append(kk[0][3])
                    continue
                if confirmed or v['cls'] in seen:
                    continue
                rec = confirm(part, v, 40 if tier == 'quick' else 120)
                if rec:
                    seen.add(v['cls'])
                    confirmed = rec
                else:
                    unconfirmed.append(v)
        for k in sorted(set(known)):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        if confirmed:
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, '%s-%s-%d.json' % (prop, confirmed['variant'], confirmed['run']))
            json.dump(confirmed, open(rp, 'w'), indent=1)
            print('violation class=%s: %s' % (confirmed['violation'], confirmed['message']))
            for l in confirmed['trace'][-25:]:
                print('  ' + l)
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            rc = 1
        elif unconfirmed:
            log('violations that do not repeat (harness error):', unconfirmed[:3])
            rc = 2
        write_evidence(prop, tier, seed, cfg, parts, t0, 1 if confirmed else 0)
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(prop, tier, seed, cfg, parts, t0, nviol):
    runs = sum(p.runs for p in parts)
    wall = sum(p.wall for p in parts) or 1e-9
    faults, probes, other = {}, {}, {}
    for p in parts:
        for c, x in p.counters.items():
            d, n = (faults, c[6:]) if c.startswith('fault.') else (probes, c[6:]) if c.startswith('probe.') else (other, c)
            d[n] = d.get(n, 0) + x
    samples, det_ok, det_n = [], 0, 0
    for p in parts:
        for r in ([0, 1] if p is parts[0] else [0]):
            tr = os.path.join(p.scratch, 's.trace')
            try:
                _, o, _, _ = p.call(['replay', '--seed', str(seed), '--run', str(r), '--trace', tr], timeout=120)
                L = open(tr).read().splitlines()
                samples.append(dict(variant=p.variant, seed=seed, run=r, outcome=json.loads(o.strip().splitlines()[-1]),
                                    events=len(L), head=L[:30]))
            except Exception as e:  # a crashing run has no sample
                samples.append(dict(variant=p.variant, seed=seed, run=r, note=str(e)[:200]))
        # Determinism: the same runs in two fresh processes, in different order.
        a, b = {}, {}
        n = 48
        for store, spans in ((a, [(0, n, 1)]), (b, [(1, n, 2), (0, n, 2)])):
            for s, e, st in spans:
                out = os.path.join(p.scratch, 'd.out')
                try:
                    p.call(['run', '--seed', str(seed), '--start', str(s), '--end', str(e), '--stride', str(st), '--time',
                            '30', '--out', out, '--hashes', '1'], timeout=120)
                    for l in open(out):
                        if l[0] == 'H':
                            _, r, h = l.split()
                            store[int(r)] = h
                except Exception:
                    pass
        both = set(a) & set(b)
        det_n += len(both)
        det_ok += sum(1 for r in both if a[r] == b[r])
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=sum(len(p.sigs) for p in parts),
        rule=cfg['rule'],
        samples=samples,
        runs_per_hour=int(runs / wall * 3600),
        seeds_per_hour=int(runs / wall * 3600),
        simulated_seconds=round(sum(p.sim_us for p in parts) / 1e6, 3),
        scheduler_choices=sum(p.choices for p in parts),
        events=sum(p.events for p in parts),
        distinct_event_logs=sum(p.distinct_logs for p in parts),
        faults_injected=faults,
        rare_conditions_reached=probes,
        other_counters=other,
        variants={p.variant: dict(runs=p.runs, wall_s=round(p.wall, 1), distinct_nontrivial=len(p.sigs)) for p in parts},
        determinism=dict(runs_repeated=det_n, identical_event_log=det_ok),
        real_code=cfg['real'], stubs=cfg['stub'])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=cfg.get('assume', []),
              wall_s=round(time.time() - t0, 1), violations=nviol)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def replay(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='vf-replay-')
    try:
        part = Part(d['property'], d['variant'], build(d['variant']), d['seed'], scratch)
        if d['kind'] == 'history':
            cls, msg = one_history(part, d['start'], d['stride'], d['run'])
            same = cls == d['violation']
            print('class=%s %s' % (cls, msg))
        else:
            tape, tr = os.path.join(scratch, 't'), os.path.join(scratch, 'tr')
            open(tape, 'w').write(' '.join(map(str, d['tape'])) + '\n')
            _, o, _, _ = part.call(['replay', '--tape', tape, '--trace', tr])
            g = json.loads(o.strip().splitlines()[-1])
            print(open(tr).read())
            print('class=%s %s event-log hash %s (recorded %s)' % (g['class'], g['msg'], g['hash'], d['hash']))
            same = g['class'] == d['violation'] and g['hash'] == d['hash']
        if same:
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
            return 1
        print('the recorded violation does not occur on this tree')
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def selftest(n):
    """Determinism over n seeds per property and variant: same seeds in differently grouped processes."""
    bad = 0
    for prop, cfg in sorted(PROPS.items()):
        for variant, _ in cfg['variants']:
            scratch = tempfile.mkdtemp(prefix='vf-self-')
            part = Part(prop, variant, build(variant), 1, scratch)

            def go(span):
                s, e, st = span
                out = os.path.join(scratch, 'o%d-%d-%d' % span)
                part.call(['run', '--seed', '1', '--start', str(s), '--end', str(e), '--stride', str(st), '--time', '600',
                           '--out', out, '--hashes', '1'], timeout=700)
                return {int(l.split()[1]): l.split()[2] for l in open(out) if l[0] == 'H'}
            with cf.ThreadPoolExecutor(NPROC) as ex:
                A = list(ex.map(go, [(k, n, 4) for k in range(4)] + [(k * n // 4, (k + 1) * n // 4, 1) for k in range(4)]))
            a, b = {}, {}
            for x in A[:4]:
                a.update(x)
            for x in A[4:]:
                b.update(x)
            ok = len(a) == n and a == b
            print('%s %s: %d runs twice, %s' % (prop, variant, len(a), 'identical' if ok else 'DIFFERENT'))
            bad += not ok
            shutil.rmtree(scratch, ignore_errors=True)
    return 2 if bad else 0


def main(argv):
    cmd = argv[1] if len(argv) > 1 else ''
    try:
        if cmd == 'build':
            t = time.time()
            print(build(argv[2]), '%.1fs' % (time.time() - t))
            return 0
        if cmd == 'setup':
            for v in sorted({v for c in PROPS.values() for v, _ in c['variants']}):
                t = time.time()
                build(v)
                log('built', v, '%.1fs' % (time.time() - t))
            return 0
        if cmd == 'check':
            return check(argv[2], argv[3])
        if cmd == 'replay':
            return replay(argv[2])
        if cmd == 'selftest':
            return selftest(int(argv[2]) if len(argv) > 2 else 400)
    except CheckError as e:
        log('ERROR:', e)
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv))
