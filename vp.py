#!/usr/bin/env python3
"""Driver of the runtime-monitoring framework.

  vp.py setup                     build everything once
  vp.py check <ID> [--thorough]   decide one property (exit 0 held / 1 violated)
  vp.py replay <file>             re-run the case recorded in a replay file
  vp.py all [--thorough]          every property, one after another
"""
import sys, os, json, hashlib, subprocess, threading, time, glob, signal, shutil, struct, re, queue, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
H = os.path.join(HERE, 'harness')
NCPU = os.cpu_count() or 8
sys.path.insert(0, HERE)

class InfraError(Exception):
    pass

# ----------------------------------------------------------------- build
INC = ['-I' + REPO + '/include', '-I' + REPO + '/WBMatrix/include']
LIBBASE = ['-fcommon', '-std=c99', '-w'] + INC
HBASE = ['-std=c++17', '-w', '-fpermissive', '-I' + H] + INC
HUGE = 20000            # sources with more lines than this are compiled with -O0 (generated tables; minutes at -O3)
UB = ['-fsanitize=undefined', '-fno-sanitize=alignment,shift-base,vptr,nonnull-attribute', '-fno-sanitize-recover=undefined']
VARIANTS = {
    # lib flags, flags for huge files, harness flags, link flags, extra harness files
    'plain': dict(lib=['-fopenmp', '-O3'], huge=['-O0'], h=['-O1', '-fopenmp'], link=['-fopenmp'], extra=['x_malloc.cpp', 'x_fault.cpp']),
    'asan': dict(lib=['-fopenmp', '-O1', '-g', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE', '-fsanitize=address'] + UB,
                 huge=['-O0', '-fsanitize=address'],
                 h=['-O1', '-fopenmp', '-DHX_HEAPBUF', '-U_FORTIFY_SOURCE'],
                 link=['-fopenmp', '-fsanitize=address,undefined'], extra=['x_nomalloc.cpp', 'x_fault.cpp']),
    'vg': dict(lib=['-fopenmp', '-O1', '-g'], huge=['-O0'], h=['-O1', '-fopenmp', '-DHX_HEAPBUF'], link=['-fopenmp'], extra=['x_nomalloc.cpp', 'x_fault.cpp']),
    # OpenMP region run by our own pthread-based runtime (x_gomp.cpp) so that the
    # race detector sees every synchronisation
    'tsan': dict(lib=['-fopenmp', '-O1', '-g', '-fsanitize=thread'], huge=['-O0', '-fsanitize=thread'],
                 h=['-O1', '-fsanitize=thread', '-DHX_HEAPBUF'], link=['-fsanitize=thread', '-lpthread'], extra=['x_nomalloc.cpp', 'x_fault.cpp', 'x_gomp.cpp']),
    # the same runtime without the race detector: many more schedules per second
    'sched': dict(lib=['-fopenmp', '-O2'], huge=['-O0'], h=['-O1'], link=['-lpthread'], extra=['x_malloc.cpp', 'x_fault.cpp', 'x_gomp.cpp']),
}
WRAPS = ['fopen', 'remove', 'rename', 'unlink', 'tmpfile', 'fileno', 'stat', 'lstat', 'access', 'open', 'mkstemp']

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:40]

def rd(p):
    with open(p, 'rb') as f:
        return f.read()

def tree_hash(patterns):
    h = hashlib.sha256()
    for p in sorted(set(x for pat in patterns for x in glob.glob(pat, recursive=True))):
        if os.path.isfile(p):
            h.update(p.encode()); h.update(rd(p))
    return h.hexdigest()

def lib_sources():
    out = []
    for d in ['WBMatrix/src', 'src/modes', 'src/utils', 'src/sm3', 'src/aes', 'src/wbaes', 'src/sm4', 'src/wbsm4', 'src/se_wbsm4', 'src/fpe', 'src/fpe_app']:
        out += sorted(glob.glob(os.path.join(REPO, d, '*.c')))
    return out

HARNESS = ['core.cpp', 'ref.cpp', 'kit.cpp']

def compile_all(jobs):
    """jobs: list of (cmd, output).  Runs those whose output is missing, NCPU at a time, biggest first."""
    todo = [j for j in jobs if not os.path.exists(j[1])]
    seen, uniq = set(), []
    for j in todo:
        if j[1] not in seen:
            seen.add(j[1]); uniq.append(j)
    uniq.sort(key=lambda j: -os.path.getsize(j[0][-1]))
    errs = []
    q = queue.Queue()
    for j in uniq:
        q.put(j)
    def work():
        while True:
            try:
                cmd, out = q.get_nowait()
            except queue.Empty:
                return
            tmp = '%s.%d.%d.tmp' % (out, os.getpid(), threading.get_ident())
            r = subprocess.run(cmd[:-1] + ['-o', tmp, '-c', cmd[-1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                errs.append('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-3000:]))
            else:
                os.replace(tmp, out)
    ts = [threading.Thread(target=work) for _ in range(NCPU)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs:
        raise InfraError('compilation failed:\n' + errs[0])

def build(variant, groups):
    """Links the harness binary with the given scenario groups (s_<g>.cpp); returns its path."""
    v = VARIANTS[variant]
    os.makedirs(BUILD + '/obj', exist_ok=True)
    os.makedirs(BUILD + '/bin', exist_ok=True)
    hdrs = tree_hash([REPO + '/include/**/*', REPO + '/WBMatrix/include/**/*', REPO + '/src/**/*.h', REPO + '/WBMatrix/src/**/*.h'])
    hh = tree_hash([H + '/*.h'])
    cc = subprocess.run(['gcc', '--version'], stdout=subprocess.PIPE).stdout
    jobs, objs = [], []
    for s in lib_sources():
        txt = rd(s)
        fl = LIBBASE + ['-fopenmp'] + (v['huge'] if txt.count(b'\n') > HUGE else v['lib'])
        o = '%s/obj/%s.o' % (BUILD, sha(txt, s, hdrs, fl, cc))
        jobs.append((['gcc'] + fl + [s], o)); objs.append(o)
    lo = list(objs)
    ho = []
    # the UDF for MySQL 8 and the one for MySQL 5 define the same symbols: one binary each
    udf = 'mysql8.cpp' if 'udf' in groups else 'mysql5.cpp' if 'udf5' in groups else None
    for f in HARNESS + ['s_%s.cpp' % g.replace('udf5', 'udf') for g in groups] + v['extra']:
        s = os.path.join(H, f)
        fl = HBASE + v['h'] + (['-I/usr/include/mysql', '-I' + REPO + '/udf'] + (['-DUDF5'] if udf == 'mysql5.cpp' else []) if f == 's_udf.cpp' else [])
        extra = tree_hash([REPO + '/udf/*.cpp', REPO + '/udf/*.h']) if f == 's_udf.cpp' else ''
        o = '%s/obj/%s.o' % (BUILD, sha(rd(s), s, hdrs, hh, fl, cc, extra))
        jobs.append((['g++'] + fl + [s], o)); ho.append(o)
    if udf:
        s = os.path.join(REPO, 'udf', udf)
        # only the headers of MySQL 8 are installed; they differ for a UDF in the name of my_bool
        fl = ['-std=c++17', '-w', '-I/usr/include/mysql'] + (['-Dmy_bool=char'] if udf == 'mysql5.cpp' else []) + INC + v['lib']
        o = '%s/obj/%s.o' % (BUILD, sha(rd(s), s, hdrs, fl, cc, tree_hash([REPO + '/udf/*.h'])))
        jobs.append((['g++'] + fl + [s], o)); ho.append(o)
    compile_all(jobs)
    key = sha(*(objs + ho + v['link'] + WRAPS))
    exe = '%s/bin/%s-%s' % (BUILD, variant, key)
    if not os.path.exists(exe):
        tmp = '%s.%d' % (exe, os.getpid())
        ar = '%s/obj/%s.a' % (BUILD, sha(*lo))
        if not os.path.exists(ar):
            t2 = '%s.%d' % (ar, os.getpid())
            subprocess.run(['ar', 'rcs', t2] + lo, check=True)
            os.replace(t2, ar)
        cmd = ['g++', '-o', tmp] + ho + ['-Wl,--wrap=' + w for w in WRAPS] + [ar, '-lssl', '-lcrypto', '-lm', '-lpthread'] + v['link']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise InfraError('link failed (%s):\n%s' % (variant, r.stdout.decode(errors='replace')[-3000:]))
        os.replace(tmp, exe)
    return exe

# ----------------------------------------------------------------- runs
class Violation:
    def __init__(self, run, idx, frm, key, msg, detail=''):
        self.run, self.idx, self.frm, self.key, self.msg, self.detail = run, idx, frm, key, msg, detail

SANENV = {
    'ASAN_OPTIONS': 'exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_fill_byte=165:max_malloc_fill_size=1048576:handle_segv=1:log_path=%s',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77:log_path=%s',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:history_size=4:second_deadlock_stack=1:log_path=%s',
}

def san_key(text):
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', text)
    kind = 'asan:' + m.group(1) if m else None
    if not kind:
        m = re.search(r'runtime error: (.*)', text)
        if m:
            kind = 'ubsan:' + re.sub(r'[0-9]+|0x[0-9a-f]+', 'N', m.group(1))[:60].strip().replace(' ', '-')
    if not kind:
        m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]+)', text)
        if m:
            kind = 'tsan:' + m.group(1).strip().replace(' ', '-')
    if not kind:
        m = re.search(r'==\d+== (Conditional jump or move depends on uninitialised|Use of uninitialised value|Invalid (?:read|write)[^\n]*|Syscall param[^\n]*|Invalid free[^\n]*|Mismatched free[^\n]*|Source and destination overlap[^\n]*|Jump to the invalid[^\n]*)', text)
        if m:
            kind = 'memcheck:' + re.sub(r'\d+', 'N', m.group(1)).strip().replace(' ', '-')
    if not kind:
        return None
    fr = [x for x in re.findall(r'(?:#\d+ 0x[0-9a-f]+ in |(?:at|by) 0x[0-9A-F]+: |#\d+ )([A-Za-z_]\w*)', text)
          if not x.startswith(('__asan', '__interceptor', 'mem', 'str', 'hx', '__san', 'operator', 'malloc', 'free', '__tsan', 'GOMP'))]
    return kind + (':' + fr[0] if fr else '')

class Runner:
    def __init__(self, prop, tier, seed, budget):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deadline = time.time() + budget
        self.violations, self.samples, self.stats = [], [], {}
        self.cases = self.evals = 0
        self.hashes = set()
        self.overflow = 0
        self.skipped = []
        self.lock = threading.Lock()
        self.stop = False
        self.sanlines = 0
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix='run-', dir=BUILD)

    def one(self, run, exe, frm, to, stall):
        """one child process over [frm,to); returns (list of violations, lines)"""
        d = tempfile.mkdtemp(prefix='j-', dir=self.tmp)
        try:
            return self._one(run, exe, frm, to, stall, d)
        finally:
            subprocess.run(['chmod', '-R', 'u+rwX', d], stderr=subprocess.DEVNULL)
            shutil.rmtree(d, ignore_errors=True)

    def _one(self, run, exe, frm, to, stall, d):
        sc = d + '/scratch'
        os.mkdir(sc)
        out, prog, log = d + '/out', d + '/prog', d + '/san'
        cmd = [exe, '--scen', run['scen'], '--seed', str(run.get('seed', self.seed)), '--from', str(frm), '--to', str(to), '--out', out, '--progress', prog, '--scratch', sc]
        if self.tier == 'thorough':
            cmd.append('--thorough')
        if run.get('leak'):
            cmd.append('--leak')
        if run['variant'] == 'vg':
            cmd = ['valgrind', '-q', '--error-exitcode=77', '--exit-on-first-error=yes', '--track-origins=no', '--leak-check=no', '--log-file=' + log + '.vg',
                   '--max-stackframe=8000000'] + cmd
        env = {k: v for k, v in os.environ.items() if not k.startswith(('ASAN', 'UBSAN', 'TSAN', 'OMP_', 'GOMP', 'MALLOC_'))}
        for k, v in SANENV.items():
            env[k] = v % log
        env['OMP_WAIT_POLICY'] = 'passive'
        env.update(run.get('env', {}))
        with open(d + '/stdout', 'wb') as so, open(d + '/stderr', 'wb') as se:
            p = subprocess.Popen(cmd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=env, cwd=sc, start_new_session=True)
            last, t0, cpu0 = None, time.time(), 0.0
            hung = False
            while True:
                try:
                    p.wait(0.05 if time.time() - t0 < 2 else 0.3)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    cur = struct.unpack('q', rd(prog)[:8])[0]
                except Exception:
                    cur = None
                if cur != last:
                    last, t0 = cur, time.time()
                if time.time() - t0 > stall:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        try:
            cur = struct.unpack('q', rd(prog)[:8])[0]
        except Exception:
            cur = frm
        lines = []
        if os.path.exists(out):
            lines = rd(out).decode(errors='replace').split('\n')
        vio = []
        for l in lines:
            f = l.split('\t')
            if f[0] == 'FAIL' and len(f) >= 5:
                vio.append(Violation(run, int(f[2]), frm, f[3], f[4]))
        if hung:
            return [Violation(run, cur, frm, 'hang', 'no progress for %d s' % stall)], lines
        rc = p.returncode
        if rc != 0:
            text = ''
            for f in sorted(glob.glob(log + '*')):
                text += rd(f).decode(errors='replace')
            err = rd(d + '/stderr').decode(errors='replace')
            k = san_key(text) or san_key(err)
            if k:
                vio.append(Violation(run, cur, frm, k, (text or err)[:200].replace('\n', ' '), (text or err)[:6000]))
            elif rc == -signal.SIGKILL and run.get('stall') and to - frm == 1:
                # memory ran out on a case that needs gigabytes: nothing was observed
                with self.lock:
                    self.skipped.append('%s#%d ended by the system (memory)' % (run['scen'], frm))
            elif rc < 0:
                if not any(x.key.endswith('beyond-buffer') and x.idx == cur for x in vio):
                    vio.append(Violation(run, cur, frm, 'crash:' + signal.Signals(-rc).name, 'the process died with %s' % signal.Signals(-rc).name, err[-2000:]))
            elif rc in (90, 91, 92, 93, 94):
                raise InfraError('harness error %d in %s: %s' % (rc, run['scen'], err[-500:]))
            elif rc in (77, 66):
                vio.append(Violation(run, cur, frm, 'sanitizer', (text or err)[:300], (text or err)[:6000]))
            else:
                vio.append(Violation(run, cur, frm, 'exit:%d' % rc, 'the library ended the process with status %d: %s' % (rc, err[-300:]), err[-2000:]))
        return vio, lines

    def absorb(self, run, lines):
        with self.lock:
            for l in lines:
                if l.startswith('H\t'):
                    if len(self.hashes) < 3000000:
                        self.hashes.add(run['scen'] + l[2:])
                    else:
                        self.overflow += 1
                elif l.startswith('SAMPLE\t'):
                    if sum(1 for s in self.samples if s.startswith(run['scen'])) < 4:
                        self.samples.append(l[7:])
                elif l.startswith('STAT\t'):
                    f = l.split('\t')
                    k = run['scen'] + ': ' + f[1]
                    self.stats[k] = self.stats.get(k, 0) + int(f[2])
                elif l.startswith('DONE\t'):
                    f = l.split('\t')
                    self.cases += int(f[1]); self.evals += int(f[2])
                    run['done'] = run.get('done', 0) + int(f[1])

    def go(self, runs, groups, keys):
        jobs = []
        exes = {}
        for r in runs:
            r.setdefault('groups', groups)
        for v, g in sorted(set((r['variant'], tuple(r['groups'])) for r in runs)):
            try:
                exes[v, g] = build(v, list(g))
            except InfraError as e:
                if v in ('tsan', 'sched') and ('undefined reference to `GOMP' in str(e) or 'undefined reference to `omp_' in str(e)):
                    self.skipped.append('%s runs skipped: the code uses an OpenMP construct our runtime does not model' % v)
                    continue
                raise
        for r in runs:
            if (r['variant'], tuple(r['groups'])) not in exes:
                continue
            n = r['n'] if self.tier == 'quick' else r['N']
            chunk = r.get('chunk') or max(1, min(200, -(-n // 24)))
            if r.get('align'):
                chunk = max(r['align'], -(-chunk // r['align']) * r['align'])
            r['exe'] = exes[r['variant'], tuple(r['groups'])]
            for a in range(0, n, chunk):
                # long single cases first, so that none is left running alone at the end
                jobs.append((-1 if r.get('stall') and chunk == 1 and n < 50 else a / max(1, n), r, a, min(n, a + chunk)))
        jobs.sort(key=lambda j: j[0])           # interleave the runs, so a time budget cuts all alike
        q = queue.Queue()
        for j in jobs:
            q.put(j)
        infra = []
        def work():
            while not self.stop:
                try:
                    _, r, a, b = q.get_nowait()
                except queue.Empty:
                    return
                if time.time() > self.deadline:
                    with self.lock:
                        r['cut'] = r.get('cut', 0) + (b - a)
                    continue
                try:
                    ts0 = time.time()
                    vio, lines = self.one(r, r['exe'], a, b, r.get('stall', 120))
                    with self.lock:
                        r['secs'] = r.get('secs', 0) + time.time() - ts0
                    if vio and vio[0].key == 'hang':
                        # a hang counts only when it repeats with nothing else in the way
                        vio, lines = self.one(r, r['exe'], a, b, r.get('stall', 120) * 2)
                    self.absorb(r, lines)
                    vio = [x for x in vio if keys is None or any(x.key == k or x.key.startswith(k + ':') for k in keys)]
                    if vio:
                        with self.lock:
                            self.violations += vio
                            self.stop = True
                except InfraError as e:
                    infra.append(e)
                    self.stop = True
                except Exception as e:      # noqa
                    infra.append(InfraError(repr(e)))
                    self.stop = True
        width = NCPU
        ts = [threading.Thread(target=work) for _ in range(width)]
        [t.start() for t in ts]; [t.join() for t in ts]
        if infra and not self.violations:
            raise infra[0]

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

# ----------------------------------------------------------------- known findings
def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) scenario=(\S+) key=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out

def check(prop, tier, seed, budget=None):
    from plan import PLAN
    t0 = time.time()
    pl = PLAN[prop]
    if budget is None:
        budget = 420 if tier == 'quick' else 3 * 3600
    R = Runner(prop, tier, seed, budget)
    try:
        runs = [dict(r) for r in pl['runs']]
        R.go(runs, pl['groups'], pl.get('keys'))
    finally:
        R.close()
    known = [k for k in known_findings() if k[0] == prop]
    new, listed = [], {}
    for v in R.violations:
        k = next((k for k in known if k[1] == v.run['scen'] and k[2] == v.key), None)
        if k:
            listed[k] = v
        else:
            new.append(v)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    os.makedirs(EVID, exist_ok=True)
    paths = []
    seen = set()
    for v in new:
        kk = (v.run['scen'], v.key)
        if kk in seen:
            continue
        seen.add(kk)
        rp = os.path.join(EVID, 'replay-%s-%d.json' % (prop, len(seen)))
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, variant=v.run['variant'], scen=v.run['scen'], groups=v.run['groups'], seed=v.run.get('seed', seed), tier=tier, leak=bool(v.run.get('leak')),
                           env=v.run.get('env', {}), index=v.idx, chunk_start=v.frm, key=v.key, message=v.msg, detail=v.detail,
                           how='python3 /verif/vp.py replay ' + rp), f, indent=1)
        paths.append((rp, v))
        if len(paths) >= 6:
            break
    cov = dict(evaluations=R.evals, distinct_nontrivial=len(R.hashes), rule=pl['rule'], samples=R.samples[:12] or ['(none)'],
               cases=R.cases, scenarios={'%s/%s%s' % (r['variant'], r['scen'], '+leak' if r.get('leak') else ''): r.get('done', 0) for r in runs}, observed=R.stats)
    cut = {r['scen']: r['cut'] for r in runs if r.get('cut')}
    if cut:
        cov['not_run_within_time_budget'] = cut
    if R.skipped:
        cov['skipped'] = R.skipped
    if pl.get('exhaustive'):
        cov['enumerated'] = pl['exhaustive']
    ev = dict(property=prop, tier=tier, seed=seed, level=pl['level'], coverage=cov, assumptions=pl.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for rp, v in paths:
        print('  %s #%d [%s]: %s' % (v.run['scen'], v.idx, v.key, v.msg[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    if os.environ.get('VP_PROFILE'):
        for r in sorted(runs, key=lambda r: -r.get('secs', 0)):
            print('  %8.1f s  %s %s' % (r.get('secs', 0), r['variant'], r['scen']))
    if not new:
        print('OK property=%s cases=%d evaluations=%d distinct=%d wall=%.1fs' % (prop, R.cases, R.evals, len(R.hashes), time.time() - t0))
    sys.stdout.flush()
    return 1 if new else 0

def replay(path):
    r = json.load(open(path))
    R = Runner(r['property'], r['tier'], r['seed'], 3600)
    try:
        run = dict(variant=r['variant'], scen=r['scen'], leak=r['leak'], env=r['env'], seed=r['seed'])
        exe = build(r['variant'], r['groups'])
        vio = []
        for frm in (r['index'], r['chunk_start']):
            vio, _ = R.one(run, exe, frm, r['index'] + 1, 300)
            if vio:
                break
    finally:
        R.close()
    for v in vio:
        print('%s #%d [%s] %s\n%s' % (v.run['scen'], v.idx, v.key, v.msg, v.detail))
    print('reproduced' if vio else 'not reproduced')
    return 1 if vio else 0

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = 'thorough' if '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    if '--quick' in a:
        tier = 'quick'
    try:
        if a[0] == 'setup':
            from plan import PLAN
            for v in VARIANTS:
                gs = []
                for p in PLAN.values():
                    for r in p['runs']:
                        g = r.get('groups', p['groups'])
                        if r['variant'] == v and g not in gs:
                            gs.append(g)
                for g in gs:
                    build(v, g)
            print('setup done')
            return 0
        if a[0] == 'check':
            return check(a[1], tier, seed)
        if a[0] == 'replay':
            return replay(a[1])
        if a[0] == 'all':
            from plan import PLAN
            bad = [p for p in sorted(PLAN) if check(p, tier, seed)]
            print('violated: %s' % bad)
            return 1 if bad else 0
    except InfraError as e:
        print('ERROR: ' + str(e))
        return 2
    print(__doc__)
    return 2

if __name__ == '__main__':
    sys.exit(main())
