#!/usr/bin/env python3
"""Runs the checks.   run.py check <id> | run.py replay <file> | run.py setup | run.py list

A check compiles its workload+oracle programs against the working tree of the
repository, runs their groups of cases as separate processes, and reports.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: error of the check.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = 8
SCALE = float(os.environ.get('VERIF_SCALE', '1'))      # fraction of the cases, for experiments
T0 = time.monotonic()

WRAPS = 'mmap munmap open open64 fopen fopen64 fdopen fseeko fseeko64 ftello ftello64 fputc putc fwrite fclose close madvise ftruncate ftruncate64 fstat lseek'.split()
WRAP = '-Wl,' + ','.join('--wrap=' + w for w in WRAPS)
BASE = ['-g', '-U_FORTIFY_SOURCE', '-fno-omit-frame-pointer', '-I' + REPO + '/include', '-I' + HERE + '/harness']
# name -> (compiler, compile flags, link flags, runtime object or None)
VARIANTS = {
    'rel':   ('g++', ['-O2', '-fopenmp'], ['-fopenmp'], None),
    'o1':    ('g++', ['-O1', '-fopenmp'], ['-fopenmp'], None),
    'asan':  ('g++', ['-O1', '-fopenmp', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DH_UBSAN'], ['-fopenmp', '-fsanitize=address,undefined'], None),
    'tsan':  ('g++', ['-O1', '-fopenmp', '-fsanitize=thread'], ['-fsanitize=thread', '-lpthread'], 'TSAN'),
    'sched': ('g++', ['-O1', '-fopenmp', '-fsanitize=thread'], ['-lpthread'], 'SCHED'),
    'seq':   ('g++', ['-O2', '-Wno-unknown-pragmas'], [], None),
}

class HarnessError(Exception): pass
class Unsupported(Exception): pass
class BuildFailure(Exception):
    def __init__(self, cmd, out): self.cmd, self.out = cmd, out

def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, _ = p.communicate()
        return None, out.decode('utf-8', 'replace')

def toolchain_ok(work):
    src = os.path.join(work, 'sane.cpp')
    with open(src, 'w') as f: f.write('#include <vector>\n#include <string>\nint main(){std::vector<int> v(3);return (int)v.size()-3;}\n')
    rc, _ = sh(['g++', '-fopenmp', src, '-o', src + '.x'], 120)
    return rc == 0

class Builder:
    """Compiles sources once per variant, in parallel."""
    def __init__(self, work):
        self.work, self.pool, self.lock, self.futs = work, cf.ThreadPoolExecutor(NPROC), threading.Lock(), {}
    def once(self, key, fn):
        with self.lock:
            if key not in self.futs: self.futs[key] = self.pool.submit(fn)
            return self.futs[key]
    def cc(self, cmd, out):
        rc, txt = sh(cmd, 600)
        if rc != 0 or not os.path.exists(out):
            time.sleep(1)
            rc, txt = sh(cmd, 900)          # once more, in case the machine was short of memory
        if rc != 0 or not os.path.exists(out):
            if rc is None or 'error' not in txt or not toolchain_ok(self.work): raise HarnessError('compiler failed: %s\n%s' % (' '.join(cmd), txt[-2000:]))
            raise BuildFailure(' '.join(cmd), txt)
        return out
    def obj(self, src, variant, extra=()):
        comp, cflags, _, _ = VARIANTS[variant]
        cls = 'ts' if variant in ('tsan', 'sched') else variant
        tag = hashlib.sha1(repr((src, cls, tuple(extra))).encode()).hexdigest()[:10]
        out = os.path.join(self.work, '%s-%s-%s.o' % (os.path.basename(src).split('.')[0], cls, tag))
        std = [] if any(x.startswith('-std=') for x in extra) else ['-std=c++17']
        return self.once(out, lambda: self.cc([comp] + std + BASE + cflags + list(extra) + ['-c', os.path.join(HERE, 'harness', src), '-o', out], out))
    def rt(self, mode):
        out = os.path.join(self.work, 'rt-%s.o' % mode)
        return self.once(out, lambda: self.cc(['g++', '-std=c++17', '-O2', '-g', '-fopenmp', '-w', '-DRT_' + mode, '-c', os.path.join(HERE, 'rt', 'rt.cpp'), '-o', out], out))
    def exe(self, srcs, variant, extra=(), guard=True, link=()):
        objs = [self.obj(s, variant, extra) if isinstance(s, str) else self.obj(s[0], variant, tuple(extra) + tuple(s[1:])) for s in srcs]
        if guard:
            gv = variant if variant == 'asan' else 'seq'
            out_g = os.path.join(self.work, 'guard-%s.o' % gv)
            flags = ['-fsanitize=address'] if gv == 'asan' else []
            objs.append(self.once(out_g, lambda: self.cc(['g++', '-std=c++17', '-O1', '-g', '-U_FORTIFY_SOURCE'] + flags + ['-I' + HERE + '/harness', '-c', os.path.join(HERE, 'harness', 'guard.cpp'), '-o', out_g], out_g)))
        _, _, lflags, rtm = VARIANTS[variant]
        if rtm: objs.append(self.rt(rtm))
        out = os.path.join(self.work, '%s-%s-%s' % (srcs[0].split('.')[0] if isinstance(srcs[0], str) else 'x', variant, hashlib.sha1(repr((srcs, extra, link)).encode()).hexdigest()[:6]))
        def do_link():
            try: return link1()
            except BuildFailure as e:      # something our own runtime does not offer says nothing about the code
                und = re.findall(r"undefined reference to `([^']*)'", e.out)
                if rtm and und and all(u.startswith(('GOMP_', 'omp_', '__tsan_')) for u in und): raise Unsupported(', '.join(sorted(set(und))))
                raise
        def link1():
            return self.cc(['g++', '-o', out] + [o.result() for o in objs] + lflags + ([WRAP] if guard else []) + list(link), out)
        # linking waits for objects: use a thread of its own so that the pool cannot deadlock
        with self.lock:
            if out not in self.futs:
                f = cf.Future()
                def run():
                    try: f.set_result(do_link())
                    except BaseException as e: f.set_exception(e)
                threading.Thread(target=run, daemon=True).start()
                self.futs[out] = f
            return self.futs[out]

def clean_env(variant, leak=False):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('OMP_', 'GOMP_', 'ASAN_', 'TSAN_', 'UBSAN_', 'LSAN_', 'KMP_', 'MALLOC_', 'LD_PRELOAD'))}
    e['OMP_WAIT_POLICY'] = 'passive'; e['GOMP_SPINCOUNT'] = '0'; e['OMP_DYNAMIC'] = 'false'
    e['ASAN_OPTIONS'] = 'exitcode=77:abort_on_error=0:halt_on_error=1:detect_leaks=%d:allocator_may_return_null=0:max_allocation_size_mb=6000:detect_stack_use_after_return=1:quarantine_size_mb=64:malloc_fill_byte=%d:max_malloc_fill_size=67108864:handle_segv=1:handle_abort=0:detect_odr_violation=0' % (1 if leak else 0, 0xbe)
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:ignore_noninstrumented_modules=0:max_allocation_size_mb=6000'
    e['LC_ALL'] = 'C'
    return e

def limits(variant, gb=14):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant not in ('asan', 'tsan'): resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f

SIGV = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL}

class Check:
    def __init__(self, pid, conf, tier, seed):
        self.pid, self.conf, self.tier, self.seed = pid, conf, tier, seed
        self.viol, self.known, self.stats, self.hashes, self.samples = [], [], {}, {}, []
        self.lock, self.stop, self.notes, self.jobstats = threading.Lock(), False, [], []
        self.findings = load_findings(pid)
        os.makedirs(os.path.join(HERE, '.work'), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix='%s-%d-' % (pid, os.getpid()), dir=os.path.join(HERE, '.work'))
        self.b = Builder(self.work)
        self.soft = float(os.environ.get('VERIF_SOFT', '480' if tier == 'quick' else '7200'))
        self.serial = 0
    def left(self): return self.soft - (time.monotonic() - T0)

    def report(self, key, detail, replay):
        with self.lock:
            for f in self.findings:
                if f['key'] == key and f.get('match', '') in detail:
                    if f not in self.known: self.known.append(f)
                    return
            self.viol.append((key, detail, replay))
            self.stop = True

    def absorb(self, text, hfile):
        with self.lock:
            for m in re.finditer(r'^STAT (\S+) (\d+)$', text, re.M):
                k, v = m.group(1), int(m.group(2))
                self.stats[k] = max(self.stats.get(k, 0), v) if k.startswith('max:') else self.stats.get(k, 0) + v
            for m in re.finditer(r'^SAMPLE (.*)$', text, re.M):
                if len(self.samples) < 40: self.samples.append(m.group(1)[:420])
            if hfile and os.path.exists(hfile):
                for line in open(hfile):
                    k, h = line.split()
                    self.hashes.setdefault(k, set()).add(h)
                os.unlink(hfile)

    def run_proc(self, job, lo, hi, timeout, budget):
        with self.lock: self.serial += 1; n = self.serial
        d = os.path.join(self.work, 'run%d' % n); os.makedirs(d, exist_ok=True)
        hf, pf = os.path.join(d, 'hashes'), os.path.join(d, 'progress')
        cmd = list(job.get('prefix', [])) + [job['exe'], '--seed', str(self.seed * 16 + sorted(VARIANTS).index(job['variant'])), '--group', job['group'], '--from', str(lo), '--to', str(hi), '--budget', '%.1f' % max(budget, 1), '--scratch', os.path.join(d, 's'), '--hashes', hf, '--progress', pf] + (['--thorough'] if self.tier == 'thorough' else []) + list(job.get('args', []))
        env = clean_env(job['variant'], job.get('leak', False)); env.update(job.get('env', {}))
        rc, out = sh(cmd, timeout, env=env, cwd=d, preexec_fn=limits(job['variant'], job.get('mem', 14)))
        try: cur = int(open(pf).read().split()[0])
        except Exception: cur = lo
        self.absorb(out, hf)
        shutil.rmtree(d, ignore_errors=True)
        return rc, out, cur

    def classify(self, job, rc, out, cur):
        """-> list of (key, detail) or None when the run is fine or 'retry'"""
        res = [(m.group(1), m.group(0)) for m in re.finditer(r'^FAIL key=(\S+) .*$', out, re.M)]
        if 'WARNING: ThreadSanitizer' in out:
            m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', out)
            res.append(('tsan:' + m.group(1).strip().replace(' ', '-'), 'case %d: ' % cur + tail_report(out, 'WARNING: ThreadSanitizer')))
        if res and not (job.get('only') and not any(re.match(job['only'], k) for k, _ in res)): return res
        fails = res
        if 'ERROR: LeakSanitizer' in out: return [('leak', tail_report(out, 'ERROR: LeakSanitizer'))]
        if 'AddressSanitizer' in out and rc != 0:
            m = re.search(r'AddressSanitizer:? ([a-zA-Z-]+)', out)
            return [('asan:' + (m.group(1) if m else 'error'), tail_report(out, 'AddressSanitizer'))]
        if re.search(r'runtime error:', out):
            return [('ubsan', tail_report(out, 'runtime error:'))]
        if rc == 99 and job.get('prefix'):
            return [('valgrind', tail_report(out, '=='))]
        if 'rt: DEADLOCK' in out: return [('deadlock', 'case %d: %s' % (cur, tail_report(out, 'rt: DEADLOCK')))]
        if rc is not None and rc < 0 and -rc in SIGV:
            return [('crash', 'signal %d in case %d: %s' % (-rc, cur, out[-800:].replace('\n', '~')))]
        if rc == 0 and re.search(r'^DONE 0$', out, re.M): return None
        return fails or 'retry'

    def run_job(self, job):
        if self.stop or (self.left() < 5 and job.get('optional', True)): return 0
        lo, hi = job['from'], job['to']
        hard = job.get('timeout', 300 if self.tier == 'quick' else 1800)
        for attempt in (0, 1):
            budget = max(5.0, min(self.left(), hard * 0.6))
            rc, out, cur = self.run_proc(job, lo, hi, hard, budget)
            c = self.classify(job, rc, out, cur)
            if c is None: break
            if job.get('only') and isinstance(c, list):     # what another check decides is left to it
                rest = [x for x in c if re.match(job['only'], x[0])]
                if not rest:
                    self.notes.append('%s %s: %s left to its own check' % (job['variant'], job['group'], c[0][0])); break
                c = rest
            if c == 'retry':
                if rc is None:       # timed out: look at the current case alone
                    to = 120 if self.tier == 'quick' else 600
                    rc2, out2, _ = self.run_proc(job, cur, cur + 1, to, to)
                    c2 = self.classify(job, rc2, out2, cur)
                    if rc2 is None: c = [('hang', 'case %d of %s did not finish in %d s, twice' % (cur, job['group'], to))]
                    elif c2 is None or c2 == 'retry':
                        self.notes.append('slow: %s %s from case %d (inconclusive)' % (job['variant'], job['group'], lo)); break
                    else: c = c2
                elif attempt == 0: continue
                else: raise HarnessError('%s %s %s exit %s:\n%s' % (self.pid, job['variant'], job['group'], rc, out[-3000:]))
            done = set()
            for key, detail in c:
                if key in done: continue
                done.add(key)
                m = re.search(r'group=(\S+) case=(\d+)', detail)
                case = int(m.group(2)) if m else cur
                rp = self.write_replay(job, key, case, detail)
                self.report(key, detail, rp)
            break
        return 1

    def write_replay(self, job, key, case, detail):
        d = os.path.join(HERE, 'replays'); os.makedirs(d, exist_ok=True)
        r = {'property': self.pid, 'key': key, 'seed': self.seed, 'tier': self.tier, 'case': case, 'detail': detail[:6000], 'job': {k: job[k] for k in ('src', 'variant', 'group', 'extra', 'args', 'leak', 'env', 'prefix', 'guard', 'link', 'only') if k in job}}
        fn = os.path.join(d, '%s-%s-%s-%d.json' % (self.pid, re.sub(r'\W+', '_', key)[:40], job['group'], case))
        with open(fn, 'w') as f: json.dump(r, f, indent=1)
        return os.path.relpath(fn, HERE)

    def jobs(self):
        """Expands the configured jobs to slices."""
        res = []
        for j in self.conf['jobs']:
            n = j['q'] if self.tier == 'quick' else j.get('t', j['q'] * 20)
            if not n: continue
            n = max(1, int(n * SCALE))
            k = j.get('slices', 4 if n >= 8 else 1)
            if self.tier == 'thorough': k = max(k, min(8, n))
            srcs = [j.get('src', self.conf.get('src'))] if isinstance(j.get('src', self.conf.get('src')), str) else list(j.get('src', self.conf.get('src')))
            for g in ([j['group']] if isinstance(j['group'], str) else j['group']):
                if self.conf.get('split') and 'src' not in j: j = dict(j, extra=[x for x in j.get('extra', []) if 'H_SEL' not in x] + ['-DH_SEL="%s"' % g])
                f = self.b.exe(srcs, j['variant'], tuple(j.get('extra', ())), j.get('guard', True), tuple(j.get('link', ())))
                for s in range(k):
                    jj = dict(j); jj.update({'src': srcs, 'group': g, 'from': n * s // k, 'to': n * (s + 1) // k, 'fut': f})
                    if jj['to'] > jj['from']: res.append(jj)
        return res

    def run(self):
        jobs = self.jobs()
        # slices of different jobs interleaved, so that every group gets its first slice early
        jobs.sort(key=lambda j: (j['from'] > 0, j.get('order', 5)))
        errors = []
        def go(j):
            try:
                j['exe'] = j['fut'].result()
                return self.run_job(j)
            except Unsupported as e:
                with self.lock: self.notes.append('%s %s not run: the runtime has no %s' % (j['variant'], j['group'], e))
                return 0
            except BuildFailure as e:
                first = next((l for l in e.out.splitlines() if 'error' in l), '')
                rp = self.write_replay(j, 'build', 0, e.cmd + '\n' + e.out[:4000])
                self.report('build', 'does not build: ' + first[:400], rp); return 0
            except Exception as e:
                with self.lock: errors.append(str(e) if isinstance(e, HarnessError) else repr(e))
                self.stop = True; return 0
        with cf.ThreadPoolExecutor(NPROC) as ex: ran = sum(ex.map(go, jobs))
        for f in self.conf.get('extra_steps', []):
            if not self.stop:
                try: f(self)
                except BuildFailure as e:
                    first = next((l for l in e.out.splitlines() if 'error' in l), '')
                    rp = self.write_replay({'group': 'build', 'variant': '-', 'src': []}, 'build', 0, e.cmd + '\n' + e.out[:4000])
                    self.report('build', 'does not build: ' + first[:400], rp)
                except Exception as e: errors.append(str(e) if isinstance(e, HarnessError) else repr(e))
        if ran < len(jobs) and not self.stop: self.notes.append('%d of %d slices not run: time' % (len(jobs) - ran, len(jobs)))
        self.evidence(jobs, ran)
        self.b.pool.shutdown(wait=False, cancel_futures=True)
        for f in self.known: print('KNOWN-FINDING: property=%s %s' % (self.pid, f['text']))
        if self.viol:
            seenk = set()
            for key, detail, rp in self.viol:
                if key in seenk: continue
                seenk.add(key)
                print('VIOLATION property=%s replay=%s' % (self.pid, rp))
                print('  key=%s %s' % (key, detail[:1500]))
            return 1
        if errors:
            print('ERROR: ' + errors[0][:4000]); return 2
        if not self.stats.get('cases') or not self.hashes.get('inputs'):
            print('ERROR: nothing was observed'); return 2
        print('%s: held on %d cases, %d distinct inputs (%.0f s)' % (self.pid, self.stats['cases'], len(self.hashes.get('inputs', ())), time.monotonic() - T0))
        for n in self.notes: print('  note: ' + n)
        return 0

    def evidence(self, jobs, ran):
        cov = {'evaluations': self.stats.get('evaluations', self.stats.get('cases', 0)),
               'distinct_nontrivial': len(self.hashes.get('inputs', ())),
               'rule': self.conf['rule'], 'samples': self.samples[:12] or ['none'],
               'observed': {k: v for k, v in sorted(self.stats.items())},
               'distinct': {k: len(v) for k, v in sorted(self.hashes.items()) if k != 'inputs'},
               'processes': ran, 'slices_planned': len(jobs),
               'variants': sorted({j['variant'] for j in jobs}), 'groups': sorted({j['variant'] + ':' + j['group'] for j in jobs}),
               'notes': self.notes}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.conf.get('level', 'exploration'), 'coverage': cov,
              'assumptions': self.conf.get('assumptions', []), 'wall_s': round(time.monotonic() - T0, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)

    def close(self): shutil.rmtree(self.work, ignore_errors=True)

def tail_report(out, mark):
    i = out.find(mark); i = max(0, i - 100)
    return out[i:i + 5000]

def load_findings(pid):
    res = []
    fn = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            # known: property=C01 key=<key> match=<substring, may be quoted> :: text
            m = re.match(r'known: property=(\S+) key=(\S+) match="([^"]*)" :: (.*)$', line.strip())
            if m and m.group(1) == pid: res.append({'key': m.group(2), 'match': m.group(3), 'text': m.group(4)})
    return res

def main():
    import checks
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    if a[0] == 'list':
        print('\n'.join(checks.CHECKS)); return 0
    if a[0] == 'setup':
        os.makedirs(os.path.join(HERE, '.work'), exist_ok=True)
        w = tempfile.mkdtemp(dir=os.path.join(HERE, '.work'))
        try:
            if not toolchain_ok(w): print('toolchain does not work'); return 2
            b = Builder(w)
            for m in ('TSAN', 'SCHED'): b.rt(m).result()
        finally: shutil.rmtree(w, ignore_errors=True)
        print('ready'); return 0
    if a[0] == 'check':
        if len(a) > 2: tier = a[2]
        for d in glob.glob(os.path.join(HERE, '.work', '*-*-*')):       # left over by killed runs
            m = re.match(r'.*-(\d+)-[^-]*$', d)
            if m and not os.path.exists('/proc/' + m.group(1)): shutil.rmtree(d, ignore_errors=True)
        c = Check(a[1], checks.CHECKS[a[1]], tier, seed)
        try: rc = c.run()
        finally: c.close()
        sys.stdout.flush()
        return rc
    if a[0] == 'replay':
        r = json.load(open(a[1])); j = r['job']
        print(r['detail'])
        if not j.get('src'): return 0
        c = Check(r['property'], checks.CHECKS[r['property']], r['tier'], r['seed'])
        try:
            j['exe'] = c.b.exe(j['src'], j['variant'], tuple(j.get('extra', ())), j.get('guard', True), tuple(j.get('link', ()))).result()
            if len(a) > 2: shutil.copy(j['exe'], a[2])
            rc, out, cur = c.run_proc(j, r['case'], r['case'] + 1, 900, 800)
            print(out[-8000:]); print('exit', rc); res = c.classify(j, rc, out, cur)
            print('REPRODUCED' if res and res != 'retry' else 'not reproduced'); return 1 if res else 0
        except BuildFailure as e: print(e.out[-3000:]); return 1
        finally: c.close()
    print(__doc__); return 2

if __name__ == '__main__':
    sys.path.insert(0, HERE)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
