#!/usr/bin/env python3
"""Runs the check of one property against the current tree of /repo.

  bin/check.py C01 [--thorough] [--replay FILE] [--keep]

Builds the workload drivers of the property from /repo's working tree in a scratch directory, runs them
(and their sanitizer / fuzzing variants), re-checks the recorded events offline, writes evidence/<id>.json.
Exit 0: held. Exit 1: VIOLATION line printed. Anything else: the check could not give an answer."""
import concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import offline
from checks import CHECKS, VARIANTS

NCPU = max(2, min(8, os.cpu_count() or 2))


class Broken(Exception):
    """the check itself could not run"""


def literals():
    """integer literals of the code under test, used only to seed workloads"""
    out = set()
    for f in sorted(glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/src/*.cpp')):
        s = open(f, errors='replace').read()
        s = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', s, flags=re.S)
        for t in re.findall(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)(?![\w.])', s):
            try:
                v = int(t, 0) if not (t.startswith('0') and t.isdigit() and len(t) > 1) else int(t, 8)
            except ValueError:
                continue
            if 2 < v < 1 << 62:
                out.add(v)
    return sorted(out)[:400]


class Run:
    Broken = Broken

    def __init__(self, pid, thorough, seed, keep=False):
        self.pid, self.thorough, self.seed, self.keep = pid, thorough, seed, keep
        self.cfg = CHECKS[pid]
        self.tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
        self.t0 = time.time()
        self.viol = []      # dicts: key, desc, replay info
        self.parts = {}     # per job evidence
        self.notes = []
        self.lits = literals()
        self.objs = {}
        self.lock = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(16)
        self.cpu = threading.Semaphore(NCPU)

    # ---------------------------------------------------------------- building
    def compile(self, src, out, cxx, flags):
        cmd = cxx.split() + ['-I', REPO + '/include', '-I', H, '-w'] + flags + ['-c', src, '-o', out]
        with self.cpu:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode:
            raise Broken('cannot compile %s\n%s\n%s' % (src, ' '.join(cmd), p.stdout[-4000:]))
        return out

    def lib(self, vname, v):
        """objects of the library itself for one variant (built once)"""
        with self.lock:
            if vname not in self.objs:
                d = os.path.join(self.tmp, 'lib_' + vname)
                os.makedirs(d)
                srcs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
                if not srcs:
                    raise Broken('no library sources')
                flags = v['flags']
                self.objs[vname] = [self.pool.submit(self.compile, s, os.path.join(d, '%d.o' % i), v['cxx'], flags) for i, s in enumerate(srcs)]
        return self.objs[vname]

    def link(self, v):
        out = []
        for l in v.get('link', []):
            if l == '@fuzzer':
                l = subprocess.run(['clang++', '-print-file-name=libclang_rt.fuzzer_no_main-x86_64.a'], stdout=subprocess.PIPE, text=True).stdout.strip()
                if not os.path.isabs(l):
                    r = subprocess.run(['clang++', '-print-resource-dir'], stdout=subprocess.PIPE, text=True).stdout.strip()
                    l = (glob.glob(r + '/lib/*/libclang_rt.fuzzer_no_main-x86_64.a') + [l])[0]
            out.append(l)
        return out

    def build(self, job):
        if job.get('kind') == 'builds':
            return None
        vname = job['variant']
        v = VARIANTS[vname]
        libs = self.lib(v.get('lib', vname), VARIANTS[v.get('lib', vname)])
        srcs = job['src'] if isinstance(job['src'], list) else [job['src']]
        objs = []
        futs = []
        for i, s in enumerate(srcs):
            o = os.path.join(self.tmp, '%s_%d.o' % (job['name'], i))
            futs.append(self.pool.submit(self.compile, os.path.join(H, s), o, v['cxx'], v['flags'] + job.get('defs', [])))
        try:
            objs = [f.result() for f in futs] + [f.result() for f in libs]
        except Broken as e:
            # the program that uses other digit containers is rejected, the same without them compiles
            if not job.get('plain_defs'):
                raise
            [f.result() for f in libs]
            for s in srcs:
                self.compile(os.path.join(H, s), os.path.join(self.tmp, job['name'] + '_plain.o'), v['cxx'], v['flags'] + job.get('defs', []) + job['plain_defs'])
            err = next((l for l in str(e).split('\n') if 'error:' in l), 'compile error').replace(self.tmp, '')
            self.add_viol('container|rejected', 'numbers or primitives on a digit container other than std::vector do not compile: ' + err[:600], {'kind': 'compile', 'job': job['name']})
            return None
        exe = os.path.join(self.tmp, job['name'])
        with self.cpu:
            p = subprocess.run(v['cxx'].split() + v['flags'] + objs + ['-o', exe, '-pthread'] + self.link(v), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode:
            raise Broken('cannot link %s\n%s' % (exe, p.stdout[-4000:]))
        return exe

    # ---------------------------------------------------------------- running
    def env(self, v):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:symbolize=0:handle_abort=0'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=0:abort_on_error=1:halt_on_error=1'
        e['TSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0'
        e['MSAN_OPTIONS'] = 'abort_on_error=1:halt_on_error=1:symbolize=0'
        e['LC_ALL'] = 'C.UTF-8'
        e.update(v.get('env', {}))
        return e

    def limits(self, v):
        mem = v.get('as_gb')

        def f():
            os.setpgid(0, 0)
            if mem:
                b = int(mem * (1 << 30))
                resource.setrlimit(resource.RLIMIT_AS, (b, b))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            s = v.get('stack_mb')
            if s:
                resource.setrlimit(resource.RLIMIT_STACK, (s << 20, s << 20))
        return f

    def run_cmd(self, cmd, v, log, timeout, stop=None):
        with open(log, 'wb') as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=self.env(v), preexec_fn=self.limits(v), cwd=self.tmp)
            rc, end = 'timeout', time.time() + timeout
            while time.time() < end:
                try:
                    rc = p.wait(min(2, max(0.01, end - time.time())))
                    break
                except subprocess.TimeoutExpired:
                    if stop is not None and stop.is_set():
                        rc = 'stopped'
                        break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        return rc

    def tail(self, log, n=6000):
        try:
            with open(log, 'rb') as f:
                f.seek(0, 2)
                f.seek(max(0, f.tell() - n))
                return f.read().decode('utf-8', 'replace')
        except OSError:
            return ''

    def sanitizer_lines(self, text):
        out = [l for l in text.split('\n') if re.search(r'ERROR: \w*Sanitizer|WARNING: \w*Sanitizer|runtime error:|SUMMARY:|==\d+== +(Invalid|Conditional|Use of|Mismatched|Process|at |by )|definitely lost|Assertion .* failed|terminate called|what\(\):|VFVIOL|^MISMATCH', l)]
        return '; '.join(out[:6])[:1500]

    def seed_of(self, job):
        return (self.seed * 1000003 + job.get('seed_salt', 0)) & 0x7fffffffffffffff if job.get('seed_salt') else self.seed

    def driver(self, job, exe):
        v = VARIANTS[job['variant']]
        d = os.path.join(self.tmp, job['name'] + '.d')
        os.makedirs(d)
        out = os.path.join(d, 'report.json')
        log = os.path.join(d, 'log')
        scale = job.get('tscale', job.get('scale', 1.0)) if self.thorough else job.get('scale', 1.0)
        seed = self.seed_of(job)
        shards = job.get('shards', NCPU)
        args = ['--seed', str(seed), '--scale', str(scale), '--shards', str(shards), '--tmp', d, '--hang', str(job.get('hang', 20))]
        if self.thorough:
            args.append('--thorough')
        if job.get('only'):
            args += ['--only', job['only']]
        if self.lits:
            args += ['--lits', ' '.join(map(str, self.lits))]
        rc = self.run_cmd([exe] + args + ['--out', out], v, log, job.get('timeout', 600) if not self.thorough else 5400)
        if rc not in (0, 1) or not os.path.exists(out):
            raise Broken('driver %s ended with %s\n%s' % (job['name'], rc, self.tail(log)))
        r = json.load(open(out))
        if not r['evaluations'] and not r['violations']:
            raise Broken('driver %s evaluated nothing' % job['name'])
        logtail = None
        for x in r['violations']:
            if x['key'].startswith('crash') and logtail is None:
                logtail = self.sanitizer_lines(self.tail(log, 200000))
            desc = x['desc'] + (('; ' + logtail) if logtail and x['key'].startswith('crash') else '')
            self.add_viol(x['key'], desc, {'kind': 'driver', 'job': job['name'], 'seed': seed, 'scale': scale, 'case': '%s:%d' % (x['workload'], x['index'])})
        bad, checked = offline.check(r.get('events', []))
        for k, dsc in bad[:5]:
            self.add_viol(k, 'offline replay: ' + dsc, {'kind': 'driver', 'job': job['name'], 'seed': seed, 'scale': scale, 'case': 'events'})
        part = {'evaluations': r['evaluations'], 'distinct_nontrivial': r['distinct_nontrivial'], 'events_rechecked_offline': checked,
                'counters': r['counters'], 'notes': r['notes'][:10], 'variant': job['variant'], 'seed': seed}
        self.parts[job['name']] = (part, r['samples'], job)
        self.notes += r['notes'][:5]

    def fuzz(self, job, exe):
        v = VARIANTS[job['variant']]
        runs = int(job.get('truns', job['runs'] * 10) if self.thorough else job['runs'])
        secs = job.get('secs', 25) if not self.thorough else job.get('tsecs', 900)
        n = job.get('procs', 2)

        def one(k):
            d = os.path.join(self.tmp, '%s.%d' % (job['name'], k))
            os.makedirs(d + '/corpus')
            log = d + '/log'
            seed = (self.seed * 7919 + k * 104729 + 1) % 2147483647 or 1
            cmd = [exe, '--fuzz', '-runs=%d' % runs, '-seed=%d' % seed, '-max_total_time=%d' % secs, '-timeout=60', '-rss_limit_mb=5000', '-max_len=%d' % job.get('max_len', 256),
                   '-len_control=20', '-artifact_prefix=' + d + '/', '-print_final_stats=1', '-use_value_profile=%d' % (k % 2), d + '/corpus']
            vv = dict(v)
            vv['env'] = dict(v.get('env', {}), VF_LITS=' '.join(map(str, self.lits)))
            with self.cpu:
                rc = self.run_cmd(cmd, vv, log, secs * 2 + 150)
            text = self.tail(log, 60000)
            m = re.search(r'stat::number_of_executed_units:\s+(\d+)', text)
            units = int(m.group(1)) if m else 0
            cov = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', text)
            arts = sorted(glob.glob(d + '/crash-*') + glob.glob(d + '/oom-*') + glob.glob(d + '/timeout-*'))
            if rc != 0 or arts:
                if not arts:
                    raise Broken('fuzzer %s ended with %s\n%s' % (job['name'], rc, text[-3000:]))
                a = arts[0]
                rc2 = self.run_cmd([exe, '--fuzz', '-timeout=100', '-rss_limit_mb=5000', a], vv, log + '.again', 150)
                t2 = self.tail(log + '.again', 60000)
                if rc2 == 0:
                    self.notes.append('fuzz artifact did not recur: ' + os.path.basename(a))
                else:
                    m2 = re.search(r'VFVIOL key=(\S+) desc=(.*)', t2)
                    key = m2.group(1) if m2 else 'crash|fuzz'
                    desc = m2.group(2) if m2 else self.sanitizer_lines(t2) or os.path.basename(a)
                    self.add_viol(key, 'fuzz: ' + desc[:3000], {'kind': 'fuzz', 'job': job['name'], 'input_hex': open(a, 'rb').read().hex()})
            return units, cov[-1] if cov else ('0', '0', '0')
        rs = list(cf.ThreadPoolExecutor(n).map(one, range(n)))
        part = {'evaluations': sum(r[0] for r in rs), 'fuzz_coverage_edges': max(int(r[1][0]) for r in rs), 'fuzz_features': max(int(r[1][1]) for r in rs),
                'fuzz_corpus': sum(int(r[1][2]) for r in rs), 'variant': job['variant'], 'processes': n}
        self.parts[job['name']] = (part, [], job)

    def program(self, job, exe):
        """a driver with its own event log; custom runner from offline.py or plain exit code"""
        fn = getattr(offline, job['runner'])
        fn(self, job, exe)

    # ---------------------------------------------------------------- reporting
    def add_viol(self, key, desc, replay):
        with self.lock:
            self.viol.append({'key': key, 'desc': desc, 'replay': replay})

    def known(self):
        res = []
        p = os.path.join(VERIF, 'known_findings')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == self.pid:
                    res.append((m.group(2), m.group(3).strip()))
        return res

    def jobs(self):
        return [j for j in self.cfg['jobs'] if self.thorough or not j.get('thorough_only')]

    def execute(self):
        jobs = self.jobs()
        built = {}
        futs = {j['name']: cf.ThreadPoolExecutor(1).submit(self.build, j) for j in jobs if 'exe_of' not in j}
        for j in jobs:
            if 'exe_of' in j:
                futs[j['name']] = futs[j['exe_of']]
        bg = []
        order = sorted(jobs, key=lambda j: j['kind'] == 'fuzz')
        fz = [j for j in order if j['kind'] == 'fuzz']
        fg = [j for j in order if j['kind'] != 'fuzz']
        ex = cf.ThreadPoolExecutor(4)
        for j in fz:
            bg.append(ex.submit(lambda j=j: futs[j['name']].result() and self.fuzz(j, futs[j['name']].result())))
        for j in fg:
            exe = futs[j['name']].result()
            if not exe and j['kind'] != 'builds':
                continue
            if any(x['key'].startswith('hang') for x in self.viol):
                self.notes.append('%s not run: an operation hangs' % j['name'])
                continue
            if j['kind'] == 'program' and self.viol and not self.thorough:      # e.g. a data race just reported: the plain run may never end
                self.notes.append('%s not run: a violation was already seen' % j['name'])
                continue
            offline.builds(self, j) if j['kind'] == 'builds' else (self.driver if j['kind'] == 'driver' else self.program)(j, exe)
        for b in bg:
            b.result()

    def finish(self):
        known = self.known()
        fresh, seen = [], {}
        for v in self.viol:
            k = next((k for k in known if k[0] == v['key']), None)
            if k:
                seen[k] = seen.get(k, 0) + 1
            else:
                fresh.append(v)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k[1]))
        rd = os.path.join(VERIF, 'replays')
        done = set()
        for v in fresh:
            if v['key'] in done:
                continue
            done.add(v['key'])
            os.makedirs(rd, exist_ok=True)
            h = hashlib.sha1((v['key'] + v['desc']).encode()).hexdigest()[:12]
            path = os.path.join(rd, '%s-%s.json' % (self.pid, h))
            json.dump({'property': self.pid, 'thorough': self.thorough, **v, 'lits': self.lits,
                       'how': 'bin/check.py %s --replay %s' % (self.pid, path)}, open(path, 'w'), indent=1)
            if len(done) <= 10:
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('  %s: %s' % (v['key'], v['desc'][:1200]))
        self.evidence(len(done))
        return 1 if fresh else 0

    def evidence(self, nviol):
        cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': self.cfg['rule'], 'samples': [], 'parts': {}}
        for name, (part, samples, job) in self.parts.items():
            cov['evaluations'] += part.get('evaluations', 0)
            if not job.get('same_cases'):
                cov['distinct_nontrivial'] += part.get('distinct_nontrivial', 0)
            cov['samples'] += samples[:4]
            cov['parts'][name] = part
        cov['samples'] = cov['samples'][:8] or ['(no sample recorded)']
        if self.cfg.get('exhaustive'):
            cov['exhaustive_parts'] = self.cfg['exhaustive']
        cov['integer_literals_seeded_from_source'] = len(self.lits)
        if self.notes:
            cov['notes'] = self.notes[:10]
        ev = {'property': self.pid, 'tier': 'thorough' if self.thorough else 'quick', 'seed': self.seed, 'level': self.cfg['level'],
              'coverage': cov, 'assumptions': self.cfg.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 2), 'violations': nviol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        json.dump(ev, open(p + '.tmp', 'w'), indent=1)
        os.replace(p + '.tmp', p)

    def replay(self, path):
        r = json.load(open(path))
        rp = r['replay']
        job = next(j for j in self.cfg['jobs'] if j['name'] == rp['job'])
        if rp['kind'] == 'builds':
            offline.builds(self, job, rp['only'])
            for x in self.viol:
                print('%s: %s' % (x['key'], x['desc']))
            print('replay: %s' % ('violation reproduced' if self.viol else 'no violation'))
            return 1 if self.viol else 0
        exe = self.build(job)
        if not exe or rp['kind'] == 'compile':
            print('replay: %s' % ('no violation' if exe else 'violation reproduced: ' + self.viol[-1]['desc']))
            return 0 if exe else 1
        v = VARIANTS[job['variant']]
        log = os.path.join(self.tmp, 'replay.log')
        self.lits = r.get('lits', self.lits)
        if rp['kind'] == 'program':
            rc = self.run_cmd(job.get('pre', []) + [exe] + rp['args'], v, log, 900)
        elif rp['kind'] == 'fuzz':
            a = os.path.join(self.tmp, 'input')
            open(a, 'wb').write(bytes.fromhex(rp['input_hex']))
            vv = dict(v)
            vv['env'] = dict(v.get('env', {}), VF_LITS=' '.join(map(str, self.lits)))
            rc = self.run_cmd([exe, '--fuzz', a], vv, log, 900)
        else:
            cmd = [exe, '--seed', str(rp['seed']), '--scale', str(rp.get('scale', 1)), '--tmp', self.tmp, '--lits', ' '.join(map(str, self.lits)), '--replay', rp['case']]
            if r.get('thorough'):
                cmd.append('--thorough')
            rc = self.run_cmd(cmd, v, log, 900)
        print(self.tail(log, 8000))
        print('replay: %s' % ('violation reproduced' if rc else 'no violation'))
        return 1 if rc else 0

    def close(self):
        if not self.keep:
            shutil.rmtree(self.tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    pid = a[0]
    thorough = '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    r = Run(pid, thorough, seed, '--keep' in a)

    def bye(*_):
        r.close()
        os._exit(3)
    signal.signal(signal.SIGTERM, bye)
    try:
        if '--replay' in a:
            return r.replay(a[a.index('--replay') + 1])
        r.execute()
        return r.finish()
    except Broken as e:
        # what was already seen is still a violation
        sys.stderr.write('check %s: %s\n' % (pid, e))
        if r.viol:
            return r.finish() or 3
        return 3
    finally:
        r.close()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
