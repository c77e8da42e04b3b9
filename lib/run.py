"""Builds harnesses from /repo's working tree, explores their scenarios, confirms
and reports violations, and writes evidence."""
import array, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
NCPU = os.cpu_count() or 8
CLANG = next((c for c in ('clang++-18', 'clang++') if shutil.which(c)), 'clang++')
BASE = ['-std=c++2a', '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS,
        '-Wno-everything', '-ferror-limit=5']
ASAN = ['-O1', '-gline-tables-only', '-fsanitize=address', '-fno-omit-frame-pointer']
# nothing depends on memory never written, and nothing is undefined: the C driver, so that operator new stays the harness's
MEM = ['--driver-mode=gcc', '-O0', '-gline-tables-only', '-fno-omit-frame-pointer', '-fsanitize=memory,undefined,float-cast-overflow',
       '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-fsanitize-ignorelist=' + os.path.join(HARNESS, 'msan.ignore')]
ENV = dict(os.environ, LC_ALL='C.UTF-8', MSAN_OPTIONS='exitcode=66:hard_rss_limit_mb=3000:symbolize=1',
           UBSAN_OPTIONS='exitcode=66:print_stacktrace=1',
           ASAN_OPTIONS='detect_leaks=0:exitcode=66:quarantine_size_mb=4:hard_rss_limit_mb=2000:'
                        'detect_stack_use_after_return=0:allocator_may_return_null=0:symbolize=1:'
                        'detect_odr_violation=0:max_allocation_size_mb=2000')
for k in ('CPATH', 'CPLUS_INCLUDE_PATH', 'CXXFLAGS'):
    ENV.pop(k, None)

SHM = struct.Struct('<QQQQQiiiiQQ2048s')
MAXC = 4096


class Err(Exception):
    pass


def shm_read(path):
    with open(path, 'rb') as f:
        b = f.read()
    if len(b) < SHM.size:
        return None
    m, ex, tr, st, ops, depth, n, lastn, lastdepth, done, other, msg = SHM.unpack_from(b)
    o = SHM.size
    c = list(struct.unpack_from('<%di' % max(n, 0), b, o)) if 0 <= n <= MAXC else []
    lc = list(struct.unpack_from('<%di' % max(lastn, 0), b, o + 8 * MAXC)) if 0 <= lastn <= MAXC else []
    return dict(execs=ex, trans=tr, states=st, ops=ops, depth=depth, n=n, choices=c, lastc=lc,
                lastdepth=lastdepth, done=done, other=other,
                msg=msg.split(b'\0')[0].decode('utf-8', 'replace'))


class Check:
    def __init__(self, pid, tier, spec):
        self.pid, self.tier, self.spec = pid, tier, spec
        self.t0 = time.time()
        self.deadline = self.t0 + (780 if tier == 'quick' else 6 * 3600)
        os.makedirs(os.path.join(VERIF, '.build'), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + '-', dir=os.path.join(VERIF, '.build'))
        self.viol = []
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.procs = set()

    # ---- processes ----
    def call(self, cmd, timeout, cwd=None):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env=ENV, cwd=cwd or self.dir, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=max(1, timeout))
            return p.returncode, out.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.communicate()
            return None, 'timeout'
        finally:
            with self.lock:
                self.procs.discard(p)

    def kill_all(self):
        self.stop.set()
        with self.lock:
            for p in self.procs:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass

    # ---- build ----
    def compile(self, unit):
        src, defs = unit['src'], unit.get('defs', [])
        exe = os.path.join(self.dir, unit['name'])
        san = ASAN if unit.get('asan', True) else ['-O2' if not unit.get('o') else unit['o']]
        if unit.get('mem'):
            san = MEM
        cmd = [CLANG] + BASE + san + ['-D' + d for d in defs] + unit.get('flags', []) + \
              [os.path.join(HARNESS, src), '-o', exe] + (['-lstdc++', '-lm'] if unit.get('mem') else [])
        rc, out = self.call(cmd, self.deadline - time.time())
        return unit, exe, rc, out, cmd

    def headers_ok(self):
        """Do the library's own umbrella of headers still compile?"""
        src = os.path.join(self.dir, 'umbrella.cpp')
        hs = sorted(h for h in os.listdir(os.path.join(REPO, 'include', 'cest')) if h.endswith('.hpp'))
        with open(src, 'w') as f:
            f.write(''.join('#include <cest/%s>\n' % h for h in hs))
        rc, out = self.call([CLANG] + BASE + ['-fsyntax-only', src], 120)
        return rc == 0, out

    def build(self):
        units = self.spec['units'](self.tier) if callable(self.spec['units']) else self.spec['units']
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(self.compile, units))
        exes = []
        for unit, exe, rc, out, cmd in res:
            if rc is None:
                raise Err('compiling %s timed out' % unit['name'])
            if rc != 0:
                if 'clang: error' in out and 'unable to execute' in out:
                    raise Err(out)
                ok, o2 = self.headers_ok()
                if not ok:
                    raise Err('the headers do not compile:\n' + o2[:3000])
                self.violation(dict(kind='compile', unit=unit['name'], cmd=' '.join(cmd), output=out[:6000],
                                    message='a well-formed use of the library does not compile: ' +
                                            next((l for l in out.splitlines() if 'error:' in l), '')))
            exes.append((unit, exe))
        return exes

    # ---- explore ----
    def list(self, exe):
        rc, out = self.call([exe, '--list'], 60)
        if rc != 0:
            # nothing ran yet: static initialisation of the library failed
            self.violation(dict(kind='crash', unit=os.path.basename(exe), output=out[-4000:],
                                message='the program crashes before main'))
        r = []
        for l in out.split('\n'):
            f = l.split()
            if len(f) == 5:
                r.append((f[0], int(f[1]), int(f[2]), int(f[3]), int(f[4])))
        return r

    def job(self, j):
        if self.stop.is_set():
            return j, None, None, ''
        unit, exe, sc, depth, i, n = j
        base = os.path.join(self.dir, '%s.%s.%d' % (unit['name'], sc, i))
        cmd = [exe, '--scenario', sc, '--shard', '%d/%d' % (i, n), '--shm', base + '.shm',
               '--hashes', base + '.hash', '--depth', str(depth), '--tier', unit.get('tier', self.tier)]
        t = time.time()
        rc, out = self.call(cmd, self.deadline - time.time())
        info = shm_read(base + '.shm') if os.path.exists(base + '.shm') else None
        if info:
            info['wall'] = time.time() - t
        if rc == 4 and unit.get('mem') and info:
            # ended by a failure that another check reports
            rc, info['done'], info['other'] = 0, 1, info['other'] + 1
        if rc != 0 and not self.stop.is_set() and not (rc in (0,)):
            self.first_bad.set()
        return j, rc, info, out

    def replay_cmd(self, exe, sc, depth, choices, unit={}):
        return [exe, '--scenario', sc, '--depth', str(depth), '--tier', unit.get('tier', self.tier), '--trace',
                '--replay', ','.join(map(str, choices))]

    def confirm(self, exe, sc, depth, choices, unit, timeout=90):
        outs = []
        for _ in range(2):
            rc, out = self.call(self.replay_cmd(exe, sc, depth, choices, unit), timeout)
            if rc == 0:
                return None
            if rc == 9 or rc == 64:
                raise Err('replay diverged: ' + out[-500:])
            if rc is None:
                out = 'HANG: still running after %d s' % timeout
            outs.append((rc, out))
        return outs[-1]

    def again(self, j, timeout=600):
        """The whole shard once more: its failure, if it fails again."""
        unit, exe, sc, depth, i, n = j
        base = os.path.join(self.dir, 'again')
        for e in ('.shm', '.hash'):
            if os.path.exists(base + e):
                os.unlink(base + e)
        rc, out = self.call([exe, '--scenario', sc, '--shard', '%d/%d' % (i, n), '--shm', base + '.shm',
                             '--hashes', base + '.hash', '--depth', str(depth), '--tier', unit.get('tier', self.tier)],
                            min(timeout, self.deadline - time.time()))
        info = shm_read(base + '.shm') if os.path.exists(base + '.shm') else None
        return (info if rc not in (0, 9, 64, None) and info else None), out

    def violation(self, v):
        self.viol.append(v)
        raise Violated()

    def explore(self):
        exes = self.build()
        jobs = []
        for unit, exe in exes:
            scs = self.list(exe)
            if not scs:
                raise Err('no scenarios in ' + unit['name'])
            for name, qd, td, qs, ts in scs:
                if 'only' in unit and name not in unit['only']:
                    continue
                if name in unit.get('skip', ()) or self.tier == 'quick' and name in unit.get('qskip', ()):
                    continue
                # a unit with a tier of its own is explored to that tier's bounds, a step deeper in the thorough one
                tier = unit.get('tier', self.tier)
                d, n = (qd, qs) if tier == 'quick' else (td, ts)
                if n == 0:
                    continue
                d = max(1, d - (unit.get('less', 0) if self.tier == 'quick' else unit.get('less', 0) - 1)) if d else d
                for i in range(n):
                    jobs.append((unit, exe, name, d, i, n))
        jobs.sort(key=lambda j: -j[5])
        self.first_bad = threading.Event()
        results = []
        with ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(self.job, j) for j in jobs]
            pend = set(futs)
            grace = None
            while pend:
                for f in list(pend):
                    if f.done():
                        pend.discard(f)
                        results.append(f.result())
                if self.first_bad.is_set():
                    # let the shards near the same depth finish, so the shortest history is reported
                    grace = grace or time.time() + 3
                    if time.time() > grace:
                        self.kill_all()
                time.sleep(0.02)
        bad = [r for r in results if r[1] not in (0, None)]
        bad = [r for r in bad if not (r[1] == -9 and self.stop.is_set())]
        for j, rc, info, out in bad:
            if rc in (9, 64) or rc == -9 or not info:
                # our own machinery, unless a crash explains it
                raise Err('%s/%s: exit %s\n%s' % (j[0]['name'], j[2], rc, out[-2000:]))
        if bad:
            bad.sort(key=lambda r: (r[2]['depth'], r[2]['n'], r[2]['choices']))
            last = None
            for j, rc, info, out in bad[:3]:
                c = self.confirm(j[1], j[2], info['depth'], info['choices'], j[0])
                if c:
                    m = info['msg'] or self.crash_line(c[1]) or 'the process died with status %s' % rc
                    self.violation(dict(kind='execution', unit=j[0]['name'], src=j[0]['src'],
                                        defs=j[0].get('defs', []), scenario=j[2], depth=info['depth'],
                                        tier=self.tier, choices=info['choices'], message=m, output=c[1][-8000:]))
                last = (j[0]['name'], j[2], rc, out[-1500:])
            # alone, the execution is fine: it may fail because of what the ones before it left behind in the library
            for j, rc, info, out in bad[:2]:
                again, out2 = self.again(j)
                if again and again['msg'] == info['msg'] and again['choices'] == info['choices']:
                    m = (info['msg'] or self.crash_line(out2) or 'the process died with status %s' % rc)
                    self.violation(dict(kind='execution', unit=j[0]['name'], src=j[0]['src'], whole=[j[4], j[5]],
                                        defs=j[0].get('defs', []), scenario=j[2], depth=j[3],
                                        tier=self.tier, choices=info['choices'], output=out2[-8000:],
                                        message=m + ' (only after the executions before it, in one process)'))
            raise Err('a failure did not reproduce on replay: %s' % (last,))
        miss = [r for r in results if r[1] is None or not r[2] or not r[2]['done']]
        if miss:
            raise Err('not completed in time: ' + ', '.join(sorted({r[0][2] for r in miss})))
        return results

    @staticmethod
    def crash_line(out):
        for l in out.splitlines():
            if 'ERROR: AddressSanitizer' in l or 'WARNING: MemorySanitizer' in l or 'MC-FAIL' in l or 'MC-HANG' in l or 'HANG:' in l \
                    or 'runtime error' in l or 'Assertion' in l or 'rss limit' in l:
                return l.strip()[:300]
        return None

    # ---- evidence ----
    def union_states(self, results):
        seen = set()
        for j, rc, info, out in results:
            p = os.path.join(self.dir, '%s.%s.%d.hash' % (j[0]['name'], j[2], j[4]))
            if not os.path.exists(p):
                continue
            a = array.array('Q')
            with open(p, 'rb') as f:
                a.frombytes(f.read())
            seen.update(a)
            os.unlink(p)
        return len(seen)

    def samples(self, results, limit=4):
        byname = {}
        for r in results:
            if r[2]['lastc']:
                byname.setdefault((r[0][0]['name'], r[0][2]), r)
        keys = sorted(byname)
        if len(keys) > limit:
            keys = [keys[i * len(keys) // limit] for i in range(limit)]
        out = []
        for k in keys:
            j, rc, info, _ = byname[k]
            rc, o = self.call(self.replay_cmd(j[1], j[2], info['lastdepth'], info['lastc'], j[0]), 60)
            out.append(dict(unit=k[0], scenario=k[1], choices=info['lastc'],
                            trace=[l for l in o.splitlines() if l][:40]))
        return out

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Violated(Exception):
    pass


def write_evidence(pid, tier, level, cov, assumptions, wall, nviol):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
              coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=nviol)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def main(pid, tier, spec):
    ck = Check(pid, tier, spec)
    level = spec.get('level', 'model_checking')
    try:
        try:
            if 'custom' in spec:
                cov = spec['custom'](ck)
            else:
                res = ck.explore()
                ex = sum(r[2]['execs'] for r in res)
                ops = sum(r[2]['ops'] for r in res)
                st = ck.union_states(res)
                per = {}
                for r in res:
                    d = per.setdefault(r[0][0]['name'] + '/' + r[0][2],
                                       dict(executions=0, calls=0, bound=r[0][3], cpu_s=0))
                    d['executions'] += r[2]['execs']
                    d['calls'] += r[2]['ops']
                    d['cpu_s'] = round(d['cpu_s'] + r[2]['wall'], 2)
                if level == 'fault_enumeration':
                    cov = dict(evaluations=ex, distinct_nontrivial=st, rule=spec['rule'], library_calls=ops)
                else:
                    cov = dict(states=st, transitions=ops, traces_validated_against_impl=ex)
                other = sum(r[2]['other'] for r in res)
                if other:
                    cov['executions_ended_by_failures_of_other_properties'] = other
                cov.update(exhaustive=not other, scenarios=per, samples=ck.samples(res))
            for n in spec.get('known', ()):
                print('KNOWN-FINDING: property=%s %s' % (pid, n))
            write_evidence(pid, tier, level, cov, spec.get('assumptions', []), time.time() - ck.t0, 0)
            print('OK property=%s tier=%s %s wall=%.1fs' %
                  (pid, tier, ' '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int)),
                   time.time() - ck.t0))
            return 0
        except Violated:
            ck.kill_all()
            v = ck.viol[0]
            rd = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s.json' % pid)
            v['property'] = pid
            v['how'] = 'python3 /verif/check.py --replay ' + path
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            z = dict(evaluations=0, distinct_nontrivial=0, rule=spec.get('rule', ''), samples=[v]) \
                if level == 'fault_enumeration' else \
                dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[v])
            write_evidence(pid, tier, level, z, spec.get('assumptions', []), time.time() - ck.t0, 1)
            print('%s' % v.get('message', '')[:600])
            for l in v.get('output', '').splitlines()[:60]:
                print('  | ' + l[:300])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        except Err as e:
            ck.kill_all()
            print('ERROR property=%s %s' % (pid, e))
            return 2
    finally:
        ck.cleanup()


def replay(path, specs):
    v = json.load(open(path))
    if v['kind'] != 'execution':
        print(json.dumps(v, indent=1))
        return 1
    ck = Check(v['property'], v.get('tier', 'quick'), specs[v['property']])
    try:
        units = ck.spec['units'](ck.tier) if callable(ck.spec['units']) else ck.spec['units']
        unit, exe, rc, out, cmd = ck.compile(next(u for u in units if u['name'] == v['unit']))
        if rc:
            print(out)
            return 1
        if 'whole' in v:
            i, n = v['whole']
            info, out = ck.again((unit, exe, v['scenario'], v['depth'], i, n))
            print(out)
            return 1 if info else 0
        rc, out = ck.call(ck.replay_cmd(exe, v['scenario'], v['depth'], v['choices'], unit), 120)
        print(out)
        return 0 if rc == 0 else 1
    finally:
        ck.cleanup()
