"""Runs the checks: compiles /repo's current sources with a harness to LLVM IR, executes the result symbolically with vse,
replays every counterexample (and a sample of the completed paths) against native builds, writes the evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
H = V + '/harness'
LLVM = '/usr/lib/llvm-18/bin/'
VSE = V + '/build/vse'
INC = ['-I' + V + '/shim/include', '-I' + REPO + '/include', '-I' + REPO + '/libCrashDebug/src', '-I' + REPO + '/libcommon/src', '-I' + H]
BASE = ['-std=gnu90', '-w', '-D__NO_CTYPE', '-U_FORTIFY_SOURCE', '-Dferror=env_ferror'] + ['-D%s=env_%s' % (f, f) for f in ('calloc', 'strdup', 'strndup', 'feof', 'clearerr', 'fgetc', 'getc', 'rewind', 'fputs', 'fputc', 'putc', 'puts', 'vfprintf', 'vprintf', 'fflush')] + ['-include', 'stdlib.h', '-include', 'assert.h']
CORES = max(1, min(8, os.cpu_count() or 1))
NAT = {
    'asan': (['clang', '-g', '-O0', '-fsanitize=address', '-fno-omit-frame-pointer'], []),
    'gccO2': (['gcc', '-g', '-O2'], []),
    'pattern': (['clang', '-g', '-O0', '-ftrivial-auto-var-init=pattern'], []),
    'gccO0': (['gcc', '-g', '-O0'], []),
    'clangO2': (['clang', '-g', '-O2'], []),
    'ubsan': (['clang', '-g', '-O1', '-fsanitize=integer-divide-by-zero,null,unreachable,return,bounds', '-fno-sanitize-recover=all'], []),
}
ENVV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:exitcode=99:malloc_fill_byte=165')


class Fail(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def group(name):
    """source groups of the repository: every C file of a directory, so that a moved helper is still found"""
    if name == 'core':
        return sorted(glob.glob(REPO + '/libCrashDebug/src/*.c') + glob.glob(REPO + '/libcommon/src/*.c'))
    if name == 'mocks':
        return sorted(glob.glob(REPO + '/libmocks/src/*.c'))
    if name.startswith('!'):
        return [REPO + '/' + name[1:]]
    return [H + '/' + name]


class Job:
    def __init__(self, harness, defs=None, srcs=('core', 'env.c', 'hooks.c'), time=700, steps=30000000, workers=None, src_defs=None, name=None, covers_optional=(), memory=None):
        self.harness, self.defs, self.srcs = harness, defs or {}, list(srcs)
        self.time, self.steps, self.workers, self.src_defs = time, steps, workers, src_defs or {}
        self.covers_optional = set(covers_optional)
        self.name = name or harness.replace('.c', '') + ''.join(',%s=%s' % kv for kv in self.defs.items())


class Builder:
    def __init__(self, tmp):
        self.tmp, self.lock, self.cache = tmp, threading.Lock(), {}

    def defs_for(self, job, src):
        d = ['-D%s=%s' % kv for kv in job.defs.items()] if src.startswith(H) else []
        for k, v in job.src_defs.items():
            if src.endswith(k):
                d += v
        return d

    def sources(self, job):
        out = []
        for g in [job.harness] + job.srcs:
            for f in group(g):
                if f not in out:
                    out.append(f)
        return out

    def ir(self, src, defs):
        key = (src, tuple(defs))
        with self.lock:
            fut = self.cache.get(key)
            own = fut is None
            if own:
                fut = self.cache[key] = cf.Future()
        if own:
            out = '%s/%s.ll' % (self.tmp, hashlib.sha1(repr(key).encode()).hexdigest()[:16])
            if src.endswith('/rt.c'):
                cmd = ['clang', '-S', '-emit-llvm', '-O1', '-w', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-U_FORTIFY_SOURCE', src, '-o', out]
            else:
                cmd = ['clang', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-builtin'] + BASE + INC + defs + [src, '-o', out]
            r = run(cmd)
            fut.set_result((out, r.stderr if r.returncode else ''))
        path, err = fut.result()
        if err:
            raise Fail('cannot compile %s:\n%s' % (src, err[-2000:]))
        return path

    def module(self, job):
        lls = [self.ir(V + '/engine/rt.c', [])]
        for s in self.sources(job):
            lls.append(self.ir(s, self.defs_for(job, s)))
        base = '%s/%s' % (self.tmp, hashlib.sha1(job.name.encode()).hexdigest()[:16])
        r = run([LLVM + 'llvm-link', '-S'] + lls + ['-o', base + '.all.ll'])
        if r.returncode:
            raise Fail('llvm-link: ' + r.stderr[-2000:])
        text = open(base + '.all.ll').read()
        open(base + '.prot.ll', 'w').write(protect(text.replace('"no-builtins"', '')))
        r = run([LLVM + 'opt', '-S', '-passes=internalize,globaldce,function(mem2reg,instsimplify,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>,loop-simplify,lcssa,loop(loop-rotate),loop(indvars,loop-idiom,loop-deletion),instsimplify,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>)', '-internalize-public-api-list=vf_main', base + '.prot.ll', '-o', base + '.opt.ll'])
        if r.returncode:
            raise Fail('opt: ' + r.stderr[-2000:])
        os.unlink(base + '.all.ll'); os.unlink(base + '.prot.ll')
        return base + '.opt.ll'

    def native(self, job, variant):
        key = ('nat', job.name, variant)
        with self.lock:
            fut = self.cache.get(key)
            own = fut is None
            if own:
                fut = self.cache[key] = cf.Future()
        if own:
            cc, post = NAT[variant]
            out = '%s/n_%s' % (self.tmp, hashlib.sha1(repr(key).encode()).hexdigest()[:16])
            objs, err = [], ''
            for s in self.sources(job) + [H + '/native.c']:
                o = '%s.%d.o' % (out, len(objs))
                r = run(cc + ['-c', '-ffunction-sections', '-fdata-sections'] + BASE + INC + self.defs_for(job, s) + [s, '-o', o])
                if r.returncode:
                    err = r.stderr
                    break
                objs.append(o)
            if not err:
                r = run(cc + objs + ['-Wl,--gc-sections', '-no-pie', '-Wl,-z,lazy', '-Wl,--unresolved-symbols=ignore-all', '-o', out])
                if r.returncode:
                    err = r.stderr
            for o in objs:
                if os.path.exists(o):
                    os.unlink(o)
            fut.set_result((out, err))
        path, err = fut.result()
        if err:
            raise Fail('cannot build natively (%s):\n%s' % (variant, err[-2000:]))
        return path


def protect(text):
    """frames that call setjmp stay in memory form (their locals must not become SSA values)"""
    out, lines, i = [], text.split('\n'), 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('define '):
            j = i
            while lines[j] != '}':
                j += 1
            if re.search(r'call [^\n]*@(_|__sig)?setjmp\(', '\n'.join(lines[i:j])):
                l = re.sub(r'(\) *(?:(?:unnamed_addr|local_unnamed_addr) *)?)(#\d+)', r'\1noinline optnone \2', l, count=1)
            out.append(l)
            out += lines[i + 1:j + 1]
            i = j + 1
        else:
            out.append(l)
            i += 1
    return '\n'.join(out)


def nat_run(exe, nd, timeout=20):
    f = tempfile.NamedTemporaryFile('w', suffix='.nd', delete=False)
    f.write('\n'.join(map(str, nd)) + '\n')
    f.close()
    try:
        r = subprocess.run([exe, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=ENVV, stdin=subprocess.DEVNULL)
        return r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stderr or b'').decode(errors='replace') if isinstance(e.stderr, bytes) else (e.stderr or '')
    finally:
        os.unlink(f.name)


def bad(kind, rc, err):
    """does a native outcome show the violation?"""
    if rc == 0 or rc == 77:
        return False
    if rc == 'timeout':
        return kind == 'nonterm'
    return True


class JobResult:
    pass


class Control:
    """Ends the check in time: no exploration runs past the deadline, and once a violation is confirmed the other jobs get little more time."""
    def __init__(self, seconds, pid):
        self.end, self.pid, self.lock, self.running, self.found = time.time() + seconds, pid, threading.Lock(), set(), False
        self.known = known_findings().get(pid, [])

    def known_for(self, harness, e):
        k = [k for k in self.known if k[0] == harness and k[1] == e['kind'] and k[2] == e['msg'] and (not k[3] or k[3] in e['where'])]
        return k[0] if k else None

    def signal(self, sig):
        with self.lock:
            for p in self.running:
                try:
                    os.killpg(p.pid, sig)
                except ProcessLookupError:
                    pass

    def violation(self):
        if not self.found:
            self.found = True
            t = threading.Timer(20, lambda: self.signal(signal.SIGUSR1))
            t.daemon = True
            t.start()

    def vse(self, job, workers, mod, outp):
        left = min(job.time, self.end - time.time(), 20 if self.found else 1e9)
        if left < 2:
            raise Fail('not run: ' + ('a violation was found elsewhere' if self.found else 'out of time'))
        p = subprocess.Popen([VSE, '-o', outp, '--workers', str(job.workers or workers), '--time', str(int(left)), '--steps', str(job.steps), mod], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
        with self.lock:
            self.running.add(p)
        try:
            try:
                _, err = p.communicate(timeout=left + 40)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                return -9, 'out of time'
            return p.returncode, err
        finally:
            with self.lock:
                self.running.discard(p)


# an exploration that ends early for one of these has explored part of what is within the bounds
RESOURCE = {'time budget', 'stopped', 'out of time', 'solver gave no answer', 'a solver query did not end'}


def run_job(job, b, workers, ctl):
    t0 = time.time()
    res = JobResult()
    res.job, res.fail, res.viol, res.unconfirmed = job, None, [], []
    res.stat, res.covers, res.asserted, res.funcs, res.why, res.paths = {}, {}, {}, {}, set(), []
    res.validated = res.mismatch = 0
    res.mm = []
    res.partial = None
    try:
        mod = b.module(job)
        outp = mod + '.out'
        rc, err = ctl.vse(job, workers, mod, outp)
        if rc and rc != -9:
            raise Fail('vse failed (%s): %s' % (rc, err[-1500:]))
        errs, mods = [], None
        for f in glob.glob(outp + '.*'):
            for line in open(f):
                d = json.loads(line)
                if d['t'] == 'stat':
                    for k, v in d.items():
                        if isinstance(v, (int, float)):
                            res.stat[k] = res.stat.get(k, 0) + v
                    for k, v in d['covers'].items():
                        res.covers[k] = res.covers.get(k, 0) + v
                    for k, v in d['asserted'].items():
                        res.asserted[k] = res.asserted.get(k, 0) + v
                    res.why |= set(d['why'])
                    for n, fi, seen, tot in d['funcs']:
                        o = res.funcs.get(n, (fi, 0, tot))
                        res.funcs[n] = (fi, max(o[1], seen), tot)
                elif d['t'] == 'err':
                    errs.append(d)
                elif d['t'] == 'path':
                    res.paths.append(d)
                elif d['t'] == 'module':
                    mods = d
            os.unlink(f)
        os.unlink(mod)
        if rc:
            res.stat['incomplete'] = res.stat.get('incomplete', 0) + 1
            res.why.add(err)
        # counterexamples: only what the native build reproduces is a violation
        seen = {}
        for e in errs:
            k = (e['kind'], e['msg'], e['where'] if e['kind'] != 'assert' else '')
            if seen.get(k, 0) == 1:
                continue
            hit = None
            order = ['asan', 'gccO2', 'pattern', 'gccO0', 'clangO2', 'ubsan']
            for var in order:
                rc, err = nat_run(b.native(job, var), e['nd'])
                if rc == 127:
                    raise Fail('native build does not start: ' + err[-300:])
                if bad(e['kind'], rc, err):
                    hit = (var, rc, err)
                    break
            if hit:
                seen[k] = 1
                res.viol.append((e, hit))
                if not ctl.known_for(job.harness, e):
                    ctl.violation()
            else:
                res.unconfirmed.append(e)
        res.unconfirmed = [e for e in res.unconfirmed if not seen.get((e['kind'], e['msg'], e['where'] if e['kind'] != 'assert' else ''))]
        # sample of completed paths: the native run must agree with the prediction
        for var, n in (('gccO2', 12), ('asan', 6)):
            for p in res.paths[:n]:
                rc, err = nat_run(b.native(job, var), p['nd'])
                got = []
                for l in err.split('\n'):
                    if l.startswith('REPLAY: reached: '):
                        got.append('c:' + l[17:])
                    elif l.startswith('REPLAY: observed: '):
                        got.append('o:' + l[18:])
                if rc == 0 and got == p['log']:
                    res.validated += 1
                elif rc not in (0, 77, 'timeout'):
                    m = re.search(r'REPLAY: violated: (.*)', err)
                    res.viol.append(({'kind': 'native', 'msg': m.group(1) if m else 'native run ends with status %s' % rc, 'where': '', 'nd': p['nd'], 'log': p['log']}, (var, rc, err)))
                else:
                    res.mismatch += 1
                    res.mm.append((var, rc, p, got, err[-500:]))
        if res.stat.get('incomplete') and not res.viol:
            if res.why - RESOURCE or not res.validated:
                raise Fail('exploration incomplete: ' + '; '.join(sorted(res.why)))
            res.partial = '; '.join(sorted(res.why))       # everything explored is fine, but not everything within the bounds was explored
        elif not res.viol and not res.unconfirmed:
            if mods:
                miss = [c for c in mods['covers'] if c not in res.covers and c not in job.covers_optional]
                if miss:
                    raise Fail('reachability witness not reached: ' + '; '.join(miss))
                miss = [c for c in mods['asserts'] if c not in res.asserted and c not in job.covers_optional and not c.startswith('file handle')]
                if miss:
                    raise Fail('assertion never evaluated: ' + '; '.join(miss))
        if not res.viol and not res.unconfirmed and res.mismatch:
            raise Fail('native run disagrees with the symbolic path: %r' % (res.mm[0],))
    except Fail as f:
        res.fail = str(f)
    res.wall = time.time() - t0
    return res


def known_findings():
    out = {}
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) harness=(\S+) kind=(\S+) msg="(.*)"(?: where="(.*)")? what="(.*)"', l.strip())
            if m:
                out.setdefault(m.group(1), []).append(m.groups()[1:])
    return out


def check(pid, jobs, tier, bounds, outside, stubs, keep=False):
    t0 = time.time()
    r = subprocess.run([V + '/engine/build.sh'])
    if r.returncode:
        print('engine build failed')
        return 2
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    rep = V + '/replays/' + pid
    shutil.rmtree(rep, ignore_errors=True)
    try:
        b = Builder(tmp)
        ctl = Control(float(os.environ.get('VF_TIME') or (420 if tier == 'quick' else 1e6)), pid)
        par = min(len(jobs), CORES)
        workers = max(1, (CORES + par - 1) // par + (1 if par < len(jobs) or par > 1 else 0))
        with cf.ThreadPoolExecutor(par) as ex:
            results = list(ex.map(lambda j: run_job(j, b, workers, ctl), jobs))
        viol, fails, told = [], [], set()
        for r in results:
            if r.fail and r.fail.startswith('not run: ') and any(x.validated for x in results):
                r.partial, r.fail = r.fail, None
            if r.fail:
                fails.append((r.job.name, r.fail))
            for e, hit in r.viol:
                kf = ctl.known_for(r.job.harness, e)
                if kf:
                    if kf not in told:
                        print('KNOWN-FINDING: property=%s %s' % (pid, kf[4]))
                    told.add(kf)
                else:
                    viol.append((r, e, hit))
            for e in r.unconfirmed:
                fails.append((r.job.name, 'counterexample that no native build reproduces: %s' % json.dumps(e)[:1500]))
        n = 0
        for r, e, (var, rc, err) in viol:
            d = '%s/%d' % (rep, n)
            n += 1
            os.makedirs(d)
            open(d + '/inputs.txt', 'w').write('\n'.join(map(str, e['nd'])) + '\n')
            json.dump({'property': pid, 'job': r.job.name, 'harness': r.job.harness, 'defs': r.job.defs, 'srcs': r.job.srcs, 'src_defs': r.job.src_defs, 'kind': e['kind'], 'msg': e['msg'], 'where': e['where'],
                       'nd': e['nd'], 'native': {'variant': var, 'status': rc, 'stderr': err[-3000:]}}, open(d + '/replay.json', 'w'), indent=1)
            print('  %s: %s: %s %s [native %s: status %s]' % (r.job.name, e['kind'], e['msg'], e['where'], var, rc))
            print('VIOLATION property=%s replay=%s' % (pid, d + '/replay.json'))
        S = lambda k: sum(r.stat.get(k, 0) for r in results)
        funcs = {}
        for r in results:
            for n_, (fi, seen, tot) in r.funcs.items():
                if fi.startswith(REPO + '/'):
                    o = funcs.get(n_, (fi, 0, tot))
                    funcs[n_] = (fi, max(o[1], seen), tot)
        samples = []
        for r in results[:40]:
            if r.paths:
                samples.append({'job': r.job.name, 'inputs': r.paths[0]['nd'][:64], 'trace': r.paths[0]['log'][:20]})
        ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
              'coverage': {
                  'states': int(S('paths')), 'transitions': int(S('steps')), 'traces_validated_against_impl': sum(r.validated for r in results), 'samples': samples[:12] or [{'note': 'no completed path'}],
                  'what': 'states: feasible symbolic paths explored; transitions: IR instructions executed symbolically; traces: completed paths whose solver-chosen inputs were run natively with the predicted trace',
                  'functions_encoded': sorted('%s:%s (%d/%d blocks)' % (os.path.relpath(fi, REPO), n_, seen, tot) for n_, (fi, seen, tot) in funcs.items()),
                  'complete': not any(r.fail or r.partial for r in results), 'bounds': bounds, 'outside': outside, 'stubs': stubs,
                  'queries': int(S('queries')), 'queries_cached': int(S('cached')), 'solver_s': round(S('solver_s'), 2), 'unknown': int(S('unknown')), 'queries_cvc5': int(S('external')),
                  'assertions_evaluated': int(S('asserts')), 'assertions_on_symbolic_values': int(S('assertq')), 'symbolic_bounds_checks': int(S('bounds')),
                  'jobs': [{'job': r.job.name, 'paths': int(r.stat.get('paths', 0)), 'queries': int(r.stat.get('queries', 0)), 'solver_s': round(r.stat.get('solver_s', 0), 2), 'wall_s': round(r.wall, 2), 'witnesses': len(r.covers), 'assertions': len(r.asserted), 'fail': r.fail, 'partial': r.partial} for r in results],
              },
              'assumptions': stubs, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
        for r in results:
            if r.partial:
                print('PARTIAL %s: no violation in what was explored, but not everything within the bounds was explored: %s' % (r.job.name, r.partial))
        for name, f in fails:
            print('INCONCLUSIVE %s: %s' % (name, f))
        print('%s %s: %d jobs, %d paths, %d steps, %d queries, %.1fs solver, %d native traces, %d violations, %.1fs' % (pid, tier, len(jobs), S('paths'), S('steps'), S('queries'), S('solver_s'), ev['coverage']['traces_validated_against_impl'], len(viol), time.time() - t0))
        for r in results:
            if os.environ.get('VF_V'):
                print('   %-50s paths %6d queries %6d solver %7.1f wall %6.1f %s' % (r.job.name, r.stat.get('paths', 0), r.stat.get('queries', 0), r.stat.get('solver_s', 0), r.wall, r.fail or ''))
        return 1 if viol else 2 if fails else 0
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    """rebuild the sources natively and run a recorded counterexample"""
    d = json.load(open(path))
    job = Job(d['harness'], d['defs'], d['srcs'], src_defs=d['src_defs'])
    tmp = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        b, hit = Builder(tmp), 0
        for var in NAT:
            rc, err = nat_run(b.native(job, var), d['nd'])
            print('%s: status %s\n%s' % (var, rc, err[-1500:]))
            hit |= bad(d['kind'], rc, err)
        return 1 if hit else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
