"""Shared machinery: building the harness, running TLC, replaying cases, reporting."""
import glob, json, os, queue, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
TARGET = os.path.join(VERIF, 'target')
NPROC = max(2, min(16, os.cpu_count() or 4))
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0 = time.time()


class ToolError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if k in ('TMPDIR', 'VERIF_SEED', 'VERIF_TIER')}
    e.update(HOME='/root', PATH='/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin',
             RUSTUP_TOOLCHAIN='1.82.0-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='1',
             CARGO_TARGET_DIR=TARGET, RUSTFLAGS='--cfg csvpp_verif', TZ='UTC', LC_ALL='C.UTF-8')
    return e


HOOKS = True


def build():
    """Builds the harness.  Should the hook not build anymore because what it uses was changed, then what it
    gives access to (the Google Sheets request) can't be checked but everything else is."""
    global HOOKS
    t = time.time()
    for flags in ('--cfg csvpp_verif', ''):
        e = env()
        e['RUSTFLAGS'] = flags
        r = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=os.path.join(VERIF, 'harness'), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        HOOKS = flags != ''
        if r.returncode == 0:
            break
        log('building the harness %s failed:\n%s' % ('with hooks' if HOOKS else 'without hooks', r.stdout[-3000:]))
    else:
        raise ToolError('building the harness failed')
    log('built the harness in %.1fs' % (time.time() - t))


def log(m):
    print('[%6.1fs] %s' % (time.time() - T0, m), flush=True)


class Scratch:
    """A directory which is removed afterwards"""
    def __init__(self):
        base = '/tmp'
        try:
            st = os.statvfs('/dev/shm')
            if st.f_bavail * st.f_frsize > 2 << 30 and os.access('/dev/shm', os.W_OK):
                base = '/dev/shm'
        except OSError:
            pass
        self.path = tempfile.mkdtemp(prefix='csvpp-verif-', dir=base)

    def sub(self, name):
        p = os.path.join(self.path, name)
        os.makedirs(p, exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


class Tlc:
    def __init__(self):
        self.states = self.generated = 0
        self.runs = []


def tlc(scratch, module, cfg, stats, simulate=None, seed=1, timeout=600, extra_env=None, workers=None, depth=None,
        xmx='10g', allow=()):
    """Runs TLC, which fails (ToolError) when the specification itself violates one of its properties.
    Returns the cases that were emitted."""
    n = len(stats.runs)
    work = scratch.sub('tlc%d' % n)
    out = os.path.join(work, 'cases.ndjson')
    e = dict(os.environ)
    e.update(CASES=out, **(extra_env or {}))
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss64m', '-Djava.io.tmpdir=' + work, '-cp', TLA_CP + ':' + SPEC, 'tlc2.TLC', '-workers', str(workers or NPROC),
           '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE', '-config', cfg]
    cmd += ['-seed', str(seed)]
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate]
        if depth:
            cmd += ['-depth', str(depth)]
    cmd.append(module + '.tla')
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC did not finish %s in %ds' % (cfg, timeout))
    wall = time.time() - t
    if r.returncode != 0 and r.returncode not in allow:
        raise ToolError('TLC failed on %s (%d):\n%s' % (cfg, r.returncode, r.stdout[-5000:]))
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.stdout)
    gen = dist = 0
    if m:
        gen, dist = (int(x.replace(',', '')) for x in m[-1])
    else:
        m = re.findall(r'Progress: ([\d,]+) states checked', r.stdout) or re.findall(r'The number of states generated: ([\d,]+)', r.stdout)
        if m:
            gen = dist = int(m[-1].replace(',', ''))
    stats.states += dist
    stats.generated += gen
    cases = []
    if os.path.exists(out):
        seen = set()
        longest = 0
        with open(out) as f:
            for line in f:
                line = line.strip()
                longest = max(longest, len(line))
                if line and line not in seen:
                    seen.add(line)
                    try:
                        c = json.loads(line)
                        cases.append(json.loads(c) if isinstance(c, str) else c)
                    except ValueError:
                        # TLC writes long lines in several pieces
                        if workers == 1:
                            raise
                        log('the output of TLC is garbled, trying with one worker')
                        os.remove(out)
                        return tlc(scratch, module, cfg, stats, simulate and simulate * NPROC, seed, timeout, extra_env, 1, depth, xmx, allow)
        os.remove(out)
        if longest > 4000:
            log('the longest case has %d bytes' % longest)
    stats.runs.append(dict(module=module, cfg=os.path.basename(cfg), simulate=simulate or 0, states=dist, generated=gen,
                           cases=len(cases), wall_s=round(wall, 1), rc=r.returncode))
    log('TLC %s: %d states (%d generated), %d cases, %.1fs' % (os.path.basename(cfg), dist, gen, len(cases), wall))
    shutil.rmtree(os.path.join(work, 'meta'), ignore_errors=True)
    tlc.last_output = r.stdout
    return cases


def replay(scratch, cases, steps_of, nworkers=None, timeout_ms=20000, extra_env=None):
    """Runs the steps of every case in the real code and yields (case, observations).  Observations
    are None when the process died (a crash) or ['hang'] if it didn't finish."""
    work = scratch.sub('replay')
    q = queue.Queue()
    for i, c in enumerate(cases):
        q.put((i, c))
    results = [None] * len(cases)
    exe = os.path.join(TARGET, 'debug', 'worker')
    e = env()
    e['RAYON_NUM_THREADS'] = '4'
    e.update(extra_env or {})
    failed = []

    def run():
        p = None
        try:
            while True:
                try:
                    i, c = q.get_nowait()
                except queue.Empty:
                    break
                steps = steps_of(c)
                msg = json.dumps(dict(id=i, steps=steps, timeout_ms=timeout_ms)) + '\n'
                if p is None or p.poll() is not None:
                    p = subprocess.Popen([exe, work], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                         stderr=subprocess.DEVNULL, env=e)
                try:
                    p.stdin.write(msg.encode())
                    p.stdin.flush()
                    line = p.stdout.readline()
                except BrokenPipeError:
                    line = b''
                if not line:
                    p.wait()
                    results[i] = 'crash'
                    p = None
                    continue
                o = json.loads(line)
                if o.get('hang'):
                    results[i] = 'hang'
                    p.wait()
                    p = None
                else:
                    results[i] = o['obs']
        except Exception as ex:          # the driver itself failed
            failed.append(ex)
        finally:
            if p is not None:
                try:
                    p.stdin.close()
                    p.wait(timeout=30)
                except Exception:
                    p.kill()

    t = time.time()
    threads = [threading.Thread(target=run) for _ in range(nworkers or NPROC)]
    for th in threads:
        th.start()
    for th in threads:
        th.join()
    if failed:
        raise failed[0]
    log('replayed %d cases in %.1fs' % (len(cases), time.time() - t))
    return list(zip(cases, results))


def known_findings():
    """KNOWN-FINDING entries: one JSON object per line {"property", "key", "what"}; entries for
    repaired defects start with `fixed:` and suppress nothing."""
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    for line in open(p):
        line = line.strip()
        if line.startswith('{'):
            k = json.loads(line)
            known[(k['property'], k['key'])] = k['what']
    return known


class Report:
    def __init__(self, prop, tier, level='model_checking'):
        self.prop, self.tier, self.level = prop, tier, level
        self.stats = Tlc()
        self.violations = []
        self.nviolations = 0
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.known = known_findings()
        self.known_seen = {}
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replays')

    def ok(self, case=None):
        self.validated += 1
        if case is not None and len(self.samples) < 3:
            self.samples.append(case)

    def violation(self, what, **details):
        """`key` in details: the known finding this would be an instance of"""
        key = details.pop('key', None)
        if key is not None and (self.prop, key) in self.known:
            self.known_seen[key] = self.known_seen.get(key, 0) + 1
            self.validated += 1
            return
        self.nviolations += 1
        if len(self.violations) < 5:
            os.makedirs(self.replay_dir, exist_ok=True)
            p = os.path.join(self.replay_dir, '%s-%s-%d.json' % (self.prop, self.tier, len(self.violations)))
            with open(p, 'w') as f:
                json.dump(dict(property=self.prop, what=what, **details), f, indent=1, default=str)
            self.violations.append(p)
            log('%s: %s' % (what, json.dumps(details, default=str)[:1500]))

    def finish(self):
        for key, n in sorted(self.known_seen.items()):
            print('KNOWN-FINDING: property=%s %s (%d cases)' % (self.prop, self.known[(self.prop, key)], n))
        cov = dict(states=self.stats.states, transitions=self.stats.generated,
                   traces_validated_against_impl=self.validated, samples=self.samples or ['none'],
                   tlc_runs=self.stats.runs)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - T0, 1),
                  violations=self.nviolations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for p in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        log('%s %s: %d states, %d traces validated, %d violations' %
            (self.prop, self.tier, self.stats.states, self.validated, self.nviolations))
        return 1 if self.nviolations else 0


def seed():
    return int(os.environ.get('VERIF_SEED', '1'))
