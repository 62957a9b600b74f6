"""Shared machinery of the checks: builds the drivers from /repo's working tree, runs TLC, judges traces."""
import atexit, base64, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VV_REPO', '/repo')  # a copy while working on the checks
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'
T0 = time.time()
CORES = min(8, os.cpu_count() or 4)

SCRATCH = tempfile.mkdtemp(prefix='vv-', dir='/tmp')


def _cleanup():
    shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
for _s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
    signal.signal(_s, lambda *_: sys.exit(3))


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Broken(Exception):
    """The check itself could not do its work. Never a violation."""


def go_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith('J8ACFG') and k not in ('LOGLEVEL', 'LOGCOLOR', 'VERSION', 'GODEBUG')}
    e.update(PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             HOME='/root', GOPATH='/root/go', GOCACHE='/root/.cache/go-build', GOTOOLCHAIN='local',
             GOPROXY='off', GOFLAGS='-mod=mod')
    if extra:
        e.update(extra)
    return e


def path(name):
    return os.path.join(SCRATCH, name)


# ---------------------------------------------------------------- building

def build_driver(files, name='driver', race=False):
    """Compiles the given harness files into the package under test, without the repository's own tests."""
    repl = {}
    for f in os.listdir(REPO):
        if f.endswith('_test.go'):
            repl[os.path.join(REPO, f)] = ''
    for f in ['common.go'] + files:
        repl[os.path.join(REPO, 'zz_verif_%s_test.go' % f[:-3])] = os.path.join(HARNESS, f)
    ov = path(name + '-overlay.json')
    json.dump({'Replace': repl}, open(ov, 'w'))
    out = path(name + '.test')
    cmd = ['go', 'test', '-c', '-vet=off', '-overlay', ov, '-o', out] + (['-race'] if race else []) + ['.']
    p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise Broken('driver does not compile:\n' + p.stdout[-4000:])
    log('driver built:', ' '.join(files))
    return out


def build_server():
    out = path('j8a')
    p = subprocess.run(['go', 'build', '-o', out, './cmd/j8a'], cwd=REPO, env=go_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken('server does not compile:\n' + p.stdout[-4000:])
    log('server built')
    return out


def build_fake():
    """The real server in virtual time, see harness/fake."""
    out, ov = path('j8a-fake'), path('fake-overlay.json')
    json.dump({'Replace': {os.path.join(REPO, 'cmd/j8a/main.go'): os.path.join(HARNESS, 'fake', 'main.go')}}, open(ov, 'w'))
    p = subprocess.run(['go', 'build', '-overlay', ov, '-tags', 'faketime', '-o', out, './cmd/j8a'], cwd=REPO, env=go_env({'CGO_ENABLED': '0'}),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken('server in virtual time does not compile:\n' + p.stdout[-4000:])
    log('server in virtual time built')
    return out


FAKE_START = 1257894000  # when virtual time begins, 2009-11-10T23:00:00Z


def run_fake(binary, cases, timeout=600):
    """Runs the server in virtual time. cases: dict(yaml, plan=[(second, pages)...], end=second, level). Returns (lines, exit code) for each;
    lines are (virtual second, dict or text)."""
    import concurrent.futures as cf

    def one(job):
        i, c = job
        d = path('fake-%d' % i)
        os.makedirs(d)
        plan = [dict(At=a, Pages=p) for a, p in c.get('plan') or [(0, 5000)]] + [dict(At=c['end'], Pages=-1)]
        e = dict(PATH='/usr/bin:/bin', HOME=d, J8ACFG_YML=c['yaml'], LOGLEVEL=c.get('level', 'DEBUG'), VV_PLAN=json.dumps(plan), VV_PROC=os.path.join(d, 'proc'),
                 GOMAXPROCS='1', GOTRACEBACK='single')
        with open(os.path.join(d, 'out'), 'wb') as f:
            p = subprocess.Popen([binary], cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
        raw = open(os.path.join(d, 'out'), 'rb').read()
        shutil.rmtree(d, ignore_errors=True)
        # frames: 0 0 'P' 'B', time in ns, length; a panic comes without
        lines, k, text, at = [], 0, b'', FAKE_START
        while k < len(raw):
            if raw[k:k + 4] == b'\0\0PB':
                ns, n = int.from_bytes(raw[k + 4:k + 12], 'big'), int.from_bytes(raw[k + 12:k + 16], 'big')
                for l in raw[k + 16:k + 16 + n].split(b'\n'):
                    if l.strip():
                        try:
                            v = json.loads(l)
                        except ValueError:
                            v = l.decode(errors='replace')
                        lines.append((ns / 1e9 - FAKE_START, v))
                k += 16 + n
            else:
                j = raw.find(b'\0\0PB', k)
                j = len(raw) if j < 0 else j
                lines.append((-1, raw[k:j].decode(errors='replace')))
                k = j
        return lines, rc
    with cf.ThreadPoolExecutor(CORES) as ex:
        r = list(ex.map(one, enumerate(cases)))
    log('server in virtual time: %d runs' % len(cases))
    return r


def build_wire():
    """The black box driver: needs nothing of /repo."""
    out = path('wire')
    p = subprocess.run(['go', 'build', '-o', out, '.'], cwd=os.path.join(HARNESS, 'wire'), env=go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken('wire does not compile:\n' + p.stdout[-4000:])
    return out


# ---------------------------------------------------------------- drivers

class Crash:
    """The process running the code under test died in a case."""

    def __init__(self, text):
        self.text = text


def run_driver(binary, driver, cases, env=None, shards=None, timeout=600, cwd=None):
    """Feeds cases (list of dicts) to a driver, returns one record (dict or Crash) per case."""
    shards = min(shards or CORES, max(1, len(cases)))
    cwd = cwd or SCRATCH
    parts = [list(range(i, len(cases), shards)) for i in range(shards)]
    results = [None] * len(cases)
    state = []
    for si, idx in enumerate(parts):
        fin, fout = path('%s-%d.in' % (driver, si)), path('%s-%d.out' % (driver, si))
        with open(fin, 'w') as f:
            for i in idx:
                f.write(json.dumps(cases[i]) + '\n')
        if os.path.exists(fout):
            os.unlink(fout)
        state.append(dict(shard=si, idx=idx, fin=fin, fout=fout, done=0, proc=None, crashes=0, log=path('%s-%d.log' % (driver, si))))

    def start(s):
        e = go_env({'VV_DRIVER': driver, 'VV_IN': s['fin'], 'VV_OUT': s['fout'], 'VV_FROM': str(s['done']),
                    'VERIF_SEED': str(SEED), 'VV_SCRATCH': SCRATCH, 'VV_SHARD': str(s['shard'])})
        e.update(env or {})
        s['logf'] = open(s['log'], 'w')
        s['proc'] = subprocess.Popen([binary, '-test.run', '^TestVerifDriver$', '-test.timeout', '%ds' % timeout],
                                     cwd=cwd, env=e, stdout=s['logf'], stderr=subprocess.STDOUT, start_new_session=True)

    def collect(s):
        recs = []
        if os.path.exists(s['fout']):
            for line in open(s['fout']):
                if line.endswith('\n'):
                    recs.append(json.loads(line))
        return recs

    deadline = time.time() + timeout
    for s in state:
        start(s)
    pending = list(state)
    while pending:
        for s in list(pending):
            rc = s['proc'].poll()
            if rc is None:
                if time.time() > deadline:
                    for x in pending:
                        try:
                            os.killpg(x['proc'].pid, signal.SIGKILL)
                        except Exception:
                            pass
                    raise Broken('driver %s timed out' % driver)
                continue
            s['logf'].close()
            recs = collect(s)
            s.setdefault('crashed', {})
            total = len(recs) + 0
            if rc == 0:
                if total != len(s['idx']):
                    raise Broken('driver %s produced %d of %d records' % (driver, total, len(s['idx'])))
                pending.remove(s)
                continue
            text = open(s['log'], errors='replace').read()
            frames = re.findall(re.escape(REPO) + r'/(?!zz_verif)[a-z0-9_]+\.go:\d+', text)
            bad = ('panic:' in text or 'fatal error:' in text) and (frames or 'deadlock: ' in text)
            if not bad or 'test timed out' in text:
                raise Broken('driver %s failed (rc %s):\n%s' % (driver, rc, text[-6000:]))
            # attribute the crash to the first case without a record
            k = total
            if k >= len(s['idx']):
                raise Broken('driver %s crashed after its last case:\n%s' % (driver, text[-3000:]))
            s['crashes'] += 1
            with open(s['fout'], 'a') as f:
                f.write(json.dumps({'__crash__': text[:6000]}) + '\n')
            s['done'] = k + 1
            if s['crashes'] > 20 or s['done'] >= len(s['idx']):
                with open(s['fout'], 'a') as f:
                    for _ in range(s['done'], len(s['idx'])):
                        f.write(json.dumps({'__skipped__': True}) + '\n')
                pending.remove(s)
                continue
            start(s)
        time.sleep(0.02)
    for s in state:
        for i, r in zip(s['idx'], collect(s)):
            results[i] = Crash(r['__crash__']) if '__crash__' in r else (None if '__skipped__' in r else r)
    log('driver %s: %d cases' % (driver, len(cases)))
    return results


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'^([\d,]+) states generated(?: \(.*?\))?, ([\d,]+) distinct states found', out, re.M)
        if not m:
            m = [(x, '0') for x in re.findall(r'([\d,]+) states checked', out)]
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.violated = re.findall(r'(?:Invariant|Temporal properties|Action property|property) ?(\S*) (?:is|was|were) violated', out)
        self.finished = 'Model checking completed. No error has been found.' in out
        self.prints = re.findall(r'^"((?:[^"\\]|\\.)*)"$', out, re.M)

    def lines(self, tag):
        r = []
        for p in self.prints:
            if p.startswith(tag + ' '):
                r.append(json.loads('"' + p[len(tag) + 1:] + '"'))
        return r


_tlc_n = 0


def tlc(module, cfg, subst=None, env=None, workers=None, timeout=600, args=(), heap='6g', allow_error=False):
    """Runs TLC on a module of /verif/spec in a scratch directory. cfg: name of a .cfg file or its text."""
    global _tlc_n
    _tlc_n += 1
    d = path('tlc%d' % _tlc_n)
    os.mkdir(d)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    text = open(os.path.join(SPEC, cfg)).read() if cfg.endswith('.cfg') else cfg
    for k, v in (subst or {}).items():
        text = text.replace(k, v)
    open(os.path.join(d, 'run.cfg'), 'w').write(text)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers or CORES),
           '-metadir', os.path.join(d, 'states'), '-config', 'run.cfg', '-noGenerateSpecTE'] + list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    outf = os.path.join(d, 'out')
    with open(outf, 'w') as f:
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Broken('TLC on %s timed out after %ds' % (module, timeout))
        except BaseException:
            p.kill()
            raise
    out = open(outf, errors='replace').read()
    r = Tlc(out, rc, time.time() - t)
    if not allow_error and rc != 0:
        raise Broken('TLC on %s failed (rc %d):\n%s' % (module, rc, out[-5000:]))
    log('TLC %s: %d states generated, %d distinct, %.1fs' % (module, r.generated, r.distinct, r.wall))
    shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
    return r


def model_check(module, cfg, **kw):
    """The specification itself must satisfy its properties; anything else is a broken check."""
    r = tlc(module, cfg, **kw)
    if not r.finished and '-simulate' not in kw.get('args', ()):
        raise Broken('TLC on %s did not complete:\n%s' % (module, r.out[-3000:]))
    return r


def validate_traces(module, cfg, traces, subst=None, env=None, chunk=None, timeout=600):
    """Judges traces with a trace specification. Returns (set of rejected indexes -> matched prefix, Tlc list)."""
    import concurrent.futures as cf
    chunk = chunk or max(1, (len(traces) + CORES - 1) // CORES)
    jobs = []
    for k in range(0, len(traces), chunk):
        f = path('traces-%s-%d.ndjson' % (module, k))
        with open(f, 'w') as fh:
            for t in traces[k:k + chunk]:
                fh.write(json.dumps(t) + '\n')
        jobs.append((k, f))

    def one(job):
        e = {'TRACES': job[1]}
        e.update(env or {})
        return job[0], tlc(module, cfg, subst=subst, env=e, workers=1, timeout=timeout, heap='2g')
    rejected, runs = {}, []
    with cf.ThreadPoolExecutor(CORES) as ex:
        for k, r in ex.map(one, jobs):
            runs.append(r)
            if not r.finished:
                raise Broken('trace validation did not complete:\n' + r.out[-3000:])
            for x in r.lines('REJECT'):
                i, pre = x.split()[:2]
                rejected[k + int(i) - 1] = int(pre)
    return rejected, runs


# ---------------------------------------------------------------- verdicts

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known = []
        self.assumptions = []

    def count(self, *tlcs):
        for r in tlcs:
            self.states += r.distinct
            self.transitions += r.generated

    def sample(self, *s):
        for x in s:
            if len(self.samples) < 5:
                self.samples.append(x)

    def violation(self, what, replay):
        """what: one line; replay: dict that holds everything needed to reproduce."""
        for pat, text in known_findings(self.pid):
            if pat in what:
                if text not in self.known:
                    self.known.append(text)
                return
        d = os.path.join(VERIF, 'replay', self.pid)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s-seed%d-%d.json' % (TIER, SEED, len(self.violations)))
        json.dump(dict(property=self.pid, what=what, seed=SEED, tier=TIER, replay=replay), open(f, 'w'), indent=1, default=str)
        self.violations.append((what, f))

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for what, f in self.violations[:5]:
            print('%s: %s' % (self.pid, what))
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, self.violations[0][1]), flush=True)
            return 1
        print('%s held on %d traces of the implementation; specification: %d distinct states, %.0fs' %
              (self.pid, self.traces, self.states, time.time() - T0), flush=True)
        return 0


def known_findings(pid):
    f = os.path.join(VERIF, 'known-findings.txt')
    r = []
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'finding: property=(\S+) match=\[(.*?)\] (.*)', line)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    return r


def b64(b):
    return base64.b64encode(b if isinstance(b, bytes) else b.encode('latin1')).decode()
