"""Common machinery of all checks: build a harness from /repo's working tree, run it, let TLC judge what it recorded.

Outcome protocol (see MANIFEST.schema): exit 0 = held; exit 1 + 'VIOLATION property=<id> replay=<path>' = broken;
anything else = error of the check itself (build of the harness failed, TLC failed, time ran out ...).
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXX = 'g++-14'
INC = [f'{REPO}/src/{d}/include' for d in ('core', 'disruptor', 'majordomo', 'serialiser', 'services', 'zmq', 'client', 'rest')] + [f'{REPO}/src/majordomo/include/majordomo']


class CheckError(Exception):
    """the check itself could not do its job"""


def whole(rec):
    """a harness that crashed may have written half a record: keep the complete ones"""
    raw = open(rec, errors='replace').read().split('\n')
    good = []
    for line in raw:
        try:
            if line.strip():
                json.loads(line)
                good.append(line)
        except ValueError:
            pass
    if len(good) != len([x for x in raw if x.strip()]):
        open(rec, 'w').write('\n'.join(good) + ('\n' if good else ''))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f'verif_{prop}_')
        self.states = self.transitions = 0
        self.traces = 0           # records/histories from the implementation judged by TLC
        self.samples = []
        self.extra = {}
        self.violations = []      # (description, replay payload)
        self.known = []
        self.notes = []
        self.level = 'model_checking'
        self.assumptions = []
        kf = os.path.join(VERIF, 'known_findings.json')
        self.findings = [f for f in json.load(open(kf)) if f.get('property') == prop and f.get('status') == 'open'] if os.path.exists(kf) else []

    thorough = property(lambda s: s.tier == 'thorough')

    def log(self, *a):
        print(f'[{self.prop} {time.time() - self.t0:6.1f}s]', *a, flush=True)

    # ---------------------------------------------------------------- build / run
    def build(self, src, flags=(), name=None, std='c++23', opt='-O1', shims=(), libs=(), timeout=800, vsched=True):
        out = os.path.join(self.work, name or os.path.basename(src).rsplit('.', 1)[0])
        inc = [f'{VERIF}/shims/{s}' for s in shims] + ([f'{VERIF}/vsched'] if vsched else []) + [f'{VERIF}/harness'] + INC
        cmd = [CXX, f'-std={std}', opt, '-g1', '-w'] + list(flags) + [x for i in inc for x in ('-I', i)] + [os.path.join(VERIF, 'harness', src), '-o', out] + list(libs)
        t = time.time()
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        if r.returncode:
            print(r.stderr[-6000:])
            raise CheckError(f'harness {src} does not build against the working tree')
        self.log(f'built {src} in {time.time() - t:.1f}s')
        return out

    def run(self, binary, args=(), timeout=300, out='rec.ndjson', env=None):
        """run a harness; returns (records file, failure or None). failure = dict(kind, detail, last)"""
        rec = os.path.join(self.work, out)
        stats = os.path.join(self.work, out + '.stats')
        for f in (rec, stats, rec + '.cur'):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [binary, f'out={rec}', f'stats={stats}', f'seed={self.seed}', f'tier={self.tier}'] + list(args)
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0:exitcode=98')
        e.update(env or {})
        t = time.time()
        fail = None
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=self.work, env=e)
            err = r.stderr.decode('utf8', 'replace')
            if 70 <= r.returncode <= 79:
                raise CheckError(f'harness internal error {r.returncode}: {err[-2000:]}')
            if r.returncode != 0:
                fail = dict(kind='crash', detail=f'exit status {r.returncode}', stderr=err[-3000:])
        except subprocess.TimeoutExpired as x:
            fail = dict(kind='hang', detail=f'no result within {timeout}s', stderr=(x.stderr or b'').decode('utf8', 'replace')[-1500:])
        if fail is not None and os.path.exists(rec + '.cur'):
            fail['last'] = open(rec + '.cur', errors='replace').read().strip()[:4000]
        if fail is not None and os.path.exists(rec):
            whole(rec)
        if os.path.exists(stats):
            for line in open(stats):
                k, v = line.split()
                self.extra[k] = self.extra.get(k, 0) + int(v)
        self.log(f'ran {os.path.basename(binary)} {" ".join(args)} in {time.time() - t:.1f}s -> {sum(1 for _ in open(rec)) if os.path.exists(rec) else 0} records' + (f' FAIL {fail["kind"]}' if fail else ''))
        return rec, fail

    def run_checked(self, binary, args=(), timeout=300, out='rec.ndjson', env=None, what=''):
        """as run; a crash or hang of the code under test that repeats is a violation"""
        if self.tier == 'quick':
            timeout = min(timeout, 300)
        rec, fail = self.run(binary, args, timeout, out, env)
        if fail:
            rec, fail2 = self.run(binary, args, timeout, out, env)
            if fail2:
                self.violation(f'{what or os.path.basename(binary)}: the code under test {"crashed" if fail2["kind"] == "crash" else "did not terminate"} ({fail2["detail"]})', dict(failure=fail2, args=list(args)), key='crash')
            else:
                self.notes.append('a harness failure did not repeat and was ignored: ' + str(fail))
        return rec

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env=None, workers=8, timeout=600, extra=(), cont=False, heap='6g', dfs=False):
        wd = os.path.join(self.work, 'tlc_' + module + '_' + hashlib.md5((cfg + str(time.time())).encode()).hexdigest()[:6])
        os.makedirs(wd)
        for f in os.listdir(os.path.join(VERIF, 'spec')):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(VERIF, 'spec', f), wd)
        cfgp = os.path.join(wd, module + '.cfg')
        open(cfgp, 'w').write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        jopt = ['-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-Djava.io.tmpdir=' + wd]
        if dfs:
            jopt.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd = ['java'] + jopt + ['-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(wd, 'm'), '-config', cfgp, '-noGenerateSpecTE'] + (['-continue'] if cont else []) + list(extra) + [os.path.join(wd, module + '.tla')]
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=wd, env=e, errors='replace')
        except subprocess.TimeoutExpired:
            raise CheckError(f'TLC on {module} exceeded {timeout}s')
        out = r.stdout + r.stderr
        m = re.findall(r'(\d+) states generated.*?, (\d+) distinct states found', out.replace(',', '').replace('generated ', 'generated, ')) or re.findall(r'([\d,]+) states generated[^,]*, ([\d,]+) distinct states found', out)
        gen, dist = (int(str(m[-1][0]).replace(',', '')), int(str(m[-1][1]).replace(',', ''))) if m else (0, 0)
        self.log(f'TLC {module}: exit {r.returncode}, {gen} states generated, {dist} distinct, {time.time() - t:.1f}s')
        shutil.rmtree(os.path.join(wd, 'm'), ignore_errors=True)
        return r.returncode, out, gen, dist

    def model(self, module, cfg, timeout=600, workers=8, extra=(), simulate=False):
        """design check: the specification itself must satisfy its properties; failure is an error of the specification"""
        rc, out, gen, dist = self._tlc(module, cfg, workers=workers, timeout=timeout, extra=extra)
        if rc != 0:
            print(out[-5000:])
            raise CheckError(f'specification {module} does not satisfy its own properties (or TLC failed)')
        if not simulate and gen < 2:
            raise CheckError(f'specification {module} explored nothing')
        self.states += dist
        self.transitions += gen
        return out

    def validate(self, module, cfg, rec, timeout=600, what='', max_report=40, describe=None, minimum=1, heap='8g'):
        """every history (line of rec) must be a behaviour of the trace specification"""
        n = sum(1 for _ in open(rec)) if os.path.exists(rec) else 0
        if n == 0:
            if self.violations:
                return
            raise CheckError(f'no histories recorded for {module}')
        rc, out, gen, dist = self._tlc(module, cfg, env=dict(TRACES=rec, SHOWPOS='0'), timeout=timeout, heap=heap)
        if rc == 75 and self._uninterpretable(module, cfg, rec, timeout, heap, what):
            return
        acc = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out)}
        if rc not in (0, ) and not acc:
            print(out[-5000:])
            raise CheckError(f'TLC failed on {module}')
        if rc not in (0, 12):
            print(out[-5000:])
            raise CheckError(f'TLC failed on {module} (exit {rc})')
        self.states += dist
        self.transitions += gen
        self.traces += n
        rejected = sorted(set(range(1, n + 1)) - acc)
        lines = None
        if rejected or not self.samples:
            lines = open(rec).read().splitlines()
            if len(self.samples) < 3:
                self.samples.append(json.loads(lines[len(lines) // 2]) if lines else None)
        if not rejected:
            if n < minimum and not self.violations:
                raise CheckError(f'only {n} histories recorded for {module}')
            return
        # confirm: re-run TLC on the rejected ones alone, single worker, printing how far each one got
        sub = os.path.join(self.work, 'rejected.ndjson')
        open(sub, 'w').write('\n'.join(lines[i - 1] for i in rejected[:max_report]) + '\n')
        rc, out, _, _ = self._tlc(module, cfg, env=dict(TRACES=sub, SHOWPOS='1'), workers=1, timeout=timeout)
        acc2 = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out)}
        pos = {}
        for a, b in re.findall(r'<<"POS", (\d+), (\d+)>>', out):
            pos[int(a)] = max(pos.get(int(a), 0), int(b))
        for k, i in enumerate(rejected[:max_report], 1):
            if k in acc2:
                raise CheckError(f'{module}: rejection of history {i} did not repeat')
            tr = json.loads(lines[i - 1])
            p = pos.get(k, 1)
            ev = tr.get('ev', [])
            bad = ev[p - 1] if 0 < p <= len(ev) else None
            d = describe(tr, p, bad) if describe else f'event {p} {json.dumps(bad)} is not allowed by {module}'
            self.violation(f'{what or module}: history rejected by the specification: {d}', dict(history=tr, rejected_at=p, rejected_event=bad, spec=module), key=(describe and d) or json.dumps(bad), record=tr)

    def records(self, module, cfg, rec, timeout=600, what='', minimum=1, chunk=200, max_report=60, sample=True, heap='8g'):
        """every record (input/output of the implementation) must agree with the specification's operators.
        The module defines variables c (chunk) and bad (set of rejected record numbers); the invariant is bad = {}"""
        n = sum(1 for _ in open(rec)) if os.path.exists(rec) else 0
        if n == 0:
            if self.violations:
                return
            raise CheckError(f'no records for {module}')
        rc, out, gen, dist = self._tlc(module, cfg, env=dict(TRACES=rec, CHUNK=chunk), timeout=timeout, cont=True, heap=heap)
        if rc == 75 and self._uninterpretable(module, cfg, rec, timeout, heap, what):
            return
        if rc not in (0, 12):
            print(out[-5000:])
            raise CheckError(f'TLC failed on {module} (exit {rc})')
        bad = set()
        bad |= {int(x) for x in re.findall(r'<<"BAD", (\d+)>>', out)}
        done = len(set(re.findall(r'<<"CHUNK", (\d+)>>', out)))
        if done != (n + chunk - 1) // chunk:
            print(out[-3000:])
            raise CheckError(f'{module}: only {done} chunks of {n} records were judged')
        if ('is violated' in out) != bool(bad):
            print(out[-3000:])
            raise CheckError(f'{module}: inconsistent TLC verdict')
        self.states += dist
        self.transitions += n
        self.traces += n
        lines = open(rec).read().splitlines()
        if sample and len(self.samples) < 4:
            self.samples.append(json.loads(lines[len(lines) // 2]))
        if not bad and n < minimum and not self.violations:
            raise CheckError(f'only {n} records for {module}')
        if bad:
            sub = os.path.join(self.work, 'rejected.ndjson')
            sel = sorted(bad)[:max_report]
            open(sub, 'w').write('\n'.join(lines[i - 1] for i in sel) + '\n')
            rc, out, _, _ = self._tlc(module, cfg, env=dict(TRACES=sub, CHUNK=chunk), workers=1, timeout=timeout, cont=True)
            bad2 = set()
            bad2 |= {int(x) for x in re.findall(r'<<"BAD", (\d+)>>', out)}
            if bad2 != set(range(1, len(sel) + 1)):
                raise CheckError(f'{module}: rejections did not repeat')
            for i in sel:
                r = json.loads(lines[i - 1])
                self.violation(f'{what or module}: the implementation disagrees with the specification on {pretty(r)}', dict(record=r, spec=module), key=json.dumps(r.get('in', r)), record=r)

    def _uninterpretable(self, module, cfg, rec, timeout, heap, what):
        """TLC could not evaluate the specification on some record: find one. What the code did there is outside of anything the
        specification speaks about (e.g. a position beyond the end of the data), which is a disagreement, too"""
        lines = open(rec).read().splitlines()
        sub = os.path.join(self.work, 'suspect.ndjson')

        def fails(ls):
            open(sub, 'w').write('\n'.join(ls) + '\n')
            rc, out, _, _ = self._tlc(module, cfg, env=dict(TRACES=sub, CHUNK=50, SHOWPOS='0'), timeout=timeout, cont=True, heap=heap)
            return rc == 75
        if len(lines) > 1 and not fails(lines):
            return False
        while len(lines) > 1:
            half = lines[:len(lines) // 2]
            lines = half if fails(half) else lines[len(lines) // 2:]
        if not fails(lines):
            return False
        try:
            r = json.loads(lines[0])
        except ValueError:
            r = dict(raw=lines[0][:2000])
        self.violation(f'{what or module}: what the implementation did is outside of the specification: {pretty(r)}', dict(record=r, spec=module), key=json.dumps(r.get('in', r)), record=r)
        return True

    # ---------------------------------------------------------------- verdict
    def violation(self, text, payload, key='', record=None):
        for f in self.findings:
            if finding_matches(f, text, key, record):
                self.known.append((f, text))
                return
        self.violations.append((text, payload))

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                samples=self.samples[:4], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.notes:
            ev['coverage']['notes'] = self.notes
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        shown = set()
        for f, _ in self.known:
            if f['id'] not in shown:
                shown.add(f['id'])
                print(f'KNOWN-FINDING: property={self.prop} {f["what"]}')
        if self.violations:
            rd = os.path.join(VERIF, 'replay', self.prop)
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f'violation_seed{self.seed}_{self.tier}.json')
            json.dump([dict(what=t, **p) for t, p in self.violations[:20]], open(path, 'w'), indent=1)
            for t, _ in self.violations[:5]:
                print('  ' + t[:1500])
            print(f'({len(self.violations)} violations)')
            print(f'VIOLATION property={self.prop} replay={path}')
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def finding_matches(f, text, key, record):
    m = f.get('match', {})
    if 'inputs' in m:
        return record is not None and record.get('in') in m['inputs']
    if 'contains' in m:
        return all(x in text for x in m['contains'])
    return False


def pretty(r):
    def show(x):
        if isinstance(x, list) and x and all(isinstance(i, int) and 0 <= i < 256 for i in x):
            return ''.join(chr(i) if 32 <= i < 127 else f'\\x{i:02x}' for i in x)
        if isinstance(x, list):
            return [show(i) for i in x]
        if isinstance(x, dict):
            return {k: show(v) for k, v in x.items()}
        return x
    return json.dumps(show(r))[:900]


def main(registry):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    if a.prop not in registry:
        print('unknown property', a.prop)
        return 2
    ctx = Ctx(a.prop, a.tier, a.seed)
    try:
        registry[a.prop](ctx)
        return ctx.finish()
    except CheckError as e:
        if ctx.violations:      # what was found stands; the rest of the check could not be completed
            ctx.notes.append('check incomplete: ' + str(e))
            return ctx.finish()
        print('CHECK-ERROR', e)
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 2
