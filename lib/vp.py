"""Common machinery of the checks: build the code under test into the simulated world, run scenarios, let
TLC judge the recordings against the specification, write evidence."""
import os, sys, json, subprocess, time, random, shutil, hashlib, re, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import conv

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4

ALL = ['value', 'sendbuf', 'race', 'overlap', 'buffer', 'deadlock', 'leftover', 'trunc', 'tree']

def verdicts(out):
    """the first verdict that is not ok, of every case"""
    v = {}
    for m in re.finditer(r'@@VERDICT (\d+) (.*)', out):
        i = int(m.group(1)); t = m.group(2).replace('\\"', '"').rstrip('"')
        if i not in v or '"ok"' in v[i]: v[i] = t
    return v

class Case:
    """one scenario: text for the simulator and what the specification has to know about it"""
    def __init__(self, key, lines, colls, members, tree=0, tlc=True, only=ALL, meta=None, logapi=False):
        self.key = key; self.lines = lines; self.colls = colls; self.members = members; self.tree = tree
        self.tlc = tlc; self.only = only; self.meta = meta or {}; self.logapi = logapi
        self.res = None; self.verdict = None
    def polls(self):
        """does a process poll several collectives in turn?"""
        return any(re.search(r'(any|some|test|progress|drain)', l.split(':', 1)[1]) for l in self.lines if l.startswith(('rank', 'all')))

class Check:
    def __init__(self, prop, tier, level='model_checking'):
        self.prop = prop; self.tier = tier; self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time(); self.level = level
        self.rng = random.Random(hashlib.sha256(f'{prop}-{self.seed}'.encode()).hexdigest())
        os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(ROOT, 'build'))
        self.violations = []; self.known = []; self.samples = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, scenarios_run=0, distinct_programs=0, too_big_for_tlc=0)
        self.notes = []
        self.thorough = tier == 'thorough'
    def log(self, *a): print(*a, flush=True)
    def elapsed(self): return time.time() - self.t0
    # ------------------------------------------------------------------ build
    def build(self, copies=12, extra=''):
        self.lib = os.path.join(self.dir, 'b')
        env = dict(os.environ); env['VP_REPO'] = REPO; env['VP_EXTRA_CFLAGS'] = extra
        p = subprocess.run(['bash', os.path.join(ROOT, 'sim/build.sh'), self.lib, str(copies)], capture_output=True, text=True, env=env)
        if p.returncode or not os.path.exists(self.lib + '/sim'):
            self.log('build of the code under test failed:', (p.stdout + p.stderr)[-3000:]); self.cleanup(); sys.exit(3)
    def cleanup(self): shutil.rmtree(self.dir, ignore_errors=True)
    # ------------------------------------------------------------------ simulator
    def sim(self, case, i, timeout=120):
        sc = os.path.join(self.dir, f's{i}.sc'); rs = os.path.join(self.dir, f's{i}.json')
        with open(sc, 'w') as f: f.write('\n'.join(case.lines) + '\n')
        env = {k: v for k, v in os.environ.items() if not k.startswith('EXT_MPI')}
        try:
            p = subprocess.run([self.lib + '/sim', self.lib, sc, rs], capture_output=True, timeout=timeout, text=True, cwd=self.dir, env=env)
            try: r = json.load(open(rs))
            except Exception as e: r = {'outcome': 'crash', 'msg': f'no result, exit status {p.returncode} {p.stderr[-200:]}', 'bad': 0, 'touched': 0, 'noresult': 1}
        except subprocess.TimeoutExpired:
            r = {'outcome': 'hang', 'msg': 'time limit', 'bad': 0, 'touched': 0, 'noresult': 1}
        for f in (sc, rs):
            try: os.unlink(f)
            except OSError: pass
        return r
    def run_sims(self, cases, post=None, timeout=120):
        def one(a):
            i, c = a
            r = self.sim(c, i, timeout)
            c.res = r
            if post: post(c)
            return None
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(one, enumerate(cases)))
        self.cov['scenarios_run'] += len(cases)
    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env, workers=NCPU, timeout=600, extra=(), heap='6g'):
        md = tempfile.mkdtemp(prefix='tlc', dir=self.dir)
        e = dict(os.environ); e.update(env)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', md, '-config', os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + '.tla')]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=self.dir)
            out = p.stdout + p.stderr; rc = p.returncode
        except subprocess.TimeoutExpired as x:
            out = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''); rc = 124
        shutil.rmtree(md, ignore_errors=True)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m: self.cov['transitions'] += int(m.group(1)); self.cov['states'] += int(m.group(2))
        return rc, out
    def tlc_schedule(self, cases, cfg='Schedule.cfg', procs=2, timeout=700):
        """cases: list of (Case, converted dict). Sets case.verdict."""
        if not cases: return
        procs = max(1, min(procs, len(cases) // 8 + 1))
        def work(x): return sum(len(p) for p in x[1]['progs'])
        cases = sorted(cases, key=work, reverse=True)
        buckets = [cases[i::procs] for i in range(procs)]
        def go(b):
            f = os.path.join(self.dir, f'cases{id(b)}.json')
            with open(f, 'w') as h: json.dump([c[1] for c in b], h)
            rc, out = self.tlc('Schedule', cfg, {'VP_CASES': f}, workers=max(1, NCPU // procs), timeout=timeout)
            os.unlink(f)
            for m in re.finditer(r'@@VERDICT (\d+) (.*)', out):
                i = int(m.group(1)) - 1; v = m.group(2).replace('\\"', '"').rstrip('"')
                if b[i][0].verdict is None or '"ok"' in b[i][0].verdict: b[i][0].verdict = v
            miss = [c for c, _ in b if c.verdict is None]
            if miss:
                open(os.path.join(ROOT, 'build', 'tlc-failure.txt'), 'w').write(out[-20000:])
                raise RuntimeError('TLC gave no verdict on %d cases: %s' % (len(miss), out[-1500:]))
        with ThreadPoolExecutor(procs) as ex: list(ex.map(go, buckets))
    # ------------------------------------------------------------------ judging
    def judge(self, cases, outcomes=None, bad=True, touched=True, cfg='Schedule.cfg', maxatoms=1500, maxops=40000):
        """runs the scenarios, has their recordings judged; outcomes: set of abnormal endings that count (None: all)"""
        conv_list = []; seen = {}
        def post(c):
            r = c.res
            if r['outcome'] == 'ok' and c.tlc:
                try:
                    x = conv.convert(r, c.colls, c.members, c.tree, c.key, maxatoms, int('net=rdv' not in c.lines[0]))
                    x['only'] = c.only
                    if sum(len(p) for p in x['progs']) > maxops: raise conv.TooBig()
                    h = hashlib.sha256(json.dumps({k: x[k] for k in x if k != 'id'}, sort_keys=True).encode()).hexdigest()
                    c.hash = h; conv_list.append((c, x))
                except conv.TooBig: c.big = True
            for k in ('progs', 'regions'): r.pop(k, None)
        self.run_sims(cases, post)
        uniq = []; dup = []
        conv_list.sort(key=lambda t: t[0].key)
        for c, x in conv_list:
            if c.hash in seen: dup.append((c, seen[c.hash]))
            else: seen[c.hash] = c; uniq.append((c, x))
        self.cov['distinct_programs'] += len(uniq)
        self.cov['too_big_for_tlc'] += sum(1 for c in cases if getattr(c, 'big', False))
        self.tlc_schedule(uniq, cfg)
        for c, d in dup: c.verdict = d.verdict
        self.cov['traces_validated_against_impl'] += len(conv_list)
        for c in cases:
            r = c.res; f = None
            if r['outcome'] != 'ok':
                if outcomes is None or r['outcome'] in outcomes: f = f"{r['outcome']}: {r['msg']}"
            if not f and r.get('bad') and bad: f = 'wrong data: ' + r.get('badfirst', '')
            if not f and r.get('touched') and touched: f = 'user memory changed: ' + r.get('touchedfirst', '')
            if not f and c.verdict and '"ok"' not in c.verdict: f = 'specification violated: ' + c.verdict
            c.fail = f
            if f: self.violation(c, f)
        for c in cases[:2] + cases[-1:]:
            if len(self.samples) < 6: self.samples.append({'scenario': c.lines, 'outcome': c.res['outcome'], 'tlc': c.verdict})
        return cases
    def violation(self, c, text):
        self.violations.append((c, text))
    # ------------------------------------------------------------------ known findings
    def known_findings(self):
        """runs the recorded defects of this property; each is listed by its own scenario"""
        self.knownlist = []
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            m = re.match(r'finding: id=(\S+) property=(\S+) scenario=(\S+) (.*)', l)
            if not m or m.group(2) != self.prop: continue
            c = Case('known finding ' + m.group(1), open(os.path.join(ROOT, m.group(3))).read().split('\n'), {}, {}, tlc=False)
            self.run_sims([c]); r = c.res
            if r['outcome'] != 'ok' or r.get('bad') or r.get('touched'): self.log(f'KNOWN-FINDING: property={self.prop} {m.group(1)} {m.group(4)}')
            else: self.log(f'note: the known finding {m.group(1)} does not show any more')
    # ------------------------------------------------------------------ end
    def finish(self, assumptions=(), exhaustive=None):
        if getattr(self, 'lib', None): self.known_findings()
        d = os.path.join(ROOT, 'replays'); os.makedirs(d, exist_ok=True)
        rc = 0
        for i, (c, text) in enumerate(self.violations[:5]):
            f = os.path.join(d, f'{self.prop}-{i}.txt')
            with open(f, 'w') as h:
                h.write(f'# property {self.prop}: {text}\n# case {c.key}\n# replay: bash {ROOT}/sim/build.sh OUT 16; OUT/sim OUT {f} RESULT.json\n')
                h.write('\n'.join(c.lines) + '\n')
            self.log(f'VIOLATION property={self.prop} replay={f}')
            self.log(f'  {c.key}: {text[:600]}')
            rc = 1
        if len(self.violations) > 5: self.log(f'  ... and {len(self.violations) - 5} more')
        cov = dict(self.cov); cov['samples'] = self.samples[:6]
        if exhaustive is not None: cov['exhaustive'] = exhaustive
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': list(assumptions) + self.notes,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as h: json.dump(ev, h, indent=1)
        self.log(f'{self.prop} {self.tier}: {cov["scenarios_run"]} scenarios, {cov["traces_validated_against_impl"]} recordings checked by TLC, {cov["states"]} states, {len(self.violations)} violations, {ev["wall_s"]} s')
        self.cleanup()
        return rc
