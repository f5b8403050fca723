"""Runs one check: directed cases first, then seeded Hypothesis search in parallel shards; shrinks, replays, reports."""
import os, sys, json, time, hashlib, zlib, tempfile, shutil, multiprocessing, traceback, importlib, collections, signal
import hypothesis
from hypothesis import given, settings, seed as hseed, Phase, HealthCheck, strategies as st
import hypothesis.internal.conjecture.engine as _eng
_eng.MAX_SHRINKING_SECONDS = 45
from . import build
from .worker import Worker, Crash

HERE = build.HERE
SCRATCH_ROOT = os.environ.get('DRPM_VERIF_TMP', '/tmp')

class Violation(Exception):
    pass

class Skip(Exception):
    """the generated case is outside the property's domain (counted)"""

class Ctx:
    """per-process resources: scratch directory and workers"""
    def __init__(self, tier='quick'):
        self.dir = tempfile.mkdtemp(prefix='dv', dir=SCRATCH_ROOT)
        self.tier = tier
        self.workers = {}
        self.n = 0
        self.deadline = None
        self.notes = collections.Counter()
        self.cache = {}
    def w(self, variant='asan', key=None, **kw):
        k = (variant, key)
        if k not in self.workers:
            self.workers[k] = Worker(variant, scratch=self.dir, **kw)
        return self.workers[k]
    def path(self, name):
        return os.path.join(self.dir, name)
    def put(self, name, data):
        p = self.path(name)
        with open(p, 'wb') as f:
            f.write(data)
        return p
    def get(self, name):
        with open(self.path(name), 'rb') as f:
            return f.read()
    def rm(self, *names):
        for n in names:
            try:
                os.unlink(self.path(n))
            except FileNotFoundError:
                pass
    def close(self):
        for w in self.workers.values():
            w.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(',', ':'))

def known_findings(prop):
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'open']

class Stats:
    def __init__(self):
        self.evals = 0
        self.labels = collections.Counter()
        self.nontrivial = set()
        self.samples = []
        self.skipped = 0
        self.known = collections.Counter()
    def merge(self, o):
        self.evals += o.evals; self.labels += o.labels; self.nontrivial |= o.nontrivial; self.skipped += o.skipped
        self.known += o.known
        self.samples += o.samples

def trunc(o, n=900):
    s = canon(o)
    return json.loads(s) if len(s) <= n else s[:n] + '...'

def attempt(mod, ctx, spec, stats):
    """runs one case; raises Violation; returns nothing"""
    stats.evals += 1
    if os.environ.get('DRPM_VERIF_SLOW'):
        t = time.time()
        try: return attempt_(mod, ctx, spec, stats)
        finally:
            if time.time() - t > float(os.environ['DRPM_VERIF_SLOW']): print('slow: %.1f s %s' % (time.time() - t, canon(spec)), file=sys.stderr, flush=True)
    return attempt_(mod, ctx, spec, stats)

def attempt_(mod, ctx, spec, stats):
    Worker.noin = zlib.crc32(canon(spec).encode()) % 4 == 0
    try:
        labels = mod.run(ctx, spec) or ()
    except Skip as e:
        stats.skipped += 1
        stats.labels['skip:' + str(e)] += 1
        return
    except Crash as e:
        raise Violation('crash: ' + str(e))
    except Known as e:
        stats.known[str(e)] += 1
        return
    labels = tuple(labels)
    for l in labels:
        if isinstance(l, tuple): stats.labels[l[0]] += l[1]
        else: stats.labels[l] += 1
    labels = tuple(l for l in labels if not isinstance(l, tuple))
    if mod.nontrivial(labels):
        h = hashlib.sha1(canon(spec).encode()).hexdigest()
        if h not in stats.nontrivial:
            stats.nontrivial.add(h)
            if len(stats.samples) < 3:
                stats.samples.append({'case': trunc(spec), 'labels': sorted(set(labels))})

class Known(Exception):
    """the case reproduces a listed known finding (raised by a check with the finding's id)"""

def _shard(modname, tier, seed, shard, nshards, conn, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = importlib.import_module(modname)
    stats = Stats()
    fail = None
    ctx = Ctx(tier)
    ctx.deadline = deadline
    try:
        try:
            directed = list(mod.directed(tier)) if hasattr(mod, 'directed') else []
            for i, spec in enumerate(directed):
                if i % nshards == shard:
                    last = spec
                    try:
                        attempt(mod, ctx, spec, stats)
                    except Violation as e:
                        fail = (getattr(e, 'spec', spec), str(e)); break
            n = mod.examples(tier) if hasattr(mod, 'strategy') else 0
            n = (n + nshards - 1) // nshards
            if fail is None and n:
                box = {}
                def body(spec):
                    if time.time() > deadline and 'spec' not in box:
                        stats.labels['out-of-time'] += 1
                        return
                    try:
                        attempt(mod, ctx, spec, stats)
                    except Violation as e:
                        box['spec'] = spec; box['msg'] = str(e)
                        raise
                h = int(hashlib.sha256(('%s:%d:%d' % (mod.ID, seed, shard)).encode()).hexdigest()[:12], 16)
                t = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                             phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)(
                             hseed(h)(given(mod.strategy(tier))(body)))
                try:
                    t()
                except Violation as e:
                    fail = (box['spec'], str(e))
                except hypothesis.errors.Flaky as e:
                    # does not reproduce in the shard: hand over for the fresh 3x replay
                    if 'spec' in box:
                        fail = (box['spec'], box['msg'])
                except BaseExceptionGroup as e:
                    if 'spec' in box:
                        fail = (box['spec'], box['msg'])
                    else:
                        raise
        finally:
            ctx.close()
        conn.send(('ok', stats, fail))
    except BaseException:
        conn.send(('error', traceback.format_exc(), None))
    conn.close()

def replay(mod, spec, tier='quick', times=3):
    msg = None
    for _ in range(times):
        ctx = Ctx(tier)
        try:
            st_ = Stats()
            try:
                attempt(mod, ctx, spec, st_)
            except Violation as e:
                msg = str(e)
            else:
                return None
        finally:
            ctx.close()
    return msg

def main(modname):
    t0 = time.time()
    mod = importlib.import_module(modname)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if len(sys.argv) > 3 and sys.argv[2] == 'replay':
        spec = json.load(open(sys.argv[3]))['case']
        m = replay(mod, spec, times=1)
        print('VIOLATION property=%s replay=%s\n%s' % (mod.ID, sys.argv[3], m) if m else 'no violation')
        return 1 if m else 0
    try:
        for v in mod.VARIANTS:
            build.build(v)
    except build.BuildError as e:
        print('build failed:', e, file=sys.stderr)
        return 2
    nshards = getattr(mod, 'SHARDS', 8)
    budget = 420 if tier == 'quick' else getattr(mod, 'THOROUGH_S', 1500)
    deadline = t0 + budget
    procs = []
    mp = multiprocessing.get_context('fork')
    for i in range(nshards):
        a, b = mp.Pipe(False)
        p = mp.Process(target=_shard, args=(modname, tier, seed, i, nshards, b, deadline))
        p.start(); b.close()
        procs.append((p, a))
    stats = Stats(); fails = []; errors = []
    for p, a in procs:
        try:
            r = a.recv()
        except EOFError:
            r = ('error', 'shard died', None)
        p.join()
        if r[0] == 'ok':
            stats.merge(r[1])
            if r[2]:
                fails.append(r[2])
        else:
            errors.append(r[1])
    violations = []
    for spec, msg in fails:
        m = replay(mod, spec, tier)
        if m is None:
            stats.labels['unreproduced'] += 1
            print('note: a failure did not reproduce in 3 fresh replays: %s\n%s' % (msg, canon(spec)[:2000]), file=sys.stderr)
            continue
        os.makedirs(HERE + '/replays', exist_ok=True)
        name = '%s/replays/%s-%s.json' % (HERE, mod.ID, hashlib.sha1(canon(spec).encode()).hexdigest()[:12])
        json.dump({'property': mod.ID, 'case': spec, 'message': m, 'how': 'python3-vt run.py %s replay <this file>' % mod.ID},
                  open(name, 'w'), indent=1)
        if name not in [v[0] for v in violations]:
            violations.append((name, m))
    known = known_findings(mod.ID)
    cov = dict(evaluations=stats.evals, distinct_nontrivial=len(stats.nontrivial), rule=mod.RULE,
               samples=stats.samples[:6], outside_domain=stats.skipped, classes=dict(sorted(stats.labels.items())),
               shards=nshards, known_finding_hits=dict(stats.known))
    ev = dict(property=mod.ID, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, mod.ID), 'w'), indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (mod.ID, k['what']))
    for i, (name, m) in enumerate(violations):
        print('VIOLATION property=%s replay=%s' % (mod.ID, name))
        if i < 2: print(m[:1500])
    if violations:
        return 1
    if errors:
        for e in errors:
            print(e, file=sys.stderr)
        return 3
    print('%s %s: %d cases, %d distinct non-trivial, %d outside the domain, %.1f s' % (
        mod.ID, tier, stats.evals, len(stats.nontrivial), stats.skipped, time.time() - t0))
    if stats.labels.get('out-of-time'):
        print('note: time budget reached, %d cases not run' % stats.labels['out-of-time'])
    return 0
