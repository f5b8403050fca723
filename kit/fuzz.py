"""Coverage-guided fuzzing sessions (libFuzzer, harness/fuzz.c) as cases of a check."""
import os, re, subprocess, shutil, tempfile
from . import build, gen, foreign as F, rpmfmt as R, delta as D, comp as C, rpml
from .runner import Violation

f = lambda n, k='t', sz=400, **x: dict(d=0, n=n, k='reg', c=[[k, 1, n * 50, sz]], **x)
OLD = [dict(files=[f(0), f(1, 'r', 130), dict(d=0, n=2, k='lnk', l='x'), dict(d=1, n=3, k='chr', r=[1, 3]), dict(d=2, n=4, k='dir')], z=[C.NONE, 0], ver='1.0'),
       dict(files=[f(0, 't', 900), f(1, 'r', 40), f(5, f=1)], z=[C.GZIP, 9], ver='1.0', epoch=2),
       dict(files=[f(2, 't', 300), dict(d=0, n=3, k='lnk', l='/a/b')], z=[C.ZSTD, 3], ver='1.0')]
NEW = [dict(OLD[0], files=[f(0), f(6, 't', 300), f(1, 'r', 130)], ver='1.1'), dict(OLD[1], files=OLD[1]['files'][:2] + [f(7, 'r', 60)], ver='1.1'), dict(OLD[2], files=[f(2, 't', 330)], ver='1.1')]
PROG = [[[['a', 0.1, 120], ['r', -60, 90]], 20], [[['a', 0.6, 64], ['e', 40, 40]], 7]]
WORDS = [b'drpm', b'DLT1', b'DLT2', b'DLT3', b'070701', b'TRAILER!!!', b'\xed\xab\xee\xdb', b'\x8e\xad\xe8\x01', b'BZh9', b'\x1f\x8b\x08', b'\xfd7zXZ\0', b'\x28\xb5\x2f\xfd', b'LZIP', b'RPML', b'\xff\xff\xff\xff',
         b'\x80\0\0\0', b'\x7f\xff\xff\xff', b'\0\0\0\1', b'\0\0\0\0', b'00000000', b'ffffffff', b'cpio', b'none', b'gzip', b'\0\0\x20\0', b'\0\0\x03\xf1', b'./']
OPS = {'C09': ['apply'] * 8, 'C10': ['makeold0', 'makeold1', 'makenew0', 'makenew1', 'applyold', 'seq', 'makeold0', 'makenew0'], 'C20': ['print', 'list'] * 4}

def cases(prop, tier):
    """one session for each shard of the runner"""
    s = int(os.environ.get('VERIF_SEED', '1') or '1')
    return [dict(k='fz', op=op, v=i, seed=100 * s + i, runs=25000 if tier == 'quick' else 10000000, s=(25 if prop != 'C20' else 12) if tier == 'quick' else 400) for i, op in enumerate(OPS[prop])]

def run(spec):
    if spec['k'] == 'fz1':
        single(spec)
        return ['fuzz:one']
    n = session(spec['op'], spec['v'], spec['seed'], spec['runs'], spec['s'])
    return ['fuzz:' + spec['op'], ('fuzz executions', n)]


def shapes(v):
    base = dict(md5='full', z=[C.GZIP, 1], dflt=True, seed=v + 1)
    for t, ver in ((0, 3), (0, 2), (0, 1), (1, 3)):
        for add in (None, 'sparse'):
            yield dict(base, type=t, ver=ver, wrap=[C.NONE, 0], add=add, aw=[C.BZIP2, 9])
        if t or ver == 3:
            for w in ([C.GZIP, 6], [C.BZIP2, 9], [C.XZ, 1], [C.LZMA, 1], [C.ZSTD, 3], [C.LZIP, 0]):
                yield dict(base, type=t, ver=ver, wrap=w, add='zero', aw=[C.GZIP, 9])

def prepare(d, op, v):
    """files of the harness and the corpus"""
    put = lambda n, b: open(os.path.join(d, n), 'wb').write(b)
    old = gen.realize(OLD[v % len(OLD)]); new = gen.realize(NEW[v % len(NEW)])
    put('old.rpm', old); put('new.rpm', new)
    o = R.Rpm(old)
    dl, b, _, _ = F.make(dict(type=v // 3 & 1, ver=3, wrap=[C.NONE, 0], add=None, md5='full', z=[C.GZIP, 1], dflt=True, seed=1), PROG, old)
    put('d.drpm', b)
    nm = o.hdr.get(1000); evr = o.nevr()[len(nm) + 1:]
    ents = [(x.path.lstrip(b'/'), x.mode, 0x103, len(x.content), b'\5' * 16) for x in gen.files_of(OLD[v % len(OLD)])]
    put('list', rpml.write(nm, evr, ents))
    c = os.path.join(d, 'corpus'); os.mkdir(c)
    seeds = []
    if op == 'apply':
        for s in shapes(v): seeds.append(F.make(s, PROG, old)[1])
    elif op == 'seq':
        for p in OLD:
            q = R.Rpm(gen.realize(p)); _, order, _ = D.old_cpio(q)
            seeds.append(q.nevr() + b'-' + (D.seq_digest(D.header_files(q.hdr), order) + D.seq_encode(order)).hex().encode())
    elif op in ('print', 'list'):
        for ow in ('none', 'short', 'eight', 'user', 'long'):
            for share in (True, False):
                seeds.append(rpml.write(nm, evr, ents, [e[0] for e in ents[:2]], [b'p'], share=share, owners=ow))
        seeds.append(rpml.write(nm, evr, ents))
    else:
        for p in (OLD[v % len(OLD)], NEW[v % len(NEW)]):
            for z in ([C.NONE, 0], [C.GZIP, 6], [C.BZIP2, 1], [C.XZ, 0], [C.LZMA, 1], [C.ZSTD, 1]):
                seeds.append(gen.realize(dict(p, z=z)))
    for i, b in enumerate(seeds): open('%s/%03d' % (c, i), 'wb').write(b)
    with open(d + '/words', 'w') as h:
        for w in WORDS: h.write('"%s"\n' % ''.join('\\x%02x' % x for x in w))

def _env(d, op):
    return dict(os.environ, HOME=d, LC_ALL='C', DRPM_FUZZ_DIR=d, DRPM_FUZZ_OP=op, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000:handle_abort=1:symbolize=1:detect_stack_use_after_return=0')

def verdict(err):
    """None: not the library's doing (a fault inside librpm or a compression library); otherwise a description"""
    if 'ORACLE:' in err:
        return err[err.index('ORACLE:'):].split('\n')[0]
    m = re.search(r'(ERROR: .*|runtime error: .*|SUMMARY: .*)', err)
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) ([^\n]*)', err)
    own = False
    for fn, where in frames:
        if build.REPO + '/src/' in where: own = True; break
        if re.search(r'/lib(rpm|rpmio|z|bz2|lzma|zstd|lz|crypto)\.so', where): break
    if 'timeout after' in err or 'libFuzzer: timeout' in err:
        own = any(build.REPO + '/src/' in w for _, w in frames)
    if 'out-of-memory' in err or not own:
        return None
    return (m.group(0) if m else 'fault') + '\n' + '\n'.join('%s %s' % x for x in frames[:10])

def one(exe, d, op, path):
    q = subprocess.run([exe, path, '-timeout=40', '-rss_limit_mb=3500'], env=_env(d, op), capture_output=True, timeout=150)
    return None if q.returncode == 0 else verdict(q.stderr.decode('latin1'))

def variant(op, v):
    return 'tinyfuzz' if op == 'apply' and v % 3 == 1 else 'fuzz'

def session(op, v, seed, runs, seconds):
    """returns the number of executions; raises Violation (with the input as its case)"""
    exe = build.build(variant(op, v))
    d = tempfile.mkdtemp(prefix='dvf', dir='/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None)
    try:
        prepare(d, op, v)
        q = subprocess.run([exe, d + '/corpus', '-seed=%d' % (seed & 0x7fffffff or 1), '-runs=%d' % runs, '-max_total_time=%d' % seconds, '-max_len=8192', '-len_control=0', '-timeout=40', '-rss_limit_mb=3500', '-dict=' + d + '/words',
                            '-artifact_prefix=' + d + '/art-', '-print_final_stats=1', '-reload=0', '-use_value_profile=%d' % (seed & 1)], env=_env(d, op), capture_output=True, cwd=d, timeout=seconds + 200)
        err = q.stderr.decode('latin1')
        m = re.search(r'number_of_executed_units: (\d+)', err)
        if q.returncode:
            a = [x for x in os.listdir(d) if x.startswith('art-')]
            w = one(exe, d, op, d + '/' + a[0]) if a else None
            if w:
                if 'timeout' not in w: subprocess.run([exe, '-minimize_crash=1', '-timeout=40', '-runs=4000', '-max_total_time=20', '-exact_artifact_path=' + d + '/min', d + '/' + a[0]], env=_env(d, op), capture_output=True, cwd=d, timeout=150)
                best = d + '/' + a[0]
                if os.path.exists(d + '/min') and one(exe, d, op, d + '/min'): best = d + '/min'
                e = Violation(w); e.spec = dict(k='fz1', op=op, v=v, hex=open(best, 'rb').read().hex())
                raise e
        return int(m.group(1)) if m else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)

def single(spec):
    exe = build.build(variant(spec['op'], spec['v']))
    d = tempfile.mkdtemp(prefix='dvf')
    try:
        prepare(d, spec['op'], spec['v'])
        open(d + '/input', 'wb').write(bytes.fromhex(spec['hex']))
        w = one(exe, d, spec['op'], d + '/input')
        if w: raise Violation(w)
    finally:
        shutil.rmtree(d, ignore_errors=True)
