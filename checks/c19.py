"""Source size and access pattern do not matter for reconstruction."""
import os, random
from hypothesis import strategies as st
from kit import gen, foreign as F, fsdb, fscase, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C19'
LEVEL = 'exploration'
VARIANTS = ['tiny', 'fast']
RULE = ('a delta was applied to a source of which, at some point, more blocks were read and still needed later than are kept in memory, from a package file or from installed files, '
        'and the result was compared with the target; distinct by the generated case')
ASSUMPTIONS = ['the build with small block limits (128 byte blocks, 4 of them in memory, 3 open files) differs from the real one in these three numbers only; '
               'the real limits are exercised with sources of up to 70 MB in the directed cases']

# access patterns over a source of n blocks; every element is (first block, number of blocks or bytes)
KINDS = ['seq', 'rev', 'stride', 'random', 'pingpong', 'hot', 'spans', 'late', 'window', 'cycle', 'zigzag', 'tail']

def pattern(kind, n, bs, k, r):
    """-> list of (offset, length) in a source of n bytes, about k copies"""
    nb = max(1, n // bs)
    jit = lambda: r.choice([0, 0, 1, -1, r.randrange(bs)])
    ln = lambda: r.choice([1, bs // 2, bs - 1, bs, bs + 1, 2 * bs])
    at = lambda b: (b * bs + jit(), ln())
    if kind == 'seq': step = max(1, nb // k); return [at(b) for b in range(0, nb, step)]
    if kind == 'rev': step = max(1, nb // k); return [at(b) for b in range(nb - 1, -1, -step)]
    if kind == 'stride': s = r.randrange(1, nb + 1); return [at(i * s % nb) for i in range(k)]
    if kind == 'random': return [at(r.randrange(nb)) for i in range(k)]
    if kind == 'pingpong': a, b = r.randrange(nb), r.randrange(nb); return [at((a if i & 1 else b) + i // 8) for i in range(k)]
    if kind == 'hot': h = r.randrange(nb); return [at(h if i % 3 == 0 else r.randrange(nb)) for i in range(k)]
    if kind == 'spans': return [(r.randrange(n), r.randrange(1, max(2, min(n, 12 * bs)))) for i in range(max(1, k // 8))]
    if kind == 'late': f = [r.randrange(nb) for i in range(k // 3)]; return [at(b) for b in f] + [(0, min(n, 30 * bs))] + [at(b) for b in f]
    if kind == 'window': w = r.randrange(2, 12); return [at((i // (2 * w)) * w // 2 + r.randrange(w)) for i in range(k)]
    if kind == 'cycle': p = r.randrange(2, 14); b = r.randrange(nb); return [at((b + i % p * r.choice([1, 1, 1, 7])) % nb) for i in range(k)]
    if kind == 'zigzag': return [at(i // 2 if i & 1 else nb - 1 - i // 2) for i in range(min(k, nb))]
    return [(max(0, n - 1 - r.randrange(4 * bs)), ln()) for i in range(k // 2)] + [at(r.randrange(nb)) for i in range(k // 2)]

def program(pats, n, bs):
    """-> copy program with absolute positions"""
    out = []
    for kind, k, seed in pats:
        r = random.Random(seed)
        for off, ln in pattern(kind, n, bs, k, r):
            out.append([['p', off, ln], r.choice([0, 0, 0, 1, 40])])
    g = []
    for op, il in out:
        if g and g[-1][1] == 0: g[-1][0].append(op); g[-1][1] = il
        else: g.append([[op], il])
    return g

def pats(maxk):
    return st.lists(st.tuples(st.sampled_from(KINDS), st.integers(2, maxk), st.integers(0, 10 ** 6)).map(list), min_size=1, max_size=4)

@st.composite
def strategy_(draw, tier):
    k = draw(st.sampled_from(['rpm', 'rpm', 'rpmonly', 'rpmonly', 'disk', 'disk', 'make']))
    if k in ('disk',):
        s = draw(fscase.installed(tier))
    else:
        p = draw(st.one_of(gen.package(gen.BIG, maxfiles=6, nofiles=False), fscase.many(tier)))
        p.pop('src', None)
        s = dict(old=p)
    s['k'] = k
    big = draw(st.sampled_from([0, 3000, 20000, 60000]))
    if big:
        s['old'] = dict(s['old'], files=s['old']['files'] + [dict(d=draw(st.integers(0, 7)), n='big', k='reg', c=[['r', draw(st.integers(0, 5)), 0, big]])])
    if k == 'make':
        s['new'] = draw(gen.mutated(s['old'], gen.BIG)); s['opt'] = draw(gen.options((0, 0, 1)))
    else:
        sh = draw(F.shape(types=(1,) if k == 'rpmonly' else (0,)))
        sh['z'] = draw(st.sampled_from([[C.NONE, 0], [C.GZIP, 1], [C.ZSTD, 1]])); sh['wrap'] = draw(st.sampled_from([[C.NONE, 0], [C.GZIP, 6]]))
        s['s'] = sh
        s['pat'] = draw(pats(60 if tier == 'quick' else 400))
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 5000 if tier == 'quick' else 60000

BASE = dict(type=0, ver=3, wrap=[C.NONE, 0], add=None, md5='full', z=[C.NONE, 0], dflt=True, seed=1)

def directed(tier):
    # real limits: 5000 blocks of 8192 bytes; 50 open files
    MB = 1 << 20
    one = dict(files=[dict(d=0, n='head', k='reg', c=[['t', 1, 0, 9000]]), dict(d=0, n='huge', k='reg', c=[['r', 1, 0, 60 * MB]]), dict(d=1, n='tail', k='reg', c=[['t', 2, 0, 3000]])], z=[C.NONE, 0])
    many = dict(files=[dict(d=i % 8, n='f%03d' % i, k='reg', c=[['r', i % 5, i * 1000, 700000 + i]]) for i in range(90)], z=[C.NONE, 0])
    P = [[['seq', 7000, 1], ['seq', 7000, 2]], [['random', 6000, 3], ['hot', 2000, 4]], [['rev', 5500, 5], ['rev', 5500, 6]], [['zigzag', 7000, 7], ['late', 3000, 8]]]
    i = 0
    for k in ('rpm', 'rpmonly', 'disk'):
        for p in P if tier == 'thorough' else P[:3] if k == 'rpm' else P[1:3]:
            i += 1
            yield dict(old=many if i & 1 else one, k=k, s=dict(BASE, type=1 if k == 'rpmonly' else 0), pat=p, var='fast')
    # small limits, long source (more pages than 16 bits count)
    long = dict(files=[dict(d=0, n='huge', k='reg', c=[['r', 3, 0, 9 * MB]])], z=[C.NONE, 0])
    for k in ('rpm', 'rpmonly'):
        yield dict(old=long, k=k, s=dict(BASE, type=1 if k == 'rpmonly' else 0), pat=[['seq', 100, 1], ['rev', 60, 2], ['random', 300, 9]])
    small = dict(files=[dict(d=i % 8, n='f%03d' % i, k='reg', c=[['r', i % 5, i * 10, [0, 1, 5, 127, 128, 129, 300, 1000][i % 8]]]) for i in range(30)] + [dict(d=0, n='l', k='lnk', l='long/' * 60)], z=[C.GZIP, 1])
    for k in ('rpm', 'rpmonly', 'disk'):
        for kind in KINDS:
            for n in (5, 40, 200):
                for seed in range(3):
                    yield dict(old=small, k=k, s=dict(BASE, type=1 if k == 'rpmonly' else 0), pat=[[kind, n, seed]])

def pressure(d, bs, fromrpm):
    """largest number of blocks that are in use or needed again while a later copy is served"""
    last = {}; first = {}; pos = 0; hi = -1
    acc = []
    for i, (a, l) in enumerate(d.ext_copies):
        pos += a
        b = range(pos // bs, (pos + l - 1) // bs + 1) if l else ()
        acc.append(b); pos += l
        for x in b: last[x] = i
    ev = [0] * (len(acc) + 1)
    for i, b in enumerate(acc):
        for x in b:
            if x not in first: first[x] = i
    if fromrpm:
        # reading block x reads all before it
        m = len(acc); order = sorted(first, reverse=True); best = {}
        cur = m
        for x in order:
            cur = min(cur, first[x]); best[x] = cur
        first = best
    for x in first:
        ev[first[x]] += 1; ev[last[x]] -= 1
    c = top = 0
    for v in ev:
        c += v; top = max(top, c)
    return top

def run(ctx, spec):
    k = spec['k']; var = spec.get('var', 'tiny')
    bs, core = (8192, 5000) if var == 'fast' else (128, 4)
    labels = ['kind:' + k, 'worker:' + var]
    if k == 'disk':
        fs, old, files, part, order, ext = fscase.setup(ctx, spec)
        w = fs.worker(var)
    else:
        w = ctx.w(var)
        old = gen.realize(spec['old'])
    if k == 'make':
        new = gen.realize(spec['new'])
        r, pd, _ = make(ctx, w, old, new, spec['opt'])
        expect(r.rc == 0, 'drpm_make failed: %s', err(r.rc))
        b = ctx.get('d.drpm')
        d = D.parse(b)
    else:
        o = R.Rpm(old)
        n = len(ext) if k == 'disk' else len(o.hdr.raw) + len(o.cpio()) if k == 'rpmonly' else len(D.old_cpio(o)[0])
        d, b, new, ext = F.make(spec['s'], program(spec['pat'], n, bs), old, ext=ext if k == 'disk' else None)
    r = apply(ctx, w, None if k == 'disk' else old, b)
    expect(r.rc == 0, 'a valid delta was not applied (%s): %s', k, err(r.rc))
    same_bytes(ctx.get('out.rpm'), new, 'the rebuilt package')
    p = pressure(d, bs, k != 'disk')
    if p > core: labels.append('paged')
    if p > 4 * core: labels.append('paged-4x')
    if k == 'disk' and len(part) > (3 if var == 'tiny' else 50): labels.append('beyond-open-limit')
    if var == 'fast':
        ctx.rm('old.rpm', 'out.rpm', 'd.drpm')
    return labels

def nontrivial(labels):
    return 'paged' in labels
