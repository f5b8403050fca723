"""Unchanged content is copied from the old package, not stored again."""
from hypothesis import strategies as st
from kit import gen, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C22'
LEVEL = 'exploration'
VARIANTS = ['asan', 'fast']
RULE = ('a delta was made between packages built from runs of random bytes (each run of the new package either taken from the old one or fresh), the stored '
        'data were located in the new payload and counted against the runs the packages share; non-trivial when at least two shared runs and one fresh run '
        'or one moved run take part; distinct by the generated case')
ASSUMPTIONS = ['runs of random bytes do not resemble each other by chance']
# a shared run has at least RUN bytes and is longer than the fresh data before it: the extension of a copy over differing data pays off only then
RUN = 512
SLACK = 64

SEED0 = 100
@st.composite
def case(draw, tier):
    nf = draw(st.integers(1, 4)); old = []; sid = [SEED0]
    big = [RUN, 700, 1000, 4000, 8192, 20000] + ([60000] if tier != 'quick' else [30000])
    def seed():
        sid[0] += 1
        return sid[0]
    for i in range(nf):
        old.append([[seed(), draw(st.sampled_from(big) | st.integers(RUN, 3000))] for _ in range(draw(st.integers(1, 4)))])
    refs = [(i, j) for i, f in enumerate(old) for j in range(len(f))]
    new = []
    mode = draw(st.sampled_from(['edit', 'edit', 'mix']))
    if mode == 'mix':
        for i in range(draw(st.integers(1, 4))):
            ps = []
            for _ in range(draw(st.integers(1, 5))):
                a, b = draw(st.sampled_from(refs)); s, n = old[a][b]
                st_ = draw(st.sampled_from([0, 0, 1, 7, 100])); en = draw(st.sampled_from([0, 0, 1, 5, 90]))
                if n - st_ - en < RUN: st_ = en = 0
                ps.append(['o', s, st_, n - st_ - en])
                if draw(st.booleans()): ps.append(['f', seed(), 0, draw(st.integers(1, RUN - 1))])
            new.append(ps)
    else:
        for f in old:
            a = draw(st.sampled_from(['keep', 'keep', 'edit', 'edit', 'edit', 'drop', 'dup', 'rev']))
            if a == 'drop': continue
            ps = [['o', s, 0, n] for s, n in f]
            if a == 'rev': ps = ps[::-1]
            if a == 'dup': ps = ps + ps
            if a == 'edit':
                out = []
                for p in ps:
                    k = draw(st.sampled_from(['keep', 'ins', 'repl', 'cutl', 'cutr', 'gone', 'mid']))
                    n = p[3]
                    c = draw(st.sampled_from([1, 2, 3, 15, 16, 17, 31, 32, 33, 100, 400]))
                    if k == 'ins': out += [['f', seed(), 0, c], p]
                    elif k == 'repl' and n - c >= RUN: out += [['f', seed(), 0, c], ['o', p[1], c, n - c]]
                    elif k == 'cutl' and n - c >= RUN: out.append(['o', p[1], c, n - c])
                    elif k == 'cutr' and n - c >= RUN: out.append(['o', p[1], 0, n - c])
                    elif k == 'mid' and n >= 2 * RUN + c:
                        h = RUN + draw(st.integers(0, n - 2 * RUN - c))
                        out += [['o', p[1], 0, h], ['f', seed(), 0, c], ['o', p[1], h + c, n - h - c]]
                    elif k != 'gone': out.append(p)
                ps = out
            new.append(ps)
    nn = draw(st.permutations(list(range(len(new))))) if draw(st.sampled_from([0, 0, 1])) else list(range(len(new)))
    o = draw(gen.options((0, 0, 1)))
    o.pop('null', None); o.pop('seq', None)
    z = draw(st.sampled_from([[C.GZIP, 9], [C.NONE, 0], [C.ZSTD, 3], [C.XZ, 2]]))
    return dict(old=old, new=[new[i] for i in nn], opt=o, z=z, excl=draw(st.sampled_from([None, None, None, 0, 1])), var=draw(st.sampled_from(['asan', 'fast'])))

def strategy(tier):
    return case(tier)

def examples(tier):
    return 8000 if tier == 'quick' else 60000

def directed(tier):
    # sizes of the whole payload around powers of two and the tables of the search; one short edit in front, in the middle, at the end
    sizes = [512, 513, 1000, 1023, 4096, 8191, 8192, 8193, 16384, 32768, 60000] + [k * 65536 for k in (1, 2, 4, 6)] + [1 << 20, (1 << 20) + 1, 3 << 20]
    if tier != 'quick': sizes += [17 << 20]
    sizes.append(17 << 20)
    for typ in (0, 1):
        for add in (0, 1):
            for n in sizes:
                for k in ('same', 'front', 'middle', 'end', 'swap'):
                    if n > 1 << 20 and (k in ('same', 'front') or typ or n > 1 << 23 and k == 'end'): continue
                    def cut(a, l):
                        # long runs are made of pieces of at most 64 KB
                        out = []
                        while l:
                            s = 200 + a // 65536; o = a % 65536; m = min(l, 65536 - o)
                            out.append(['o', s, o, m]); a += m; l -= m
                        return out
                    full = cut(0, n)
                    if k == 'same': nw = full
                    elif k == 'front': nw = [['f', 90, 0, 77]] + full
                    elif k == 'end': nw = full + [['f', 90, 0, 77]]
                    elif k == 'middle':
                        h = n // 2
                        nw = cut(0, h) + [['f', 90, 0, 100]] + cut(h, n - h) if h >= RUN else [['f', 90, 0, 100]] + full
                    else:
                        h = n // 2
                        if h < RUN: continue
                        nw = cut(h, n - h) + cut(0, h)
                    o = {'type': 1} if typ else {}
                    if not add: o['noadd'] = 1
                    o['dc'] = [C.NONE, 0]; o['ac'] = [C.NONE, 0]
                    if not add: o.pop('ac')
                    yield dict(old=[[[x[1], x[3] + x[2]] for x in full]], new=[nw], opt=o, z=[C.NONE, 0], excl=None, var='fast')

def spec_runs(spec):
    return [(p[1], p[2]) for ps in spec['new'] for p in ps if p[0] == 'o']

def recipe(ps):
    return [['r', p[1], p[2], p[3]] for p in ps]

def run(ctx, spec):
    w = ctx.w(spec.get('var', 'asan'))
    opt = spec['opt']
    of = [dict(d=0, n='o%d' % i, k='reg', c=[['r', s, 0, n] for s, n in f]) for i, f in enumerate(spec['old'])]
    ex = spec['excl']
    gone = set()
    if ex is not None and not opt.get('type') and ex < len(of) and len(of) > 1:
        of[ex]['f'] = 1                  # a configuration file: not a source of standard deltas
        gone = {s for s, n in spec['old'][ex]}
    nf = [dict(d=0, n='n%d' % i, k='reg', c=recipe(ps)) for i, ps in enumerate(spec['new'])]
    old = gen.realize(dict(files=of, z=spec['z'], ver='1.0')); new = gen.realize(dict(files=nf, z=spec['z'], ver='1.1'))
    r, pd, _ = make(ctx, w, old, new, opt)
    expect(r.rc == 0, 'drpm_make failed: %s', err(r.rc))
    d = D.parse(ctx.get('d.drpm'))
    arch = R.Rpm(new).cpio()
    base = 0
    if opt.get('type'): base = d.tgt_header_len
    # the stretches of the new payload taken from internal data
    stored = []; pos = 0; e = 0
    for n, l in d.int_copies:
        for a, m in d.ext_copies[e:e + n]:
            pos += m
        e += n
        if l: stored.append((pos, pos + l))
        pos += l
    expect(pos == base + len(arch), 'the instructions give %d bytes, the new package has %d', pos, base + len(arch))
    # the runs of the new payload
    runs = []; at = 0; fresh = 0; moved = 0
    starts = file_starts(arch)
    for i, ps in enumerate(spec['new']):
        q = starts[i]
        for p in ps:
            if p[0] == 'o' and p[1] not in gone: runs.append((q, q + p[3]))
            elif p[0] == 'f': fresh += 1
            q += p[3]
    total = sum(b - a for a, b in runs)
    lost = 0; si = 0
    stored.sort()
    for a, b in runs:
        for s, t in stored:
            lost += max(0, min(b + base, t) - max(a + base, s))
    expect(lost <= SLACK * max(1, len(runs)), '%d of %d bytes the old package has were stored again (%d runs)', lost, total, len(runs))
    # all that is stored: fresh data, archive entries, and a header
    cap = sum(p[3] for ps in spec['new'] for p in ps if p[0] == 'f' or p[1] in gone) + 160 * (len(spec['new']) + 1) + 1024 + SLACK * len(runs) + base
    expect(len(d.int_data) <= cap, '%d bytes are stored, at most %d expected', len(d.int_data), cap)
    labels = ['type:%d' % opt.get('type', 0), 'add' if d.add else 'noadd', 'runs:%d' % min(len(runs), 9)]
    if lost: labels.append('lost:%d' % (lost // 16 * 16))
    if fresh: labels.append('fresh')
    if gone: labels.append('excluded')
    if [a for a, b in spec_runs(spec)] != sorted(a for a, b in spec_runs(spec)): labels.append('moved')
    if len(runs) >= 2: labels.append('runs')
    return labels

def file_starts(arch):
    """offsets of the contents of the files n0, n1, ... in the archive"""
    out = {}; o = 0
    while True:
        f = [int(arch[o + 6 + 8 * i:o + 14 + 8 * i], 16) for i in range(13)]
        size, ns = f[6], f[11]
        name = arch[o + 110:o + 110 + ns - 1]
        c = (o + 110 + ns + 3) & ~3
        if name == b'TRAILER!!!': break
        base = name.split(b'/')[-1]
        if base[:1] == b'n' and base[1:].isdigit(): out[int(base[1:])] = c
        o = (c + size + 3) & ~3
    return out

def nontrivial(labels):
    return 'runs' in labels and ('fresh' in labels or 'moved' in labels)
