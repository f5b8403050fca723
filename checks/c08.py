"""Valid deltas written by hand (not by the library) are applied to give exactly the target they describe."""
from hypothesis import strategies as st
from kit import gen, foreign as F, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C08'
LEVEL = 'exploration'
VARIANTS = ['asan', 'tiny']
RULE = ('a hand-written delta whose program has at least two external copies was applied and the result compared with the target; distinct by the generated case')
ASSUMPTIONS = ['the Python writer and applier of the format are right (they agree with the library on every delta the library makes: C07)']

@st.composite
def strategy_(draw, tier):
    p = draw(gen.package(gen.BIG, maxfiles=5))
    if draw(st.sampled_from([0, 0, 1])) and p['files']:
        p['files'] = p['files'] + [dict(d=6, n=5, k='reg', c=[['t', 3, 0, draw(st.sampled_from([8192, 30000, 100000]))]])]
    return dict(old=p, s=draw(F.shape()), prog=draw(F.program(6 if tier == 'quick' else 12, 6)), var=draw(st.sampled_from(['asan', 'asan', 'tiny'])))

def strategy(tier):
    return strategy_(tier)

def directed(tier):
    one = dict(files=[dict(d=0, n=0, k='reg', c=[['t', 1, 0, 40000]])], z=[C.GZIP, 9])
    none = dict(files=[], z=[C.GZIP, 9])
    base = dict(type=0, ver=3, wrap=[C.GZIP, 6], add=None, md5='full', z=[C.GZIP, 9], dflt=True, seed=1)
    progs = [[], [[[], 0]], [[[], 10]], [[[['a', 0.0, 40200]], 0]], [[[['e', 100, 0]], 0]],
             [[[['b', 1, 8192], ['b', 3, 8192], ['b', 1, 8192]], 5]], [[[['b', 2, 1], ['b', 1, 1], ['b', 2, 8193]], 0]],
             [[[['e', 1, 1], ['a', 0.0, 1]], 0], [[], 0], [[['e', 0, 0]], 7]],
             [[[['a', i / 40.0, 900] for i in range(39, -1, -1)], 1]]]
    for t in (0, 1):
        for ver in (3,) if t else (1, 2, 3):
            for p in progs:
                for add in (None, 'dense'):
                    for old in (one, none):
                        yield dict(old=old, prog=p, s=dict(base, type=t, ver=ver, add=add, **(dict(aw=[C.BZIP2, 9]) if add else {})))
    for c, ls in {C.GZIP: range(1, 10), C.BZIP2: range(1, 10), C.LZMA: range(1, 10), C.XZ: range(1, 10), C.ZSTD: range(1, 23), C.NONE: [0]}.items():
        for l in ls:
            for d in (True, False):
                for t in (0, 1):
                    yield dict(old=one, prog=progs[5], s=dict(base, type=t, z=[c, l], dflt=d))

def examples(tier):
    return 7000 if tier == 'quick' else 90000

def run(ctx, spec):
    w = ctx.w(spec.get('var', 'asan'))
    old = gen.realize(spec['old'])
    s = spec['s']
    d, b, new, ext = F.make(s, spec['prog'], old)
    r = apply(ctx, w, old, b)
    expect(r.rc == 0, 'a valid delta was not applied: %s', err(r.rc))
    same_bytes(ctx.get('out.rpm'), new, 'the rebuilt package')
    labels = ['type:%d' % s['type'], 'version:%d' % s['ver'], 'md5:' + s['md5'], 'target:' + C.NAMES[s['z'][0]], 'wrap:' + C.NAMES[s['wrap'][0]]]
    if len(d.ext_copies) >= 2: labels.append('copies')
    if any(a < 0 for a, l in d.ext_copies): labels.append('backward')
    if any(l == 0 for a, l in d.ext_copies): labels.append('empty-copy')
    if d.add: labels.append('add')
    labels.append('worker:' + spec.get('var', 'asan'))
    if len(ext) > 8192: labels.append('multi-block')
    if s.get('jump'): labels.append('jumpy-sequence')
    return labels

def nontrivial(labels):
    return 'copies' in labels
