"""Installed files are a sufficient source for standard deltas."""
import os, stat, random, shutil
from hypothesis import strategies as st
from kit import gen, foreign as F, fsdb, fscase, rpmfmt as R, delta as D, comp as C
from kit.common import *
from kit.fscase import prelinked

ID = 'C04'
LEVEL = 'exploration'
VARIANTS = ['asan', 'tiny']
RULE = ('the old package was registered in a scratch package database, its files were written to disk, a standard delta taking at least one copy from it was '
        'applied without package file, and the result was compared with the new package; distinct by the generated case')
ASSUMPTIONS = ['the scratch database written by the rpm tool represents an installed package', 'at most one installed package has the name, epoch, version and release of the source']

@st.composite
def strategy_(draw, tier):
    s = draw(fscase.installed(tier))
    s['var'] = draw(st.sampled_from(['asan', 'asan', 'tiny']))
    k = draw(st.sampled_from(['make', 'foreign', 'foreign']))
    s['k'] = k
    if k == 'make':
        s['new'] = draw(gen.mutated(s['old'], gen.BIG)); s['opt'] = draw(gen.options((0, 0, 0, 0, 1)))
        s['new'].pop('src', None)
        if draw(st.sampled_from([0] * 9 + [1])): s['new']['src'] = 1
    else:
        s['s'] = draw(F.shape(types=(0,))); s['prog'] = draw(F.program(8, 6))
    s['mod'] = draw(st.integers(0, 50))
    s['chld'] = draw(st.sampled_from([1, 1, 0]))
    s['plk'] = draw(st.sampled_from([0] * 4 + [1, 2, 3, 4, 5, 6]))
    s['inst'] = draw(st.sampled_from([1] * 12 + [0]))
    return s

def strategy(tier):
    return strategy_(tier)

def directed(tier):
    base = dict(type=0, ver=3, wrap=[C.GZIP, 6], add=None, md5='full', z=[C.GZIP, 9], dflt=True, seed=1)
    for n in (49, 50, 51, 55, 100):
        for order in (0, 1, 2):
            for size in (100, 5000):
                p = dict(files=[dict(d=i % 8, n='f%03d' % i, k='reg', c=[['t', i % 6, i, size + i]]) for i in range(n)], z=[C.GZIP, 1])
                p['files'].insert(0, dict(d=0, n='big', k='reg', c=[['t', 2, 0, 50000]]))
                if order: p['order'] = order
                for prog in ([[[['a', 0.0, 10000], ['a', 0.0, 1000000], ['a', 0.001, 60000]], 3]],
                             [[[['a', i / 60.0, 1500] for i in range(60)], 0], [[['a', i / 60.0, 1500] for i in range(59, -1, -1)], 0]],
                             [[[['a', (i * 37 % 60) / 60.0, 9000] for i in range(60)], 0]]):
                    yield dict(old=p, k='foreign', s=base, prog=prog, mod=0, inst=1)
    # files changed by prelink, of sizes around the block size, between links, directories and plain files
    al = [['a', 0.0, 10000000]]
    progs = [[[al, 3]], [[[['a', i / 40.0, 3000] for i in range(40)], 0]], [[[['a', i / 40.0, 3000] for i in range(39, -1, -1)], 2]], [[[['a', (i * 17 % 40) / 40.0, 9000] for i in range(40)], 1]],
             [[[['a', 0.9, 2000], ['a', 0.0, 2000], ['a', 0.5, 20000], ['a', 0.0, 1000000]], 0]]]
    for sizes in ([1], [100], [8191], [8192], [8193], [20000], [50, 60, 70], [5000, 5000, 5000], [100, 30000, 100], [30000, 30000], [0, 7000, 0, 1300, 9000], [8192 - 120 - 24, 8192, 8192 * 2, 5], [16384, 1, 16384, 1, 1],
                  [300, 'L', 300, 'D', 9000, 'L', 8100, 'L', 5], ['L', 8000, 'L', 'L', 16000, 'L'], [7900, 'L', 'L', 'L', 'L', 'L', 'L', 300, 'L']):
        p = dict(files=[dict(d=0, n='f%02d' % i, **({'k': 'lnk', 'l': ('over/there/%d/' % i) * (15, 1, 40)[i % 3]} if n == 'L' else {'k': 'dir'} if n == 'D' else {'k': 'reg', 'c': [['t', 1 + i % 5, i, n]]})) for i, n in enumerate(sizes)], z=[C.GZIP, 1])
        for prog in progs:
            for plk in (1, 2, 3, 4, 5, 6, 7):
                yield dict(old=p, k='foreign', s=base, prog=prog, mod=0, inst=1, plk=plk, chld=plk % 3 // 2, var=('asan', 'tiny')[plk % 3 == 1])
    # files packaged with what prelink leaves behind: unchanged ones are used as they are, with or without the tool
    for sizes in ([300], [9000], [300, 300, 300], [20000, 100, 9000], [8191, 8192, 8193]):
        for mix in (0, 1):
            p = dict(files=[dict(d=0, n='f%02d' % i, k='reg', c=[['E', i % 4, n] if not (mix and i % 2) else ['t', 1, i, n]]) for i, n in enumerate(sizes)], z=[C.GZIP, 1])
            for prog in progs:
                for plk, tool in ((0, 0), (0, 1), (2, 1), (3, 1)):
                    yield dict(old=p, k='foreign', s=base, prog=prog, mod=0, inst=1, plk=plk, tool=tool, var=('asan', 'tiny')[mix])

def examples(tier):
    return 2600 if tier == 'quick' else 40000

def disturb(files, part, seed):
    """changes on disk that must not matter: files outside the participating set"""
    if not seed:
        return 0
    r = random.Random(seed); n = 0
    for f in files:
        if not stat.S_ISREG(f.mode) or f.path in part:
            continue
        c = r.randrange(6); p = os.fsdecode(f.path)
        if not os.path.lexists(p): continue
        n += 1
        if c == 0: os.unlink(p)
        elif c == 1: open(p, 'ab').write(b'more')
        elif c == 2: open(p, 'wb').write(b'')
        elif c == 3: os.unlink(p); os.mkdir(p)
        elif c == 4: open(p, 'wb').write(bytes(r.randrange(1, 300)))
        else: n -= 1
    return n

def run(ctx, spec):
    fs, old, files, part, order, ext = fscase.setup(ctx, spec)
    w = fs.worker(spec.get('var', 'asan'))
    refuse = None
    if spec['k'] == 'make':
        new = gen.realize(fsdb.rooted(ctx, spec['new']))
        r, pd, _ = make(ctx, w, old, new, spec['opt'])
        expect(r.rc == 0, 'drpm_make failed: %s', err(r.rc))
        b = ctx.get('d.drpm')
        d = D.parse(b)
        if d.type: refuse = 'rpm-only'
        elif spec['new'].get('src'): refuse = 'source'
    else:
        d, b, new, _ = F.make(spec['s'], spec['prog'], old, ext=ext)
    changed = disturb(files, part, spec['mod'])
    undone = prelinked(part, spec.get('plk', 0))
    w.raw('prelink', spec.get('tool', int(len(undone) > 0))); w.raw('sigchld', spec.get('chld', 1))
    if not spec['inst']:
        fs.reset()
        fs.install(*fscase.decoys(spec['old'], 3))
    r = apply(ctx, w, None, b)
    if refuse:
        expect(r.rc == ARGS, 'a %s delta applied without package file returns %s', refuse, err(r.rc))
        return ['refused:' + refuse]
    if not spec['inst']:
        expect(r.rc == NOINSTALL, 'the source package is not installed, but the application returns %s', err(r.rc))
        return ['not-installed']
    expect(r.rc == 0, 'a standard delta was not applied to the unchanged installed files: %s', err(r.rc))
    same_bytes(ctx.get('out.rpm'), new, 'the package rebuilt from installed files')
    labels = ['kind:' + spec['k']]
    if d.ext_copies and any(l for a, l in d.ext_copies): labels.append('copies')
    if len(part) > 50: labels.append('beyond-open-limit')
    if order != sorted(order): labels.append('reordered')
    if order != list(range(len(order))): labels.append('index-differs')
    if undone: labels.append('prelinked' + ('-and-not' if any(os.path.exists(os.fsdecode(p)) and not os.path.exists(os.fsdecode(p) + '.undo') for p in part) else ''))
    if changed: labels.append('excluded-changed')
    if any(a < 0 for a, l in d.ext_copies): labels.append('backward')
    if len(ext) > 8192: labels.append('multi-block')
    return labels

def nontrivial(labels):
    return 'copies' in labels
