"""Using installed files or an old package takes a bounded amount of memory and few open files."""
import os, random
from hypothesis import strategies as st
from kit import gen, foreign as F, fsdb, fscase, rpmfmt as R, delta as D, comp as C
from kit.common import *
from checks.c19 import pattern, KINDS, BASE

ID = 'C24'
LEVEL = 'exploration'
VARIANTS = ['tiny', 'asan']
RULE = ('a delta was applied to, or checked against, installed files (or applied to the old package) of which more was used than may be kept in memory (blocks for an application, the fixed allowance for a check), '
        'or which are more files than may be open at once; distinct by the generated case')
ASSUMPTIONS = ['the memory of a call is what the library and the libraries it uses have allocated at its highest moment, beyond that of a call with the same packages that copies nothing',
               'the build with small block limits (128 byte blocks, 4 of them in memory, 3 open files) differs from the real one in these three numbers only']

def program(pats, n, bs):
    # what is used of the source is large, what is made of it is small
    ops = []
    for kind, k, seed in pats:
        r = random.Random(seed)
        for off, ln in pattern(kind, n, bs, k, r): ops.append(['p', off, 1 + ln % 3])
    for i in range(0, len(ops), 997): ops[i][2] = 3 * bs
    return [[ops[i:i + 200], i % 7] for i in range(0, len(ops), 200)]

def pats(maxk):
    return st.lists(st.tuples(st.sampled_from(KINDS), st.one_of(st.integers(2, 60), st.integers(2, maxk)), st.integers(0, 10 ** 6)).map(list), min_size=1, max_size=4)

@st.composite
def strategy_(draw, tier):
    s = dict(op=draw(st.sampled_from(['apply'] * 4 + ['file'] * 3 + ['full', 'sizes'])))
    n = draw(st.sampled_from([1, 1, 2, 5, 20, 60, 200]))
    total = draw(st.sampled_from([20000, 100000, 300000, 600000]))
    r = random.Random(draw(st.integers(0, 10 ** 6)))
    fs = [dict(d=r.randrange(8), n='f%03d' % i, k='reg', c=[[r.choice('rt'), r.randrange(6), r.randrange(2000), max(1, int(total / n * r.choice([.1, .5, 1, 1, 2])))]]) for i in range(n)]
    for f in fs:
        if r.random() < .1: f.update(k='lnk', l='to/' * r.randrange(1, 90)); del f['c']
    s['old'] = dict(files=fs, z=[C.GZIP, 1])
    o = draw(st.sampled_from([0, 1, 2]))
    if o: s['old']['order'] = o
    s['s'] = dict(BASE, seed=draw(st.integers(0, 50)))
    if s['op'] == 'file' and draw(st.booleans()): s['s']['type'] = 1
    s['pat'] = draw(pats(4000))
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 600 if tier == 'quick' else 8000

def directed(tier):
    MB = 1 << 20
    one = dict(files=[dict(d=0, n='a', k='reg', c=[['t', 1, 0, 9000]]), dict(d=0, n='huge', k='reg', c=[['r', 1, 0, 120 * MB]])], z=[C.NONE, 0])
    many = dict(files=[dict(d=i % 8, n='f%04d' % i, k='reg', c=[['t', i % 5, i, 8200 + i % 7]]) for i in range(1200)], z=[C.GZIP, 1])
    two = dict(files=[dict(d=0, n='b', k='reg', c=[['r', 2, 0, 600000]]), dict(d=0, n='c', k='reg', c=[['r', 3, 0, 600000]])], z=[C.GZIP, 1])
    few = dict(files=[dict(d=i % 8, n='f%04d' % i, k='reg', c=[['t', i % 5, i, 300 + i % 7]]) for i in range(80)], z=[C.GZIP, 1])
    yield dict(op='apply', old=one, s=BASE, pat=[['seq', 15000, 1], ['seq', 15000, 2]], var='asan')
    yield dict(op='apply', old=one, s=BASE, pat=[['random', 15000, 1], ['rev', 15000, 2]], var='asan')
    for op in ('full', 'sizes'): yield dict(op=op, old=one, s=BASE, pat=[], var='asan')
    for kind in ('seq', 'rev', 'random', 'spans'):
        yield dict(op='apply', old=many, s=BASE, pat=[[kind, 1300, 1], [kind, 1300, 3]], var='asan')
    for op in ('full', 'sizes'): yield dict(op=op, old=many, s=BASE, pat=[], var='asan')
    for kind in KINDS:
        for n in (300, 6000):
            for t in (0, 1): yield dict(op='file', old=(two, few)[t], s=dict(BASE, type=t), pat=[[kind, n, 1], ['seq', n, 2]]); yield dict(op='file', old=(few, two)[t], s=dict(BASE, type=t), pat=[[kind, n, 1], ['rev', n, 2]])
            yield dict(op='apply', old=two, s=BASE, pat=[[kind, n, 1], ['seq', n, 2]])
            yield dict(op='apply', old=few, s=BASE, pat=[[kind, n // 4, 1], ['rev', 300, 2]])
    for op in ('full', 'sizes'):
        yield dict(op=op, old=few, s=BASE, pat=[], app=1); yield dict(op=op, old=two, s=BASE, pat=[])

def run(ctx, spec):
    var = spec.get('var', 'tiny'); op = spec['op']
    bs, core, nopen = (8192, 5000, 50) if var == 'asan' else (128, 4, 3)
    if op == 'file':
        w = ctx.w(var); old = gen.realize(spec['old']); files = gen.files_of(spec['old']); part = {}; ext = None
    else:
        fs, old, files, part, order, ext = fscase.setup(ctx, spec)
        w = fs.worker(var)
    def peak(b):
        w.raw('nofile', (nopen if op == 'apply' else 1) + 14)
        try:
            if op in ('apply', 'file'): r = apply(ctx, w, old if op == 'file' else None, b)
            else: r = w.call('check', ctx.put('d.drpm', b), 1 if op == 'full' else 2)
            return r, int(w.raw('peak')[0])
        finally:
            if w.p: w.raw('nofile', 1024)
    d0, b0, new0, ext = F.make(spec['s'], [], old, ext=ext)
    d, b, new, _ = F.make(spec['s'], program(spec['pat'], len(ext), bs), old, ext=ext)
    what = 'application to an old package of %d bytes' % len(old) if op == 'file' else {'apply': 'application to', 'full': 'full check of', 'sizes': 'size check of'}[op] + ' %d installed files' % len(part)
    r, p = peak(b)
    expect(r.rc == 0, 'the %s fails with %d descriptors available: %s', what, nopen + 14 if op == 'apply' else 15, err(r.rc))
    if op in ('apply', 'file'): same_bytes(ctx.get('out.rpm'), new, 'the rebuilt package')
    ctx.rm('out.rpm')
    total = len(ext) if op == 'file' else sum(n for n, _ in part.values())
    blocks = len(ext) // bs + 1
    if op in ('apply', 'file'):
        r0, p0 = peak(b0)
        expect(r0.rc == 0, 'a delta without copies was not applied: %s', err(r0.rc))
        used = set()
        pos = 0
        for a, l in d.ext_copies:
            pos += a
            if l: used.update(range(pos // bs, (pos + l - 1) // bs + 1))
            pos += l
        bound = core * (bs + 64) + 48 * len(used) + 12 * len(d.ext_copies) + (len(b) - len(b0)) + 3 * (len(new) - len(new0)) + (65536 if var == 'tiny' else 1 << 21)
        extra = p - p0
    else:
        bound = 1 << 20; extra = p - 8 * len(b) - 3000 * len(files)
    ctx.rm('out.rpm', 'd.drpm')
    if os.environ.get('C24_SHOW'): print(op, var, 'peak', p, 'extra', extra, 'bound', bound, 'total', total, 'used', len(used) if op in ('apply', 'file') else 0)
    expect(extra <= bound, 'the %s (%d bytes) needs %d bytes of memory, more than %d', what, total, extra, bound)
    labels = ['op:' + op, 'worker:' + var]
    if op in ('apply', 'file') and len(used) > core and len(used) * (bs + 64) > bound: labels.append('more-used-than-kept')
    if op not in ('apply', 'file') and total > bound: labels.append('more-used-than-kept')
    if len(part) > nopen: labels.append('beyond-open-limit')
    return labels

def nontrivial(labels):
    return 'more-used-than-kept' in labels or 'beyond-open-limit' in labels
