"""The choice of compression is transparent: same content under every method and level, exactly the requested method and level, exact recompression of targets."""
from hypothesis import strategies as st
from kit import gen, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C16'
LEVEL = 'exploration'
VARIANTS = ['asan']
RULE = ('two deltas of the same packages with different compression choices were decoded with the stock decompressors and compared field by field, their stored '
        'bytes compared with the stock compressor at the requested level, and one was applied; non-trivial when the target payload is not empty and at least '
        'one of the choices compresses; distinct by the generated case')
ASSUMPTIONS = ['zlib, bzip2, liblzma, lzlib and zstd give the same bytes for the same input, method and level through any front end',
               'lzip has one fixed setting whatever the level']

LEVELS = {C.GZIP: range(1, 10), C.BZIP2: range(1, 10), C.LZMA: range(1, 10), C.XZ: range(1, 10), C.ZSTD: range(1, 23)}
SEL = [[C.NONE, 0], [C.LZIP, 0], [C.LZIP, 3]] + [[c, l] for c in (C.GZIP, C.BZIP2, C.LZMA, C.XZ, C.ZSTD) for l in range(0, 10)]

def sizes():
    return st.one_of(st.integers(0, 70000), st.sampled_from([0, 1, 4095, 4096, 4097, 65535, 65536, 65537, 131071, 131072, 131073, 262144, 300000]),
                     st.integers(0, 400000))

@st.composite
def strategy_(draw, tier):
    z = draw(gen.comp_level(tier == 'thorough'))
    s = sizes() if draw(st.integers(0, 5)) == 0 else gen.BIG
    c = draw(gen.recipes(s, 3)); c2 = draw(gen.recipes(s, 2))
    tweak = draw(st.booleans())
    base = [['r', draw(st.integers(0, 5)), 0, draw(st.integers(0, 30000))]]
    old = dict(files=[dict(d=0, n=0, k='reg', c=base + c)], z=[C.GZIP, 1])
    nb = [['m', base[0][1], 0, base[0][3], 100, 1]] if tweak else base
    new = dict(files=[dict(d=0, n=0, k='reg', c=nb + c), dict(d=1, n=1, k='reg', c=c2)], z=z, ver='1.1')
    return dict(old=old, new=new, type=draw(st.sampled_from([0, 1])), a=[draw(st.sampled_from(SEL)), draw(st.sampled_from(SEL))],
                b=[draw(st.sampled_from(SEL + ['rpm'])), draw(st.sampled_from(SEL))])

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 1800 if tier == 'quick' else 20000

def directed(tier):
    """every method and level as target, delta and add block compression, at sizes around the compressors' buffers"""
    ns = [0, 1, 3000, 140000] if tier == 'quick' else [0, 1, 2, 100, 4096, 65535, 65536, 65537, 140000, 1000000, 2500000]
    i = 0
    for c, ls in LEVELS.items():
        for l in ls:
            for n in ns:
                i += 1
                cont = [['t', i % 6, 0, n // 2], ['r', i % 5, 0, n - n // 2]]
                yield dict(old=dict(files=[dict(d=0, n=0, k='reg', c=[['t', i % 6, 10, n // 3]])], z=[C.GZIP, 1]),
                           new=dict(files=[dict(d=0, n=0, k='reg', c=cont)], z=[c, l], ver='1.1'), type=i % 2,
                           a=[[c, min(l, 9)], SEL[(i * 7) % len(SEL)]], b=['rpm', SEL[(i * 11) % len(SEL)]])
    for s in SEL:
        for n in (3000, 20000):
            b = [['r', 1, 0, n]]; m = [['m', 1, 0, n, 50, 1]]
            yield dict(old=dict(files=[dict(d=0, n=0, k='reg', c=b)], z=[C.GZIP, 1]), new=dict(files=[dict(d=0, n=0, k='reg', c=m)], z=[C.GZIP, 9], ver='1.1'),
                       type=0, a=[s, s], b=[[C.NONE, 0], [C.NONE, 0]])

FIELDS = 'type version src_nevr sequence tgt_md5 tgt_size tgt_comp_code tgt_comp_level comp_param tgt_header_len offadj leadsig payload_fmt_off int_copies ext_copies ext_data_len int_data tgt_nevr'.split()

def run(ctx, spec):
    w = ctx.w('asan')
    old = gen.realize(spec['old']); new = gen.realize(spec['new'])
    ds = []; adds = []
    for k in ('a', 'b'):
        sel = spec[k]
        opt = dict(dc=sel[0], ac=sel[1])
        if spec['type']: opt['type'] = 1
        r, pd, _ = make(ctx, w, old, new, opt)
        expect(r.rc == 0, 'drpm_make with delta compression %s and add block compression %s failed: %s', sel[0], sel[1], err(r.rc))
        b = ctx.get('d.drpm')
        try:
            d = D.parse(b)
        except Exception as e:
            raise Violation('delta with compression %s does not decode with the stock decompressor: %s' % (sel[0], e))
        c, l = spec['new']['z'] if sel[0] == 'rpm' else sel[0]
        expect(d.comp == c, 'delta stored with method %s, requested %s', C.NAMES[d.comp], C.NAMES[c])
        if c == C.LZIP: l = 0
        if C.compress(c, l, d.body) != d.body_stored:
            ml = [x for x in range(0, 23) if x and x in LEVELS.get(c, ()) and C.compress(c, x, d.body) == d.body_stored]
            raise Violation('delta is not stored as %s level %d stores it (matching levels: %s)' % (C.NAMES[c], l, ml))
        if d.add:
            try:
                a = C.decompress(d.add, sel[1][0])
            except Exception as e:
                raise Violation('add block with compression %s does not decode: %s' % (sel[1], e))
            expect(C.compress(sel[1][0], 0 if sel[1][0] == C.LZIP else sel[1][1], a) == d.add, 'add block is not stored as %s level %d stores it', C.NAMES[sel[1][0]], sel[1][1])
        else:
            a = None
        ds.append(d); adds.append(a)
    for f in FIELDS:
        expect(getattr(ds[0], f) == getattr(ds[1], f), 'field %s differs between compressions %s and %s', f, spec['a'], spec['b'])
    expect(adds[0] == adds[1], 'add blocks differ in content between compressions %s and %s', spec['a'], spec['b'])
    r = apply(ctx, w, old, None)
    if r.rc == 0:
        same_bytes(ctx.get('out.rpm'), new, 'the rebuilt package')
    else:
        if ds[1].add and spec['b'][1][0] == C.NONE and C.detect(ds[1].add) != C.NONE:
            return []
        raise Violation('drpm_apply failed: %s for target %s' % (err(r.rc), spec['new']['z']))
    z = spec['new']['z']
    labels = ['target:%s-%d' % (C.NAMES[z[0]], z[1]), 'delta:%s' % C.NAMES[ds[0].comp]]
    n = sum(len(f.content) for f in gen.files_of(spec['new']))
    if n: labels.append('nonempty')
    if n > 65536: labels.append('large')
    if adds[0]: labels.append('addblock')
    if ds[0].comp or ds[1].comp: labels.append('compressed')
    return labels

def nontrivial(labels):
    return 'nonempty' in labels and 'compressed' in labels
