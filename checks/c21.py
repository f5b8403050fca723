"""A damaged package is refused or rebuilt exactly as it is."""
import os, zlib, bz2, lzma
from hypothesis import strategies as st
from kit import gen, fsdb, rpmfmt as R, delta as D, comp as C
from kit.common import *
from . import c10
from .c09 import rawmut

ID = 'C21'
LEVEL = 'exploration'
VARIANTS = ['asan']
RULE = ('a delta was requested from a damaged package (payload cut short or altered, archive entries or header altered); non-trivial when the package differs from the undamaged one and '
        'either the payload is incomplete or the delta was made and applied; distinct by the generated case')
ASSUMPTIONS = ['a payload is complete when the stock decompressor reaches its end without an error', 'payloads that the stock compressor does not reproduce from their content are outside the second half']

@st.composite
def strategy_(draw, tier):
    s = dict(old=draw(gen.package(gen.MID, maxfiles=4, nofiles=False)))
    s['new'] = draw(gen.mutated(s['old'], gen.MID))
    s['opt'] = draw(gen.options((0, 0, 1)))
    s['role'] = draw(st.sampled_from(['new', 'new', 'new', 'alone', 'old']))
    k = draw(st.sampled_from(['payload', 'payload', 'payload'] + ['archive', 'archive', 'header', 'header'] * (s['role'] == 'new')))
    s['k'] = k
    s['m'] = draw(st.lists({'header': c10.hmut(), 'archive': c10.cmut()}.get(k, rawmut()), min_size=1, max_size=3))
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 3500 if tier == 'quick' else 120000

METHODS = ([C.GZIP, 9], [C.GZIP, 1], [C.BZIP2, 9], [C.LZMA, 2], [C.XZ, 2], [C.ZSTD, 3], [C.LZIP, 1], [C.NONE, 0])

def directed(tier):
    for sz in (300, 9000, 40000) if tier == 'quick' else (0, 300, 4096, 9000, 16384, 40000, 100000):
        old = dict(files=[dict(d=0, n=0, k='reg', c=[['r', 1, 0, sz]]), dict(d=0, n=1, k='lnk', l='x'), dict(d=1, n=2, k='reg', c=[['t', 1, 0, 3 * sz]])], ver='1.0')
        for z in METHODS:
            o = dict(old, z=z); n = dict(o, ver='1.1')
            for role in ('new', 'alone', 'old', 'mixed'):
                for t in (0, 1) if role == 'new' else (0,):
                    b = dict(old=o, new=n, opt={'type': 1} if t else {}, role=role)
                    if role == 'mixed': b = dict(old=o, new=dict(n, z=[C.ZSTD, 3]), opt={}, role='old')    # the new package's method is another one
                    for i in list(range(4, 100, 12)) + [99.9]: yield dict(b, k='payload', m=[['c', i / 100]])
                    for i in range(1, 33): yield dict(b, k='payload', m=[['e', i]])
                    for i in range(3, 100, 24): yield dict(b, k='payload', m=[['x', i / 100, 1 << i % 8]])
                    yield dict(b, k='payload', m=[['i', 1.0, '00']]); yield dict(b, k='payload', m=[['i', 1.0, '1f8b08000000000000']])
                    if role == 'new':
                        for i in range(3, 100, 24): yield dict(b, k='archive', m=[['c', i / 100]])

    # headers: every string altered in several ways, every entry dropped, retyped, recounted, every number at its extremes
    old = dict(files=[dict(d=0, n=0, k='reg', c=[['r', 1, 0, 900]]), dict(d=0, n=1, k='lnk', l='x'), dict(d=1, n=2, k='reg', c=[['t', 1, 0, 2000]])], ver='1.0', z=[C.GZIP, 9])
    new = dict(old, ver='1.1', files=old['files'] + [dict(d=2, n=3, k='reg', c=[['r', 2, 0, 700]])])
    for t in (0, 1):
        b = dict(old=old, new=new, opt={'type': t}, role='new', k='header')
        for tag in c10.TAGS:
            yield dict(b, m=[['drop', tag]])
            for x in ('bin', 'int32', 'int16', 'string', 'strarr', 'int64'): yield dict(b, m=[['typ', tag, x]])
            for x in (-1, -2, 1, 3, 'all'): yield dict(b, m=[['cnt', tag, x]])
            for x in (0, 1, 127, 128, 0x7fffffff, 0x80000000, 0xffffffff):
                for i in (0.0, 0.99): yield dict(b, m=[['num', tag, i, x]])
            for x in ('+x', '+-', '+0', '+ ', '-1', '-2', 'up', '', 'cpio', 'drpm', 'xar', 'gzip', 'xz', 'lzma', 'bzip2', 'zstd', 'lzip', 'none', 'a-b', 'y' * 300):
                for i in (0.0, 0.99): yield dict(b, m=[['alt', tag, i, x]])

def damage(spec, pkg):
    ms = [m for m in spec['m'] if m[0] != 'e']; cut = [m[1] for m in spec['m'] if m[0] == 'e']
    if spec['k'] != 'payload' or not cut: return c10.damage(spec, pkg)
    p = R.Rpm(gen.realize(pkg)); x = p.payload
    return c10.resign(p, p.hdr.raw, x[:max(8, len(x) - cut[0])])

def complete(x):
    """does the stock decompressor reach the end of the stream? None: not recognised as compressed"""
    m = C.detect(x)
    try:
        if m == C.GZIP: d = zlib.decompressobj(31); d.decompress(x); return d.eof
        if m == C.BZIP2: d = bz2.BZ2Decompressor(); d.decompress(x); return d.eof
        if m in (C.XZ, C.LZMA): d = lzma.LZMADecompressor(); d.decompress(x); return d.eof
        if m == C.ZSTD: C.zstd_decompress(x); return True
        if m == C.LZIP: C.lzip_decompress(x); return True
    except Exception:
        return False
    return None

def run(ctx, spec):
    w = ctx.w('asan')
    good = gen.realize(spec['old']); goodnew = gen.realize(spec['new'])
    role = spec['role']; old, new = good, goodnew
    if role == 'new': x = new = damage(spec, spec['new'])
    elif role == 'alone': x = old = damage(spec, spec['old']); new = None
    else: x = old = damage(spec, spec['old'])
    undamaged = goodnew if role == 'new' else good
    labels = ['role:' + role, 'kind:' + spec['k']]
    if x == undamaged: raise Skip('not damaged')
    opt = spec['opt']
    if role == 'alone': opt = {k: v for k, v in opt.items() if k != 'type'}
    z = spec['new' if role == 'new' else 'old']['z']
    try:
        p = R.Rpm(x); payload = p.payload
    except Exception:
        p = payload = None
    r, pd, _ = make(ctx, w, old, new, opt)
    labels.append('make:' + err(r.rc))
    reads = not (role == 'old' and opt.get('type'))     # an old package that is not decompressed
    if payload and len(payload) >= 8 and spec['k'] in ('payload', 'archive') and reads:
        c = complete(payload)
        if c is False:
            expect(r.rc != 0, 'drpm_make succeeds although the payload of the %s package %s', {'new': 'new', 'old': 'old', 'alone': 'only'}[role], 'is cut short or damaged (method %s)' % C.detect(payload))
            labels.append('incomplete')
            return labels
    if r.rc: return labels
    target = new if new is not None else old
    tz = spec['old' if role == 'alone' else 'new']['z']
    if role != 'old':
        if payload is None: raise Skip('not parsed by the reference')
        m = C.detect(payload)
        if m != tz[0]: raise Skip('other method')
        if m != C.NONE:
            try:
                if C.compress(tz[0], tz[1], C.decompress(payload)) != payload: raise Skip('not reproducible')
            except Skip: raise
            except Exception: raise Skip('not decompressed by the reference')
        if spec['k'] == 'header':
            u = R.Rpm(undamaged).hdr
            if p.hdr.get(1126) != u.get(1126): raise Skip('other level')
            ty = lambda h: [e[1] for e in h.ents if e[0] in (1124, 1125)]
            if ty(p.hdr) != ty(u): raise Skip('names of another type')
    a = apply(ctx, w, old, None)
    expect(a.rc == 0, 'a delta was made from the damaged package but applying it returns %s', err(a.rc))
    same_bytes(ctx.get('out.rpm'), target, 'the rebuilt package')
    labels.append('rebuilt')
    return labels

def nontrivial(labels):
    return 'incomplete' in labels or 'rebuilt' in labels
