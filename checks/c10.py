"""Arbitrary bytes given as a package or sequence are handled safely."""
import os, struct
from hypothesis import strategies as st
from kit import fuzz, gen, foreign as F, fsdb, rpmfmt as R, delta as D, comp as C
from kit.common import *
from .c09 import raw_mutate, rawmut, V32

ID = 'C10'
LEVEL = 'exploration'
VARIANTS = ['fuzz', 'asan']
RULE = ('a damaged package (header entries, archive entries, compressed payload or raw bytes) took part in making and applying, or a damaged sequence identifier was checked; '
        'non-trivial when lead and signature were intact, so that header, archive or sequence processing is reached; distinct by the generated case')
ASSUMPTIONS = ['address sanitizer, bounds sanitizer and a limit of processor time observe unsafe accesses and endless loops', 'librpm handles headers it has accepted safely']

TAGS = [1000, 1001, 1002, 1003, 1004, 1021, 1022, 1027, 1028, 1030, 1033, 1035, 1036, 1037, 1044, 1045, 1095, 1096, 1116, 1117, 1118, 1124, 1125, 1126, 1140, 5011, 1106]

def hmut():
    drop = st.tuples(st.just('drop'), st.sampled_from(TAGS))
    num = st.tuples(st.just('num'), st.sampled_from([1028, 1030, 1033, 1037, 1045, 1116, 1140, 5011, 1003, 1096]), st.floats(0, 1, exclude_max=True), st.one_of(st.sampled_from(V32), st.integers(0, 10)))
    stri = st.tuples(st.just('str'), st.sampled_from([1035, 1036, 1117, 1118, 1124, 1125, 1126, 1000, 1001, 1002]), st.floats(0, 1, exclude_max=True),
                     st.sampled_from(['', '0', 'g' * 32, '0' * 31, 'f' * 32, 'F' * 64, '0' * 65, 'f' * 128, 'a' * 4096, 'x' * 700, '/', '..', 'none', 'lzip', 'cpio', 'drpm', 'drpmx', 'cp', '99', '-1', '100', '9T', '\xff', '%s%n', 'a-b', 'TRAILER!!!']))
    cnt = st.tuples(st.just('cnt'), st.sampled_from([1028, 1030, 1033, 1035, 1036, 1037, 1045, 1116, 1117, 1118, 1140]), st.sampled_from([-1, -2, 1, 3, 'all']))
    typ = st.tuples(st.just('typ'), st.sampled_from(TAGS), st.sampled_from(['bin', 'int32', 'int16', 'string', 'strarr', 'int64']))
    return st.one_of(drop, num, num, stri, stri, cnt, typ).map(list)

def cmut():
    """archive mutation: entry fraction, field or kind, value"""
    fld = st.tuples(st.just('fld'), st.floats(0, 1, exclude_max=True), st.integers(0, 12), st.one_of(st.sampled_from(V32), st.integers(0, 400)))
    txt = st.tuples(st.just('txt'), st.floats(0, 1, exclude_max=True), st.integers(0, 12), st.sampled_from(['        ', '-0000001', '0x000001', 'zzzzzzzz', 'ffffffff', '+0000010', '\0' * 8]))
    name = st.tuples(st.just('name'), st.floats(0, 1, exclude_max=True), st.sampled_from(['', '.', './', '/', '../x', 'TRAILER!!!', './TRAILER!!!', 'n' * 5000, './usr/lib/a', 'usr/lib/a']))
    dup = st.tuples(st.just('dup'), st.floats(0, 1, exclude_max=True))
    dele = st.tuples(st.just('del'), st.floats(0, 1, exclude_max=True))
    swap = st.tuples(st.just('swap'), st.floats(0, 1, exclude_max=True))
    return st.one_of(fld, fld, fld, txt, name, dup, dele, swap, rawmut()).map(list)

SEQ = ['', '-', 'a', 'a-', '-a', 'a-b', 'a-b-c', 'a-b-c-', 'foo-1.0-1-', 'foo-1.0-1-zz', 'foo-1.0-1-0', '--', '---', 'foo-:1-1-' + '0' * 32, 'foo-1:-1-' + '0' * 32, ':-:-:-:' + '0' * 32, '-' * 40,
       'foo-1.0-1-' + '0' * 31, 'foo-1.0-1-' + '0' * 33, 'f' * 10000, 'foo-1.0-1-' + 'f' * 6000]

@st.composite
def strategy_(draw, tier):
    k = draw(st.sampled_from(['header', 'header', 'header', 'archive', 'archive', 'archive', 'payload', 'raw', 'seq', 'seq', 'bytes', 'sig']))
    s = dict(k=k)
    s['old'] = draw(gen.package(gen.MID, maxfiles=4, nofiles=False)); s['old'].pop('epoch', None) if draw(st.booleans()) else None
    if k == 'seq':
        a = draw(st.sampled_from(['valid', 'valid', 'list', 'text']))
        s['a'] = a
        if a == 'valid': s['m'] = draw(st.lists(rawmut(), min_size=1, max_size=3)); s['lvl'] = draw(st.sampled_from(['bin', 'text', 'nib'])); s['nib'] = draw(st.lists(st.integers(0, 15), max_size=60))
        elif a == 'list': s['t'] = draw(st.sampled_from(SEQ))
        else: s['t'] = draw(st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=60))
        s['fs'] = draw(st.sampled_from([0, 0, 0, 1, 2]))
        return s
    s['new'] = draw(gen.mutated(s['old'], gen.MID))
    s['role'] = draw(st.sampled_from(['old', 'new', 'both', 'alone']))
    s['opt'] = draw(gen.options((0, 0, 1)))
    if k == 'header': s['m'] = draw(st.lists(hmut(), min_size=1, max_size=3))
    elif k == 'archive': s['m'] = draw(st.lists(cmut(), min_size=1, max_size=3))
    elif k == 'bytes': s['b'] = draw(st.tuples(st.sampled_from(['', 'edabeedb', 'edabeedb0300000000']), st.binary(max_size=150).map(bytes.hex)).map(list))
    else: s['m'] = draw(st.lists(rawmut(), min_size=1, max_size=3))
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 7000 if tier == 'quick' else 150000

def directed(tier):
    yield from fuzz.cases('C10', tier)
    old = dict(files=[dict(d=0, n=0, k='reg', c=[['t', 1, 0, 3000]]), dict(d=0, n=1, k='lnk', l='x'), dict(d=1, n=2, k='reg', c=[['r', 1, 0, 300]]), dict(d=1, n=3, k='chr', r=[1, 3])], z=[C.GZIP, 9], ver='1.0')
    new = dict(old, ver='1.1')
    b = dict(old=old, new=new, opt={})
    for role in ('old', 'new'):
        for t in (0, 1):
            q = dict(b, role=role, opt={'type': 1} if t else {})
            for tag in TAGS: yield dict(q, k='header', m=[['drop', tag]])
            for tag in TAGS:
                for ty in ('bin', 'int32', 'string', 'strarr'): yield dict(q, k='header', m=[['typ', tag, ty]])
            for tag in (1028, 1030, 1033, 1035, 1036, 1037, 1045, 1116, 1117, 1118, 1140):
                for c in (-1, 'all', 1): yield dict(q, k='header', m=[['cnt', tag, c]])
            for e in (0.0, 0.3, 0.99):
                for f in range(13):
                    for v in (0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffd, 0xffffffff): yield dict(q, k='archive', m=[['fld', e, f, v]])
                for n in ('', '.', './', '/', 'TRAILER!!!', 'n' * 5000): yield dict(q, k='archive', m=[['name', e, n]])
            for i in range(0, 100, 2): yield dict(q, k='archive', m=[['c', i / 100]]); yield dict(q, k='payload', m=[['c', i / 100]]); yield dict(q, k='raw', m=[['c', i / 100]])
    for tag in (1035, 1036, 1117, 1118, 1124, 1125, 1126, 1000, 1001, 1002):
        for v in ('', 'f' * 31, 'f' * 33, 'f' * 64, 'f' * 66, 'f' * 128, 'f' * 4096, '/', '-', 'a-b-c'):
            for role in ('old', 'new', 'alone'): yield dict(b, role=role, k='header', m=[['str', tag, 0.0, v]])
    for tag in (1028, 1030, 1033, 1037, 1045, 1116, 5011):
        for v in V32: yield dict(b, role='old', k='header', m=[['num', tag, 0.0, v]])
    for t in SEQ:
        for f in (0, 1, 2): yield dict(k='seq', old=old, a='list', t=t, fs=f)
    for n in range(0, 20):
        yield dict(b, role='old', k='bytes', b=['edabeedb' if n & 1 else '', 'ff' * n * 7])

def split_cpio(raw):
    """list of [header fields (strings), name, data, pads]; rest"""
    out = []; o = 0
    while raw[o:o + 6] == b'070701' and o + 110 <= len(raw):
        f = [raw[o + 6 + 8 * i:o + 14 + 8 * i] for i in range(13)]
        n = int(f[11], 16); s = int(f[6], 16)
        e = o + (110 + n + 3) // 4 * 4
        out.append([f, raw[o + 110:e], raw[e:e + (s + 3) // 4 * 4]])
        o = e + (s + 3) // 4 * 4
        if out[-1][1].startswith(b'TRAILER!!!'): break
    return out, raw[o:]

def mutate_cpio(raw, ms):
    ents, rest = split_cpio(raw)
    late = []
    for m in ms:
        k = m[0]
        if k not in ('fld', 'txt', 'name', 'dup', 'del', 'swap'):
            late.append(m); continue
        if not ents: continue
        i = int(m[1] * len(ents)); e = ents[i]
        if k == 'fld': e[0][m[2]] = b'%08x' % (m[3] & 0xffffffff)
        elif k == 'txt': e[0][m[2]] = m[3].encode('latin1')
        elif k == 'name':
            n = m[2].encode() + b'\0'
            e[0][11] = b'%08x' % len(n); e[1] = n + b'\0' * (-(110 + len(n)) % 4)
        elif k == 'dup': ents.insert(i, [list(e[0]), e[1], e[2]])
        elif k == 'del': del ents[i]
        elif k == 'swap' and len(ents) > 1: ents[i], ents[i - 1] = ents[i - 1], ents[i]
    b = b''.join(b'070701' + b''.join(f) + n + d for f, n, d in ents) + rest
    for m in late: b = raw_mutate(b, m)
    return b

def mutate_header(h, ms):
    ents = []
    for t, ty, off, cnt in h.ents:
        if t in (61, 62, 63): continue
        ents.append([t, ty, h.get(t)])
    by = {e[0]: e for e in ents}
    for m in ms:
        e = by.get(m[1])
        if e is None or e not in ents:
            continue
        t, ty, v = e
        num = ty in (R.INT8, R.INT16, R.INT32, R.INT64)
        lim = {R.INT8: 255, R.INT16: 65535, R.INT32: 0xffffffff}.get(ty, (1 << 64) - 1)
        if m[0] == 'drop': ents.remove(e)
        elif m[0] == 'num' and num and v: v = list(v); v[int(m[2] * len(v))] = m[3] & lim; e[2] = v
        elif m[0] == 'str' and not num and ty != R.BIN:
            x = m[3].encode('latin1')
            if ty == R.STRING: e[2] = x
            elif v: v = list(v); v[int(m[2] * len(v))] = x; e[2] = v
        elif m[0] == 'alt' and not num and ty != R.BIN and v:
            # alterations of the text that is there
            one = ty == R.STRING
            l = [v] if one else list(v)
            i = int(m[2] * len(l)); x = l[i]; a = m[3].encode('latin1')
            if a[:1] == b'+': x += a[1:]
            elif a in (b'-1', b'-2'): x = x[:int(a)]
            elif a == b'up': x = x.upper()
            else: x = a
            l[i] = x; e[2] = l[0] if one else l
        elif m[0] == 'cnt' and isinstance(v, list) and v:
            if m[2] == 'all': v = v[:1]
            elif m[2] < 0: v = v[:m[2]] or v[:1]
            else: v = v + v[:1] * m[2]
            e[2] = v
        elif m[0] == 'typ':
            e[1], e[2] = {'bin': (R.BIN, b'\1\2\3\4\5\6\7\x08'), 'int32': (R.INT32, [5]), 'int16': (R.INT16, [5]), 'string': (R.STRING, b'text'), 'strarr': (R.STRARR, [b'text', b'x']), 'int64': (R.INT64, [7])}[m[2]]
    return R.pack_header([tuple(e) for e in ents], 63)

def resign(p, hdr, payload):
    """same lead; signature made right for the changed content"""
    import hashlib
    body = hdr + payload
    sig = R.pack_header([(1000, R.INT32, [len(body)]), (1004, R.BIN, hashlib.md5(body).digest())], 62)
    sig += b'\0' * (-len(sig) % 8)
    return p.bytes[:96] + sig + body

def damage(spec, pkg):
    b = gen.realize(pkg)
    k = spec['k']
    p = R.Rpm(b)
    z = pkg['z']
    if k == 'header': return resign(p, mutate_header(p.hdr, spec['m']), p.payload)
    if k == 'archive': return resign(p, p.hdr.raw, C.compress(z[0], z[1], mutate_cpio(p.cpio(), spec['m'])))
    if k == 'payload':
        x = p.payload
        for m in spec['m']: x = raw_mutate(x, m)
        return resign(p, p.hdr.raw, x)
    if k == 'sig':
        x = p.leadsig
        for m in spec['m']: x = raw_mutate(x, m)
        return x + p.body
    if k == 'bytes': return bytes.fromhex(spec['b'][0] + spec['b'][1])
    for m in spec['m']: b = raw_mutate(b, m)
    return b

def run(ctx, spec):
    if spec.get('k') in ('fz', 'fz1'): return fuzz.run(spec)
    fs = fsdb.get(ctx)
    if not os.path.isdir(fs.db): fs.reset()
    w = fs.w
    k = spec['k']
    labels = ['kind:' + k]
    def rng(r, what):
        expect(0 <= r.rc <= 10, '%s returns %s', what, r.rc)
        labels.append('%s:%s' % (what, err(r.rc)))
    if k == 'seq':
        old = gen.realize(spec['old'])
        po = ctx.put('old.rpm', old)
        if spec['a'] == 'valid':
            o = R.Rpm(old); _, order, _ = D.old_cpio(o)
            sq = D.seq_digest(D.header_files(o.hdr), order) + D.seq_encode(order)
            if spec['lvl'] == 'nib':
                n = spec['nib'] + [0] * (len(spec['nib']) & 1)
                sq = sq[:16] + bytes(n[i] << 4 | n[i + 1] for i in range(0, len(n), 2))
            if spec['lvl'] == 'bin':
                for m in spec['m']: sq = raw_mutate(sq, m)
            s = o.nevr() + b'-' + sq.hex().encode()
            if spec['lvl'] == 'text':
                for m in spec['m']: s = raw_mutate(s, m)
            s = s.replace(b'\0', b'0').replace(b'\t', b'0').replace(b'\n', b'0').decode('utf-8', 'surrogateescape')
        else:
            s = spec['t']
        if spec['fs']:
            r = w.call('checkseq', None, s, spec['fs'])
            expect(r.rc != 0, 'a sequence of a package that is not installed is accepted')
            rng(r, 'check_sequence')
        else:
            rng(w.call('checkseq', po, s, 0), 'check_sequence')
        labels.append('reached')
        return labels
    good = gen.realize(spec['old']); goodnew = gen.realize(spec['new'])
    role = spec['role']
    if role == 'alone':
        r, pd, _ = make(ctx, w, damage(spec, spec['old']), None, spec['opt'])
        src = damage(spec, spec['old'])
    else:
        src = damage(spec, spec['old']) if role in ('old', 'both') else good
        tgt = damage(spec, spec['new']) if role in ('new', 'both') else goodnew
        r, pd, _ = make(ctx, w, src, tgt, spec['opt'])
    rng(r, 'make')
    if r.rc == 0:
        a = apply(ctx, w, src, None); rng(a, 'apply')
    d, b, new, ext = F.make(dict(type=1 if spec['opt'].get('type') else 0, ver=3, wrap=[C.NONE, 0], add=None, md5='full', z=[C.GZIP, 1], dflt=False, seed=1), [[[['a', 0.0, 4000]], 20]], good)
    a = apply(ctx, w, src, b); rng(a, 'apply')
    o = R.Rpm(good)
    if not spec['opt'].get('type'):
        ctx.put('old.rpm', src)
        c = w.call('checkseq', ctx.path('old.rpm'), (d.src_nevr + b'-' + d.sequence.hex().encode()).decode('utf-8', 'surrogateescape'), 0); rng(c, 'check_sequence')
    if k in ('header', 'archive', 'payload'): labels.append('reached')
    return labels

def nontrivial(labels):
    return 'reached' in labels
