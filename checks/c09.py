"""Arbitrary bytes given as a delta are handled safely."""
import hashlib, random, struct, os
from hypothesis import strategies as st
from kit import fuzz, gen, foreign as F, fsdb, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C09'
LEVEL = 'exploration'
VARIANTS = ['fuzz', 'tinyfuzz', 'asan']
RULE = ('a damaged delta (fields of the decompressed body, the compressed stream or the outer container) was read, applied and sometimes checked; non-trivial when the '
        'outer container was intact enough that the compressed part is reached; distinct by the generated case')
ASSUMPTIONS = ['address sanitizer, bounds sanitizer and a limit of processor time observe unsafe accesses and endless loops', 'one allocation is limited to 2.5 GB']

V32 = [0, 1, 2, 3, 7, 15, 16, 17, 95, 96, 111, 112, 255, 4096, 8192, 0x10000000, 0x1fffffff, 0x20000000, 0x20000001, 0x3fffffff, 0x40000000, 0x40000001, 0x7ffffffe, 0x7fffffff,
       0x80000000, 0x80000001, 0xa0000000, 0xc0000001, 0xe0000001, 0xfffffff0, 0xfffffffe, 0xffffffff]
V64 = V32 + [1 << 32, (1 << 32) + 1, (1 << 62), (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1]
NAMES = ['magic', 'ver', 'nsrc', 'src', 'nseq', 'seq', 'md5', 'tsize', 'tcomp', 'nparam', 'param', 'hlen', 'nadj', 'adj', 'nleadsig', 'leadsig', 'pfo', 'nint', 'next',
         'int', 'ext', 'extlen', 'nadd', 'add', 'nintdata', 'intdata']
U32 = {'nsrc', 'nseq', 'tsize', 'tcomp', 'nparam', 'hlen', 'nadj', 'nleadsig', 'pfo', 'nint', 'next', 'extlen', 'nadd', 'nintdata'}
ARR = {'adj', 'int', 'ext'}

def val():
    return st.one_of(st.sampled_from(V64), st.integers(0, 300), st.tuples(st.sampled_from(['d']), st.integers(-17, 17)).map(list), st.integers(0, (1 << 32) - 1))

def mut():
    field = st.tuples(st.just('f'), st.sampled_from(sorted(U32)), val())
    arr = st.tuples(st.just('a'), st.sampled_from(sorted(ARR)), st.floats(0, 1, exclude_max=True), val())
    ver = st.tuples(st.just('v'), st.integers(0, 255))
    flip = st.tuples(st.just('x'), st.floats(0, 1, exclude_max=True), st.integers(1, 255))
    cut = st.tuples(st.just('c'), st.floats(0, 1, exclude_max=True))
    ins = st.tuples(st.just('i'), st.floats(0, 1), st.binary(min_size=1, max_size=9).map(bytes.hex))
    dele = st.tuples(st.just('k'), st.floats(0, 1, exclude_max=True), st.integers(1, 40))
    piece = st.tuples(st.just('p'), st.sampled_from(['src', 'seq', 'leadsig', 'add', 'param', 'intdata', 'magic']), st.one_of(st.sampled_from(['', '00', 'ff' * 16, '41' * 300]), st.binary(max_size=60).map(bytes.hex)))
    return st.one_of(field, field, field, arr, arr, ver, flip, cut, ins, dele, piece).map(list)

def rawmut():
    flip = st.tuples(st.just('x'), st.floats(0, 1, exclude_max=True), st.integers(1, 255))
    cut = st.tuples(st.just('c'), st.floats(0, 1, exclude_max=True))
    ins = st.tuples(st.just('i'), st.floats(0, 1), st.binary(min_size=1, max_size=9).map(bytes.hex))
    dele = st.tuples(st.just('k'), st.floats(0, 1, exclude_max=True), st.integers(1, 40))
    w32 = st.tuples(st.just('w'), st.floats(0, 1, exclude_max=True), st.sampled_from(V32))
    return st.one_of(flip, flip, w32, w32, cut, ins, dele).map(list)

@st.composite
def strategy_(draw, tier):
    s = dict(s=draw(F.shape()), prog=draw(F.program(3, 3)), old=draw(gen.package(gen.MID, maxfiles=3, nofiles=False)))
    lv = draw(st.sampled_from(['body', 'body', 'body', 'stream', 'outer', 'outer', 'random']))
    s['k'] = lv
    if lv == 'body':
        s['m'] = draw(st.lists(mut(), min_size=1, max_size=3))
    elif lv == 'random':
        s['b'] = draw(st.tuples(st.sampled_from(['', '6472706d', '6472706d444c5433', 'edabeedb', 'edabeedb0300000000']), st.binary(max_size=200).map(bytes.hex)).map(list))
    else:
        s['m'] = draw(st.lists(rawmut(), min_size=1, max_size=3))
    if draw(st.sampled_from([0, 0, 0, 1])): s['chk'] = draw(st.sampled_from([1, 2]))
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 9000 if tier == 'quick' else 200000

def directed(tier):
    yield from fuzz.cases('C09', tier)
    old = dict(files=[dict(d=0, n=0, k='reg', c=[['t', 1, 0, 3000]])], z=[C.GZIP, 9])
    prog = [[[['a', 0.0, 500], ['r', -100, 300]], 50], [[['a', 0.5, 10]], 3]]
    for t, v in ((0, 3), (1, 3), (0, 2), (0, 1)):
        s = dict(type=t, ver=v, wrap=[C.GZIP, 6], add=None, md5='full', z=[C.GZIP, 9], dflt=True, seed=1, nadj=0 if t or v < 3 else 2, param=0 if v < 2 else 3)
        b = dict(s=s, prog=prog, old=old, k='body')
        for name in sorted(U32):
            for x in (V64 if name in ('extlen', 'nintdata') else V32) + [['d', 1], ['d', -1], ['d', 2], ['d', -2]]:
                if isinstance(x, int) and x >= 1 << 32 and v < 3: continue
                yield dict(b, m=[['f', name, x]])
        for name in sorted(ARR):
            for i in (0.0, 0.3, 0.5, 0.8, 0.99):
                for x in V32[::2]: yield dict(b, m=[['a', name, i, x]])
        for x in list(range(40, 70)) + [0, 255]: yield dict(b, m=[['v', x]])
        for i in range(0, 100, 2): yield dict(b, m=[['c', i / 100]])
        for i in range(0, 100, 2): yield dict(b, k='stream', m=[['c', i / 100]])
        for i in range(0, 100, 2): yield dict(b, k='outer', m=[['c', i / 100]])
        for wrap in ([C.NONE, 0], [C.BZIP2, 9], [C.LZMA, 1], [C.XZ, 1], [C.ZSTD, 3], [C.LZIP, 0]):
            q = dict(b, s=dict(s, wrap=wrap), k='stream')
            for i in range(0, 100, 4): yield dict(q, m=[['x', i / 100, 1 << (i // 4 % 8)]]); yield dict(q, m=[['c', i / 100]])
        for aw in ([C.BZIP2, 9], [C.GZIP, 9], [C.XZ, 1], [C.LZMA, 1], [C.ZSTD, 3], [C.LZIP, 0]):
            q = dict(b, s=dict(s, add='sparse', aw=aw), k='body')
            for i in range(0, 100, 10): yield dict(q, m=[['pb', 'add', i / 100, 1 << (i // 10 % 8)]]); yield dict(q, m=[['pc', 'add', i / 100]])
    for n in range(0, 40):
        for pre in ('', '6472706d', 'edabeedb'):
            yield dict(s=s, prog=prog, old=old, k='random', b=[pre, ('00' if n % 2 else 'ff') * n])
    for x in V32:
        yield dict(b, s=dict(s, type=1, ver=3), k='rpmonly-outer', f=['nevr', x])
        yield dict(b, s=dict(s, type=1, ver=3), k='rpmonly-outer', f=['add', x])

def pieces(d):
    """the body as a list of [name, value]: int fields as (size, value), arrays as lists of ints"""
    P = [['magic', b'DLT'], ['ver', bytes([48 + d.version])], ['nsrc', [4, len(d.src_nevr) + 1]], ['src', d.src_nevr + b'\0'], ['nseq', [4, len(d.sequence)]], ['seq', d.sequence], ['md5', d.tgt_md5]]
    if d.version >= 2:
        P += [['tsize', [4, d.tgt_size]], ['tcomp', [4, d.tgt_comp_code | d.tgt_comp_level << 8]], ['nparam', [4, len(d.comp_param)]], ['param', d.comp_param]]
    if d.version >= 3:
        P += [['hlen', [4, d.tgt_header_len]], ['nadj', [4, len(d.offadj)]], ['adj', [a for a, b in d.offadj] + [D.sm_enc(b) for a, b in d.offadj]]]
    w = 8 if d.version >= 3 else 4
    P += [['nleadsig', [4, len(d.leadsig)]], ['leadsig', d.leadsig], ['pfo', [4, d.payload_fmt_off]], ['nint', [4, len(d.int_copies)]], ['next', [4, len(d.ext_copies)]],
          ['int', [a for a, b in d.int_copies] + [b for a, b in d.int_copies]], ['ext', [D.sm_enc(a) for a, b in d.ext_copies] + [b for a, b in d.ext_copies]],
          ['extlen', [w, d.ext_data_len]], ['nadd', [4, 0 if d.type else len(d.add)]], ['add', b'' if d.type else d.add], ['nintdata', [w, len(d.int_data)]], ['intdata', d.int_data]]
    return P

def join(P):
    out = b''
    for n, v in P:
        if isinstance(v, bytes): out += v
        elif n in U32: out += (v[1] & (1 << 8 * v[0]) - 1).to_bytes(v[0], 'big')
        else: out += b''.join((x & 0xffffffff).to_bytes(4, 'big') for x in v)
    return out

def raw_mutate(b, m):
    b = bytearray(b)
    k = m[0]
    if not b and k != 'i': return bytes(b)
    if k == 'x': b[int(m[1] * len(b))] ^= m[2]
    elif k == 'c': del b[int(m[1] * len(b)):]
    elif k == 'i': i = int(m[1] * len(b)); b[i:i] = bytes.fromhex(m[2])
    elif k == 'k': i = int(m[1] * len(b)); del b[i:i + m[2]]
    elif k == 'w': i = int(m[1] * len(b)) & ~3; b[i:i + 4] = m[2].to_bytes(4, 'big')
    return bytes(b)

def mutate_body(d, ms):
    P = pieces(d)
    ix = {n: i for i, (n, v) in enumerate(P)}
    late = []
    for m in ms:
        k = m[0]
        if k == 'f':
            if m[1] in ix:
                v = P[ix[m[1]]][1]
                v[1] = v[1] + m[2][1] if isinstance(m[2], list) else m[2]
        elif k == 'a':
            l = P[ix[m[1]]][1] if m[1] in ix else []
            if l:
                i = int(m[2] * len(l)); l[i] = l[i] + m[3][1] if isinstance(m[3], list) else m[3]
        elif k == 'v': P[ix['ver']][1] = bytes([m[1]])
        elif k == 'p':
            if m[1] in ix:
                P[ix[m[1]]][1] = bytes.fromhex(m[2])
                n = {'src': 'nsrc', 'seq': 'nseq', 'leadsig': 'nleadsig', 'add': 'nadd', 'param': 'nparam', 'intdata': 'nintdata'}.get(m[1])
                if n: P[ix[n]][1][1] = len(m[2]) // 2
        elif k in ('pb', 'pc'):
            i = ix[m[1]]
            P[i][1] = raw_mutate(P[i][1], ['x', m[2], m[3]] if k == 'pb' else ['c', m[2]])
            n = {'add': 'nadd'}[m[1]]
            P[ix[n]][1][1] = len(P[i][1])
        else:
            late.append(m)
    b = join(P)
    for m in late: b = raw_mutate(b, m)
    return b

class Bad(Exception):
    pass

def parse_body(raw, typ):
    """lenient about what the library need not interpret (terminators, trailing bytes); Bad otherwise"""
    o = 0
    def take(n):
        nonlocal o
        if o + n > len(raw): raise Bad('truncated')
        r = raw[o:o + n]; o += n
        return r
    n32 = lambda: int.from_bytes(take(4), 'big')
    def arr(n):
        if 4 * n > len(raw) - o: raise Bad('truncated array')
        return struct.unpack('>%dI' % n, take(4 * n))
    d = D.Delta(type=typ)
    if take(3) != b'DLT': raise Bad('magic')
    v = take(1)[0] - 48
    if not 1 <= v <= 3 or typ and v != 3: raise Bad('version')
    d.version = v
    d.src_nevr = take(n32()).split(b'\0')[0]
    n = n32()
    if n < 16 or typ and n != 16: raise Bad('sequence length')
    d.sequence = take(n)
    d.tgt_md5 = take(16)
    if v >= 2:
        d.tgt_size = n32(); c = n32()
        if c & 0xff not in D.CODE2COMP: raise Bad('target compression')
        d.tgt_comp_code = c & 0xff; d.tgt_comp_level = c >> 8
        d.comp_param = take(n32())
    if v >= 3:
        d.tgt_header_len = n32(); n = n32(); arr(n); arr(n)
        if typ and d.tgt_header_len == 0: raise Bad('target header length')
    n = n32()
    if n < 112: raise Bad('lead and signature length')
    d.leadsig = take(n)
    d.payload_fmt_off = n32()
    ni = n32(); ne = n32()
    a = arr(ni); b = arr(ni); d.int_copies = list(zip(a, b))
    a = arr(ne); b = arr(ne); d.ext_copies = [(D.sm_dec(x), y) for x, y in zip(a, b)]
    w = 8 if v >= 3 else 4
    d.ext_data_len = int.from_bytes(take(w), 'big')
    n = n32()
    if typ and n: raise Bad('add block')
    d.add = take(n)
    d.int_data = take(int.from_bytes(take(w), 'big'))
    if sum(l for n, l in d.int_copies) > len(d.int_data): raise Bad('internal copies')
    off = 0
    for adj, l in d.ext_copies:
        off += adj
        if not 0 <= off <= d.ext_data_len: raise Bad('external copies')
        off += l
        if off > d.ext_data_len: raise Bad('external copies')
    return d

def run(ctx, spec):
    if spec.get('k') in ('fz', 'fz1'): return fuzz.run(spec)
    fs = fsdb.get(ctx)
    if not os.path.isdir(fs.db):
        fs.reset()
    w = fs.w
    old = gen.realize(spec['old'])
    d, b, new, ext = F.make(spec['s'], spec['prog'], old)
    k = spec['k']
    reason = None; pb = None; reached = False
    t = R.Rpm(new)
    body = D.body_bytes(d)
    if k == 'body':
        body = mutate_body(d, spec['m'])
        b = D.write(d, comp=spec['s']['wrap'][0], level=spec['s']['wrap'][1], new_rpm=t, body=body)
        reached = True
        comp_ok = spec['s']['wrap'][0] != C.NONE or len(body) >= 8 and C.detect(body) == C.NONE
        if comp_ok:
            try:
                pb = parse_body(body, d.type)
                if d.type: pb.add = d.add
            except Bad as e:
                reason = str(e)
    elif k == 'stream':
        st_ = C.compress(spec['s']['wrap'][0], spec['s']['wrap'][1], body)
        i = b.rindex(st_)
        for m in spec['m']: st_ = raw_mutate(st_, m)
        b = b[:i] + st_
        reached = True
    elif k == 'outer':
        st_ = C.compress(spec['s']['wrap'][0], spec['s']['wrap'][1], body)
        i = b.rindex(st_)
        o = b[:i]
        for m in spec['m']: o = raw_mutate(o, m)
        b = o + st_
    elif k == 'rpmonly-outer':
        n, x = spec['f']
        st_ = C.compress(spec['s']['wrap'][0], spec['s']['wrap'][1], body)
        b = b'drpmDLT3' + struct.pack('>I', x if n == 'nevr' else len(d.tgt_nevr) + 1) + d.tgt_nevr + b'\0' + struct.pack('>I', x if n == 'add' else 0) + st_
        if n == 'add' and x > len(st_): reason = 'add block length'
        if n == 'nevr' and x > len(b): reason = 'target name length'
    else:
        b = bytes.fromhex(spec['b'][0] + spec['b'][1])
        if len(b) < 100: reason = 'not a delta'
    ctx.put('d.drpm', b)
    labels = ['kind:' + k]
    r = w.call('read', 0, ctx.path('d.drpm'))
    expect(0 <= r.rc <= 10, 'drpm_read returns %s', r.rc)
    expect(int(r.extra[0]) == (r.rc == 0), 'drpm_read returns %s and %s an object', err(r.rc), 'sets' if int(r.extra[0]) else 'does not set')
    if r.rc == 0:
        for kind, tags in ((0, (1, 2, 3, 7, 9)), (1, (11, 14)), (2, (17, 18)), (3, (0, 4, 5, 6, 8, 10, 13)), (4, (12, 15, 16))):
            for tag in tags:
                g = w.call('get', 0, kind, tag, 0)
                expect(g.rc == 0 or k != 'body', 'getting tag %d returns %s', tag, err(g.rc))
        w.call('destroy', 0)
    if reason:
        expect(r.rc != 0, 'drpm_read accepts a delta with a bad %s', reason)
        labels.append('bad')
    labels.append('read:' + err(r.rc))
    a = apply(ctx, w, old, None)
    expect(0 <= a.rc <= 10, 'drpm_apply returns %s', a.rc)
    if reason:
        expect(a.rc != 0, 'drpm_apply accepts a delta with a bad %s', reason)
    labels.append('apply:' + err(a.rc))
    if pb is not None and k == 'body':
        try:
            if pb.add: C.decompress(pb.add)
        except Exception:
            pb.add = None                   # a damaged end of the stream may lie behind all data used
        try:
            if pb.add is not None: D.reconstruct(pb, ext, strict=False)
        except Exception as e:
            expect(a.rc != 0, 'drpm_apply reports success although the instructions cannot be carried out (%s)', e)
            labels.append('bad-program')
    if a.rc == 0:
        out = ctx.get('out.rpm')
        if pb is not None and pb.tgt_md5 != bytes(16):
            expect(hashlib.md5(out).digest() == pb.tgt_md5, 'drpm_apply reports success but the written file does not have the recorded checksum')
    if spec.get('chk'):
        c = w.call('check', ctx.path('d.drpm'), spec['chk'])
        expect(1 <= c.rc <= 10, 'drpm_check of a package that is not installed returns %s', c.rc)
        labels.append('check:' + err(c.rc))
    if reached: labels.append('reached')
    return labels

def nontrivial(labels):
    return 'reached' in labels
