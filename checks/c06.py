"""Reading a delta reports exactly what it contains."""
import random, os
from hypothesis import strategies as st
from kit import gen, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C06'
LEVEL = 'exploration'
VARIANTS = ['asan']
RULE = ('a well-formed delta written by the independent writer was read under two wrapping compressions and all items were compared with the written values; non-trivial '
        'when it holds at least one copy of each kind or an extreme value (31 bits and more); distinct by the generated case')
ASSUMPTIONS = ['well-formed: copies stay inside the recorded data lengths, the counts of external copies add up, the recorded level is one the method has']

WRAPS = [[C.NONE, 0], [C.GZIP, 6], [C.GZIP, 1], [C.BZIP2, 9], [C.LZMA, 1], [C.XZ, 1], [C.XZ, 0], [C.ZSTD, 3], [C.LZIP, 0]]
EDGE = [0, 1, 127, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 0xfffffffe, 0xffffffff]
def u32():
    return st.one_of(st.sampled_from(EDGE), st.integers(0, 0xffffffff))

def name():
    return st.one_of(st.sampled_from(['foo-1.0-1', '', 'a', 'foo-7:1.0-1.fc20', 'n' * 300, 'f\xf6o-1-1', 'x' * 5000]),
                     st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=40))

@st.composite
def strategy_(draw, tier):
    t = draw(st.sampled_from([0, 0, 1]))
    v = 3 if t else draw(st.sampled_from([3, 3, 2, 1]))
    s = dict(t=t, v=v, wrap=draw(st.lists(st.sampled_from(WRAPS), min_size=2, max_size=2)), seed=draw(st.integers(0, 1 << 20)))
    s['src'] = draw(name())
    s['tname'] = draw(st.sampled_from(['foo', 'a-long-name-with-dashes', 'z'])); s['epoch'] = draw(st.sampled_from([None, 0, 3, 4294967295]))
    s['tnevr'] = draw(name()); s['z'] = draw(st.sampled_from([[C.GZIP, 9], [C.XZ, 2], [C.BZIP2, 9], [C.LZMA, 3], [C.ZSTD, 19], [C.NONE, 0]]))
    s['seq'] = draw(st.sampled_from([0, 0, 1, 5, 40, 3000]))
    s['size'] = draw(u32())
    s['code'] = draw(st.integers(0, 7)); s['lvl'] = draw(st.integers(0, 9))
    s['param'] = draw(st.sampled_from([0, 0, 1, 2, 100, 5000]))
    s['hl'] = draw(u32())
    s['nadj'] = draw(st.sampled_from([0, 0, 1, 2, 3, 50, 5000]))
    s['ls'] = draw(st.sampled_from([112, 113, 200, 280, 4096, 30000]))
    s['pfo'] = draw(u32())
    s['ni'] = draw(st.sampled_from([0, 1, 1, 2, 3, 40, 4000])); s['ne'] = draw(st.sampled_from([0, 1, 2, 3, 60, 4000]))
    s['ext'] = draw(st.one_of(st.sampled_from([1, 100, 1 << 31, 0xffffffff] + ([1 << 32, 1 << 33, (1 << 62) + 12345] if v == 3 else [])), st.integers(1, 1 << 20)))
    s['emode'] = draw(st.sampled_from(['small', 'any', 'big']))
    s['id'] = draw(st.sampled_from([0, 0, 1, 2, 100, 4096, 70000]))
    s['add'] = draw(st.sampled_from([0, 0, 1, 77, 9000]))
    s['hd'] = draw(st.sampled_from([0, 1]))
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 4500 if tier == 'quick' else 120000

def directed(tier):
    b = dict(t=0, v=3, wrap=[[C.NONE, 0], [C.GZIP, 6]], seed=1, src='foo-1.0-1', tname='foo', epoch=None, tnevr='foo-2-1', z=[C.GZIP, 9], seq=1, size=1000, code=1, lvl=9,
             param=0, hl=100, nadj=0, ls=300, pfo=77, ni=2, ne=3, ext=1000, emode='any', id=50, add=0, hd=0)
    for t, v in ((0, 1), (0, 2), (0, 3), (1, 3)):
        q = dict(b, t=t, v=v)
        for w in WRAPS: yield dict(q, wrap=[w, WRAPS[0]])
        for code in range(8):
            for l in range(10): yield dict(q, code=code, lvl=l)
        for k in ('size', 'hl', 'pfo'):
            for x in EDGE: yield dict(q, **{k: x})
        for x in (0, 1, 2, 3, 1000): yield dict(q, nadj=x); yield dict(q, ni=x); yield dict(q, ne=x, ni=max(1, x)); yield dict(q, param=x)
        for x in (1, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 1 << 40):
            if v == 3 or x < 1 << 32: yield dict(q, ext=x, emode='big')
        for z in ([C.XZ, 2], [C.BZIP2, 9], [C.LZMA, 3], [C.ZSTD, 19], [C.NONE, 0], [C.LZIP, 9]): yield dict(q, z=z)

def build(s):
    r = random.Random(s['seed'])
    z = s['z']
    t = R.Rpm(R.build(name=s['tname'].encode(), version=b'9', release=b'2', epoch=s['epoch'], files=[R.F(b'/etc/x', 0o100644, b'abc')], comp=z[0], level=z[1]))
    d = D.Delta(type=s['t'], version=s['v'])
    d.src_nevr = s['src'].encode('latin1')
    d.tgt_nevr = t.nevr() if not s['t'] else s['tnevr'].encode('latin1')
    d.sequence = r.randbytes(16 + (0 if s['t'] else s['seq']))
    d.tgt_md5 = r.choice([bytes(16), b'\xff' * 16, r.randbytes(16)])
    d.tgt_size = s['size']
    d.tgt_comp_code = s['code']; d.tgt_comp_level = 0 if s['code'] == 0 else s['lvl']
    d.comp_param = r.randbytes(s['param'])
    d.tgt_header_len = s['hl'] or (1 if s['t'] else 0)
    edge = [0, 1, 128, 0x7fffffff, 0x7ffffffe]
    def v31():
        return r.choice(edge) if r.random() < .4 else r.randrange(1 << 31)
    d.offadj = [(r.choice([r.randrange(1 << 32), 0xffffffff, 0x80000000, 0]), r.choice([1, -1]) * v31()) for _ in range(s['nadj'])]
    d.leadsig = r.randbytes(s['ls'])
    d.payload_fmt_off = s['pfo']
    ext = s['ext']
    d.ext_data_len = ext
    off = 0; ec = []
    lim = {'small': 200, 'any': 1 << 20, 'big': 0xffffffff}[s['emode']]
    jl = min(lim, 0x7fffffff)
    for i in range(s['ne'] if s['ni'] else 0):
        adj = r.choice([0, r.randrange(-jl, jl + 1), jl, -jl])
        adj = max(-off, min(adj, ext - off)); adj = max(-jl, min(adj, jl))
        off += adj
        ln = min(r.choice([lim, r.randrange(lim + 1), 1, 0]), ext - off)
        if off + ln == 0:
            ln = min(1, ext)
        ec.append((adj, ln)); off += ln
    d.ext_copies = ec
    ni = s['ni']; left = len(ec); il = s['id']
    ic = []
    for i in range(ni):
        n = left if i == ni - 1 else min(left, r.choice([0, 1, 1, 2, left]))
        left -= n
        l = il if i == ni - 1 and r.random() < .7 else min(il, r.choice([0, 1, r.randrange(il + 1)]))
        il -= l
        ic.append((n, l))
    d.int_copies = ic
    d.int_data = r.randbytes(s['id']) if s['hd'] else bytes([s['id'] & 255]) * s['id']
    d.add = r.randbytes(s['add'])
    return d, t

def u(v):
    return v & 0xffffffff

def expected(d, t, path, comp):
    if d.version >= 2:
        tc = D.CODE2COMP[d.tgt_comp_code][0]; size = d.tgt_size
    else:
        nm = t.hdr.get(1125)
        tc = C.NONE if nm is None else [k for k, v in C.NAMES.items() if v == nm.decode()][0]; size = 0
    hl = d.tgt_header_len if d.version >= 3 else 0
    adj = d.offadj if d.version >= 3 else []
    flat = lambda l: [u(x) for e in l for x in e]
    uints = {1: d.version, 2: d.type, 3: comp, 7: size, 9: tc}
    ulongs = dict(uints); ulongs.update({11: hl, 14: d.payload_fmt_off})
    ulls = dict(ulongs); ulls.update({17: d.ext_data_len, 18: len(d.int_data)})
    strs = {0: os.fsencode(path), 4: d.sequence.hex().encode(), 5: d.src_nevr, 6: d.tgt_nevr, 8: d.tgt_md5.hex().encode(),
            10: d.comp_param.hex().encode() if d.version >= 2 and d.comp_param else None, 13: d.leadsig.hex().encode()}
    arrs = {12: flat(adj), 15: flat(d.int_copies), 16: flat(d.ext_copies)}
    return uints, ulongs, ulls, strs, arrs

TAG = {0: 'file name', 1: 'version', 2: 'type', 3: 'compression', 4: 'sequence', 5: 'source name', 6: 'target name', 7: 'target size', 8: 'target checksum', 9: 'target compression',
       10: 'compression parameters', 11: 'target header length', 12: 'offset adjustments', 13: 'lead and signature', 14: 'payload format offset', 15: 'internal copies',
       16: 'external copies', 17: 'external data length', 18: 'internal data length'}

def compare(w, slot, exp):
    uints, ulongs, ulls, strs, arrs = exp
    for kind, m in ((0, uints), (1, ulongs), (2, ulls), (3, strs), (4, arrs)):
        for tag, want in m.items():
            r = w.call('get', slot, kind, tag, 0)
            expect(r.rc == 0, 'reading %s returns %s', TAG[tag], err(r.rc))
            x = r.extra[0]
            if kind < 3:
                got = int(x)
            elif kind == 3:
                got = None if x == '\\N' else bytes.fromhex(x[1:])
            else:
                n, l = x.split(':')
                got = [] if l == '\\N' else [int(y) for y in l.split(',')] if l else []
                expect(int(n) == len(got), '%s: number of elements %s does not match', TAG[tag], n)
            if got != want:
                raise Violation('%s is reported as %s, stored as %s' % (TAG[tag], short(got), short(want)))

def short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'

def run(ctx, spec):
    w = ctx.w('asan')
    d, t = build(spec)
    labels = ['type:%d' % d.type, 'version:%d' % d.version]
    exps = []
    for slot, (cm, lv) in enumerate(spec['wrap']):
        b = D.write(d, comp=cm, level=lv, new_rpm=t)
        nm = 'x%d.drpm' % slot
        p = ctx.put(nm, b)
        r = w.call('read', slot, p)
        expect(r.rc == 0, 'reading a well-formed version %d delta wrapped in %s returns %s', d.version, C.NAMES[cm], err(r.rc))
        exps.append(expected(d, t, p, cm))
        ctx.rm(nm)                      # everything was read
        labels.append('wrap:' + C.NAMES[cm])
    for slot in (1, 0):
        compare(w, slot, exps[slot])
    w.call('destroy', 0)
    compare(w, 1, exps[1])              # objects are independent
    w.call('destroy', 1)
    if d.int_copies and d.ext_copies: labels.append('copies')
    if any(v >= 1 << 31 for v in (d.tgt_size, d.tgt_header_len, d.payload_fmt_off, d.ext_data_len)) or any(a < 0 or l >> 31 for a, l in d.ext_copies): labels.append('extreme')
    if d.version >= 3 and d.offadj: labels.append('offadj')
    if len(d.int_copies) > 1000 or len(d.ext_copies) > 1000: labels.append('many')
    return labels

def nontrivial(labels):
    return 'copies' in labels or 'extreme' in labels
