"""Deltas built by hand from a copy program (independent of the library's diff)."""
import random
from hypothesis import strategies as st
from . import rpmfmt as R, delta as D, comp as C, gen

# op: [n0, off_frac, len, int_len, add]  one external copy then int_len bytes of literal data.
# Programs: list of groups; group = [ext ops..., int_len]; ext op = [mode, x, len]
#   mode 'a': absolute position x (fraction of the source), 'r': relative jump x bytes, 'b': block aligned x-th block +- small
LEN = st.one_of(st.integers(0, 40), st.integers(0, 3000), st.sampled_from([0, 1, 8191, 8192, 8193, 16384, 20000]))

def ext_op():
    return st.one_of(
        st.tuples(st.just('a'), st.floats(0, 1, exclude_max=True, allow_nan=False), LEN).map(list),
        st.tuples(st.just('r'), st.integers(-9000, 9000), LEN).map(list),
        st.tuples(st.just('b'), st.integers(0, 6), LEN).map(list),
        st.tuples(st.just('e'), st.integers(0, 200), LEN).map(list))

@st.composite
def program(draw, maxgroups=5, maxext=4):
    gs = draw(st.lists(st.tuples(st.lists(ext_op(), max_size=maxext), st.one_of(st.just(0), st.integers(0, 300), st.integers(0, 9000))).map(list), max_size=maxgroups))
    return gs

def resolve(prog, n):
    """-> list of ([(off, len)...], int_len), all inside a source of n bytes; no empty copy ending at offset 0"""
    out = []; pos = 0
    for ops, il in prog:
        l = []
        for m, x, ln in ops:
            if m == 'a': off = int(x * n)
            elif m == 'r': off = pos + x
            elif m == 'p': off = x
            elif m == 'b': off = x * 8192 - (ln & 1)
            else: off = n - x
            off = max(0, min(off, n))
            ln = min(ln, n - off)
            if off + ln == 0:
                continue
            l.append((off, ln)); pos = off + ln
        out.append((l, il))
    return out

def build(prog, ext, seed=0, add=None, prefix=b''):
    """(target stream, int_copies, ext_copies, int_data, raw add block). add: None | 'zero' | 'sparse' | 'dense'; prefix: literal data before everything"""
    r = random.Random(seed * 31 + 7)
    rs = resolve(prog, len(ext))
    ic = []; ec = []; idata = bytearray(); addraw = bytearray(); out = bytearray()
    pos = 0
    if prefix:
        ic.append((0, len(prefix))); idata += prefix; out += prefix
    for l, il in rs:
        for off, ln in l:
            ec.append((off - pos, ln)); pos = off + ln
            seg = ext[off:off + ln]
            if add:
                if add == 'zero': a = bytes(ln)
                elif add == 'dense': a = r.randbytes(ln)
                else:
                    a = bytearray(ln)
                    for i in range(0, ln, 97): a[i] = r.choice([1, 255, 128, 127])
                    a = bytes(a)
                addraw += a
                seg = bytes((x + y) & 255 for x, y in zip(seg, a)) if a.count(0) != ln else seg
            out += seg
        d = r.randbytes(il) if il % 3 else bytes([il & 255]) * il
        ic.append((len(l), il)); idata += d; out += d
    return bytes(out), ic, ec, bytes(idata), bytes(addraw)

@st.composite
def shape(draw, types=(0, 0, 1), versions=(3, 3, 2, 1)):
    """everything about a foreign delta but the packages and the program"""
    t = draw(st.sampled_from(list(types)))
    s = dict(type=t, ver=3 if t else draw(st.sampled_from(list(versions))))
    s['wrap'] = draw(st.sampled_from([[C.NONE, 0], [C.GZIP, 6], [C.BZIP2, 9], [C.LZMA, 1], [C.XZ, 1], [C.ZSTD, 3], [C.LZIP, 0]]))
    s['add'] = draw(st.sampled_from([None, None, 'zero', 'sparse', 'dense']))
    if s['add']:
        s['aw'] = draw(st.sampled_from([[C.BZIP2, 9], [C.GZIP, 9], [C.XZ, 1], [C.LZMA, 1], [C.ZSTD, 3], [C.LZIP, 0]]))
    s['md5'] = draw(st.sampled_from(['full', 'full', 'zero', 'nosig']))
    z = draw(gen.comp_level())
    s['z'] = z
    s['dflt'] = draw(st.booleans())          # record level 0 (default) when the level is the default one
    s['seed'] = draw(st.integers(0, 99))
    x = draw(st.sampled_from([0, 0, 0, 1, 5]))
    if x and s['ver'] >= 2: s['param'] = x
    x = draw(st.sampled_from([0, 0, 1, 3]))
    if x and s['ver'] == 3 and not t: s['nadj'] = x
    if draw(st.sampled_from([0, 0, 1])): s['rsv'] = draw(st.sampled_from([1, 8, 4128]))
    if draw(st.sampled_from([0, 0, 1])): s['jump'] = 1
    if draw(st.sampled_from([0, 0, 1])): s['epoch'] = draw(st.sampled_from([0, 7]))
    if draw(st.sampled_from([0, 0, 0, 1])): s['long'] = 1
    if draw(st.sampled_from([0, 0, 0, 1])): s['nohdr'] = 1
    return s

def seq_jumpy(idx):
    """like D.seq_encode, with an absolute jump in front of every run"""
    nums = []
    runs = []
    for i in idx:
        if runs and i == runs[-1][0] + runs[-1][1]:
            runs[-1][1] += 1
        else:
            runs.append([i, 1])
    for s, n in runs:
        nums += [0, s, n]
    nib = []
    for v in nums:
        while True:
            x = v & 7; v >>= 3
            nib.append(x | (8 if v else 0))
            if not v:
                break
    if len(nib) % 2:
        nib.append(0)
    return bytes(nib[i] << 4 | nib[i + 1] for i in range(0, len(nib), 2))

def make(s, prog, old, ext=None):
    """s: shape, prog: program, old: bytes of the source package. -> (Delta, delta bytes, target package bytes, ext)"""
    o = R.Rpm(old)
    r = random.Random(s['seed'])
    order = None
    if ext is None:
        if s['type']:
            ext = o.hdr.raw + o.cpio()
        else:
            ext, order, _ = D.old_cpio(o)
    elif not s['type']:
        _, order, _ = D.old_cpio(o)
    cm, lv = s['z']
    name = b'target-with-a-rather-long-name' if s.get('long') else b'foo'
    def tgt(cpio):
        return R.build(name=name, version=b'9', release=b'2', epoch=s.get('epoch'), files=[R.F(b'/etc/x', 0o100644, b'abc')], comp=cm, level=lv,
                       cpio_raw=cpio, reserved=s.get('rsv', 0), with_sig_md5=s['md5'] != 'nosig')
    addname = s['add']
    if s['type']:
        # the stream is header + archive; the header depends on the compressor only
        h = R.Rpm(tgt(b'')).hdr.raw
        out, ic, ec, idata, addraw = build(prog, ext, s['seed'], addname, prefix=h)
        new = tgt(out[len(h):])
        assert R.Rpm(new).hdr.raw == h
    else:
        out, ic, ec, idata, addraw = build(prog, ext, s['seed'], addname)
        new = tgt(out)
    t = R.Rpm(new)
    if s['md5'] == 'nosig':
        # a package without MD5 in its signature
        pass
    import hashlib
    d = D.Delta(type=s['type'], version=s['ver'], comp=s['wrap'][0], src_nevr=o.nevr(), tgt_nevr=t.nevr(), leadsig=t.leadsig,
                tgt_md5=hashlib.md5(new).digest() if s['md5'] == 'full' else b'\0' * 16, tgt_size=len(new), payload_fmt_off=t.hdr.off(1124),
                int_copies=ic, ext_copies=ec, int_data=idata, ext_data_len=len(ext))
    d.tgt_comp_code = D.COMP2CODE[cm]
    d.tgt_comp_level = 0 if cm == C.NONE or (s['dflt'] and lv == C.DEFAULT_LEVEL.get(cm)) else lv
    d.comp_param = r.randbytes(s.get('param', 0))
    d.offadj = [(r.randrange(1 << 31), r.randrange(-(1 << 31) + 1, 1 << 31)) for _ in range(s.get('nadj', 0))]
    d.tgt_header_len = len(t.hdr.raw) if s['type'] else 0
    if s['type']:
        d.sequence = o.sigmd5()
    else:
        fs = D.header_files(o.hdr)
        d.sequence = D.seq_digest(fs, order) + (seq_jumpy if s.get('jump') else D.seq_encode)(order)
    if addraw:
        d.add = C.compress(s['aw'][0], s['aw'][1], addraw)
    b = D.write(d, comp=s['wrap'][0], level=s['wrap'][1], new_rpm=t)
    return d, b, new, ext
