"""Independent reader, writer and applier of the deltarpm on-disk format (V1-V3, standard and rpm-only)."""
import struct, hashlib, io
from . import comp as C, rpmfmt as R

# on-disk compression codes of the target
CODE2COMP = {0: (C.NONE, 0), 1: (C.GZIP, 0), 2: (C.BZIP2, 0), 3: (C.GZIP, 0), 4: (C.BZIP2, 0), 5: (C.LZMA, 0), 6: (C.XZ, 0), 7: (C.ZSTD, 0)}
COMP2CODE = {C.NONE: 0, C.GZIP: 1, C.BZIP2: 2, C.LZMA: 5, C.XZ: 6, C.ZSTD: 7}

class FormatError(ValueError):
    pass

def sm_enc(v):
    """sign-magnitude 32 bit"""
    return (0x80000000 | -v) if v < 0 else v

def sm_dec(u):
    return -(u & 0x7fffffff) if u & 0x80000000 else u

class Delta:
    """all fields of a delta, decoded"""
    type = 0            # 0 standard, 1 rpm-only
    version = 3
    comp = C.NONE
    src_nevr = b''
    sequence = b''
    tgt_md5 = b'\0' * 16
    tgt_size = 0
    tgt_comp_code = 0   # raw code on disk (v>=2)
    tgt_comp_level = 0
    comp_param = b''
    tgt_header_len = 0
    offadj = ()
    leadsig = b''
    payload_fmt_off = 0
    int_copies = ()     # [(n_ext, len)]
    ext_copies = ()     # [(offadj, len)]
    ext_data_len = 0
    add = b''           # add block as stored (compressed)
    int_data = b''
    tgt_nevr = b''
    header = None       # standard: raw target header (PAYLOADFORMAT drpm)
    outer_lead = b''
    def __init__(self, **kw):
        self.__dict__.update(kw)

class _Rd:
    def __init__(self, b):
        self.b = b; self.o = 0
    def take(self, n):
        if self.o + n > len(self.b):
            raise FormatError('short')
        r = self.b[self.o:self.o + n]; self.o += n
        return r
    def u32(self):
        return struct.unpack('>I', self.take(4))[0]
    def u64(self):
        return struct.unpack('>Q', self.take(8))[0]
    def u32s(self, n):
        return list(struct.unpack('>%dI' % n, self.take(4 * n)))

def parse(b):
    d = Delta()
    if b[:4] == b'drpm':
        d.type = 1
        r = _Rd(b[4:])
        if r.take(4) != b'DLT3':
            raise FormatError('rpm-only version')
        n = r.u32(); s = r.take(n)
        if not s.endswith(b'\0'):
            raise FormatError('tgt nevr not terminated')
        d.tgt_nevr = s[:-1]
        d.add = r.take(r.u32())
        body = r.b[r.o:]
    else:
        rp = R.Rpm(b)
        d.header = rp.hdr
        d.outer = rp
        if rp.hdr.get(1124) != b'drpm':
            raise FormatError('payload format')
        d.tgt_nevr = rp.nevr()
        body = rp.payload
    d.comp = C.detect(body)
    raw = C.decompress(body, d.comp)
    d.body = raw
    d.body_stored = body
    r = _Rd(raw)
    m = r.take(4)
    if m[:3] != b'DLT' or m[3:] not in (b'1', b'2', b'3'):
        raise FormatError('version')
    d.version = m[3] - 48
    if d.type and d.version != 3:
        raise FormatError('rpmonly version')
    n = r.u32(); s = r.take(n)
    if not s.endswith(b'\0'):
        raise FormatError('src nevr not terminated')
    d.src_nevr = s[:-1]
    d.sequence = r.take(r.u32())
    d.tgt_md5 = r.take(16)
    if d.version >= 2:
        d.tgt_size = r.u32()
        c = r.u32()
        d.tgt_comp_code = c & 0xff; d.tgt_comp_level = c >> 8
        d.comp_param = r.take(r.u32())
    else:
        d.tgt_comp_code = None
    if d.version >= 3:
        d.tgt_header_len = r.u32()
        n = r.u32()
        a = r.u32s(n); bb = r.u32s(n)
        d.offadj = [(x, sm_dec(y)) for x, y in zip(a, bb)]
    d.leadsig = r.take(r.u32())
    d.payload_fmt_off = r.u32()
    ni = r.u32(); ne = r.u32()
    a = r.u32s(ni); bb = r.u32s(ni)
    d.int_copies = list(zip(a, bb))
    a = r.u32s(ne); bb = r.u32s(ne)
    d.ext_copies = [(sm_dec(x), y) for x, y in zip(a, bb)]
    d.ext_data_len = r.u64() if d.version >= 3 else r.u32()
    n = r.u32()
    if d.type:
        if n:
            raise FormatError('rpm-only add block inside')
    else:
        d.add = r.take(n)
    n = r.u64() if d.version >= 3 else r.u32()
    d.int_data = r.take(n)
    if r.o != len(raw):
        raise FormatError('trailing bytes')
    return d

def body_bytes(d):
    p = struct.pack
    o = io.BytesIO(); w = o.write
    w(b'DLT%d' % d.version)
    w(p('>I', len(d.src_nevr) + 1) + d.src_nevr + b'\0')
    w(p('>I', len(d.sequence)) + d.sequence)
    w(d.tgt_md5)
    if d.version >= 2:
        w(p('>II', d.tgt_size, d.tgt_comp_code | d.tgt_comp_level << 8))
        w(p('>I', len(d.comp_param)) + d.comp_param)
    if d.version >= 3:
        w(p('>II', d.tgt_header_len, len(d.offadj)))
        w(p('>%dI' % len(d.offadj), *[a for a, b in d.offadj]))
        w(p('>%dI' % len(d.offadj), *[sm_enc(b) for a, b in d.offadj]))
    w(p('>I', len(d.leadsig)) + d.leadsig)
    w(p('>III', d.payload_fmt_off, len(d.int_copies), len(d.ext_copies)))
    for k in (0, 1):
        w(p('>%dI' % len(d.int_copies), *[c[k] for c in d.int_copies]))
    w(p('>%dI' % len(d.ext_copies), *[sm_enc(c[0]) for c in d.ext_copies]))
    w(p('>%dI' % len(d.ext_copies), *[c[1] for c in d.ext_copies]))
    w(p('>Q' if d.version >= 3 else '>I', d.ext_data_len))
    if d.type:
        w(p('>I', 0))
    else:
        w(p('>I', len(d.add)) + d.add)
    w(p('>Q' if d.version >= 3 else '>I', len(d.int_data)) + d.int_data)
    return o.getvalue()

def to_drpm_header(hdr_raw):
    """header bytes with PAYLOADFORMAT 'cpio' replaced by 'drpm' (same length, in place)"""
    h = R.Header(hdr_raw, 0)
    o = 16 + 16 * h.il + h.off(1124)
    assert hdr_raw[o:o + 5] == b'cpio\0'
    return hdr_raw[:o] + b'drpm' + hdr_raw[o + 4:]

def write(d, comp=None, level=0, new_rpm=None, body=None):
    """serialise; standard deltas take lead and header from new_rpm (an R.Rpm)"""
    comp = d.comp if comp is None else comp
    stored = C.compress(comp, level, body_bytes(d) if body is None else body)
    if d.type:
        return b'drpm' + b'DLT3' + struct.pack('>I', len(d.tgt_nevr) + 1) + d.tgt_nevr + b'\0' + \
            struct.pack('>I', len(d.add)) + d.add + stored
    hdr = to_drpm_header(new_rpm.hdr.raw)
    b = hdr + stored
    sig = R.pack_header([(1000, R.INT32, [len(b)]), (1004, R.BIN, hashlib.md5(b).digest())], 62)
    sig += b'\0' * (-len(sig) % 8)
    return new_rpm.bytes[:96] + sig + b

# ---- sequence ---------------------------------------------------------------
def seq_decode(data):
    """nibble stream -> list of header file indices"""
    nums = []
    cur = 0; sh = 0
    for b in data:
        for nib in (b >> 4, b & 15):
            cur |= (nib & 7) << sh
            sh += 3
            if not nib & 8:
                nums.append(cur); cur = 0; sh = 0
    if sh:
        raise FormatError('unterminated number')
    out = []; pos = 0; i = 0; run = True
    while i < len(nums):
        n = nums[i]; i += 1
        if n == 0:
            if i == len(nums):
                break               # padding nibble
            pos = nums[i]; i += 1
            run = True
            continue
        if run:
            out.extend(range(pos, pos + n)); pos += n
            run = False
        else:
            pos += n
            run = True
    return out

def seq_encode(idx):
    nums = []
    runs = []
    for i in idx:
        if runs and i == runs[-1][0] + runs[-1][1]:
            runs[-1][1] += 1
        else:
            runs.append([i, 1])
    pos = 0
    first = True
    for s, n in runs:
        if first and s == 0:
            pass
        elif not first and s > pos:
            nums.append(s - pos)
        else:
            nums += [0, s]
        nums.append(n)
        pos = s + n
        first = False
    nib = []
    for v in nums:
        while True:
            x = v & 7; v >>= 3
            nib.append(x | (8 if v else 0))
            if not v:
                break
    if len(nib) % 2:
        nib.append(0)
    return bytes(nib[i] << 4 | nib[i + 1] for i in range(0, len(nib), 2))

def header_files(h):
    g = h.get
    bn = g(1117)
    if bn is None:
        old = g(1027)
        if old is None:
            return []
        names = old
    else:
        dn = g(1118); di = g(1116)
        names = [dn[i] + b for i, b in zip(di, bn)]
    out = []
    cols = g(1140)
    sizes, modes, rdevs, digs, links, flags, verif = (g(t) for t in (1028, 1030, 1033, 1035, 1036, 1037, 1045))
    for i, n in enumerate(names):
        out.append(dict(name=n, size=sizes[i], mode=modes[i], rdev=rdevs[i], digest=digs[i], linkto=links[i],
                        flags=flags[i], verify=verif[i], color=cols[i] if cols else 0))
    return out

def _rel(n):
    return n[1:] if n.startswith(b'/') else n

def seq_digest(files, idx):
    m = hashlib.md5()
    for i in idx:
        f = files[i]
        ft = f['mode'] & 0o170000
        sz = f['size'] if ft == 0o100000 else len(f['linkto']) if ft == 0o120000 else 0
        rd = f['rdev'] if ft in (0o020000, 0o060000) else 0
        m.update(_rel(f['name']) + b'\0' + struct.pack('>III', f['mode'], sz, rd))
        if ft == 0o120000:
            m.update(f['linkto'] + b'\0')
        elif ft == 0o100000 and sz:
            m.update(bytes.fromhex(f['digest'].decode()))
    return m.digest()

# ---- the altered source archive of standard deltas --------------------------
def old_cpio(rpm, exclude=()):
    """(altered archive, file order, offset adjustments as list of (altered offset, original offset))"""
    raw = rpm.cpio()
    files = header_files(rpm.hdr)
    byname = {}
    for i, f in enumerate(files):
        byname.setdefault(_rel(f['name']), i)
    cols = rpm.hdr.get(1140) is not None
    out = bytearray(); order = []
    o = 0
    marks = []
    drift = 0
    pos = 0
    while True:
        h = raw[o:o + 110]
        if h[:6] != b'070701':
            raise FormatError('cpio')
        v = [int(h[6 + 8 * i:14 + 8 * i], 16) for i in range(13)]
        start = o
        nsz = v[11]; fsz = v[6]
        name = raw[o + 110:o + 110 + nsz - 1].split(b'\0')[0]
        o += (110 + nsz + 3) // 4 * 4
        data = raw[o:o + fsz]
        if len(data) != fsz and name != R.TRAILER:
            raise FormatError('cpio')
        if name == R.TRAILER:
            break
        o += (fsz + 3) // 4 * 4
        if name.startswith(b'./'):
            name = name[2:]
        i = byname.get(name)
        if i is None:
            continue
        f = files[i]
        ft = f['mode'] & 0o170000
        if ft == 0o100000:
            if name in exclude or fsz != f['size'] or f['flags'] & (1 | 8 | 64) or (f['verify'] & 3) != 3:
                continue
            if cols and f['color'] & 3 and not any(x in name for x in (b'lib/', b'lib32/', b'lib64/')):
                continue
            body = data
        elif ft == 0o120000:
            body = f['linkto']
        else:
            body = b''
        rd = (f['rdev'] >> 8 & 0xfff, f['rdev'] & 0xff) if ft in (0o020000, 0o060000) else (0, 0)
        marks.append((len(out), start))
        out += R.cpio_entry(b'./' + name, f['mode'], body, rdev=rd)
        order.append(i)
    out += R.cpio_trailer()
    return bytes(out), order, marks

# ---- applying ---------------------------------------------------------------
def reconstruct(d, ext, strict=True):
    """target data stream (standard: new archive; rpm-only: header + archive) from the external data"""
    out = bytearray()
    add = C.decompress(d.add) if d.add else b''
    ap = 0; off = 0; e = 0; ip = 0
    for n, ln in d.int_copies:
        for _ in range(n):
            if e >= len(d.ext_copies):
                raise FormatError('ext copies')
            adj, l = d.ext_copies[e]; e += 1
            off += adj
            if l and not (0 <= off and off + l <= len(ext)):
                raise FormatError('ext range')
            seg = ext[off:off + l]
            if d.add:
                a = add[ap:ap + l]
                if len(a) != l:
                    raise FormatError('add block short')
                ap += l
                if a.count(0) != l:
                    seg = bytes((x + y) & 255 for x, y in zip(seg, a))
            out += seg
            off += l
        if ip + ln > len(d.int_data):
            raise FormatError('int range')
        out += d.int_data[ip:ip + ln]; ip += ln
    d.left = dict(ext=len(d.ext_copies) - e, int=len(d.int_data) - ip, add=len(add) - ap)
    if strict and (d.left['ext'] or d.left['int'] or d.left['add']):
        raise FormatError('leftovers %r' % d.left)
    return bytes(out)

def apply(b, old, strict=True):
    """new RPM bytes from delta bytes and old RPM bytes"""
    d = parse(b)
    o = R.Rpm(old)
    if d.src_nevr != o.nevr():
        raise FormatError('source nevr')
    code = d.tgt_comp_code
    if d.type:
        if d.sequence[:16] != o.sigmd5():
            raise FormatError('sequence')
        if code == 0 and not d.int_copies and not d.ext_copies:
            return d.leadsig + o.body
        ext = o.hdr.raw + o.cpio()
        new = reconstruct(d, ext, strict)
        h, p = new[:d.tgt_header_len], new[d.tgt_header_len:]
        cm, lv = CODE2COMP[code][0], d.tgt_comp_level
    else:
        files = header_files(o.hdr)
        order = seq_decode(d.sequence[16:])
        if seq_digest(files, order) != d.sequence[:16]:
            raise FormatError('sequence')
        ext, order2, _ = old_cpio(o)
        if order2 != order:
            raise FormatError('sequence order')
        p = reconstruct(d, ext, strict)
        h = d.header.raw
        i = 16 + 16 * d.header.il + d.payload_fmt_off
        if h[i:i + 5] != b'drpm\0':
            raise FormatError('payload format offset')
        h = h[:i] + b'cpio' + h[i + 4:]
        if code is None:
            # version 1: method and level of the target header (no compressor: uncompressed)
            nm = (R.Header(h, 0).get(1125) or b'none').decode()
            fl = R.Header(h, 0).get(1126) or b''
            cm = [k for k, v in C.NAMES.items() if v == nm][0]; lv = int(fl) if fl.isdigit() and len(fl) <= 2 else 0
        else:
            cm, lv = CODE2COMP[code][0], d.tgt_comp_level
    return d.leadsig + h + C.compress(cm, lv, p)
