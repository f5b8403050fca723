"""Independent RPM reader/writer (does not use librpm or drpm)."""
import struct, hashlib, stat
from . import comp as C

HMAGIC = b'\x8e\xad\xe8\x01\0\0\0\0'
NULL, CHAR, INT8, INT16, INT32, INT64, STRING, BIN, STRARR, I18N = range(10)
_ALIGN = {INT16: 2, INT32: 4, INT64: 8}

def pack_header(entries, region):
    """entries: list of (tag, type, value); canonical layout of rpmbuild (tag order, region first, trailer last)"""
    data = bytearray()
    idx = []
    for tag, ty, val in sorted(entries, key=lambda e: e[0]):
        a = _ALIGN.get(ty, 1)
        while len(data) % a:
            data.append(0)
        off = len(data)
        if ty in (STRING,):
            cnt = 1; data += val + b'\0'
        elif ty in (STRARR, I18N):
            cnt = len(val)
            for s in val:
                data += s + b'\0'
        elif ty == BIN:
            cnt = len(val); data += val
        else:
            f = {CHAR: 'B', INT8: 'B', INT16: 'H', INT32: 'I', INT64: 'Q'}[ty]
            cnt = len(val)
            data += struct.pack('>%d%s' % (cnt, f), *val)
        idx.append((tag, ty, off, cnt))
    if region is not None:
        off = len(data)
        il = len(idx) + 1
        data += struct.pack('>IIiI', region, BIN, -16 * il, 16)
        idx.insert(0, (region, BIN, off, 16))
    out = HMAGIC + struct.pack('>II', len(idx), len(data))
    for e in idx:
        out += struct.pack('>IIII', *e)
    return bytes(out + data)

class Header:
    def __init__(self, b, o):
        if b[o:o + 4] != HMAGIC[:4]:
            raise ValueError('header magic')
        self.il, self.dl = struct.unpack('>II', b[o + 8:o + 16])
        self.start = o
        self.end = o + 16 + 16 * self.il + self.dl
        if self.end > len(b):
            raise ValueError('short header')
        self.raw = b[o:self.end]
        self.data = self.raw[16 + 16 * self.il:]
        self.ents = [struct.unpack('>IIiI', self.raw[16 + 16 * i:32 + 16 * i]) for i in range(self.il)]
    def get(self, tag):
        for t, ty, off, cnt in self.ents:
            if t != tag:
                continue
            d = self.data
            if ty == STRING:
                return d[off:d.index(b'\0', off)]
            if ty in (STRARR, I18N):
                r = []
                for _ in range(cnt):
                    e = d.index(b'\0', off); r.append(d[off:e]); off = e + 1
                return r
            if ty == BIN:
                return d[off:off + cnt]
            f, n = {CHAR: ('B', 1), INT8: ('B', 1), INT16: ('H', 2), INT32: ('I', 4), INT64: ('Q', 8)}[ty]
            return list(struct.unpack('>%d%s' % (cnt, f), d[off:off + n * cnt]))
        return None
    def off(self, tag):
        for t, ty, off, cnt in self.ents:
            if t == tag:
                return off
        return None

class Rpm:
    def __init__(self, b):
        self.bytes = b
        if b[:4] != b'\xed\xab\xee\xdb':
            raise ValueError('lead')
        self.sig = Header(b, 96)
        o = (self.sig.end + 7) // 8 * 8
        self.leadsig = b[:o]
        self.hdr = Header(b, o)
        self.payload = b[self.hdr.end:]
        self.body = b[o:]
    def nevr(self):
        g = self.hdr.get
        e = g(1003)
        return g(1000) + b'-' + (b'%d:' % e[0] if e else b'') + g(1001) + b'-' + g(1002)
    def sigmd5(self):
        return self.sig.get(1004)
    def cpio(self):
        return C.decompress(self.payload)

# ---- cpio -------------------------------------------------------------------
TRAILER = b'TRAILER!!!'

def pad4(b):
    return b + b'\0' * (-len(b) % 4)

def cpio_entry(name, mode, content=b'', ino=0, uid=0, gid=0, nlink=1, mtime=0, filesize=None,
               dev=(0, 0), rdev=(0, 0)):
    if filesize is None:
        filesize = len(content)
    h = b'070701' + b''.join(b'%08x' % v for v in
        (ino, mode, uid, gid, nlink, mtime, filesize, dev[0], dev[1], rdev[0], rdev[1], len(name) + 1, 0))
    return pad4(h + name + b'\0') + pad4(content)

def cpio_trailer():
    return cpio_entry(TRAILER, 0)

def rdev16(maj, mnr):
    return ((maj & 0xff) << 8) | (mnr & 0xff)

class F:
    """one packaged file"""
    def __init__(self, path, mode, content=b'', linkto=b'', rdev=(0, 0), flags=0, verify=0xffffffff, color=0,
                 in_payload=True, hardgroup=None, hardlast=True, mtime=1600000000, hdr_size=None, payload_only=False,
                 uid=0, digest=None):
        self.__dict__.update(locals()); del self.__dict__['self']

def build(name=b'foo', version=b'1.0', release=b'1', epoch=None, arch=b'x86_64', source=False, files=(),
          payload_order=None, comp=C.GZIP, level=9, algo=8, prefix=b'./', colors=True, sigextra=(), hdrextra=(),
          leadname=None, comp_name=None, flags=None, with_sig_md5=True, payload_tail=b'', cpio_raw=None, payload_raw=None,
          format_=b'cpio', payload_digest=False, inodes=True, reserved=0, summary=b'test package'):
    ent = []
    E = ent.append
    nvr = name + b'-' + version + b'-' + release
    E((100, STRARR, [b'C']))
    E((1000, STRING, name)); E((1001, STRING, version)); E((1002, STRING, release))
    if epoch is not None:
        E((1003, INT32, [epoch]))
    E((1004, I18N, [summary])); E((1005, I18N, [b'generated']))
    E((1006, INT32, [1600000000])); E((1007, STRING, b'localhost'))
    E((1014, STRING, b'LGPL')); E((1016, I18N, [b'Unspecified']))
    E((1021, STRING, b'linux')); E((1022, STRING, arch))
    if not source:
        E((1044, STRING, nvr + b'.src.rpm'))
    hf = [f for f in files if not f.payload_only]
    total = sum(len(f.content) for f in hf)
    E((1009, INT32, [total & 0xffffffff]))
    if hf:
        dirs = []; di = []; bn = []
        for f in hf:
            d, _, b_ = f.path.rpartition(b'/')
            d = d + b'/' if (d or f.path.startswith(b'/')) else b''
            if d not in dirs:
                dirs.append(d)
            di.append(dirs.index(d)); bn.append(b_)
        def size(f):
            if f.hdr_size is not None: return f.hdr_size
            if stat.S_ISLNK(f.mode): return len(f.linkto)
            if stat.S_ISREG(f.mode): return len(f.content)
            return 4096 if stat.S_ISDIR(f.mode) else 0
        def dig(f):
            if f.digest is not None: return f.digest
            if not stat.S_ISREG(f.mode) or f.flags & 64: return b''
            h = hashlib.md5 if algo == 1 else hashlib.sha256
            return h(f.content).hexdigest().encode()
        E((1028, INT32, [size(f) for f in hf]))
        E((1030, INT16, [f.mode for f in hf]))
        E((1033, INT16, [rdev16(*f.rdev) if f.mode & 0o170000 in (0o020000, 0o060000) else 0 for f in hf]))
        E((1034, INT32, [f.mtime for f in hf]))
        E((1035, STRARR, [dig(f) for f in hf]))
        E((1036, STRARR, [f.linkto for f in hf]))
        E((1037, INT32, [f.flags for f in hf]))
        E((1039, STRARR, [b'root'] * len(hf))); E((1040, STRARR, [b'root'] * len(hf)))
        E((1045, INT32, [f.verify for f in hf]))
        E((1095, INT32, [1] * len(hf)))
        inos = []
        groups = {}
        for i, f in enumerate(hf):
            if f.hardgroup is not None:
                inos.append(groups.setdefault(f.hardgroup, i + 1))
            else:
                inos.append(i + 1)
        E((1096, INT32, inos)); E((1097, STRARR, [b''] * len(hf)))
        E((1116, INT32, di)); E((1117, STRARR, bn)); E((1118, STRARR, dirs))
        if colors:
            E((1140, INT32, [f.color for f in hf]))
        if algo != 1:
            E((5011, INT32, [algo]))
    E((1124, STRING, format_))
    if comp != C.NONE or comp_name is not None:      # rpmbuild records no compressor for uncompressed payloads
        E((1125, STRING, (comp_name if comp_name is not None else C.NAMES[comp].encode())))
    E((1126, STRING, flags if flags is not None else b'%d' % level if comp != C.NONE else b''))
    E((1132, STRING, arch + b'-linux'))
    # payload
    if cpio_raw is None:
        order = payload_order if payload_order is not None else range(len(files))
        cp = bytearray()
        for i in order:
            f = files[i]
            if not f.in_payload:
                continue
            n = (prefix + f.path.lstrip(b'/')) if not source else f.path
            if f.hardgroup is not None:
                g = [x for x in files if x.hardgroup == f.hardgroup]
                ino = hf.index(g[0]) + 1
                nl = len(g)
                body = f.content if f.hardlast else b''
            else:
                ino = i + 1; nl = 1
                body = f.content if stat.S_ISREG(f.mode) else (f.linkto if stat.S_ISLNK(f.mode) else b'')
            cp += cpio_entry(n, f.mode, body, ino=ino if inodes else 0, uid=f.uid, nlink=nl, mtime=f.mtime,
                             rdev=f.rdev if f.mode & 0o170000 in (0o020000, 0o060000) else (0, 0))
        cp += cpio_trailer() + payload_tail
        cpio_raw = bytes(cp)
    payload = payload_raw if payload_raw is not None else C.compress(comp, level, cpio_raw)
    for e in hdrextra:
        E(e)
    if payload_digest:
        E((5092, STRARR, [hashlib.sha256(payload).hexdigest().encode()])); E((5093, INT32, [8]))
    hdr = pack_header(ent, 63)
    body = hdr + payload
    sig = [(1000, INT32, [len(body)]), (1007, INT32, [len(cpio_raw) & 0xffffffff]),
           (269, STRING, hashlib.sha1(hdr).hexdigest().encode())]
    if with_sig_md5:
        sig.append((1004, BIN, hashlib.md5(body).digest()))
    if reserved:
        sig.append((1008, BIN, b'\0' * reserved))
    sig += list(sigextra)
    sigb = pack_header(sig, 62)
    sigb += b'\0' * (-len(sigb) % 8)
    ln = (leadname if leadname is not None else nvr)[:65]
    lead = b'\xed\xab\xee\xdb\x03\x00' + struct.pack('>HH', 1 if source else 0, 1) + ln.ljust(66, b'\0') + \
        struct.pack('>HH', 1, 5) + b'\0' * 16
    return lead + sigb + body
