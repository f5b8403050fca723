"""Cases with an installed old package: specification, realisation, and what a delta relies on."""
import os, stat, struct, random, hashlib, shutil
from hypothesis import strategies as st
from . import gen, foreign as F, fsdb, rpmfmt as R, delta as D, comp as C

@st.composite
def many(draw, tier='quick'):
    """a package of many small files; the details come from a seed"""
    n = draw(st.sampled_from([20, 48, 50, 51, 52, 60, 90, 130]))
    r = random.Random(draw(st.integers(0, 10 ** 6)))
    big = draw(st.sampled_from([0, 0, 1, 2]))
    fs = []
    for i in range(n):
        size = r.choice([1, 3, 4, 5, 100, 700, 2500])
        if i < big: size = 30000 + 9000 * i
        f = dict(d=r.randrange(len(gen.DIRS)), n='f%03d' % i, k='reg', c=[[r.choice('rt'), r.randrange(6), r.randrange(2000), size]])
        k = r.randrange(12)
        if k == 0: f = dict(f, k='lnk', l='x' * r.randrange(1, 9)); del f['c']
        elif k == 1: f = dict(f, k='dir'); del f['c']
        elif k == 2: f['f'] = 1
        elif k == 3: f['v'] = 0
        elif k == 4: f['c'] = []
        fs.append(f)
    p = dict(files=fs, z=draw(st.sampled_from([[C.GZIP, 1], [C.ZSTD, 1], [C.NONE, 0]])))
    o = draw(st.sampled_from([0, 1, 2]))
    if o: p['order'] = o
    return p

@st.composite
def installed(draw, tier='quick'):
    """an old package to be installed (binary), maybe with other packages beside it"""
    if draw(st.sampled_from([0, 0, 1])):
        p = draw(many(tier))
    else:
        p = draw(gen.package(gen.BIG, maxfiles=6, nofiles=False))
        p.pop('src', None)
    s = dict(old=p)
    x = draw(st.sampled_from([0, 0, 1, 2, 3]))
    if x: s['decoy'] = x
    return s

def is_excluded(f, cols=True):
    """a regular file the library must not use from disk (by its header data)"""
    return bool(f['flags'] & (1 | 8 | 64)) or (f['verify'] & 3) != 3

def decoys(p, n):
    q = dict(files=[dict(d=0, n='decoy', k='reg', c=[['b', 1, 10]])], z=[C.GZIP, 9])
    out = []
    if n & 1: out.append(gen.realize(dict(q, name=p.get('name', 'foo'), ver=p.get('ver', '1.0') + '.0', rel='0')))
    if n & 2: out.append(gen.realize(dict(q, name=p.get('name', 'foo') + '-1.0', ver='1')))
    return out

def setup(ctx, spec):
    """installs and places the old package; returns (worker, old bytes, placed files, participating {path: (size, digest)}, order, ext)"""
    fs = fsdb.get(ctx)
    fs.reset()
    old = spec['old']
    p = fsdb.rooted(ctx, old)
    b = gen.realize(p)
    files = gen.files_of(p)
    pk = decoys(old, spec.get('decoy', 0)) + [b]
    if spec.get('decoy', 0) == 3: pk = pk[::-1]
    fs.install(*pk)
    fs.place(files)
    o = R.Rpm(b)
    ext, order, _ = D.old_cpio(o)
    hf = D.header_files(o.hdr)
    part = {}
    for i in order:
        f = hf[i]
        if stat.S_ISREG(f['mode']) and f['size']:
            part[f['name']] = (f['size'], f['digest'])
    return fs, b, files, part, order, ext

def digest(data, hexd):
    h = hashlib.md5 if len(hexd) == 32 else hashlib.sha256
    return h(data).hexdigest().encode() == hexd

def elf(kind, size, undo=False):
    """a file that looks like ELF in its first bytes; larger than size"""
    is64 = kind & 1; le = not kind & 2
    e = '<' if le else '>'
    sec = 64 if is64 else 40; hd = 64 if is64 else 52
    nsec = 4; stridx = 1
    names = b'\0.text\0.shstrtab\0.gnu.prelink_und%s\0' % (b'o' if undo else b'0')
    shoff = hd; stroff = shoff + nsec * sec
    typ = [0, 3, 1, 1]
    if kind >= 6: typ[1] = 2                      # the string section is not a string table
    if kind == 8: stroff = 1 << 30
    if kind == 9: shoff = 1 << 20
    nm = [0, 7, 1, 17]; slen = len(names); cnt = nsec
    if kind in (10, 11): stroff = 0x80000010
    if kind in (12, 13): shoff = 0x80000000 + hd
    if kind == 14: nm[2] = 0xfffffff0; nm[3] = len(names) - 1; typ[1] = 3
    if kind == 15: slen = 0xfffffff0
    if kind == 16: slen = 0x7fffff00; typ[1] = 3
    if kind == 17: cnt = 0
    if kind == 18: cnt = 65535
    if kind == 19 and is64: stroff += 1 << 40
    if 10 <= kind: typ[1] = 3
    if is64:
        h = b'\x7fELF' + bytes([2, 1 if le else 2, 1]) + b'\0' * 9 + struct.pack(e + 'HHIQQQIHHHHHH', 3, 62, 1, 0, 0, shoff, 0, 64, 56, 0, sec, cnt, stridx)
        s = b''.join(struct.pack(e + 'IIQQQQIIQQ', nm[i], typ[i], 0, 0, stroff, slen, 0, 0, 1, 0) for i in range(nsec))
    else:
        h = b'\x7fELF' + bytes([1, 1 if le else 2, 1]) + b'\0' * 9 + struct.pack(e + 'HHIIIIIHHHHHH', 3, 3, 1, 0, 0, shoff, 0, 52, 32, 0, sec, cnt, stridx)
        s = b''.join(struct.pack(e + '10I', nm[i], typ[i], 0, 0, stroff, slen, 0, 0, 1, 0) for i in range(nsec))
    b = h + s + names
    return b + b'\0' * max(0, size + 1 - len(b))

def prelinked(part, seed):
    """participating files replaced by larger ones that the prelink tool turns back"""
    r = random.Random(seed); new = {}
    if not seed: return new
    for path in sorted(part):
        p = os.fsdecode(path)
        if os.path.islink(p) or not os.path.isfile(p) or not os.path.getsize(p) or r.random() < (0, 0, .3, .6)[seed % 4]: continue
        with open(p, 'rb') as f: new[p] = f.read()
    for p, d in new.items():
        with open(p, 'wb') as f: f.write(elf(seed % 4, len(d), True) + b'\x5a' * r.choice((0, 1, 300, 9000)))
        with open(p + '.undo', 'wb') as f: f.write(d)
    return new
