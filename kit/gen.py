"""Generators: JSON-able specifications of packages, package pairs, options and copy programs, and their realisation."""
import random, hashlib, functools, stat
from hypothesis import strategies as st
from . import rpmfmt as R, comp as C

# ---- content recipes: lists of chunks -------------------------------------------------
@functools.lru_cache(maxsize=256)
def _rand(seed, n):
    return random.Random(seed * 7919 + 13).randbytes(n)

_WORDS = [b'the ', b'package ', b'delta ', b'rpm\n', b'\0\0\0\0', b'int main(void)\n', b'{ return ', b'lib64/', b'};\n', b'0123456789abcdef', b'x', b'\xff\xfe']

@functools.lru_cache(maxsize=256)
def _text(seed, n):
    r = random.Random(seed * 104729 + 5)
    out = bytearray()
    while len(out) < n:
        out += r.choice(_WORDS)
    return bytes(out[:n])

def chunk(c):
    k = c[0]
    if k == 'b':
        return bytes([c[1]]) * c[2]
    if k == 'x':
        return bytes.fromhex(c[1])
    if k in 'rt':                      # [kind, seed, start, n]
        f = _rand if k == 'r' else _text
        b = f(c[1], 65536 if c[2] + c[3] <= 65536 else c[2] + c[3])
        return b[c[2]:c[2] + c[3]]
    if k == 'm':                       # ['m', seed, start, n, every, add]: random data with every n-th byte changed
        b = bytearray(chunk(['r', c[1], c[2], c[3]]))
        for i in range(0, len(b), max(1, c[4])):
            b[i] = (b[i] + c[5]) & 255
        return bytes(b)
    if k == 'p':                       # ['p', period, n]: periodic
        u = bytes(range(1, c[1] + 1))
        return (u * (c[2] // len(u) + 1))[:c[2]]
    if k == 'E':                       # ['E', kind, size]: an object file that carries what prelink leaves behind
        from .fscase import elf
        return elf(c[1], c[2], True)
    raise ValueError(c)

def content(recipe):
    return b''.join(chunk(c) for c in recipe)

SMALL = st.one_of(st.integers(0, 64), st.integers(0, 600))
MID = st.one_of(SMALL, st.integers(0, 5000), st.sampled_from([15, 16, 17, 31, 32, 33, 4095, 4096, 4097, 8191, 8192, 8193]))
BIG = st.one_of(MID, MID, st.integers(0, 20000), st.sampled_from([16383, 16384, 16385, 20000, 24577, 40000, 65535, 65536, 65537]))

def chunks(size):
    seed = st.integers(0, 5)
    start = st.one_of(st.just(0), st.integers(0, 3000))
    return st.one_of(
        st.tuples(st.just('r'), seed, start, size).map(list),
        st.tuples(st.just('t'), seed, start, size).map(list),
        st.tuples(st.just('b'), st.sampled_from([0, 1, 48, 255]), size).map(list),
        st.tuples(st.just('m'), seed, start, size, st.sampled_from([1, 7, 64, 300]), st.sampled_from([1, 128, 255])).map(list),
        st.tuples(st.just('p'), st.integers(1, 40), size).map(list),
        st.tuples(st.just('x'), st.binary(max_size=24).map(bytes.hex)).map(list))

def recipes(size=BIG, maxn=4):
    return st.lists(chunks(size), max_size=maxn)

# ---- packages --------------------------------------------------------------------------
DIRS = ['/usr/lib/', '/usr/lib64/', '/usr/bin/', '/etc/', '/', '/opt/a b/', '/usr/share/doc/x-1.0/', '/usr/lib32/q/']
NAMES = ['a', 'b', 'c', 'libx.so', 'README', 'z' * 30, 'f.1', '.hid', 'n\xf6n', 'TRAILER!!', 'x y', 'q' * 120]
KINDS = {'reg': 0o100644, 'exe': 0o100755, 'lnk': 0o120777, 'dir': 0o040755, 'chr': 0o020600, 'blk': 0o060660, 'fifo': 0o010644, 'suid': 0o104755}
FLAGS = [0, 0, 0, 0, 1, 2, 8, 17, 64, 128, 1 << 10]
VERIFY = [0xffffffff, 0xffffffff, 0xffffffff, 0, 1, 2, 3, 0xfffffffe, 0xfffffffd, 0xfffffffc]

@st.composite
def filespec(draw, size=BIG, plain=False):
    kind = draw(st.sampled_from(['reg'] * 8 + ['exe', 'lnk', 'lnk', 'dir', 'chr', 'blk', 'fifo', 'suid']))
    f = dict(d=draw(st.integers(0, len(DIRS) - 1)), n=draw(st.integers(0, len(NAMES) - 1)), k=kind)
    if kind in ('reg', 'exe', 'suid'):
        f['c'] = draw(recipes(size))
    elif kind == 'lnk':
        f['l'] = draw(st.sampled_from(['x', '../y', '/usr/lib/libx.so', 'long/' * 20, 'a' * 3, 'b' * 4]))
    elif kind in ('chr', 'blk'):
        f['r'] = [draw(st.integers(0, 255)), draw(st.integers(0, 255))]
    if not plain:
        fl = draw(st.sampled_from(FLAGS)); ve = draw(st.sampled_from(VERIFY))
        if fl: f['f'] = fl
        if ve != 0xffffffff: f['v'] = ve
        co = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4]))
        if co: f['o'] = co
        h = draw(st.sampled_from([0] * 6 + [1, 2]))
        if h and kind in ('reg', 'exe'): f['h'] = h
    return f

COMPS = [C.GZIP, C.BZIP2, C.LZMA, C.XZ, C.ZSTD, C.NONE]
def comp_level(big=False):
    """target payload compressors with a level a package can record"""
    lv = {C.GZIP: [9, 6, 1, 2, 3, 4, 5, 7, 8], C.BZIP2: list(range(9, 0, -1)), C.LZMA: [2, 1, 3, 6] + ([9] if big else []),
          C.XZ: [2, 1, 3, 6] + ([9] if big else []), C.ZSTD: [19, 3, 1, 10, 15] + ([22] if big else []), C.NONE: [0]}
    return st.sampled_from([C.GZIP, C.XZ, C.ZSTD, C.GZIP, C.BZIP2, C.LZMA, C.NONE]).flatmap(
        lambda c: st.sampled_from(lv[c]).map(lambda l: [c, l]))

@st.composite
def package(draw, size=BIG, maxfiles=6, plain=False, big=False, nofiles=True, name='foo'):
    fs = draw(st.lists(filespec(size, plain), min_size=0 if nofiles else 1, max_size=maxfiles))
    p = dict(files=fs, z=draw(comp_level(big)))
    p['ver'] = draw(st.sampled_from(['1.0', '1.1', '2']))
    if draw(st.booleans()): p['epoch'] = draw(st.sampled_from([0, 1, 42]))
    if draw(st.sampled_from([0, 0, 1])): p['algo'] = 1
    if draw(st.sampled_from([0, 0, 0, 1])): p['src'] = 1
    if draw(st.sampled_from([0, 0, 1])): p['order'] = draw(st.integers(1, 9))
    x = draw(st.sampled_from(['./', './', './', './', '', '/']))
    if x != './': p['prefix'] = x
    if draw(st.sampled_from([0, 0, 0, 1])): p['nocol'] = 1
    if draw(st.sampled_from([0, 0, 1])): p['rsv'] = draw(st.sampled_from([1, 5, 8, 4128]))
    if draw(st.sampled_from([0, 0, 0, 1])): p['pdig'] = 1
    if draw(st.sampled_from([0, 0, 0, 1])): p['tail'] = draw(st.sampled_from([1, 4, 300, 512]))
    if draw(st.sampled_from([0, 0, 0, 0, 0, 1])): p['extra'] = draw(st.integers(1, 2))
    if name != 'foo': p['name'] = name
    return p

def files_of(p):
    """R.F objects of a package spec (names made unique, header order = spec order unless 'hord')"""
    out = []; seen = set()
    groups = {}
    src = p.get('src')
    fl = p.get('files', ())
    if p.get('bulk'):
        # very many tiny files: bulk = [how many, ranges of them that are configuration files]
        n, skip = p['bulk']
        fl = list(fl) + [dict(d='/bulk/', n='%06d' % i, k='reg', c=[['b', i % 251, 1 + i % 3]], f=1 if any(a <= i < b for a, b in skip) else 0) for i in range(n)]
    for i, f in enumerate(fl):
        base = NAMES[f['n']].encode('utf-8', 'surrogateescape') if isinstance(f['n'], int) else f['n'].encode('utf-8', 'surrogateescape')
        d = b'' if src else (DIRS[f['d']].encode() if isinstance(f['d'], int) else f['d'].encode('utf-8', 'surrogateescape'))
        path = d + base
        if p.get('root'):
            path = p['root'].encode() + path
        while path in seen:
            path += b'.%d' % i
        seen.add(path)
        kind = f['k'] if not src or f['k'] in ('reg', 'exe') else 'reg'
        mode = f.get('m', KINDS[kind])
        c = content(f.get('c', ())) if stat.S_ISREG(mode) else b''
        hg = None
        if f.get('h') and stat.S_ISREG(mode) and not src:
            g = groups.setdefault(f['h'], [])
            hg = f['h']
            g.append(i)
        x = R.F(path, mode, c, linkto=f.get('l', '').encode('utf-8', 'surrogateescape') if stat.S_ISLNK(mode) else b'', rdev=tuple(f.get('r', (0, 0))),
                flags=f.get('f', 0), verify=f.get('v', 0xffffffff), color=f.get('o', 0), hardgroup=hg,
                in_payload=not (f.get('f', 0) & 64))
        if stat.S_ISLNK(mode) and not x.linkto:
            x.linkto = b'x'
        if hg is not None:
            x.flags &= ~64; x.in_payload = True
        out.append(x)
    for g, ix in groups.items():
        c = out[ix[0]].content
        for j in ix:
            out[j].content = c
            out[j].mode = out[ix[0]].mode
            out[j].hardlast = j == ix[-1]
        if len(ix) == 1:
            out[ix[0]].hardgroup = None
    return out

def realize(p, default_name='foo'):
    """bytes of the package"""
    fs = files_of(p)
    n = len(fs)
    order = list(range(n))
    if p.get('order'):
        random.Random(p['order']).shuffle(order)
    if isinstance(p.get('perm'), list):
        order = [i for i in p['perm'] if i < n] + [i for i in range(n) if i not in p['perm']]
    # the last payload member of each hard link group carries the data
    for g in {f.hardgroup for f in fs if f.hardgroup is not None}:
        mem = [i for i in order if fs[i].hardgroup == g]
        for i in mem:
            fs[i].hardlast = i == mem[-1]
    hdrextra = []
    if p.get('extra'):
        hdrextra = [(1080, R.INT32, list(range(1600000000, 1600000000 + p['extra'] * 5))), (1081, R.STRARR, [b'A <a@b>'] * (p['extra'] * 5)),
                    (1082, R.STRARR, [b'- change %d' % i for i in range(p['extra'] * 5)])]
    if p.get('hx'):
        hdrextra.append((1023, R.STRING, content(p['hx']).replace(b'\0', b'.')))
    z = p['z']
    return R.build(name=p.get('name', default_name).encode(), version=p.get('ver', '1.0').encode(), release=p.get('rel', '1').encode(),
                   epoch=p.get('epoch'), source=bool(p.get('src')), files=fs, payload_order=order, comp=z[0], level=z[1],
                   algo=p.get('algo', 8), prefix=p.get('prefix', './').encode(), colors=not p.get('nocol'), reserved=p.get('rsv', 0),
                   payload_digest=bool(p.get('pdig')), payload_tail=b'\0' * p.get('tail', 0), hdrextra=hdrextra)

@st.composite
def mutated(draw, p, size=BIG, big=False):
    """a new version of package p: files edited, added, removed, renamed"""
    q = {k: v for k, v in p.items() if k != 'files'}
    q['ver'] = draw(st.sampled_from(['1.1', '1.0', '2']))
    q['z'] = draw(comp_level(big))
    fs = []
    for f in p['files']:
        a = draw(st.sampled_from(['keep', 'keep', 'edit', 'edit', 'drop', 'rename', 'new', 'tweak']))
        f = dict(f)
        if a == 'drop':
            continue
        if a == 'rename':
            f['n'] = draw(st.integers(0, len(NAMES) - 1))
        elif a == 'new' and 'c' in f:
            f['c'] = draw(recipes(size))
        elif a == 'tweak' and 'c' in f:
            f['c'] = [(['m', c[1], c[2], c[3], draw(st.sampled_from([50, 200, 1000])), draw(st.sampled_from([1, 255]))] if c[0] == 'r' else c) for c in f['c']]
        elif a == 'edit' and 'c' in f:
            c = list(f['c'])
            op = draw(st.sampled_from(['ins', 'del', 'swap', 'dup', 'cut']))
            if op == 'ins': c.insert(draw(st.integers(0, len(c))), draw(chunks(size)))
            elif op == 'del' and c: c.pop(draw(st.integers(0, len(c) - 1)))
            elif op == 'swap': c = c[::-1]
            elif op == 'dup': c = c + c
            elif op == 'cut' and c and c[0][0] in 'rt':
                n = draw(st.integers(0, c[0][3])); c[0] = [c[0][0], c[0][1], c[0][2] + n, c[0][3] - n]
            f['c'] = c
        fs.append(f)
    fs += draw(st.lists(filespec(size), max_size=2))
    if draw(st.sampled_from([0, 0, 1])):
        fs = fs[::-1]
    q['files'] = fs
    return q

@st.composite
def pair(draw, size=BIG, maxfiles=6, big=False):
    a = draw(package(size, maxfiles, big=big))
    m = draw(st.sampled_from(['mut', 'mut', 'mut', 'same', 'other']))
    b = dict(a) if m == 'same' else draw(mutated(a, size, big)) if m == 'mut' else draw(package(size, maxfiles, big=big))
    return [a, b]

# ---- options -----------------------------------------------------------------------------
DC = [[C.NONE, 0], [C.GZIP, 0], [C.GZIP, 9], [C.GZIP, 1], [C.BZIP2, 0], [C.BZIP2, 1], [C.BZIP2, 9], [C.LZMA, 0], [C.LZMA, 1], [C.XZ, 0], [C.XZ, 1], [C.XZ, 6], [C.ZSTD, 0], [C.ZSTD, 1], [C.ZSTD, 3], [C.LZIP, 0], [C.LZIP, 6]]
@st.composite
def options(draw, types=(0,)):
    o = {}
    t = draw(st.sampled_from(list(types)))
    if t: o['type'] = 1
    if not t:
        v = draw(st.sampled_from([3, 3, 0, 2, 2, 1]))
        if v: o['ver'] = v
    elif draw(st.booleans()): o['ver'] = 3
    c = draw(st.sampled_from([None, 'rpm'] + DC))
    if c is not None: o['dc'] = c
    a = draw(st.sampled_from([None, 'no', None] + DC))
    if a == 'no': o['noadd'] = 1
    elif a is not None: o['ac'] = a
    if draw(st.sampled_from([0, 0, 0, 1])): o['null'] = 1
    if draw(st.sampled_from([0, 0, 0, 1])): o['seq'] = 1
    return o

def apply_options(w, o, slot=0, seqpath=None):
    """sets the options on slot; returns the slot argument for make (None if absent options are to be passed)"""
    if o.get('null') and not any(k in o for k in ('type', 'ver', 'dc', 'ac', 'noadd', 'seq')):
        return None
    def ok(r):
        if r.rc:
            raise AssertionError('option call failed: %r' % (r,))
    ok(w.call('optnew', slot))
    if o.get('type'): ok(w.call('opttype', slot, 1))
    if o.get('ver'): ok(w.call('optver', slot, o['ver']))
    if o.get('dc') == 'rpm': ok(w.call('optfromrpm', slot))
    elif o.get('dc'): ok(w.call('optdcomp', slot, *o['dc']))
    if o.get('noadd'): ok(w.call('optnoadd', slot))
    elif o.get('ac'): ok(w.call('optacomp', slot, *o['ac']))
    if o.get('seq') and seqpath: ok(w.call('optseq', slot, seqpath))
    return slot

def drop_options(w, slot):
    if slot is not None:
        w.call('optfree', slot)
