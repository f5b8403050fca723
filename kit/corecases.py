"""Enumerated package pairs (boundary cases) shared by the checks of making deltas. Each item: (old, new, big?)."""
import itertools
from . import gen, comp as C

T = lambda s, a, n: ['t', s, a, n]
X = lambda s, a, n: ['r', s, a, n]

def P(files, z=(C.GZIP, 9), **k):
    return dict(files=files, z=list(z), **k)

def reg(n, c, d=0, **k):
    return dict(dict(d=d, n=n, k='reg', c=c), **k)

Z = [(C.NONE, 0), (C.GZIP, 9), (C.XZ, 2), (C.ZSTD, 3), (C.BZIP2, 9), (C.LZMA, 2)]

def files_cases():
    """one file under test between two others, of every kind, flag, verify mask and colour"""
    def both(f, **k):
        a = reg('a', [X(1, 0, 700), T(1, 0, 300)]); b = reg('z', [X(2, 0, 900)])
        a2 = reg('a', [X(1, 0, 400), T(3, 0, 55), X(1, 400, 300), T(1, 0, 300)]); b2 = reg('z', [X(2, 0, 900), ['b', 7, 3]])
        return P([a, f, b], ver='1.0', **k), P([a2, f, b2], ver='1.1', **k)
    body = [X(3, 0, 501)]
    for fl in (0, 1, 2, 8, 16, 17, 18, 32, 64, 128, 256, 1 << 10, (1 << 10) | 1):
        for ve in (0xffffffff, 0, 1, 2, 3, 5, 0xfffffffe, 0xfffffffd, 0xfffffffc, 0xfffffffa):
            for co, nocol, dd in ((0, 0, 0), (1, 0, 0), (2, 0, 1), (1, 1, 1)):
                k = dict(nocol=1) if nocol else {}
                f = reg('m', body, d=dd)
                if fl: f['f'] = fl
                if ve != 0xffffffff: f['v'] = ve
                if co: f['o'] = co
                yield both(f, **k)
    for d in range(len(gen.DIRS)):
        for co in range(5):
            for nocol in (0, 1):
                f = reg('m', body, d=d)
                if co: f['o'] = co
                yield both(f, **(dict(nocol=1) if nocol else {}))
    for kind in ('exe', 'suid', 'lnk', 'dir', 'chr', 'blk', 'fifo'):
        for fl in (0, 1, 16, 64, 128):
            for ve in (0xffffffff, 0, 0xfffffffe):
                for pre in ('./', '', '/'):
                    f = dict(d=0, n='m', k=kind)
                    if kind in ('exe', 'suid'): f['c'] = body
                    if kind == 'lnk': f['l'] = 'over/there'
                    if kind in ('chr', 'blk'): f['r'] = [3, 200]
                    if fl: f['f'] = fl
                    if ve != 0xffffffff: f['v'] = ve
                    yield both(f, **(dict(prefix=pre) if pre != './' else {}))
    for r in ([0, 0], [0, 1], [1, 0], [255, 255], [10, 128]):
        yield both(dict(d=0, n='m', k='chr', r=r)); yield both(dict(d=0, n='m', k='blk', r=r))
    for l in ('x', 'ab', 'abc', 'abcd', 'y' * 200, 'q' * 1000):
        yield both(dict(d=0, n='m', k='lnk', l=l))
    # the file under test changes its kind, mode or content only
    for a, b in itertools.permutations(('reg', 'exe', 'lnk', 'dir', 'fifo'), 2):
        def f(k):
            g = dict(d=0, n='m', k=k)
            if k in ('reg', 'exe'): g['c'] = body
            if k == 'lnk': g['l'] = 'over'
            return g
        o, n = both(f(a)); _, m = both(f(b))
        yield o, m
    for src in (0, 1):
        for n in range(0, 41):
            fs = [reg('f%d' % i, [X(i % 6, i * 13, 40 + i * 31)]) for i in range(n)]
            yield P(fs, ver='1.0', **(dict(src=1) if src else {})), P(fs[::-1] + [reg('new', [T(1, 0, 99)])], ver='1.1', **(dict(src=1) if src else {}))
    for n in (31, 32, 33, 63, 64, 65, 100, 130):
        fs = [reg('f%d' % i, [X(i % 6, i * 7, 20 + i)]) for i in range(n)]
        for sel in (1, 2, 5):
            ghost = [dict(f, f=64) if i % sel == 1 else f for i, f in enumerate(fs)]
            yield P(ghost, ver='1.0', order=3), P(fs, ver='1.1', order=5)
            cfg = [dict(f, f=1) if i % sel == 0 else f for i, f in enumerate(fs)]
            yield P(cfg, ver='1.0'), P(fs, ver='1.1')
    # names of every length modulo the padding, also the longest a path component allows; prefixes
    for n in list(range(1, 14)) + [60, 61, 62, 63, 64, 127, 128, 250, 255]:
        for pre in ('./', '', '/'):
            yield both(reg('m' * n, body), **(dict(prefix=pre) if pre != './' else {}))
    for name in ('n\xf6n', '\xe6\x97\xa5', 'a b', '.', '..a', 'TRAILER!!!', 'TRAILER!!', 'x\ty', '%s', "'", '\\'):
        yield both(reg(name, body))
    # hard links
    for g in (2, 3, 5):
        for n in (0, 1, 3, 4, 500, 9000):
            for o in range(4):
                fs = [reg('h%d' % i, [X(4, 0, n)], h=1) for i in range(g)] + [reg('o', [X(5, 0, 300)])]
                yield P(fs, ver='1.0', order=o), P(fs + [reg('p', [X(4, 0, n), X(5, 0, 10)])], ver='1.1', order=o)
    for o in range(6):
        fs = [reg('h%d' % i, [X(4, 0, 100)], h=1 + i % 2) for i in range(5)]
        yield P(fs, ver='1.0', order=o), P(fs, ver='1.1', order=6 - o)

SIZES = list(range(0, 71)) + [127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16383, 16384, 16385, 20000,
                              24576, 32767, 32768, 32769, 40960, 65535, 65536, 65537]
def content_cases():
    for n in SIZES:
        for z in ((C.NONE, 0), (C.GZIP, 6)):
            yield P([reg('a', [X(1, 0, n)])], z, ver='1.0'), P([reg('a', [X(1, 0, n // 2), ['b', 1, 5], X(1, n // 2, n - n // 2)])], z, ver='1.1')
        yield P([reg('a', [X(1, 0, n)]), reg('b', [X(2, 0, 333)])], ver='1.0'), P([reg('b', [X(2, 0, 333)]), reg('a', [X(1, 0, n)])], ver='1.1')
        yield P([], ver='1.0'), P([reg('a', [X(1, 0, n)])], (C.XZ, 2), ver='1.1')
        yield P([reg('a', [X(1, 0, n)])], (C.ZSTD, 3), ver='1.0'), P([], ver='1.1')
    base = [X(1, 0, 6000)]
    for every in list(range(1, 40)) + [63, 64, 65, 100, 500]:
        for add in (1, 128, 255):
            yield P([reg('a', base)], ver='1.0'), P([reg('a', [['m', 1, 0, 6000, every, add]])], ver='1.1')
    for n in list(range(1, 70)) + [100, 127, 128, 129, 500, 4096, 5000]:
        yield P([reg('a', base)], ver='1.0'), P([reg('a', [X(1, 0, 2000), X(5, 0, n), X(1, 2000 + min(n, 3000), 4000 - min(n, 3000))])], ver='1.1')
        yield P([reg('a', base)], ver='1.0'), P([reg('a', [X(1, 0, 2000), X(1, 2000 + min(n, 3900), 4000 - min(n, 3900))])], ver='1.1')
    # numbers of copies around the steps in which arrays grow, forwards and backwards jumps
    for n in (1, 2, 3, 14, 15, 16, 17, 30, 31, 32, 33, 34, 48, 63, 64, 65, 100, 128, 129, 257):
        parts = [X(i % 6, i * 96, 96) for i in range(n)]
        inter = []
        for i, p in enumerate(parts): inter += [p, X(5, 20000 + i * 40, 40)]
        yield P([reg('a', parts)], ver='1.0'), P([reg('a', parts[::-1])], ver='1.1')
        yield P([reg('a', parts)], ver='1.0'), P([reg('a', inter)], ver='1.1')
        yield P([reg('a', parts)], ver='1.0'), P([reg('a', parts * 2)], ver='1.1')
    for c in ([['b', 0, 70000]], [['b', 255, 9000]], [['p', 3, 9000]], [['p', 16, 9000]], [['p', 17, 9000]], [T(1, 0, 30000)]):
        for e in ([['b', 0, 1]], [X(1, 0, 100)], []):
            yield P([reg('a', c)], ver='1.0'), P([reg('a', c[:1] + e + c)], ver='1.1')
    # external data of exactly some multiple of the block sizes (old payload without compression)
    for total in (128, 256, 512, 1024, 8192, 16384, 24576):
        for off in range(-9, 10):
            n = max(0, total + off - 252)
            yield P([reg('a', [X(1, 0, n)])], (C.NONE, 0), ver='1.0'), P([reg('a', [X(1, 0, n), X(2, 0, 10)])], (C.NONE, 0), ver='1.1')

LEVELS = {C.GZIP: range(1, 10), C.BZIP2: range(1, 10), C.LZMA: range(1, 10), C.XZ: range(1, 10), C.ZSTD: range(1, 23), C.NONE: [0]}
def comp_cases(tier):
    for c, lv in LEVELS.items():
        for l in lv:
            if tier == 'quick' and c in (C.LZMA, C.XZ) and l in (5, 7, 8): continue
            yield P([reg('a', [T(1, 0, 9000), X(1, 0, 800)])], (c, l), ver='1.0'), P([reg('a', [T(1, 0, 8800), X(1, 10, 790), T(2, 0, 700)])], (c, l), ver='1.1')
    for a in Z:
        for b in Z:
            yield P([reg('a', [T(1, 0, 5000)])], a, ver='1.0'), P([reg('a', [T(1, 100, 5000)])], b, ver='1.1')

def header_cases():
    A = [reg('a', [X(1, 0, 700)])]
    for k in (dict(epoch=0), dict(epoch=1), dict(epoch=42), dict(epoch=4294967295), dict(src=1), dict(algo=1), dict(pdig=1), dict(extra=1), dict(extra=2), dict(extra=300), dict(nocol=1),
              dict(name='x'), dict(name='libfoo-devel'), dict(name='a' * 60), dict(name='a' * 200), dict(name='foo+bar.baz_q'), dict(rel='1.el9'), dict(rel='0'), dict(ver='2', rel='3~rc1')):
        yield P(A, **dict(dict(ver='1.0'), **k)), P(A + [reg('n', [T(2, 0, 80)])], **dict(dict(ver='1.1'), **k))
        yield P(A, ver='1.0'), P(A, **dict(dict(ver='1.1'), **k))
        yield P(A, **dict(dict(ver='1.0'), **k)), P(A, ver='1.1')
    for n in list(range(1, 17)) + [100, 1024, 4096, 4128, 8192, 40000]:
        yield P(A, ver='1.0', rsv=n), P(A, ver='1.1')
        yield P(A, ver='1.0'), P(A, ver='1.1', rsv=n)
    for n in list(range(1, 13)) + [100, 256, 300, 511, 512, 513, 5000]:
        yield P(A, ver='1.0', tail=n), P(A, ver='1.1')
        yield P(A, ver='1.0'), P(A, ver='1.1', tail=n)
        yield P(A, (C.NONE, 0), ver='1.0', tail=n), P(A, (C.NONE, 0), ver='1.1', tail=n)
    for n in list(range(0, 40)) + [1000, 4096, 10000]:
        hx = [T(4, 0, n)] if n else [['x', '']]
        yield P(A, ver='1.0', hx=hx), P(A, ver='1.1', hx=hx + [T(1, 0, 17)])
    for order in range(1, 9):
        fs = [reg('f%d' % i, [X(i, 0, 100 + i)]) for i in range(6)]
        yield P(fs, ver='1.0', order=order), P(fs, ver='1.1')
        yield P(fs, ver='1.0'), P(fs, ver='1.1', order=order)

def big_cases(tier):
    def long(seed, a, n):
        out = []
        while n:
            m = min(n, 65536 - a % 65536)
            out.append(X(seed + a // 65536, a % 65536, m)); a += m; n -= m
        return out
    ns = [131072, 1 << 20, (1 << 20) + 4097, 5 << 20] + ([17 << 20] if tier != 'quick' else [])
    for n in ns:
        for z in ((C.NONE, 0), (C.GZIP, 1)):
            yield P([reg('a', long(300, 0, n))], z, ver='1.0'), P([reg('a', long(300, n // 2, n - n // 2) + [T(1, 0, 100)] + long(300, 0, n // 2))], z, ver='1.1')
            yield P([reg('a', long(300, 0, n))], z, ver='1.0'), P([reg('a', long(300, 0, n // 3) + [T(1, 0, 100)] + long(300, n // 3, n - n // 3)), reg('b', [['b', 0, 100000]])], z, ver='1.1')
        # nothing in common: everything is internal data
        yield P([reg('a', [X(1, 0, 50)])], ver='1.0'), P([reg('a', long(600, 0, n))], (C.NONE, 0), ver='1.1')
    # lengths that need the topmost byte of their field
    n = (8 << 20) + 12345
    yield P([reg('a', [X(1, 0, 50)])], ver='1.0'), P([reg('a', long(600, 0, n))], (C.NONE, 0), ver='1.1')
    n = (17 << 20) + 4321
    yield P([reg('a', long(300, 0, n))], (C.NONE, 0), ver='1.0'), P([reg('a', long(300, 0, n)), reg('b', [X(7, 0, 99)])], (C.NONE, 0), ver='1.1')

def pairs(tier='quick'):
    for g in (files_cases(), content_cases(), comp_cases(tier), header_cases()):
        for o, n in g:
            yield o, n, 0
    for o, n in big_cases(tier):
        yield o, n, 1

DCS = [None, 'rpm'] + gen.DC
def option_grid(types=(0,), full=True):
    """every combination of version, delta compression and add-block setting"""
    for t in types:
        for v in ((None, 1, 2, 3) if t == 0 else (None, 3)):
            for c in DCS:
                for a in [None, 'no'] + gen.DC:
                    o = {}
                    if t: o['type'] = 1
                    if v: o['ver'] = v
                    if c is not None: o['dc'] = c
                    if a == 'no': o['noadd'] = 1
                    elif a is not None: o['ac'] = a
                    yield o

def cycle_options(types=(0,)):
    """an endless sequence in which versions, compressions and add-block settings vary independently; slow compressors are rare"""
    dcs = [[C.NONE, 0], None, [C.GZIP, 1], [C.ZSTD, 1], 'rpm', [C.GZIP, 9], [C.NONE, 0], [C.BZIP2, 1], [C.NONE, 0], [C.XZ, 1], [C.LZIP, 1], [C.LZMA, 1], [C.ZSTD, 3]]
    acs = [None, 'no', [C.NONE, 0], [C.GZIP, 1], None, 'no', [C.ZSTD, 1], [C.BZIP2, 9], [C.XZ, 0], [C.LZIP, 0], [C.LZMA, 1]]
    i = 0
    while True:
        o = {}
        t = types[i % len(types)]
        if t: o['type'] = 1
        else:
            v = (3, 2, 1, None, 3)[i % 5]
            if v: o['ver'] = v
        c = dcs[i % len(dcs)]; a = acs[i % len(acs)]
        if c is not None: o['dc'] = c
        if a == 'no': o['noadd'] = 1
        elif a is not None: o['ac'] = a
        yield o
        i += 1
