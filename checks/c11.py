"""A sequence identifies exactly the source package it was made from."""
import random, hashlib, struct
from hypothesis import strategies as st
from kit import gen, fsdb, fscase, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C11'
LEVEL = 'exploration'
VARIANTS = ['asan']
RULE = ('a sequence identifier made by the library, or derived from one by a change of name, digest, order, or package metadata, was checked against a package file or the installed '
        'package, and the verdict compared with an independent decoder and digest over the header data; non-trivial when the package has at least two files and the identifier or the '
        'package was altered, or the order was chosen freely; distinct by the generated case')
ASSUMPTIONS = ['MD5 collisions do not arise by chance', 'an odd number of hexadecimal digits is outside the property']

META = ['mode', 'size', 'digest', 'link', 'rdev', 'name', 'dir', 'kind', 'perm', 'ver', 'rel', 'epoch', 'pkg', 'algo']

@st.composite
def strategy_(draw, tier):
    if draw(st.sampled_from([0, 0, 0, 1])): p = draw(fscase.many(tier))
    else: p = draw(gen.package(gen.SMALL, maxfiles=7))
    s = dict(old=p, t=draw(st.sampled_from([0, 0, 0, 1])), db=draw(st.sampled_from([0] * 9 + [1])))
    if draw(st.sampled_from([0, 0, 1])): s['one'] = 1
    k = draw(st.sampled_from(['free', 'free', 'hex', 'hex', 'meta', 'meta', 'meta', 'nevr', 'cut', 'swap', 'tail']))
    s['k'] = k
    if k == 'free': s['perm'] = draw(st.integers(0, 10 ** 6)); s['n'] = draw(st.sampled_from([0, 1, 2, 3, 7, 20, 1000])); s['runs'] = draw(st.sampled_from([0, 1, 2]))
    elif k == 'hex': s['at'] = draw(st.lists(st.tuples(st.one_of(st.integers(0, 60), st.integers(-8, -1)), st.integers(1, 15)).map(list), min_size=1, max_size=2))
    elif k == 'meta': s['m'] = draw(st.sampled_from(META)); s['i'] = draw(st.integers(0, 200))
    elif k == 'nevr': s['m'] = draw(st.sampled_from(['char', 'prefix', 'suffix', 'noepoch', 'epoch0', 'epoch', 'empty', 'dash', 'nodash', 'rel']))
    elif k == 'cut': s['n'] = draw(st.integers(1, 20))
    elif k == 'swap': s['i'] = draw(st.integers(0, 100)); s['j'] = draw(st.integers(0, 100)); s['fix'] = draw(st.booleans())
    elif k == 'tail': s['x'] = draw(st.binary(min_size=1, max_size=4)).hex()
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 9000 if tier == 'quick' else 150000

def directed(tier):
    f = lambda i, **k: dict(dict(d=i % 3, n='f%d' % i, k='reg', c=[['t', i, 0, 40 + i]]), **k)
    kinds = [f(0), dict(d=0, n='l', k='lnk', l='abc'), dict(d=0, n='d', k='dir'), dict(d=0, n='c', k='chr', r=[4, 5]), dict(d=0, n='b', k='blk', r=[8, 1]), dict(d=0, n='p', k='fifo'), f(6, c=[])]
    for db in (0, 1):
        for algo in (1, 8):
            p = dict(files=kinds, z=[C.GZIP, 9], algo=algo, epoch=3)
            for m in META:
                for i in range(7): yield dict(old=p, t=0, db=db, k='meta', m=m, i=i)
                if m in ('ver', 'rel', 'epoch', 'pkg', 'mode'): yield dict(old=p, t=1, db=0, k='meta', m=m, i=0)
            for m in ('char', 'prefix', 'suffix', 'noepoch', 'epoch0', 'epoch', 'empty', 'dash', 'nodash', 'rel'):
                for ep in (None, 0, 3):
                    for t in (0, 1):
                        q = dict(p, epoch=ep) if ep is not None else {k: v for k, v in p.items() if k != 'epoch'}
                        yield dict(old=q, t=t, db=db if not t else 0, k='nevr', m=m)
    for t in (0, 1):
        for i in range(32):
            for x in (1, 8): yield dict(old=dict(files=[f(0), f(1)], z=[C.GZIP, 9]), t=t, db=0, k='hex', at=[[i, x]])
        for n in range(1, 18): yield dict(old=dict(files=[f(0), f(1)], z=[C.GZIP, 9]), t=t, db=0, k='cut', n=n)
        yield dict(old=dict(files=[], z=[C.GZIP, 9]), t=t, db=0, k='hex', at=[[3, 1]])
    big = dict(files=[f(i, c=[['b', i % 256, 1 + i % 9]]) for i in range(700)], z=[C.GZIP, 1])
    for perm in range(6):
        for n in (1, 2, 90, 650, 1000): yield dict(old=big, t=0, db=0, k='free', perm=perm, n=n, runs=perm % 3)
    for e in range(4): yield dict(old=dict(files=[f(0), f(1), f(2)], z=[C.GZIP, 9]), t=0, db=1, k='free', perm=e, n=3, runs=0)

def changed(spec, p):
    """the package specification with one piece of metadata changed"""
    p = dict(p, files=[dict(f) for f in p['files']])
    m = spec['m']
    if m == 'ver': p['ver'] = p.get('ver', '1.0') + '0'
    elif m == 'rel': p['rel'] = '11'
    elif m == 'epoch': p['epoch'] = (p.get('epoch') or 0) + 1
    elif m == 'pkg': p['name'] = p.get('name', 'foo') + 'x'
    elif m == 'algo': p['algo'] = 9 - p.get('algo', 8)
    elif m == 'perm': p['files'] = p['files'][::-1]
    elif p['files']:
        f = p['files'][spec['i'] % len(p['files'])]
        if m == 'mode': f['m'] = f.get('m', gen.KINDS[f['k']]) ^ 0o002
        elif m == 'size' and 'c' in f: f['c'] = f['c'] + [['x', '41']]
        elif m == 'digest' and 'c' in f: f['c'] = [['b', 65, len(gen.content(f['c']))]]
        elif m == 'link' and 'l' in f: f['l'] = f['l'][:-1] + ('q' if f['l'][-1:] != 'q' else 'r')
        elif m == 'rdev' and 'r' in f: f['r'] = [f['r'][0], f['r'][1] ^ 1]
        elif m == 'name': f['n'] = 'renamed%s' % spec['i']
        elif m == 'dir': f['d'] = (f['d'] + 1) % len(gen.DIRS)
        elif m == 'kind' and f['k'] in ('chr', 'blk'): f['k'] = 'blk' if f['k'] == 'chr' else 'chr'
    return p

def verdict(pkg, name, seq, from_file):
    """True: must be accepted, False: must be rejected, None: open"""
    if name != pkg.nevr(): return False
    if len(seq) < 16: return False
    if from_file and seq == pkg.sigmd5(): return True
    files = D.header_files(pkg.hdr)
    try:
        order = D.seq_decode(seq[16:])
    except (D.FormatError, IndexError):
        return False
    if any(i >= len(files) for i in order) or len(order) > len(files): return False
    if D.seq_digest(files, order) != seq[:16]: return False
    return True if D.seq_encode(order) == seq[16:] else None

def run(ctx, spec):
    p = spec['old']; db = spec['db'] and not p.get('src')
    if db: p = fsdb.rooted(ctx, p)
    ob = gen.realize(p)
    nb = gen.realize(dict(p, ver='9', files=p['files'][:3]))
    if db:
        fs = fsdb.get(ctx); w = fs.w
    else: w = ctx.w('asan')
    labels = [spec['k'], 'db' if db else 'file', 'type%d' % spec['t']]
    # the identifier the library gives, in three ways
    r, path, sq = make(ctx, w, ob, None if spec.get('one') and not spec['t'] else nb, dict(type=spec['t'], seq=1) if spec['t'] else dict(seq=1))
    expect(r.rc == OK, 'drpm_make returns %s', err(r.rc))
    b = open(path, 'rb').read(); d = D.parse(b)
    o = R.Rpm(ob)
    ident = open(sq, 'rb').read()
    expect(ident == d.src_nevr + b'-' + d.sequence.hex().encode() + b'\n', 'the sequence file holds %r', ident[:200])
    expect(w.call('read', 0, path).rc == OK, 'the delta cannot be read')
    n_, s_ = [w.call('get', 0, 3, t, 0).extra[0] for t in (5, 4)]
    w.call('destroy', 0)
    expect(bytes.fromhex(n_[1:]) + b'-' + bytes.fromhex(s_[1:]) + b'\n' == ident, 'the identifier read from the delta is not the one in the sequence file')
    expect(d.src_nevr == o.nevr(), 'the identifier names %r', d.src_nevr)
    name, seq = d.src_nevr, d.sequence
    if db: fs.reset(); fs.install(ob)
    def ask(pkg, name, seq, from_file):
        i = (name + b'-' + seq.hex().encode()).decode('utf-8', 'surrogateescape')
        if b'\n' in name or b'\t' in name: raise Skip('a name the driver cannot pass')
        return w.call('checkseq', ctx.put('o.rpm', pkg) if from_file else None, i, 0).rc
    v = verdict(o, name, seq, True)
    expect(v is True, 'the identifier does not match the package by the independent check (%r)', v)
    rc = ask(ob, name, seq, True)
    expect(rc == OK, 'the identifier is not accepted for its package file: %s', err(rc))
    if db and not spec['t']:
        rc = ask(ob, name, seq, False)
        expect(rc == OK, 'the identifier is not accepted for the installed package: %s', err(rc))
    # altered identifier or package
    k = spec['k']; pkg = ob; files = D.header_files(o.hdr)
    if k == 'meta':
        q = changed(spec, p)
        pkg = gen.realize(q)
        if db: fs.reset(); fs.install(pkg)
        labels.append('meta:' + spec['m'])
    elif k == 'hex':
        x = bytearray(seq.hex().encode())
        for at, f in spec['at']:
            at = at % len(x); x[at] = b'0123456789abcdef'[int(chr(x[at]), 16) ^ f]
        seq = bytes.fromhex(x.decode())
    elif k == 'nevr':
        m = spec['m']; ev = name[len(o.hdr.get(1000)) + 1:]; pre = o.hdr.get(1000) + b'-'
        bare = ev.split(b':')[-1]
        name = {'char': name[:-1] + (b'2' if name[-1:] != b'2' else b'3'), 'prefix': b'x' + name, 'suffix': name + b'0', 'noepoch': pre + bare, 'epoch0': pre + b'0:' + bare,
                'epoch': pre + b'8:' + bare, 'empty': b'', 'dash': name + b'-', 'nodash': name.replace(b'-', b''), 'rel': name.rpartition(b'-')[0]}[m]
    elif k == 'cut': seq = seq[:-spec['n']]
    elif k == 'tail': seq += bytes.fromhex(spec['x'])
    elif k in ('swap', 'free'):
        if spec['t']: raise Skip('rpm-only identifiers have no order')
        order = D.seq_decode(seq[16:])
        if k == 'swap':
            if len(order) < 2: raise Skip('nothing to swap')
            i, j = spec['i'] % len(order), spec['j'] % len(order)
            new = list(order); new[i], new[j] = new[j], new[i]
            seq = (D.seq_digest(files, new) if spec['fix'] else seq[:16]) + D.seq_encode(new)
        else:
            r_ = random.Random(spec['perm'])
            # only files whose digest is present can be named
            ok = [i for i, f in enumerate(files) if not (f['mode'] & 0o170000 == 0o100000 and f['size'] and not f['digest'])]
            if spec['runs']:
                cutp = sorted(r_.sample(range(len(ok) + 1), min(len(ok) + 1, 2 * spec['runs'])))
                parts = [ok[a:b2] for a, b2 in zip([0] + cutp, cutp + [len(ok)])]
                if spec['runs'] == 2: r_.shuffle(parts)
                new = [i for a in parts for i in a]
            else:
                new = list(ok); r_.shuffle(new)
            new = new[:spec['n']]
            seq = D.seq_digest(files, new) + D.seq_encode(new)
    if db and k == 'meta': name_changed = R.Rpm(pkg).nevr() != name
    po = R.Rpm(pkg)
    for from_file in ([True, False] if db else [True]):
        v = verdict(po, name, seq, from_file)
        rc = ask(pkg, name, seq, from_file)
        where = 'the package file' if from_file else 'the installed package'
        if v is True: expect(rc == OK, 'an identifier that matches %s is rejected: %s (%s)', where, err(rc), k)
        elif v is False: expect(rc != OK, 'an identifier that does not match %s is accepted (%s)', where, k)
        labels.append('accept' if v else 'reject' if v is False else 'open')
    if len(files) >= 2: labels.append('files')
    return labels

def nontrivial(labels):
    return 'files' in labels
