"""Patch information only removes unusable files from the source."""
import hashlib, stat
from hypothesis import strategies as st
from kit import fuzz, gen, rpml, rpmfmt as R, delta as D, comp as C
from kit.common import *
from .c09 import raw_mutate, rawmut

ID = 'C20'
LEVEL = 'exploration'
VARIANTS = ['fuzz', 'asan']
RULE = ('a standard delta was made with a print and a patch list and its sequence, source archive length and rebuilt package were compared with the reference, or a damaged or '
        'foreign list was refused; non-trivial when the lists exclude a file, name the package\'s files, or are damaged; distinct by the generated case')
ASSUMPTIONS = ['the rpm list format is the one the reader documents by its field order (no other description is available offline); digests in it are MD5']

# per file: state in the print, state in the list
PR = ['absent', 'plain', 'unpatched', 'unpatched', 'both']
LI = ['same', 'same', 'other', 'tail', 'absent', 'late', 'empty', 'mode0']

@st.composite
def strategy_(draw, tier):
    old = draw(gen.package(gen.MID, maxfiles=7, nofiles=False))
    if draw(st.sampled_from([1, 1, 1, 1, 0])): old['algo'] = 1
    else: old.pop('algo', None)
    new = draw(st.one_of(gen.mutated(old, gen.MID), st.just(old)))
    n = len(old['files'])
    s = dict(old=old, new=new, opt=draw(gen.options((0,))),
             fs=draw(st.lists(st.tuples(st.sampled_from(PR), st.sampled_from(LI)).map(list), min_size=n, max_size=n)),
             print=draw(st.sampled_from(['rpml', 'rpml', 'rpm'])), share=draw(st.booleans()), own=draw(st.sampled_from(['none', 'short', 'user', 'eight', 'long'])),
             dot=draw(st.booleans()), np=draw(st.sampled_from([1, 1, 2, 5])), xtra=draw(st.sampled_from([0, 0, 1, 20])))
    e = draw(st.sampled_from([0, 0, 1, 2, 3]))
    if e: s['ext'] = e
    a = draw(st.sampled_from([None] * 6 + ['old', 'new']))
    if a: s['alone'] = a
    x = draw(st.sampled_from([None, None, None, None, 'cut', 'cut', 'nevr', 'magic', 'gone', 'mutate', 'mutate', 'swap']))
    if x:
        s['dam'] = x; s['who'] = draw(st.sampled_from(['print', 'list']))
        if x == 'cut': s['at'] = draw(st.floats(0, 1, exclude_max=True))
        if x == 'mutate': s['m'] = draw(st.lists(rawmut(), min_size=1, max_size=3))
        if x == 'nevr': s['x'] = draw(st.sampled_from(['name', 'ver', 'rel', 'epoch', 'empty']))
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 5000 if tier == 'quick' else 80000

def directed(tier):
    yield from fuzz.cases('C20', tier)
    f = lambda n, **k: dict(d=0, n=n, k='reg', c=[['r', 1, n * 50, 900 + n]], **k)
    old = dict(files=[f(0), dict(d=0, n=1, k='lnk', l='x'), f(2), f(3, f=1), dict(d=1, n=4, k='dir'), dict(d=1, n=5, k='chr', r=[5, 1])], z=[C.GZIP, 9], algo=1)
    base = dict(old=old, new=dict(old, ver='1.1'), opt={}, print='rpml', share=True, own='short', dot=True, np=1, xtra=0)
    for pr in ('absent', 'plain', 'unpatched', 'both'):
        for li in ('same', 'other', 'absent', 'late', 'empty', 'mode0'):
            for how in ('rpml', 'rpm'):
                for e in (0, 1, 2, 3): yield dict(base, print=how, fs=[[pr, li]] * 6, ext=e)
                yield dict(base, print=how, fs=[[pr, li]] + [['absent', 'same']] * 5)
                yield dict(base, print=how, fs=[['unpatched', 'same']] * 2 + [[pr, li]] + [['absent', 'absent']] * 3)
    fs = [['unpatched', 'same'], ['plain', 'other'], ['unpatched', 'other'], ['absent', 'absent'], ['both', 'same'], ['unpatched', 'late']]
    for own in ('none', 'short', 'user', 'eight', 'long'):
        for share in (True, False):
            for x in (0, 20, 60, 300): yield dict(base, fs=fs, own=own, share=share, xtra=x)
    # every size of the size field with every form of the owners; digests that differ in one bit; names that begin with a dot
    for own in ('none', 'short', 'user', 'eight', 'long'):
        for e in (1, 250, 256, 70000):
            o = dict(old, files=[dict(d=0, n=i, k='reg', c=[['r', 1, e, 900 + i]]) for i in range(4)])
            for li in ('same', 'tail'): yield dict(base, old=o, new=dict(o, ver='1.1'), own=own, fs=[['unpatched', li], ['unpatched', 'same']], xtra=0)
        yield dict(base, own=own, fs=fs, xtra=28)
    o = dict(old, files=[dict(d=4, n=n, k='reg', c=[['r', 1, 300, 950 + i]]) for i, n in enumerate(['.h', '..g', '.', '...', 'a', '.a', './b', 'hh']) if n not in ('.', './b')])
    for dot in (True, False):
        for share in (True, False):
            for i in range(6):
                for li in ('other', 'same'): yield dict(base, old=o, new=dict(o, ver='1.1'), dot=dot, share=share, fs=[['unpatched', li if j == i else 'same'] for j in range(6)])
    for who in ('print', 'list'):
        for i in range(0, 200): yield dict(base, fs=fs, dam='cut', who=who, at=i / 200)
        for x in ('name', 'ver', 'rel', 'epoch', 'empty'): yield dict(base, fs=fs, dam='nevr', who=who, x=x)
        for d in ('magic', 'gone', 'swap'): yield dict(base, fs=fs, dam=d, who=who)
        for how in ('rpml', 'rpm'):
            for i in range(0, 100, 3): yield dict(base, print=how, fs=fs, dam='mutate', who=who, m=[['x', i / 100, 255]]); yield dict(base, print=how, fs=fs, dam='mutate', who=who, m=[['w', i / 100, 0xffffffff]])

def digest_of(f):
    return hashlib.md5(f.content if stat.S_ISREG(f.mode) else f.linkto).digest()

def run(ctx, spec):
    if spec.get('k') in ('fz', 'fz1'): return fuzz.run(spec)
    w = ctx.w('asan')
    alone = spec.get('alone')
    src = spec['new'] if alone == 'new' else spec['old']
    ob = gen.realize(spec['old']) if alone != 'new' else None
    nb = gen.realize(spec['new']) if alone != 'old' else None
    sb = ob if ob is not None else nb
    files = gen.files_of(src)
    S = R.Rpm(sb)
    nevr = S.nevr()
    h = S.hdr
    name = h.get(1000); evr = nevr[len(name) + 1:]
    st_ = spec['fs'] or [['absent', 'absent']]
    ent = []; lent = []; late = []; unp = []
    pflags = {}
    excl = set(); labels = []
    rel = lambda f: f.path.lstrip(b'/')
    for i, f in enumerate(files):
        pr, li = st_[i % len(st_)]
        n = rel(f)
        dn = (b'./' if spec['dot'] else b'') + n
        rd = f.rdev[0] << 8 | f.rdev[1]
        dg = digest_of(f)
        size = len(f.content) if stat.S_ISREG(f.mode) else len(f.linkto)
        if pr in ('unpatched', 'both'): unp.append(n); pflags[i] = 1
        if pr in ('plain', 'both'): ent.append((dn, f.mode, rd, size, b'\1' * 16))
        rec = None
        if li in ('same', 'late'): rec = dg if size else b'\0' * 16
        elif li == 'other': rec = b'\7' * 16
        elif li == 'tail': rec = dg[:15] + bytes([dg[15] ^ 1])
        elif li in ('empty', 'mode0'): rec = b'\0' * 16
        if li != 'absent':
            e = (dn, f.mode if li != 'mode0' else 0, rd, 0 if li == 'empty' else (size or (1 if li in ('other', 'tail') else 0)), rec)
            (late if li == 'late' else lent).append(e)
        if stat.S_ISREG(f.mode) and pr in ('unpatched', 'both'):
            hd = D.header_files(h)[i]['digest']
            if rec is None or rec.hex().encode() != hd:
                excl.add(n)
    for k in range(spec['xtra']):
        x = b'./zz/other%d' % (k // 2)
        x = (x + b'y' * (k * 40 % 700 if k < 20 else 250 + k % 10 - len(x)), 0o100644, 0, [0, 1, 255, 256, 65535, 65536, 1 << 24][k % 7], b'\3' * 16)
        ent.insert(0, x); lent.append(x)
    lent += late
    # entries whose names begin like, or are the beginning of, the names of the package's files
    x = spec.get('ext', 0)
    if x:
        for l in (lent, ent):
            for e in list(l):
                more = (e[0] + b'.x', 0o100644, 0, 7, b'\6' * 16); less = (e[0][:-1], 0o100644, 0, 7, b'\6' * 16)
                new = ([more] if x & 1 else []) + ([less] if x & 2 and len(e[0].lstrip(b'./')) > 1 else [])
                l[:0] = new
        known = {rel(f) for f in files}
        lent = [e for i, e in enumerate(lent) if e[0][2 if spec['dot'] else 0:] not in known or e[4] != b'\6' * 16]
        ent = [e for i, e in enumerate(ent) if e[0][2 if spec['dot'] else 0:] not in known or e[4] != b'\6' * 16]
        unp = [v for u in unp for v in ([u + b'.x', u] if u + b'.x' not in known else [u])]
    pats = [b'patch-%d' % i for i in range(spec['np'])]
    if spec['print'] == 'rpm':
        p = {k: v for k, v in src.items()}
        p['files'] = [dict(f, f=(f.get('f', 0) | 1 << 10 if i in pflags else f.get('f', 0) & ~(1 << 10))) for i, f in enumerate(p['files'])]
        pb = gen.realize(p)
    else:
        pb = rpml.write(name, evr, ent, unp, pats if unp or spec['np'] > 1 else (), share=spec['share'], owners=spec['own'])
    lb = rpml.write(name, evr, lent, (b'not/there',) if spec['np'] == 2 else (), pats if spec['np'] > 1 else (), share=spec['share'], owners=spec['own'])
    dam = spec.get('dam'); must_fail = False; any_rc = False
    if dam:
        which = spec['who']
        cur = pb if which == 'print' else lb
        isrpm = which == 'print' and spec['print'] == 'rpm'
        if dam == 'cut':
            cur = cur[:int(len(cur) * spec['at'])]; must_fail = True
            if isrpm: any_rc = True                  # the payload of the print is not read
        elif dam == 'magic': cur = b'RPMM' + cur[4:]; must_fail = True
        elif dam == 'mutate': cur = raw_mutate(cur, spec['m']); any_rc = True
        elif dam == 'nevr':
            if isrpm: any_rc = True
            else:
                must_fail = True
                x = spec['x']
                n2, e2 = {'name': (name + b'x', evr), 'ver': (name, b'9' + evr), 'rel': (name, evr + b'1'), 'epoch': (name, (b'7:' + evr.split(b':')[-1])), 'empty': (b'', b'')}[x]
                cur = rpml.write(n2, e2, ent if which == 'print' else lent, unp if which == 'print' else (), pats if which == 'print' else (), share=spec['share'], owners=spec['own'])
        elif dam == 'gone': must_fail = True
        elif dam == 'swap':
            if spec['print'] == 'rpm': must_fail = True; pb, lb = lb, pb; cur = None     # the patch list cannot be a package
            else: any_rc = True; pb, lb = lb, pb; cur = None
        if cur is not None:
            if which == 'print': pb = cur
            else: lb = cur
    pp = ctx.put('print', pb); pl = ctx.put('list', lb)
    if dam == 'gone': ctx.rm('print' if spec['who'] == 'print' else 'list')
    po = ctx.put('old.rpm', ob) if ob is not None else None
    pn = ctx.put('new.rpm', nb) if nb is not None else None
    ctx.rm('d.drpm', 'seqfile')
    opt = dict(spec['opt']); opt.pop('null', None)
    sl = gen.apply_options(w, opt, 0, ctx.path('seqfile'))
    expect(w.call('optpat', sl, pp, pl).rc == 0, 'adding patches is refused')
    r = w.call('make', po, pn, ctx.path('d.drpm'), sl)
    r0 = w.call('make', po, pn, ctx.path('d2.drpm'), sl) if dam == 'mutate' else r
    gen.drop_options(w, sl)
    expect(r.fd == 0, 'drpm_make with patch information leaves %d descriptors open', r.fd)
    expect(r0.rc == r.rc, 'repeating drpm_make with the same lists returns %s instead of %s', err(r0.rc), err(r.rc))
    if dam == 'mutate' and r.rc:
        expect(r0.mem == 0, 'drpm_make refusing a damaged list keeps %d bytes', r0.mem)
    labels += ['print:' + spec['print'], 'excluded:%d' % min(len(excl), 3), 'dam:%s' % dam]
    if excl or dam or spec['xtra']: labels.append('nt')
    if must_fail and not any_rc:
        expect(r.rc != 0, 'drpm_make accepts a %s which is damaged or for another package (%s)', spec['who'], dam)
        return labels + ['refused']
    if not any_rc:
        expect(r.rc == 0, 'drpm_make with well-formed patch information failed: %s', err(r.rc))
    if r.rc: return labels + ['refused']
    b = ctx.get('d.drpm')
    if not any_rc:
        d = D.parse(b)
        ext, order, marks = D.old_cpio(S, exclude=excl)
        plain, full, _ = D.old_cpio(S)
        want = D.seq_digest(D.header_files(h), order) + D.seq_encode(order)
        if d.sequence != want:
            got = D.seq_decode(d.sequence[16:])
            hf = D.header_files(h)
            raise Violation('the delta relies on files %r, expected %r (unpatched with other content: %r)' % (
                [hf[i]['name'] for i in got if i < len(hf)], [hf[i]['name'] for i in order], sorted(excl)))
        expect(d.ext_data_len == len(ext), 'source archive length %d, expected %d', d.ext_data_len, len(ext))
        if len(order) < len(full): labels.append('effective')
    ra = apply(ctx, w, sb, None)
    expect(ra.rc == 0, 'applying the delta failed: %s', err(ra.rc))
    same_bytes(ctx.get('out.rpm'), nb if nb is not None else ob, 'the rebuilt package')
    return labels

def nontrivial(labels):
    return 'nt' in labels
