"""A successful application never yields anything but the recorded target; wrong sources are errors."""
import hashlib
from hypothesis import strategies as st
from kit import gen, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C05'
LEVEL = 'exploration'
VARIANTS = ['asan', 'tiny']
RULE = ('a valid delta was paired with another or damaged source, or was itself damaged, and applied; non-trivial when the pairing is a near miss: same source '
        'name (payload or file metadata differ), or the damage lies behind all checks of names; distinct by the generated case')
ASSUMPTIONS = ['MD5 collisions do not arise by chance']

FLD = ['tgt_md5', 'leadsig', 'int_data', 'int_copies', 'ext_copies', 'sequence', 'src_nevr', 'tgt_comp_level', 'tgt_comp_code', 'tgt_size', 'payload_fmt_off', 'ext_data_len', 'add', 'tgt_header_len', 'offadj', 'header']

@st.composite
def strategy_(draw, tier):
    a, b = draw(gen.pair(gen.MID, maxfiles=4))
    opt = draw(gen.options((0, 0, 1)))
    s = dict(old=a, new=b, opt=opt, zero=draw(st.sampled_from([0, 0, 0, 1])), var=draw(st.sampled_from(['asan', 'asan', 'tiny'])))
    k = draw(st.sampled_from(['other', 'meta', 'meta', 'payload', 'payload', 'bytes', 'field', 'field', 'dbytes', 'nevr']))
    s['k'] = k
    if k == 'other':
        s['x'] = draw(gen.package(gen.MID, maxfiles=3)); s['samename'] = draw(st.booleans())
    elif k == 'meta':
        s['i'] = draw(st.integers(0, 3))
        s['m'] = draw(st.sampled_from(['mode', 'size', 'digest', 'link', 'rdev', 'name', 'epoch', 'ver', 'rel', 'drop', 'order', 'kind']))
    elif k in ('payload', 'bytes', 'dbytes'):
        s['at'] = draw(st.lists(st.tuples(st.floats(0, 1, exclude_max=True), st.integers(1, 255)).map(list), min_size=1, max_size=3))
    elif k == 'nevr': s['x'] = draw(st.sampled_from(['append', 'cut', 'name', 'epoch']))
    elif k == 'field':
        s['f'] = draw(st.sampled_from(FLD)); s['at'] = [draw(st.floats(0, 1, exclude_max=True)), draw(st.sampled_from([1, 2, 128, 255, 3, 16]))]
    return s

def strategy(tier):
    return strategy_(tier)

def directed(tier):
    f = lambda n, k='r', sz=2000: dict(d=0, n=n, k='reg', c=[[k, 1, n * 50, sz + n]])
    for z in ([C.GZIP, 9], [C.XZ, 1]) if tier == 'quick' else ([C.GZIP, 9], [C.XZ, 1], [C.BZIP2, 9], [C.ZSTD, 3], [C.NONE, 0]):
        old = dict(files=[f(0), f(2, 't', 9000), dict(d=0, n=1, k='lnk', l='x')], z=z, ver='1.0')
        new = dict(old, files=[f(0), f(2, 't', 8000), f(3)], ver='1.1')
        for opt in (dict(ver=1), dict(ver=2), dict(ver=3), dict(type=1), dict(type=1, ac=[C.BZIP2, 9])):
            for zero in (0, 1):
                b = dict(old=old, new=new, opt=opt, zero=zero, var='asan')
                for fld in FLD:
                    for i in range(0, 100, 10):
                        for x in (1, 2, 128): yield dict(b, k='field', f=fld, at=[i / 100, x])
                for m in ('mode', 'size', 'digest', 'link', 'name', 'epoch', 'ver', 'rel', 'drop', 'order', 'kind'):
                    for i in range(4): yield dict(b, k='meta', m=m, i=i)
                for x in ('append', 'cut', 'name', 'epoch'): yield dict(b, k='nevr', x=x)
                for i in range(0, 100, 5): yield dict(b, k='payload', at=[[i / 100, 1]]); yield dict(b, k='dbytes', at=[[i / 100, 1]])

def examples(tier):
    return 6000 if tier == 'quick' else 120000

def flip(b, at):
    b = bytearray(b)
    for p, x in at:
        if b:
            b[int(p * len(b))] ^= x
    return bytes(b)

def wrong_meta(spec, old):
    """old package with one metadata change; payload archive unchanged"""
    p = dict(spec['old'], files=[dict(f) for f in spec['old']['files']])
    m = spec['m']
    if m == 'epoch': p['epoch'] = (p.get('epoch') or 0) + 1
    elif m == 'ver': p['ver'] = p['ver'] + '0'
    elif m == 'rel': p['rel'] = '2'
    elif m == 'order':
        p['files'] = p['files'][::-1]
    elif p['files']:
        i = spec['i'] % len(p['files']); f = p['files'][i]
        if m == 'mode': f['m'] = gen.KINDS[f['k']] ^ 0o111
        elif m == 'size' and 'c' in f: f['c'] = f['c'] + [['x', '41']]
        elif m == 'digest' and 'c' in f and gen.content(f['c']):
            c = gen.content(f['c']); f['c'] = [['x', (bytes([c[0] ^ 1]) + c[1:]).hex()]]
        elif m == 'link' and 'l' in f: f['l'] = f['l'] + 'y'
        elif m == 'rdev' and 'r' in f: f['r'] = [f['r'][0] ^ 1, f['r'][1]]
        elif m == 'name': f['n'] = (f['n'] + 1) % len(gen.NAMES)
        elif m == 'kind': f['k'] = 'fifo' if f['k'] != 'fifo' else 'dir'
        elif m == 'drop': del p['files'][i]
    return gen.realize(p)

def damage_field(d, f, at):
    p, x = at
    v = getattr(d, f)
    pos = lambda n: int(p * n)
    if isinstance(v, bytes):
        if not v: return False
        setattr(d, f, flip(v, [[p, x]]))
    elif isinstance(v, int):
        setattr(d, f, (v ^ x) & (255 if f.startswith('tgt_comp') else 0xffffffff))
    elif isinstance(v, (list, tuple)):
        if not v: return False
        v = [list(e) for e in v]; i = pos(len(v)); j = x & 1
        v[i][j] = v[i][j] ^ (x >> 1 or 1)
        if f != 'int_copies' and j == 1: v[i][j] &= 0xffffffff
        setattr(d, f, [tuple(e) for e in v])
    else:
        return False
    return True

def run(ctx, spec):
    w = ctx.w(spec.get('var', 'asan'))
    opt = spec['opt']
    old = gen.realize(spec['old']); new = gen.realize(spec['new'])
    r, pd, _ = make(ctx, w, old, new, opt)
    expect(r.rc == 0, 'drpm_make failed: %s', err(r.rc))
    b = ctx.get('d.drpm')
    t = R.Rpm(new)
    d = D.parse(b)
    if spec['zero']:
        d.tgt_md5 = b'\0' * 16
        b = D.write(d, new_rpm=t)
    src = old
    k = spec['k']
    labels = ['kind:' + k, 'type:%d' % d.type]
    must_fail = False
    if k == 'other':
        x = dict(spec['x'])
        if spec['samename']:
            for q in ('ver', 'epoch', 'name'):
                x.pop(q, None)
                if q in spec['old']: x[q] = spec['old'][q]
            labels.append('near')
        src = gen.realize(x)
    elif k == 'meta':
        src = wrong_meta(spec, old)
        # keep the payload of the package the delta was made from
        o = R.Rpm(old); s = R.Rpm(src)
        if spec['i'] & 1:
            src = s.leadsig + s.hdr.raw + o.payload
        labels.append('near'); labels.append('meta:' + spec['m'])
    elif k == 'payload':
        o = R.Rpm(old)
        raw = flip(o.cpio(), spec['at'])
        src = o.leadsig + o.hdr.raw + C.compress(spec['old']['z'][0], spec['old']['z'][1], raw)
        labels.append('near')
    elif k == 'bytes':
        src = flip(old, spec['at'])
    elif k == 'nevr':
        # the delta is for a package whose identification continues, or is continued by, that of the source
        n = d.src_nevr; x = spec['x']
        d.src_nevr = {'append': n + b'0', 'cut': n[:-1], 'name': b'x' + n, 'epoch': n.replace(b'-', b'-7:', 1)}[x]
        b = D.write(d, new_rpm=t); must_fail = True; labels.append('near')
    elif k == 'dbytes':
        b = flip(b, spec['at'])
    elif k == 'field':
        f = spec['f']
        if d.version == 1 and f in ('tgt_comp_level', 'tgt_comp_code', 'tgt_size') or d.version < 3 and f in ('tgt_header_len', 'offadj'):
            raise Skip('field-not-stored')
        if f == 'header':
            if d.type: raise Skip('field-not-stored')
            hb = D.write(d, new_rpm=t)
            o = R.Rpm(hb); i = o.hdr.start + int(spec['at'][0] * len(o.hdr.raw))
            b = hb[:i] + bytes([hb[i] ^ spec['at'][1]]) + hb[i + 1:]
        else:
            if not damage_field(d, f, spec['at']):
                raise Skip('empty-field')
            try:
                b = D.write(d, new_rpm=t)
            except Exception:
                raise Skip('unencodable')
        labels += ['near', 'field:' + f]
        if f == 'src_nevr': must_fail = True
        elif f == 'sequence' and d.type: must_fail = R.Rpm(old).sigmd5() != d.sequence
        elif f == 'sequence':
            fs = D.header_files(R.Rpm(old).hdr)
            try: must_fail = D.seq_digest(fs, D.seq_decode(d.sequence[16:])) != d.sequence[:16]
            except Exception: pass
    if k in ('other', 'meta', 'payload', 'bytes') and src != old:
        # is it a wrong source by the identification the delta carries?
        try:
            s = R.Rpm(src)
            if s.nevr() != d.src_nevr: must_fail = True
            elif d.type: must_fail = s.sigmd5() != d.sequence
            else:
                fs = D.header_files(s.hdr); o = D.seq_decode(d.sequence[16:])
                must_fail = any(i >= len(fs) for i in o) or D.seq_digest(fs, o) != d.sequence[:16]
        except Exception:
            must_fail = False
    r = apply(ctx, w, src, b)
    if r.rc == 0:
        expect(not must_fail, 'application to a wrong source package reports success (%s)', k)
        out = ctx.get('out.rpm')
        if out != new:
            try:
                p = D.parse(b)
            except Exception as e:
                raise Violation('application of a damaged delta that is not well-formed (%s) reports success with a different result' % e)
            if p.tgt_md5 != b'\0' * 16:
                expect(hashlib.md5(out).digest() == p.tgt_md5, 'application reports success but the written file does not have the recorded checksum')
            else:
                o = None
                try:
                    o = R.Rpm(out); m = o.sigmd5()
                except Exception:
                    m = None
                if m is not None:
                    expect(hashlib.md5(o.body).digest() == m, 'application reports success but header and payload do not have the checksum of the recorded signature')
        labels.append('success')
    else:
        labels.append('error:' + err(r.rc))
    if must_fail: labels.append('wrong-source')
    return labels

def nontrivial(labels):
    return 'near' in labels
