"""Created deltas follow the format and describe the new package (independent decoder and applier)."""
import hashlib
from hypothesis import strategies as st
from kit import gen, corecases, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C07'
LEVEL = 'exploration'
VARIANTS = ['asan', 'fast']
RULE = ('the delta decoded completely by the independent reader, every recorded field was compared with the two packages, and the independent applier rebuilt '
        'the new package using at least one copy and some internal data (or the delta is an identity one); distinct by the generated case')
ASSUMPTIONS = ['the independent reader, written from the deltarpm format, is the reference; it was cross-checked on the repository\'s own package pairs']

@st.composite
def strategy_(draw, big):
    a, b = draw(gen.pair(big=big))
    alone = draw(st.sampled_from([None] * 5 + ['old', 'new']))
    return dict(old=a, new=b, alone=alone, opt=draw(gen.options((0, 0, 1))))

def strategy(tier):
    return strategy_(tier == 'thorough')

def examples(tier):
    return 7000 if tier == 'quick' else 100000

def directed(tier):
    opts = corecases.cycle_options((0, 0, 1))
    for i, (old, new, big) in enumerate(corecases.pairs(tier)):
        yield dict(old=old, new=new, alone=None, opt=next(opts), var='fast' if big else 'asan')
        if i % 8 == 3: yield dict(old=old, new=new, alone=('old', 'new')[i // 8 % 2], opt=next(opts), var='fast')
    a = corecases.P([corecases.reg('a', [['r', 1, 0, 900], ['t', 1, 0, 900]]), corecases.reg('b', [['r', 2, 0, 300]], f=1)], ver='1.0')
    b = corecases.P([corecases.reg('a', [['r', 1, 0, 500], ['t', 2, 0, 77], ['m', 1, 500, 400, 50, 3], ['t', 1, 0, 900]]), corecases.reg('b', [['r', 2, 0, 310]], f=1)], ver='1.1')
    # file numbers of three to six octal digits, with skipped runs of every such length, in header order, backwards and shuffled
    for n, skip in ((600, [[100, 170], [200, 201]]), (4200, [[0, 4097]]), (5000, [[1, 4098], [4200, 4300]]), (9000, [[10, 11], [500, 8600]]), (34000, [[5, 32780], [33000, 33001]]), (70000, [[70, 65600]])):
        for o in (0, 1, 2):
            if o and n > 9000 and tier == 'quick': continue
            p = dict(bulk=[n, skip], z=[C.ZSTD, 1], ver='1.0')
            if o == 1: p['perm'] = [n - 1 - i for i in range(n)] if n < 1000 else [n - 1, n // 2, 0]
            if o == 2: p['order'] = 3
            yield dict(old=p, new=dict(p, ver='1.1'), alone=None, opt={}, var='fast')
    for o in corecases.option_grid((0, 1)):
        yield dict(old=a, new=b, alone=None, opt=o, var='fast')

def expected_offadj(marks):
    out = []; prev = 0; cum = 0
    for alt, orig in marks:
        diff = orig - alt
        if diff != cum:
            out.append((alt - prev, diff - cum))
            prev = alt; cum = diff
    return out

def run(ctx, spec):
    w = ctx.w(spec.get('var', 'asan'))
    opt = spec['opt']; alone = spec['alone']
    old = gen.realize(spec['old']) if alone != 'new' else None
    new = gen.realize(spec['new']) if alone != 'old' else None
    src = old if old is not None else new
    tgt = new if new is not None else old
    tspec = spec['old'] if alone == 'old' else spec['new']
    r, pd, _ = make(ctx, w, old, new, opt)
    expect(r.rc == 0, 'drpm_make failed: %s', err(r.rc))
    b = ctx.get('d.drpm')
    s = R.Rpm(src); t = R.Rpm(tgt)
    rpmonly = opt.get('type', 0)
    nodiff = rpmonly and alone
    try:
        d = D.parse(b)
    except Exception as e:
        raise Violation('the created delta does not decode: %s: %s' % (type(e).__name__, e))
    def eq(what, got, want):
        expect(got == want, 'recorded %s is %r, expected %r', what, trunc(got), trunc(want))
    eq('type', d.type, rpmonly)
    eq('version', d.version, opt.get('ver', 3) if not rpmonly else 3)
    dc = opt.get('dc')
    want_comp = (dc[0] if dc not in (None, 'rpm') else C.GZIP if nodiff else tspec['z'][0])
    eq('delta compression', d.comp, want_comp)
    eq('source name', d.src_nevr, s.nevr())
    eq('target name', d.tgt_nevr, t.nevr())
    eq('target checksum', d.tgt_md5, hashlib.md5(tgt).digest())
    if d.version >= 2:
        eq('target size', d.tgt_size, len(tgt))
        eq('target compression', d.tgt_comp_code, 0 if nodiff else D.COMP2CODE[tspec['z'][0]])
        eq('target level', d.tgt_comp_level, 0 if nodiff else tspec['z'][1])
        eq('compression parameters', d.comp_param, b'')
    eq('target lead and signature', d.leadsig, t.leadsig)
    labels = ['type:%d' % rpmonly, 'version:%d' % d.version, 'comp:' + C.NAMES[d.comp]]
    if rpmonly:
        eq('sequence', d.sequence, hashlib.md5(s.body).digest())
        eq('target header length', d.tgt_header_len, len(t.hdr.raw))
        eq('offset adjustments', d.offadj, [])
        if not nodiff:
            eq('external data length', d.ext_data_len, len(s.hdr.raw) + len(s.cpio()))
    else:
        ext, order, marks = D.old_cpio(s)
        eq('sequence', d.sequence, D.seq_digest(D.header_files(s.hdr), order) + D.seq_encode(order))
        eq('external data length', d.ext_data_len, len(ext))
        if d.version >= 3:
            eq('target header length', d.tgt_header_len, 0)
            eq('offset adjustments', d.offadj, expected_offadj(marks))
            if d.offadj: labels.append('offadj')
        if len(order) < len(D.header_files(s.hdr)): labels.append('skipped-files')
        eq('target header', d.header.raw, D.to_drpm_header(t.hdr.raw))
        eq('lead', b[:96], tgt[:96])
        o = d.outer
        eq('signature size', o.sig.get(1000), [len(o.body)])
        eq('signature checksum', o.sig.get(1004), hashlib.md5(o.body).digest())
        eq('signature tags', sorted(e[0] for e in o.sig.ents), [62, 1000, 1004])
        eq('payload format offset', d.payload_fmt_off, d.header.off(1124))
    if opt.get('noadd'): eq('add block', d.add, b'')
    if d.add:
        ac = opt.get('ac') or [C.BZIP2, 0]
        if ac[0] != C.NONE:
            eq('add block compression', C.detect(d.add), ac[0])
        try:
            add = C.decompress(d.add, ac[0])
        except Exception as e:
            raise Violation('the add block does not decompress: %s' % e)
        eq('add block length', len(add), sum(l for a, l in d.ext_copies))
        labels.append('addblock')
    if nodiff:
        expect(not d.int_copies and not d.ext_copies and not d.int_data and not d.add, 'an rpm-only identity delta contains instructions or data')
        eq('external data length', d.ext_data_len, 0)
    try:
        if d.add and (opt.get('ac') or [1])[0] == C.NONE and C.detect(d.add) != C.NONE:
            raise Skip('raw-add-block-looks-compressed')
        got = D.apply(b, src)
    except D.FormatError as e:
        raise Violation('independent application failed: %s' % e)
    same_bytes(got, tgt, 'the independently rebuilt package')
    if any(l for a, l in d.ext_copies): labels.append('copies')
    if any(l for n, l in d.int_copies): labels.append('data')
    if alone: labels.append('identity')
    return labels

def trunc(x):
    if isinstance(x, bytes) and len(x) > 80:
        return x[:80] + b'...'
    return x

def nontrivial(labels):
    return 'identity' in labels or ('copies' in labels and 'data' in labels)
