"""Identity deltas restore the package, also from re-signed copies."""
from hypothesis import strategies as st
from kit import gen, corecases, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C03'
LEVEL = 'exploration'
VARIANTS = ['asan', 'fast']
RULE = ('an identity delta was made and applied; non-trivial when the package has files and was rebuilt from a copy with a different lead or signature, '
        'or when the payload is compressed; distinct by the generated case')
ASSUMPTIONS = ['re-signed copies keep the MD5 of header and payload in the signature, because rpm-only deltas identify their source by it']

@st.composite
def resign(draw):
    r = {}
    if draw(st.booleans()): r['lead'] = draw(st.sampled_from(['other-1-1', '', 'q' * 65]))
    if draw(st.booleans()): r['gpg'] = draw(st.integers(1, 600))
    if draw(st.booleans()): r['rsv'] = draw(st.sampled_from([1, 7, 64, 4000]))
    if draw(st.booleans()): r['sha'] = 1
    return r

def strategy(tier):
    return st.fixed_dictionaries(dict(pkg=gen.package(big=tier == 'thorough', maxfiles=5), opt=gen.options((0, 1)), which=st.sampled_from(['old', 'new']),
                                      resign=resign()))

def examples(tier):
    return 6000 if tier == 'quick' else 80000

def directed(tier):
    opts = corecases.cycle_options((0, 1))
    rs = [{}, dict(lead='other-1-1'), dict(gpg=100), dict(rsv=1), dict(sha=1), dict(lead='', gpg=7, rsv=4000, sha=1), dict(gpg=600, rsv=64)]
    for i, (old, new, big) in enumerate(corecases.pairs(tier)):
        yield dict(pkg=new, opt=next(opts), which=('old', 'new')[i // 2 % 2], resign=rs[i // 3 % len(rs)], var='fast' if big else 'asan')
    for o in corecases.option_grid((0, 1)):
        yield dict(pkg=corecases.P([corecases.reg('a', [['r', 1, 0, 300], ['t', 1, 0, 300]])], ver='1.0'), opt=o, which='old', resign=rs[2], var='fast')

def resigned(b, r):
    """a copy of package b with another lead and signature header (same MD5 tag)"""
    p = R.Rpm(b)
    ent = []
    for tag, ty, off, cnt in p.sig.ents:
        if tag == 62 or (tag == 1008) or (r.get('sha') and tag == 269):
            continue
        v = p.sig.get(tag)
        ent.append((tag, ty, v))
    if r.get('gpg'): ent.append((1005, R.BIN, gen.chunk(['r', 77, 0, r['gpg']])))
    if r.get('rsv'): ent.append((1008, R.BIN, b'\0' * r['rsv']))
    s = R.pack_header(ent, 62)
    s += b'\0' * (-len(s) % 8)
    lead = b[:96]
    if 'lead' in r:
        lead = lead[:10] + r['lead'].encode()[:65].ljust(66, b'\0') + lead[76:]
    return lead + s + p.body

def run(ctx, spec):
    w = ctx.w(spec.get('var', 'asan'))
    opt = spec['opt']
    b = gen.realize(spec['pkg'])
    r, pd, _ = make(ctx, w, b if spec['which'] == 'old' else None, b if spec['which'] == 'new' else None, opt)
    expect(r.rc == 0, 'drpm_make of an identity delta failed: %s', err(r.rc))
    d = ctx.get('d.drpm')
    r = apply(ctx, w, b, d)
    expect(r.rc == 0, 'drpm_apply of the identity delta to its package failed: %s', err(r.rc))
    same_bytes(ctx.get('out.rpm'), b, 'the rebuilt package')
    labels = ['type:%d' % opt.get('type', 0), 'payload:' + C.NAMES[spec['pkg']['z'][0]]]
    c = resigned(b, spec['resign'])
    if c != b:
        r = apply(ctx, w, c, d)
        expect(r.rc == 0, 'drpm_apply of the identity delta to a re-signed copy failed: %s', err(r.rc))
        same_bytes(ctx.get('out.rpm'), b, 'the package rebuilt from a re-signed copy')
        labels.append('resigned')
    if spec['pkg']['files']: labels.append('files')
    return labels

def nontrivial(labels):
    return 'files' in labels and ('resigned' in labels or 'payload:none' not in labels)
