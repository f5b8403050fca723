"""Make options behave as a settable record of values."""
import os
from hypothesis import strategies as st
from kit import gen, rpml, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C13'
LEVEL = 'exploration'
VARIANTS = ['asan']
RULE = ('a history of option calls over three option objects was run, every return value was compared with the model, and the deltas made at the marked points with those made from '
        'fresh objects set to the model\'s values in a fixed order; non-trivial when a make with values that differ from the defaults took part; distinct by the generated case')
ASSUMPTIONS = ['that a freshly set option has the effect it names is checked on the decoded delta for type, version, compressions and levels, add block, sequence file and excluded files']

NS = 3
SEQS = ['s', 'seq-file', 'a-much-longer-name-for-the-sequence-file', 'no/such/dir', '']
COMPV = [0, 1, 2, 3, 4, 5, 6, 1, 2, 4, 7, 8, 255, 65535, 256, 257]
LEV = [0, 1, 5, 9, 3, 0, 10, 11, 100, 255, 65535, 256]

slot = st.integers(0, NS - 1)
def op():
    sl = st.one_of(slot, slot, slot, slot, slot, st.just(None))
    return st.one_of(
        st.tuples(st.just('type'), sl, st.sampled_from([0, 1, 1, 2, 3, 255, 256, 257, 65535])),
        st.tuples(st.just('ver'), sl, st.sampled_from([0, 1, 2, 3, 3, 4, 5, 255, 256, 257, 65535])),
        st.tuples(st.just('dcomp'), sl, st.sampled_from(COMPV), st.sampled_from(LEV)),
        st.tuples(st.just('acomp'), sl, st.sampled_from(COMPV), st.sampled_from(LEV)),
        st.tuples(st.just('fromrpm'), sl),
        st.tuples(st.just('noadd'), sl),
        st.tuples(st.just('seq'), sl, st.sampled_from([0, 1, 2, 0, 1, 2, 3, 4, None])),
        st.tuples(st.just('pat'), sl, st.sampled_from([0, 1, 2, 0, 1, 2, 3, 'n1', 'n2', 'nn'])),
        st.tuples(st.just('def'), sl),
        st.tuples(st.just('copy'), sl, sl),
        st.tuples(st.just('renew'), slot),
        st.tuples(st.just('make'), slot, st.sampled_from([0, 0, 0, 1, 2])),
        st.tuples(st.just('make'), slot, st.sampled_from([0, 0, 0, 1, 2]))).map(list)

@st.composite
def strategy_(draw, tier):
    return dict(pair=draw(st.sampled_from([0, 0, 1, 2])), ops=draw(st.lists(op(), min_size=1, max_size=14 if tier == 'quick' else 30)))

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 8000 if tier == 'quick' else 120000

def directed(tier):
    sets = [['type', 0, 1], ['ver', 0, 1], ['ver', 0, 2], ['dcomp', 0, 2, 5], ['dcomp', 0, 0, 0], ['acomp', 0, 1, 9], ['acomp', 0, 0, 0], ['fromrpm', 0], ['noadd', 0], ['seq', 0, 1], ['seq', 0, None], ['pat', 0, 0], ['def', 0]]
    for a in sets:
        yield dict(pair=0, ops=[a])
        yield dict(pair=0, ops=[a, ['copy', 1, 0], ['def', 0]])
        yield dict(pair=0, ops=[a, ['copy', 1, 0], ['renew', 0], ['make', 1, 0]])
        yield dict(pair=0, ops=[a, ['copy', 0, 0], ['make', 0, 0]])
        yield dict(pair=0, ops=[a, ['copy', 0, 1], ['make', 0, 0]])
        yield dict(pair=0, ops=[a, ['make', 0, 1], ['make', 0, 2], ['make', 0, 0]])
        for b in sets: yield dict(pair=1, ops=[a, b])
    for o in ('type', 'ver'):
        for v in list(range(0, 12)) + [255, 256, 257, 258, 259, 65535]: yield dict(pair=0, ops=[['ver', 0, 2], [o, 0, v]])
    for o in ('dcomp', 'acomp'):
        for c in list(range(0, 12)) + [255, 256, 257, 65535]:
            for l in (0, 1, 9, 10, 65535): yield dict(pair=0, ops=[[o, 0, 2, 7], [o, 0, c, l]])
    for i in range(4):
        for j in (0, 1, 2, 3, 4, None): yield dict(pair=0, ops=[['seq', 0, i], ['seq', 0, j], ['copy', 1, 0], ['seq', 0, (i + 1) % 4]])
        for j in (0, 1, 2, 3, 'n1', 'n2'): yield dict(pair=0, ops=[['pat', 0, i], ['pat', 0, j], ['copy', 1, 0], ['pat', 0, (i + 2) % 4]])

DEF = dict(type=0, ver=3, dc=None, ac=(2, 0), seq=None, pat=None)

def fixture(ctx, n):
    """old and new package paths and patch pairs of pair n"""
    key = 'c13-%d' % n
    if key in ctx.cache: return ctx.cache[key]
    f = lambda i, m=0: dict(d=0, n='f%d' % i, k='reg', c=[['t', i, 0, 700], ['r', i, m * 40, 500], ['m', i, 0, 900, 60, 1 + m]])
    z = [[C.GZIP, 9], [C.XZ, 2], [C.NONE, 0]][n]
    old = dict(files=[f(0), f(1), f(2), dict(d=1, n='l', k='lnk', l='x')], z=z, algo=1, ver='1.0')
    new = dict(files=[f(0), f(1, 1), f(3), f(2)], z=z, algo=1, ver='1.1')
    ob, nb = gen.realize(old), gen.realize(new)
    nevr = R.Rpm(ob).nevr(); evr = nevr[4:]
    ents = [(x.path[1:], x.mode, 0, len(x.content), b'\5' * 16) for x in gen.files_of(old) if x.content]
    def pat(name, e, unp):
        ctx.put('print-%d-%s' % (n, name), rpml.write(b'foo', e, ents, [ents[i][0] for i in unp], [b'p'] if unp else []))
        ctx.put('list-%d-%s' % (n, name), rpml.write(b'foo', e, ents))
        return ctx.path('print-%d-%s' % (n, name)), ctx.path('list-%d-%s' % (n, name))
    pats = [pat('a', evr, [0]), pat('b-with-a-longer-name', evr, [1, 2]), pat('c', evr, []), pat('d', b'9-9', [0])]
    r = ctx.cache[key] = (ctx.put('old%d.rpm' % n, ob), ctx.put('new%d.rpm' % n, nb), pats, R.Rpm(ob), z, {}, nevr)
    return r

def seqpath(ctx, i):
    return '' if i == 4 else ctx.path('sq/' + SEQS[i])

def domake(ctx, w, fx, sl, who):
    """returns (rc, delta bytes or None, {name: content} of the sequence directory)"""
    d = ctx.path('sq')
    os.makedirs(d, exist_ok=True)
    for x in os.listdir(d): os.unlink(os.path.join(d, x))
    ctx.rm('d.drpm')
    old, new = [(fx[0], fx[1]), (fx[0], None), (None, fx[1])][who]
    r = w.call('make', old, new, ctx.path('d.drpm'), sl)
    return r.rc, (ctx.get('d.drpm') if r.rc == 0 else None), {x: open(os.path.join(d, x), 'rb').read() for x in os.listdir(d)} if r.rc == 0 else None

def canonical(ctx, w, fx, n, m, who):
    key = (tuple(sorted(m.items(), key=lambda kv: kv[0])), who)
    if key in fx[5]: return fx[5][key]
    s = 9
    w.call('optnew', s)
    if m['type']: w.call('opttype', s, m['type'])
    w.call('optver', s, m['ver'])
    if m['dc']: w.call('optdcomp', s, *m['dc'])
    if m['ac']: w.call('optacomp', s, *m['ac'])
    else: w.call('optnoadd', s)
    if m['seq'] is not None: w.call('optseq', s, seqpath(ctx, m['seq']))
    if m['pat'] is not None: w.call('optpat', s, *fx[2][m['pat']])
    r = domake(ctx, w, fx, s, who)
    w.call('optfree', s)
    check_effect(ctx, fx, m, who, r)
    if m == DEF:
        rn = domake(ctx, w, fx, None, who)
        expect(rn == r, 'absent options give another result than fresh ones')
    fx[5][key] = r
    return r

def check_effect(ctx, fx, m, who, r):
    rc, b, sq = r
    if m['type'] and m['ver'] < 3:
        expect(rc == ARGS, 'an rpm-only delta of version %d is made: %s', m['ver'], err(rc)); return
    badseq = m['seq'] in (3, 4)
    badpat = m['pat'] == 3 and not m['type'] or (m['pat'] is not None and who == 2 and not m['type'])
    if badseq or badpat:
        expect(rc != 0, 'a sequence file that cannot be written or patches for another package are accepted'); return
    expect(rc == 0, 'drpm_make with valid options failed: %s', err(rc))
    d = D.parse(b)
    expect(d.type == m['type'], 'the delta has type %d', d.type)
    expect(d.version == m['ver'], 'the delta has version %d, requested %d', d.version, m['ver'])
    want = m['dc'][0] if m['dc'] else (C.GZIP if m['type'] and who else fx[4][0])
    expect(d.comp == want, 'the delta is compressed with %s, requested %s', C.NAMES[d.comp], C.NAMES[want])
    lvl = lambda c, l: 0 if c == C.LZIP else l
    if m['dc'] or who == 0:
        c, l = m['dc'] or fx[4]
        expect(C.compress(c, lvl(c, l), d.body) == d.body_stored, 'the delta is not stored as %s level %d stores it', C.NAMES[c], l)
    if not m['ac']: expect(not d.add, 'there is an add block although it was forbidden')
    elif who == 0:
        expect(d.add, 'there is no add block')
        if m['ac'][0]: expect(C.detect(d.add) == m['ac'][0], 'the add block is compressed with %s, requested %s', C.NAMES[C.detect(d.add)], C.NAMES[m['ac'][0]])
        c, l = m['ac']
        a = C.decompress(d.add, c)
        expect(C.compress(c, lvl(c, l), a) == d.add, 'the add block is not stored as %s level %d stores it', C.NAMES[c], l)
    if m['seq'] is None: expect(not sq, 'a sequence file was written')
    else: expect(sq == {SEQS[m['seq']]: d.src_nevr + b'-' + d.sequence.hex().encode() + b'\n'}, 'the sequence file has content %r', sq)
    if not m['type'] and who != 2:
        order = D.seq_decode(d.sequence[16:])
        skip = {None: (), 0: (0,), 1: (1, 2), 2: ()}[m['pat']]
        names = [D.header_files(fx[3].hdr)[i]['name'] for i in order]
        expect(names == [b'/usr/lib/f%d' % i for i in range(3) if i not in skip] + [b'/usr/lib64/l'], 'the delta relies on %r', names)

def run(ctx, spec):
    w = ctx.w('asan')
    n = spec['pair']
    fx = fixture(ctx, n)
    labels = []
    M = [dict(DEF) for _ in range(NS)]
    for s in range(NS): expect(w.call('optnew', s).rc == 0, 'init failed')
    def mk(s, who):
        got = domake(ctx, w, fx, s, who)
        want = canonical(ctx, w, fx, n, M[s], who)
        expect(got[0] == want[0], 'drpm_make returns %s, with fresh options set to the same values %s (%r)', err(got[0]), err(want[0]), M[s])
        expect(got[1] == want[1], 'the delta differs from the one made with fresh options set to the same values (%r)', M[s])
        expect(got[2] == want[2], 'the sequence files differ from those made with fresh options: %r, expected %r', got[2], want[2])
        if M[s] != DEF: labels.append('nondefault')
        labels.append('make:%s' % err(got[0]))
    try:
        for o in spec['ops'] + [['make', s, 0] for s in range(NS)]:
            k, s = o[0], o[1]
            m = M[s] if s is not None else None
            ok = s is not None
            if k == 'make': mk(s, o[2]); continue
            if k == 'renew':
                r = w.call('optfree', s); expect(r.rc == 0 and r.extra[0] == '0', 'destroying options returns %s', err(r.rc))
                expect(w.call('optnew', s).rc == 0, 'init failed')
                M[s] = dict(DEF); continue
            if k == 'type':
                r = w.call('opttype', s, o[2]); ok &= o[2] in (0, 1)
                if ok: m['type'] = o[2]
            elif k == 'ver':
                r = w.call('optver', s, o[2]); ok &= 1 <= o[2] <= 3
                if ok: m['ver'] = o[2]
            elif k in ('dcomp', 'acomp'):
                r = w.call('opt' + k, s, o[2], o[3]); ok &= o[2] <= 6 and o[3] <= 9
                if ok: m['dc' if k == 'dcomp' else 'ac'] = (o[2], o[3])
            elif k == 'fromrpm':
                r = w.call('optfromrpm', s)
                if ok: m['dc'] = None
            elif k == 'noadd':
                r = w.call('optnoadd', s)
                if ok: m['ac'] = None
            elif k == 'seq':
                r = w.call('optseq', s, None if o[2] is None else seqpath(ctx, o[2]))
                if ok: m['seq'] = o[2]
            elif k == 'pat':
                p = o[2]
                a, b = fx[2][p] if isinstance(p, int) else (None if p in ('n1', 'nn') else fx[2][0][0], None if p in ('n2', 'nn') else fx[2][0][1])
                r = w.call('optpat', s, a, b); ok &= isinstance(p, int)
                if ok: m['pat'] = p
            elif k == 'def':
                r = w.call('optdef', s)
                if ok: M[s] = dict(DEF)
            elif k == 'copy':
                r = w.call('optcopy', s, o[2]); ok &= o[2] is not None
                if ok: M[s] = dict(M[o[2]])
            expect((r.rc == 0) == ok, 'call %r returns %s', o, err(r.rc))
            if not ok: expect(r.rc == ARGS, 'rejected call %r returns %s', o, err(r.rc)); labels.append('rejected:' + k)
            labels.append('op:' + k)
    finally:
        for s in range(NS):
            try: w.call('optfree', s)
            except Exception: pass
    return labels

def nontrivial(labels):
    return 'nondefault' in labels
