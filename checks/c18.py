"""Calls reject bad arguments and unknown tags with a defined error."""
import os, stat
from hypothesis import strategies as st
from kit import gen, foreign as F, fsdb, fscase, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C18'
LEVEL = 'exploration'
VARIANTS = ['asan']
RULE = ('calls with at least one argument that must be refused (null pointer, undefined tag, mode, method, level or type, forbidden combination) or a query of every kind for one tag '
        'were made and compared with the documented table; distinct by the generated case')
ASSUMPTIONS = ['which value kinds a tag has is fixed by the table of this check, taken from the documentation in drpm.h and the tags the getters name']

UINT = {1, 2, 3, 7, 9}
ULONG = UINT | {11, 14}
ULL = ULONG | {17, 18}
STR = {0, 4, 5, 6, 8, 10, 13}
ARR = {12, 15, 16}
KINDS = [UINT, ULONG, ULL, STR, ARR]
NONE_FILE = 'no-such-file'

tags = st.one_of(st.integers(-3, 24), st.integers(-3, 24), st.integers(-(1 << 31), (1 << 31) - 1), st.sampled_from([256, 257, 258, 259, 65536 + 1, 65536 + 7, -256, 1 << 16, 1 << 24, (1 << 24) + 4]))
modes = st.one_of(st.integers(-3, 6), st.sampled_from([256, 257, 258, 65536, 65537, 65538, -(1 << 31), (1 << 31) - 1]), st.integers(-(1 << 31), (1 << 31) - 1))
u16 = st.one_of(st.integers(0, 12), st.integers(0, 65535), st.sampled_from([255, 256, 257, 258, 262, 32767, 32768, 65535]))

@st.composite
def strategy_(draw, tier):
    k = draw(st.sampled_from(['get', 'get', 'get', 'call', 'call', 'opt', 'opt', 'life']))
    if k == 'get':
        return dict(k='get', fx=draw(st.integers(0, NFX - 1)), calls=draw(st.lists(st.tuples(st.integers(0, 4), tags, st.sampled_from([0, 0, 0, 1, 2, 3]), st.sampled_from([0, 0, 0, 1])).map(list), min_size=1, max_size=6)))
    if k == 'call':
        n = st.sampled_from([0, 0, 1])
        return dict(k='call', calls=draw(st.lists(st.one_of(
            st.tuples(st.just('apply'), n, n, n, st.integers(0, NFX - 1)), st.tuples(st.just('make'), n, n, n, st.integers(0, 3)),
            st.tuples(st.just('check'), n, modes, st.integers(0, NFX - 1)), st.tuples(st.just('checkseq'), n, n, modes, st.integers(0, 3))).map(list), min_size=1, max_size=4)))
    if k == 'opt':
        return dict(k='opt', calls=draw(st.lists(st.tuples(st.sampled_from(['type', 'ver', 'dcomp', 'acomp']), u16, u16).map(list), min_size=1, max_size=8)))
    return dict(k='life', ops=draw(st.lists(st.tuples(st.sampled_from(['read', 'read', 'readmissing', 'readbad', 'readnull', 'destroy', 'destroy', 'get', 'optnew', 'optfree', 'optfree']), st.integers(0, 2)).map(list), min_size=1, max_size=14)))

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 6000 if tier == 'quick' else 150000

def directed(tier):
    for fx in range(NFX):
        for kind in range(5):
            for t in list(range(-4, 40)) + [255, 256, 257, 65536, 65537, -256, 2 ** 31 - 1, -2 ** 31]:
                yield dict(k='get', fx=fx, calls=[[kind, t, nt, nd] for nt in ((0, 1) if kind < 4 else (0, 1, 2, 3)) for nd in (0, 1)])
    for lo in range(0, 65536, 2048):
        for o in ('type', 'ver', 'dcomp', 'dlev', 'acomp', 'alev'): yield dict(k='optrange', o=o, lo=lo, hi=lo + 2048)
    yield dict(k='optnull')
    for e in (range(-200, 200), range(250, 270), range(65530, 65550), [-2 ** 31, 2 ** 31 - 1, 2 ** 16, 2 ** 24, 2 ** 30]):
        yield dict(k='strerror', codes=list(e))
    for a in (0, 1):
        for b in (0, 1):
            for c in (0, 1):
                for f in range(NFX): yield dict(k='call', calls=[['apply', a, b, c, f]])
                for f in range(4): yield dict(k='call', calls=[['make', a, b, c, f]])
        for m in list(range(-3, 20)) + [256, 257, 258, 65537, 65538, 2 ** 31 - 1, -2 ** 31, 2 ** 24 + 1, 2 ** 24 + 2]:
            for f in (0, 3): yield dict(k='call', calls=[['check', a, m, f]])
            for b in (0, 1):
                for f in range(4): yield dict(k='call', calls=[['checkseq', a, b, m, f]])
    for ops in (['destroy'], ['readnull', 'destroy'], ['read', 'destroy', 'destroy'], ['readmissing', 'destroy', 'get'], ['readbad', 'get', 'destroy'], ['optfree'], ['optnew', 'optfree', 'optfree'],
                ['read', 'destroy', 'read', 'readnull', 'get', 'destroy', 'get']):
        yield dict(k='life', ops=[[o, 0] for o in ops])

NFX = 6
def fixture(ctx):
    if 'c18' in ctx.cache: return ctx.cache['c18']
    fs = fsdb.get(ctx); fs.reset()
    f = lambda i, m=0: dict(d=0, n='f%d' % i, k='reg', c=[['t', i, 0, 700], ['r', i, m * 40, 500]])
    p = fsdb.rooted(ctx, dict(files=[f(0), f(1)], z=[C.GZIP, 9]))
    q = fsdb.rooted(ctx, dict(files=[f(0), f(1, 1)], z=[C.GZIP, 9], ver='1.1'))
    ob, nb = gen.realize(p), gen.realize(q)
    src = dict(files=[f(0), f(1)], z=[C.GZIP, 9], src=1)
    so, sn = gen.realize(src), gen.realize(dict(src, ver='1.1'))
    fs.install(ob); fs.place(gen.files_of(p))
    old, new = ctx.put('o.rpm', ob), ctx.put('n.rpm', nb)
    sold, snew = ctx.put('so.rpm', so), ctx.put('sn.rpm', sn)
    ds = []
    for i, (t, v, o, n) in enumerate([(0, 3, old, new), (0, 2, old, new), (0, 1, old, new), (1, 3, old, new), (1, 3, None, new), (0, 3, sold, snew)]):
        w = fs.w
        w.call('optnew', 15)
        if t: w.call('opttype', 15, 1)
        else: w.call('optver', 15, v)
        path = ctx.path('fx%d.drpm' % i)
        expect(w.call('make', o, n, path, 15).rc == OK, 'fixture delta %d cannot be made', i)
        w.call('optfree', 15)
        b = open(path, 'rb').read()
        d = D.parse(b)
        exp = dict()
        wc = {None: None}
        exp[1] = d.version; exp[2] = d.type; exp[3] = d.comp; exp[7] = d.tgt_size
        exp[9] = D.CODE2COMP[d.tgt_comp_code][0] if d.version > 1 else None
        exp[11] = d.tgt_header_len; exp[14] = d.payload_fmt_off; exp[17] = d.ext_data_len; exp[18] = len(d.int_data)
        exp[0] = path.encode(); exp[4] = d.sequence.hex().encode(); exp[5] = d.src_nevr; exp[6] = d.tgt_nevr
        exp[12] = 2 * len(d.offadj); exp[15] = 2 * len(d.int_copies); exp[16] = 2 * len(d.ext_copies)
        ds.append((path, exp, d))
    ctx.cache['c18'] = r = (fs, ds, dict(old=old, new=new, sold=sold, snew=snew, nb=nb, sn=sn))
    return r

UNSET = ['2779096485', '11936128518282651045', '11936128518282651045', '-', '-']

def do_get(ctx, w, ds, fx, calls, labels):
    path, exp, d = ds[fx]
    expect(w.call('read', 0, path).rc == OK, 'a delta this library made cannot be read')
    for kind, tag, nt, nd in calls:
        if kind < 4: nt = nt & 1
        r = w.call('get', None if nd else 0, kind, tag, nt)
        good = tag in KINDS[kind] and not nt and not nd
        what = 'query of tag %d as %s%s%s' % (tag, ['uint', 'ulong', 'ullong', 'string', 'array'][kind], ' into a null pointer' if nt else '', ' of a null delta' if nd else '')
        if not good:
            expect(r.rc == ARGS, '%s returns %s', what, err(r.rc))
            expect(r.extra[0] == UNSET[kind], '%s sets its target', what)
            labels.add('refused')
        else:
            expect(r.rc == OK, '%s returns %s', what, err(r.rc))
            if kind < 3 and exp.get(tag) is not None: expect(int(r.extra[0]) == exp[tag], '%s gives %s, expected %d', what, r.extra[0], exp[tag])
            if kind == 3 and tag in exp: expect(r.extra[0] == 'x' + exp[tag].hex(), '%s gives %r, expected %r', what, r.extra[0], exp[tag])
            if kind == 4: expect(int(r.extra[0].split(':')[0]) == exp[tag], '%s gives %s', what, r.extra[0][:60])
            labels.add('value')
        expect(r.fd == 0, '%s leaks', what)
    r = w.call('destroy', 0)
    expect(r.rc == OK and r.extra == ['0'], 'a delta that was read cannot be destroyed')

def do_call(ctx, fs, ds, P, c, labels):
    w = fs.w
    if c[0] == 'apply':
        nold, ndelta, nnew, f = c[1:]
        if not ndelta and not nnew and not nold: raise Skip('a proper call')
        src = f == 5
        ctx.rm('out.rpm')
        if not ndelta and not nnew:
            # no old package: refused for rpm-only deltas and source packages, works from disk otherwise
            r = w.call('apply', None, ds[f][0], ctx.path('out.rpm'))
            if f < 3:
                expect(r.rc == OK, 'applying from disk returns %s', err(r.rc)); same_bytes(ctx.get('out.rpm'), P['nb'], 'the package rebuilt from disk'); labels.add('value')
            else:
                expect(r.rc != OK, 'applying %s delta from disk succeeds', 'a source package' if src else 'an rpm-only'); labels.add('refused')
        else:
            r = w.call('apply', None if nold else P['sold' if src else 'old'], None if ndelta else ds[f][0], None if nnew else ctx.path('out.rpm'))
            expect(r.rc == ARGS, 'drpm_apply with a null name returns %s', err(r.rc))
            expect(not os.path.exists(ctx.path('out.rpm')), 'drpm_apply with a null name writes a file')
            labels.add('refused')
        expect(r.fd == 0, 'a refused drpm_apply leaves %d descriptors open', r.fd)
    elif c[0] == 'make':
        nold, nnew, nd, f = c[1:]
        t, v = [(0, 3), (1, 3), (1, 2), (1, 1)][f]
        w.call('optnew', 15)
        if t: w.call('opttype', 15, 1)
        w.call('optver', 15, v)
        ctx.rm('m.drpm')
        ctx.put('m.drpm', b'was here')
        r = w.call('make', None if nold else P['old'], None if nnew else P['new'], None if nd else ctx.path('m.drpm'), 15)
        w.call('optfree', 15)
        if nd or (nold and nnew) or (t and v < 3):
            expect(r.rc == ARGS, 'drpm_make with %s returns %s', 'an rpm-only delta of version %d' % v if not nd and not (nold and nnew) else 'null names', err(r.rc))
            expect(ctx.get('m.drpm') == b'was here', 'a refused drpm_make touches the output file')
            labels.add('refused')
        else:
            expect(r.rc == OK, 'drpm_make returns %s', err(r.rc)); labels.add('value')
    elif c[0] == 'check':
        nd, m, f = c[1:]
        r = w.call('check', None if nd else ds[f][0], m)
        if nd or m not in (1, 2):
            expect(r.rc == ARGS, 'drpm_check with %s returns %s', 'a null name' if nd else 'mode %d' % m, err(r.rc)); labels.add('refused')
        elif f < 3:
            expect(r.rc == OK, 'drpm_check of an intact installed package returns %s', err(r.rc)); labels.add('value')
    else:
        nold, nseq, m, f = c[1:]
        d = ds[f][2]
        seq = d.src_nevr + b'-' + d.sequence.hex().encode()
        r = w.call('checkseq', None if nold else P['old'], None if nseq else seq.decode('latin1'), m)
        if nseq or m not in (0, 1, 2) or (not nold and m):
            expect(r.rc == ARGS, 'drpm_check_sequence with %s returns %s', 'a null sequence' if nseq else 'mode %d' % m, err(r.rc)); labels.add('refused')
        elif f < 3:
            expect(r.rc == OK, 'drpm_check_sequence returns %s', err(r.rc)); labels.add('value')

def accept(o, a, b):
    if o == 'type': return a in (0, 1)
    if o == 'ver': return a in (1, 2, 3)
    return a <= 6 and b <= 9

def run(ctx, spec):
    fs, ds, P = fixture(ctx)
    w = fs.w
    labels = set()
    k = spec['k']
    if k == 'get':
        do_get(ctx, w, ds, spec['fx'], spec['calls'], labels)
    elif k == 'call':
        for c in spec['calls']: do_call(ctx, fs, ds, P, c, labels)
    elif k == 'opt' or k == 'optrange':
        w.call('optnew', 3)
        if k == 'opt': calls = spec['calls']
        else:
            o = {'dlev': 'dcomp', 'alev': 'acomp'}.get(spec['o'], spec['o'])
            calls = [[o, 2 if 'lev' in spec['o'] else x, x if 'lev' in spec['o'] else 5] for x in range(spec['lo'], spec['hi'])]
        for o, a, b in calls:
            args = [a] if o in ('type', 'ver') else [a, b]
            want = OK if accept(o, a, b) else ARGS
            r = w.call('opt' + o, 3, *args)
            expect(r.rc == want, 'setting option %s to %r returns %s', o, args, err(r.rc))
            labels.add('refused' if want else 'value')
        w.call('optfree', 3)
    elif k == 'optnull':
        w.call('optnew', 3)
        for c in (['optnew', None], ['optfree', None], ['optdef', None], ['optcopy', None, 3], ['optcopy', 3, None], ['optcopy', None, None], ['opttype', None, 0], ['optver', None, 3], ['optdcomp', None, 1, 1],
                  ['optfromrpm', None], ['optnoadd', None], ['optacomp', None, 1, 1], ['optseq', None, 'x'], ['optseq', None, None], ['optpat', None, 'a', 'b'], ['optpat', 3, None, 'b'], ['optpat', 3, 'a', None], ['optpat', 3, None, None],
                  ['optfree', 4], ['read', None, ds[0][0]], ['read', 5, None], ['read', None, None], ['destroy', None], ['destroy', 6]):
            r = w.call(*c)
            expect(r.rc == ARGS, '%s with a null pointer returns %s', c, err(r.rc))
            expect(r.mem == 0 and r.fd == 0, '%s with a null pointer leaks', c)
        r = w.call('optseq', 3, None)
        expect(r.rc == OK, 'removing the sequence file returns %s', err(r.rc))
        labels.add('refused')
        w.call('optfree', 3)
    elif k == 'strerror':
        texts = {e: w.call('strerror', e).extra[0] for e in list(range(11)) + [-1] + spec['codes']}
        for e, t in texts.items():
            expect(t != '\\N' and t != 'x', 'error %d has no message', e)
        known = [texts[e] for e in range(11)]
        expect(len(set(known)) == 11, 'two errors share one message')
        for e, t in texts.items():
            if e not in range(11): expect(t not in known, 'undefined error %d has the message of a defined one', e)
        labels.add('refused')
    else:
        live = [None] * 3; ol = [False] * 3
        try:
            for o, i in spec['ops']:
                if o == 'read':
                    if live[i] is not None: w.call('destroy', i)
                    r = w.call('read', i, ds[i][0]); live[i] = ds[i][1]
                    expect(r.rc == OK and r.extra == ['1'], 'reading a delta returns %s', err(r.rc))
                elif o in ('readmissing', 'readbad'):
                    if live[i] is not None: w.call('destroy', i)
                    live[i] = None
                    r = w.call('read', i, ctx.path(NONE_FILE) if o == 'readmissing' else P['old'])
                    expect(r.rc != OK and r.extra == ['0'], 'reading %s returns %s and leaves %s', o[4:], err(r.rc), r.extra)
                elif o == 'readnull':
                    r = w.call('read', i, None)
                    expect(r.rc == ARGS and r.extra == ['1' if live[i] else '0'], 'reading a null name returns %s or changes its target', err(r.rc)); labels.add('refused')
                elif o == 'destroy':
                    r = w.call('destroy', i)
                    expect(r.rc == (OK if live[i] else ARGS) and r.extra == ['0'], 'drpm_destroy returns %s', err(r.rc))
                    if not live[i]: labels.add('refused')
                    live[i] = None
                elif o == 'get':
                    r = w.call('get', i, 3, 5, 0)
                    if live[i]: expect(r.rc == OK and r.extra[0] == 'x' + live[i][5].hex(), 'a delta changed after other calls')
                    else: expect(r.rc == ARGS, 'query of a destroyed delta returns %s', err(r.rc)); labels.add('refused')
                elif o == 'optnew':
                    if ol[i]: w.call('optfree', i)
                    expect(w.call('optnew', i).rc == OK, 'options cannot be created'); ol[i] = True
                elif o == 'optfree':
                    r = w.call('optfree', i)
                    expect(r.rc == (OK if ol[i] else ARGS) and r.extra == ['0'], 'drpm_make_options_destroy returns %s', err(r.rc))
                    if not ol[i]: labels.add('refused')
                    ol[i] = False
        finally:
            if w.p:
                for i in range(3):
                    if live[i]: w.call('destroy', i)
                    if ol[i]: w.call('optfree', i)
    labels.add(k)
    return labels

def nontrivial(labels):
    return 'refused' in labels or 'get' in labels
