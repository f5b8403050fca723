"""Results depend only on the inputs, and inputs are left alone."""
import os, stat, shutil
from hypothesis import strategies as st
from kit import gen, foreign as F, fsdb, fscase, rpmfmt as R, delta as D, comp as C
from kit.common import *
from kit.worker import ASAN_OPTIONS
from . import c09, c10

ID = 'C17'
LEVEL = 'exploration'
VARIANTS = ['asan', 'pattern', 'tiny']
RULE = ('each call of a history (in one process, with other successful and failing calls before it, other file names and places, other prior contents of the output, with and without open standard descriptors, another content of fresh memory '
        'and another time) was compared with the same call made first in a fresh process, and all inputs with their earlier state; non-trivial when the history has at least three calls one of which succeeds; '
        'distinct by the generated case')
ASSUMPTIONS = ['the content of the output file after a failing call is not defined and not compared', 'the package database is not compared']

PLACE = ['plain', 'plain', 'sub', 'relative', 'symlink', 'odd', 'dots']
PRIOR = ['none', 'none', 'long', 'short', 'link', 'kept', 'readonly']
ALLTAGS = [(k, t) for k in range(5) for t in range(1, 20)]         # (item 0 is the file's name)

@st.composite
def target(draw, disk):
    op = draw(st.sampled_from(['make', 'make', 'make', 'apply', 'apply', 'apply', 'read', 'checkseq'] + ['disk', 'check', 'checkseq'] * disk))
    if op == 'make': return [op, draw(st.sampled_from(['old', 'old', 'old', 'new', 'other', 'damaged', None])), draw(st.sampled_from(['new', 'new', 'new', 'old', 'damaged', None])), draw(gen.options((0, 0, 1)))]
    if op == 'apply': return [op, draw(st.sampled_from(['old', 'old', 'old', 'old', 'new', 'damaged'])), draw(st.sampled_from(['made', 'foreign', 'foreign', 'foreign', 'damaged.d']))]
    if op == 'read': return [op, draw(st.sampled_from(['made', 'foreign', 'damaged.d']))]
    if op == 'disk': return [op, draw(st.sampled_from(['foreign', 'foreign', 'damaged.d']))]
    if op == 'check': return [op, draw(st.sampled_from(['foreign', 'damaged.d'])), draw(st.sampled_from([1, 2]))]
    return [op, draw(st.sampled_from(['good', 'bad', 'odd'])), draw(st.sampled_from([0, 0, 1, 2])) if disk else 0]

@st.composite
def strategy_(draw, tier):
    disk = draw(st.sampled_from([0, 0, 1]))
    if disk:
        s = draw(fscase.installed(tier))
        s['miss'] = draw(st.sampled_from([0, 0, 1]))
    else: s = dict(old=draw(gen.package(gen.BIG, maxfiles=4)))
    s['disk'] = disk
    s['new'] = draw(gen.mutated(s['old'], gen.BIG))
    s['s'] = draw(F.shape(types=(0,) if disk else (0, 0, 1))); s['prog'] = draw(F.program(3, 4))
    s['mo'] = draw(gen.options((0, 0, 1)))
    s['dd'] = draw(st.lists(c09.mut(), min_size=1, max_size=2))
    s['dp'] = draw(st.sampled_from(['header', 'archive', 'raw']))
    s['dm'] = draw(st.lists({'header': c10.hmut(), 'archive': c10.cmut(), 'raw': c09.rawmut()}[s['dp']], min_size=1, max_size=2))
    s['calls'] = draw(st.lists(target(disk), min_size=1, max_size=4))
    n = len(s['calls'])
    s['hist'] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(PLACE), st.sampled_from(PRIOR), st.integers(0, 2)).map(list), min_size=3, max_size=9))
    s['var'] = draw(st.sampled_from(['pattern', 'pattern', 'tiny', 'asan']))
    s['std'] = draw(st.sampled_from([0, 0, 1, 2]))
    s['fill'] = draw(st.sampled_from([0, 1, 0x41, 0xff]))
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 700 if tier == 'quick' else 20000

def directed(tier):
    f = lambda n, k='r', sz=2000, **x: dict(d=0, n=n, k='reg', c=[[k, 1, n * 50, sz + n]], **x)
    old = dict(files=[f(0), f(2, 't', 9000), dict(d=0, n=1, k='lnk', l='long/' * 20), f(3, f=1)], z=[C.GZIP, 9])
    new = dict(files=[f(0), dict(f(2), c=[['m', 1, 100, 2000, 64, 1]]), f(4, 't', 500)], z=[C.GZIP, 9], ver='1.1')
    big = dict(old, files=old['files'] + [dict(d=i % 3, n='x%d' % i, k='reg', c=[['r', i, 0, 300 + i * 40]]) for i in range(12)])
    sh = dict(type=0, ver=3, wrap=[C.GZIP, 6], add='sparse', aw=[C.BZIP2, 9], md5='full', z=[C.GZIP, 9], dflt=True, seed=1, nadj=3, param=2)
    prog = [[[['a', 0.9, 3000], ['a', 0.0, 9000], ['a', 0.5, 5000], ['a', 0.95, 300], ['a', 0.1, 900], ['a', 0.7, 100], ['a', 0.0, 9000]], 30]]
    base = dict(old=old, new=new, s=sh, prog=prog, disk=0, mo={}, fill=0xff, dd=[['f', 'next', ['d', 1]]], dp='archive', dm=[['c', 0.5]], hist=None)
    h = lambda n: [[i, p, q, 1 + i % 2] for k, (p, q) in enumerate(zip(PLACE, PRIOR)) for i in range(n)]
    for var in ('pattern', 'tiny', 'asan'):
        for z in ([C.GZIP, 9], [C.ZSTD, 3], [C.LZMA, 1], [C.XZ, 1], [C.BZIP2, 9], [C.NONE, 0]):
            for t in (0, 1):
                calls = [['make', 'old', 'new', dict(type=t, dc=z, ac=z, seq=1)], ['apply', 'old', 'made'], ['make', 'old', None, dict(dc=z)], ['apply', 'damaged', 'foreign'], ['read', 'made'], ['apply', 'old', 'damaged.d']]
                yield dict(base, old=dict(big, z=z), new=dict(new, z=z), s=dict(sh, z=z, wrap=z, type=t), mo=dict(type=t, dc=z, ac=z), var=var, std=1 + t, calls=calls, hist=h(len(calls)))
        for inst in (0, 1):
            for o in (old, big):
                calls = [['disk', 'foreign'], ['check', 'foreign', 1], ['apply', 'old', 'foreign'], ['disk', 'damaged.d'], ['checkseq', 'good', 2], ['checkseq', 'good', 0], ['check', 'foreign', 2], ['make', 'old', 'new', {}]]
                yield dict(base, old=o, disk=1, miss=inst, var=var, std=1 + inst, calls=calls, hist=h(len(calls)))

def state(p):
    try:
        s = os.lstat(p)
    except OSError:
        return None
    c = None
    if stat.S_ISREG(s.st_mode):
        with open(p, 'rb') as f: c = f.read()
    return s.st_mode, s.st_ino, s.st_mtime_ns, s.st_nlink, s.st_uid, s.st_gid, c

def run(ctx, spec):
    if spec['disk']:
        fs, old, files, part, order, ext = fscase.setup(ctx, spec)
    else:
        fs = fsdb.get(ctx); old = gen.realize(spec['old']); ext = None; files = []; part = {}
        if not os.path.isdir(fs.db): fs.reset()
    var = spec['var']
    # what fresh memory contains differs between the two processes
    ref = ctx.w(var, 'ref', home=fs.home, env=dict(ASAN_OPTIONS=ASAN_OPTIONS + ':max_malloc_fill_size=200000:malloc_fill_byte=0'))
    fill = spec['fill']
    w = ctx.w(var, 'hist%d' % fill, home=fs.home, env=dict(ASAN_OPTIONS=ASAN_OPTIONS + ':max_malloc_fill_size=200000:malloc_fill_byte=%d' % fill))
    new = gen.realize(spec['new'])
    data = dict(old=old, new=new, other=gen.realize(dict(spec['new'], ver='7')))
    data['damaged'] = c10.damage(dict(k=spec['dp'], m=spec['dm']), spec['old'])
    d, b, tgt, _ = F.make(spec['s'], spec['prog'], old, ext=ext)
    data['foreign'] = b
    z = spec['s']['wrap']
    data['damaged.d'] = D.write(d, comp=z[0], level=z[1], new_rpm=R.Rpm(tgt), body=c09.mutate_body(d, spec['dd']))
    wm = ctx.w('asan', 'prep')
    po, pn = ctx.put('old', old), ctx.put('new', new)
    sl = gen.apply_options(wm, spec['mo'], 0, ctx.path('seqfile'))
    r = wm.call('make', po, pn, ctx.path('made'), sl)
    gen.drop_options(wm, sl)
    expect(r.rc == 0, 'drpm_make failed: %s', err(r.rc))
    data['made'] = ctx.get('made')
    if spec.get('miss') and part: os.unlink(os.fsdecode(sorted(part)[0]))
    if d.type: seqs = dict(good='foo-1.0-1-' + '0' * 40, bad='x', odd='foo-1.0-1-' + '0' * 41)
    else:
        s = (d.src_nevr + b'-' + d.sequence.hex().encode()).decode('utf-8', 'surrogateescape')
        seqs = dict(good=s, bad=s[:-4] + 'ffff', odd=s[:-1])
    base = ctx.path('in')
    shutil.rmtree(base, ignore_errors=True)
    for sub in ('', 'sub', 'sub/deep', 'odd %s;n\u00e4me', 'links'): os.makedirs(os.path.join(base, sub))
    def where(name, place):
        if name is None: return None, None
        p = {'plain': name, 'relative': name, 'dots': name, 'symlink': name, 'sub': 'sub/deep/' + name + '.x', 'odd': 'odd %s;n\u00e4me/%d-' + name}[place]
        q = os.path.join(base, p)
        if not os.path.lexists(q):
            with open(q, 'wb') as f: f.write(data[name])
            os.chmod(q, 0o444 if place == 'sub' else 0o644); os.utime(q, (1000000000, 1000000000))
        given = q
        if place == 'relative': given = 'in/' + p
        elif place == 'dots': given = base + '/sub/../' + p
        elif place == 'symlink':
            given = base + '/links/' + name
            if not os.path.lexists(given): os.symlink(q, given)
        return given, q
    out, sqo = ctx.path('o/out'), ctx.path('o/seq')
    os.makedirs(ctx.path('o'), exist_ok=True)
    def prior(how, p):
        if how == 'kept': return
        if os.path.lexists(p): os.unlink(p)
        if os.path.lexists(p + '.t'): os.unlink(p + '.t')
        if how == 'long':
            with open(p, 'wb') as f: f.write(b'drpm prior content ' * 9000)
        elif how == 'short':
            with open(p, 'wb') as f: f.write(b'x')
        elif how == 'link':
            with open(p + '.t', 'wb') as f: f.write(b'y' * 50)
            os.symlink(p + '.t', p)
        elif how == 'readonly':
            with open(p, 'wb') as f: f.write(b'z' * 500)
            os.chmod(p, 0o444)
    touched = {}
    def do(wk, c, place, prio, keep):
        """-> (error, outputs)"""
        prior(prio, out); prior(prio, sqo)
        op = c[0]
        def arg(n):
            g, q = where(n, place)
            if q and q not in touched: touched[q] = state(q)
            return g
        if op == 'make':
            o = dict(c[3]); null = o.pop('null', None)
            sq = bool(o.get('seq')) and not null
            if null: sl = None
            elif keep:
                sl = 4 + spec['calls'].index(c)
                if (id(wk), sl) not in kept: gen.apply_options(wk, o, sl, sqo); kept[(id(wk), sl)] = wk
            else: sl = gen.apply_options(wk, o, 0, sqo)
            r = wk.call('make', arg(c[1]), arg(c[2]), out, sl)
            if sl is not None and not keep: gen.drop_options(wk, sl)
            return r.rc, (ctx.get('o/out'), ctx.get('o/seq') if sq and not o.get('type') and c[1] and c[2] else None) if r.rc == 0 else None
        if op in ('apply', 'disk'):
            r = wk.call('apply', None if op == 'disk' else arg(c[1]), arg(c[-1]), out)
            return r.rc, ctx.get('o/out') if r.rc == 0 else None
        if op == 'check': return wk.call('check', arg(c[1]), c[2]).rc, None
        if op == 'checkseq': return wk.call('checkseq', None if c[2] else arg('old'), seqs[c[1]], c[2]).rc, None
        r = wk.call('read', 5, arg(c[1]))
        g = None
        if r.rc == 0:
            g = [wk.call('get', 5, k, t, 0) for k, t in ALLTAGS]
            g = [(x.rc, x.extra) for x in g]
            wk.call('destroy', 5)
        return r.rc, g
    kept = {}
    labels = ['worker:' + var, 'disk' if spec['disk'] else 'files']
    try:
        disk0 = {f.path: state(f.path) for f in files}
        want = {}
        ok = 0
        for j, (i, place, prio, keep) in enumerate(spec['hist']):
            c = spec['calls'][i]
            if i not in want:
                ref.stop()
                want[i] = do(ref, c, 'plain', 'none', 0)
            w.raw('clock', (i + 1) * 7777777)
            w.raw('std', int(not (j + 1) & spec.get('std', 0)))            # without descriptors 0 and 1
            got = do(w, c, place, prio, keep)
            expect(got[0] == want[i][0], '%s returns %s in a fresh process but %s after other calls (place: %s, output before: %s)', c[0], err(want[i][0]), err(got[0]), place, prio)
            if got[1] != want[i][1]:
                a, b_ = got[1], want[i][1]
                if isinstance(a, tuple): a, b_ = (a[0], b_[0]) if a[0] != b_[0] else (a[1], b_[1])
                if isinstance(a, bytes) and isinstance(b_, bytes): same_bytes(a, b_, 'the output of %s after other calls (place: %s, output before: %s)' % (c[0], place, prio))
                raise Violation('%s gives another result after other calls (place: %s)' % (c[0], place))
            ok += got[0] == 0
            labels.append('%s:%s' % (c[0], err(got[0]))); labels.append('place:' + place)
        for q, s in touched.items():
            expect(state(q) == s, 'an input file was modified (%s)', os.path.basename(q))
        for q, s in disk0.items():
            expect(state(q) == s, 'an installed file was modified')
    finally:
        if w.p: w.raw('std', 1)
        for (_, sl), wk in kept.items():
            if wk.p: wk.call('optfree', sl)
        shutil.rmtree(base, ignore_errors=True); shutil.rmtree(ctx.path('o'), ignore_errors=True)
    if len(spec['hist']) >= 3 and ok: labels.append('history')
    return labels

def nontrivial(labels):
    return 'history' in labels
