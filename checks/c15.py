"""No call leaks memory, descriptors or temporary files."""
import os, shutil, stat, time
from hypothesis import strategies as st
from kit import gen, foreign as F, fsdb, fscase, rpml, rpmfmt as R, delta as D, comp as C
from kit.common import *
from . import c09, c10, c12, c14

ID = 'C15'
LEVEL = 'exploration'
VARIANTS = ['asan', 'tiny', 'faults', 'tinyfaults']
RULE = ('a history of calls (or a single call with each allocation, read, write, open and seek failing in turn; with valid, damaged, mismatching, missing inputs; from packages and from disk) was repeated several times in one process and the allocated memory, the '
        'open descriptors and the files left behind were compared after each repetition; non-trivial when at least one call of the history fails or an object is read and destroyed, or when at least ten faults took effect; '
        'distinct by the generated case')
ASSUMPTIONS = ['memory is what the allocator of the address sanitizer counts, after librpm has been told to drop its configuration',
               'what librpm itself loses when it reads a damaged header is not counted (such a case is left out)',
               'a leak shows in each of the last repetitions: what is kept once and for all (by librpm, for instance) is not counted']

PKG = ['old', 'old', 'old', 'new', 'damaged', 'missing', 'dir', 'empty', None, 'delta']
DELTA = ['made', 'made', 'foreign', 'foreign', 'foreign', 'damaged', 'damaged', 'damaged', 'missing', 'dir', 'empty', 'new', None]
OUT = ['out', 'out', 'out', 'out', 'nodir', 'dir', '/dev/full', None]
SEQ = ['good', 'good', 'odd', 'hex', 'short', 'name', 'bad', 'none', None]
ALLTAGS = [(k, t) for k in range(5) for t in range(20)]

def opt_calls():
    s = st.integers(0, 2)
    return st.lists(st.one_of(
        st.tuples(st.just('optnew'), s), st.tuples(st.just('optfree'), s), st.tuples(st.just('optdef'), s), st.tuples(st.just('optcopy'), s, s),
        st.tuples(st.just('optseq'), s, st.sampled_from(['seqfile', 'nodir', None])), st.tuples(st.just('optpat'), s, st.sampled_from(['old', 'print', None]), st.sampled_from(['new', 'list', None])),
        st.tuples(st.just('opttype'), s, st.integers(-1, 3)), st.tuples(st.just('optver'), s, st.integers(0, 4)), st.tuples(st.just('optdcomp'), s, st.integers(-1, 8), st.integers(-1, 11))).map(list), max_size=10)

@st.composite
def step(draw, disk):
    op = draw(st.sampled_from(['make', 'make', 'make', 'apply', 'apply', 'apply', 'read', 'read', 'check', 'checkseq', 'opts'] + ['diskapply', 'diskapply', 'check', 'checkseq'] * disk))
    if op == 'make':
        s = [op, draw(st.sampled_from(PKG)), draw(st.sampled_from(['new', 'new', 'new'] + PKG)), draw(st.sampled_from(OUT)), draw(gen.options((0, 0, 1)))]
        if draw(st.sampled_from([0, 0, 1])): s[4]['seqto'] = draw(st.sampled_from(['seqfile', 'nodir', 'dir', '/dev/full']))
        if draw(st.sampled_from([0, 0, 0, 1])): s[4]['pat'] = draw(st.sampled_from([['print', 'list'], ['print', 'bad'], ['bad', 'list'], ['missing', 'list'], ['print', 'missing'], ['print', 'dir'], ['old', 'new'], ['print2', 'list'], ['print', 'list2']]))
        return s
    if op == 'apply': return [op, draw(st.sampled_from(PKG)), draw(st.sampled_from(DELTA)), draw(st.sampled_from(OUT))]
    if op == 'diskapply': return ['apply', None, draw(st.sampled_from(['foreign', 'foreign', 'damaged', 'made'])), draw(st.sampled_from(OUT))]
    if op == 'read': return [op, draw(st.sampled_from(DELTA))]
    if op == 'check': return [op, draw(st.sampled_from(DELTA)), draw(st.sampled_from([1, 1, 2, 2, 0, 3]))]
    if op == 'checkseq': return [op, draw(st.sampled_from([None, None] + PKG)), draw(st.sampled_from(SEQ)), draw(st.sampled_from([0, 0, 1, 1, 2, 2, 3]))]
    return [op, draw(opt_calls())]

@st.composite
def strategy_(draw, tier):
    if draw(st.sampled_from([0] * 24 + [1])): return dict(faults=draw(c14.strategy(tier)))
    disk = draw(st.sampled_from([0, 0, 1]))
    if disk:
        s = draw(fscase.installed(tier))
        s['inst'] = draw(st.sampled_from([1, 1, 1, 0]))
        if draw(st.booleans()): s['mods'] = draw(st.lists(st.tuples(st.integers(0, 60), st.sampled_from(c12.HOW), st.sampled_from(['part', 'part', 'any'])).map(list), min_size=1, max_size=2))
    else:
        s = dict(old=draw(gen.package(gen.MID, maxfiles=4)))
    s['disk'] = disk
    s['new'] = draw(gen.mutated(s['old'], gen.MID))
    s['s'] = draw(F.shape(types=(0,) if disk else (0, 0, 1))); s['prog'] = draw(F.program(3, 3))
    s['steps'] = draw(st.lists(step(disk), min_size=1, max_size=4))
    if any('damaged' in x for x in map(str, s['steps'])):
        lv = draw(st.sampled_from(['body', 'body', 'body', 'stream', 'outer']))
        s['dd'] = [lv, draw(st.lists(c09.mut() if lv == 'body' else c09.rawmut(), min_size=1, max_size=2))]
        k = draw(st.sampled_from(['header', 'header', 'archive', 'archive', 'payload', 'raw', 'sig']))
        s['dp'] = [draw(st.sampled_from(['old', 'new'])), dict(k=k, m=draw(st.lists({'header': c10.hmut(), 'archive': c10.cmut()}.get(k, c09.rawmut()), min_size=1, max_size=2)))]
    s['mo'] = draw(gen.options((0, 0, 1)))
    s['tiny'] = draw(st.sampled_from([0, 0, 1]))
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 2000 if tier == 'quick' else 60000

def directed(tier):
    f = lambda n, k='r', sz=2000, **x: dict(d=0, n=n, k='reg', c=[[k, 1, n * 50, sz + n]], **x)
    old = dict(files=[f(0), f(2, 't', 9000), dict(d=0, n=1, k='lnk', l='long/' * 20), f(3, f=1)], z=[C.GZIP, 9])
    new = dict(files=[f(0), dict(f(2), c=[['m', 1, 100, 2000, 64, 1]]), f(4, 't', 500)], z=[C.GZIP, 9], ver='1.1')
    sh = dict(type=0, ver=3, wrap=[C.GZIP, 6], add='sparse', aw=[C.BZIP2, 9], md5='full', z=[C.GZIP, 9], dflt=True, seed=1, nadj=3, param=2)
    prog = [[[['a', 0.9, 3000], ['a', 0.0, 9000], ['a', 0.5, 5000]], 30]]
    base = dict(old=old, new=new, s=sh, prog=prog, disk=0, mo={}, tiny=0)
    # every kind of input and output for every call
    for t in (0, 1):
        for z in ([C.GZIP, 9], [C.ZSTD, 3], [C.LZMA, 1], [C.XZ, 1], [C.BZIP2, 9], [C.NONE, 0]):
            yield dict(base, old=dict(old, z=z), new=dict(new, z=z), s=dict(sh, z=z, wrap=z if z[0] != C.NONE else [C.LZIP, 1], aw=z), mo=dict(type=t, dc=z, ac=z),
                       steps=[['make', 'old', 'new', 'out', dict(type=t, dc=z, ac=z, seqto='seqfile')], ['apply', 'old', 'made', 'out'], ['apply', 'old', 'foreign', 'out'], ['read', 'made']])
        for a in sorted(set(PKG), key=str):
            for b in sorted(set(PKG), key=str): yield dict(base, dp=['old', dict(k='header', m=[['drop', 1118]])], dd=['body', [['f', 'next', 5]]], steps=[['make', a, b, 'out', dict(type=t)]])
            for d in sorted(set(DELTA), key=str): yield dict(base, mo=dict(type=t), s=dict(sh, type=t), dp=['old', dict(k='payload', m=[['c', 0.5]])], dd=['body', [['f', 'next', 5]]], steps=[['apply', a, d, 'out']])
        for o in sorted(set(OUT), key=str):
            yield dict(base, mo=dict(type=t), steps=[['make', 'old', 'new', o, dict(type=t)], ['apply', 'old', 'made', o]])
            yield dict(base, mo=dict(type=t), s=dict(sh, type=t), steps=[['apply', 'old', 'foreign', o], ['make', None, 'new', o, {}], ['make', 'new', None, o, {}]])
        for sq in ('seqfile', 'nodir', 'dir', '/dev/full'):
            yield dict(base, steps=[['make', 'old', 'new', 'out', dict(type=t, seqto=sq)]])
        for r in (0.0, 0.2, 0.5, 0.8, 0.99):
            for k in ('stream', 'outer'): yield dict(base, s=dict(sh, type=t), dd=[k, [['c', r]]], dp=['old', dict(k='raw', m=[['c', r]])], steps=[['apply', 'old', 'damaged', 'out'], ['read', 'damaged'], ['make', 'damaged', 'new', 'out', dict(type=t)], ['make', 'old', 'damaged', 'out', dict(type=t)]])
        for n in sorted(c09.U32):
            for x in (0, 5, 0x7fffffff, ['d', 1], ['d', -1]):
                yield dict(base, s=dict(sh, type=t), dd=['body', [['f', n, x]]], dp=['old', dict(k='raw', m=[['c', 0.5]])], steps=[['apply', 'old', 'damaged', 'out'], ['read', 'damaged']])
    for v in (1, 2): yield dict(base, steps=[['make', 'old', 'new', 'out', dict(ver=v, type=1)], ['make', 'old', 'new', 'out', dict(ver=v)]])
    for tag in c10.TAGS:
        for m in (['drop', tag], ['typ', tag, 'bin'], ['cnt', tag, -1], ['str', tag, 0.0, '']):
            for role in ('old', 'new'):
                yield dict(base, dp=[role, dict(k='header', m=[m])], dd=['body', [['f', 'next', 5]]], steps=[['make', 'damaged', 'new', 'out', {}], ['make', 'old', 'damaged', 'out', {}], ['apply', 'damaged', 'foreign', 'out'], ['checkseq', 'damaged', 'good', 0]])
    for q in sorted(set(SEQ), key=str):
        for p in ('old', 'new', 'missing', 'dir', 'empty', None):
            for m in (0, 1): yield dict(base, steps=[['checkseq', p, q, m]])
    for p in (['print', 'list'], ['print', 'bad'], ['bad', 'list'], ['missing', 'list'], ['print', 'missing'], ['print', 'dir'], ['old', 'new'], ['print2', 'list'], ['print', 'list2']):
        yield dict(base, steps=[['make', 'old', 'new', 'out', dict(pat=p)]])
        yield dict(base, steps=[['make', 'old', None, 'out', dict(pat=p)]])
    yield dict(base, steps=[['opts', [['optnew', 0], ['optnew', 1], ['optseq', 1, 'seqfile'], ['optpat', 1, 'old', 'new'], ['optseq', 1, None], ['optseq', 1, 'nodir'], ['optcopy', 0, 1], ['optcopy', 0, 1], ['optpat', 0, 'print', 'list'], ['optdef', 0]]]])
    for many in (0, 1):
        o = dict(old, files=old['files'] + [dict(d=i % 3, n='x%d' % i, k='reg', c=[['r', i, 0, 300 + i]]) for i in range(12)]) if many else old
        for tiny in (0, 1):
            for inst in (1, 0):
                for how in [None] + c12.HOW:
                    if inst == 0 and how: continue
                    yield dict(base, old=o, disk=1, inst=inst, tiny=tiny, mods=[[1, how, 'part']] if how else [], steps=[['apply', None, 'foreign', 'out'], ['check', 'foreign', 1], ['check', 'foreign', 2], ['checkseq', None, 'good', 1], ['checkseq', None, 'good', 2]])
            yield dict(base, old=o, disk=1, inst=1, tiny=tiny, mods=[], dd=['body', [['f', 'nseq', 16]]], dp=['old', dict(k='raw', m=[['c', 0.5]])], steps=[['apply', None, 'damaged', 'out'], ['check', 'damaged', 1], ['checkseq', None, 'odd', 1], ['checkseq', None, 'bad', 2], ['checkseq', None, 'name', 2], ['apply', None, 'foreign', 'nodir']])

    # single calls with everything failing in turn
    for i, s in enumerate(c14.directed(tier)):
        if tier == 'thorough' or i % 3 == 0 or s['op'] in ('disk', 'foreign', 'check', 'seqdb', 'seq', 'opts', 'patch'): yield dict(faults=s)

def left(gid, ctx):
    """files of this case's processes in the temporary directory"""
    out = []
    for e in os.scandir('/tmp'):
        try:
            s = e.stat(follow_symlinks=False)
        except OSError:
            continue
        if s.st_gid == gid and e.path != ctx.dir: out.append(e.path)
    return out

def own(ctx, var, fs):
    """a process of its own, with a group of its own so that its files can be told from others'"""
    w = ctx.w(var, 'leak', home=fs.home)
    gid = 100000 + os.getpid() % 4000000
    if w.p is None:
        ctx.cache['leak' + var] = w.raw('setegid', gid)[0] == '0'
        w.raw('fds')
    return w, gid

def run_faults(ctx, spec):
    it = []
    def leak(var, fs):
        w, gid = own(ctx, var, fs); it[:] = [var, gid]
        return w
    labels = c14.run(ctx, spec['faults'], leak=leak)
    nothing_left(ctx, *it)
    return ['disturbed'] + labels

def nothing_left(ctx, var, gid):
    if ctx.cache.get('leak' + var):
        for _ in range(2):
            l = left(gid, ctx)
            if not l: break
            time.sleep(0.1)
        for p in l:
            if os.path.isfile(p): os.unlink(p)
        expect(not l, 'files were left in the temporary directory: %s', l)

def run(ctx, spec):
    if 'faults' in spec: return run_faults(ctx, spec)
    if spec['disk']:
        fs, old, files, part, order, ext = fscase.setup(ctx, spec)
        if not spec.get('inst', 1):
            shutil.rmtree(fs.db, ignore_errors=True)
            fs.install(*fscase.decoys(spec['old'], 3))
    else:
        fs = fsdb.get(ctx); old = gen.realize(spec['old']); ext = None
        if not os.path.isdir(fs.db): fs.reset()
    var = 'tiny' if spec['tiny'] else 'asan'
    w, gid = own(ctx, var, fs)
    w.raw('prelink', spec.get('tool', 1))
    new = gen.realize(spec['new'])
    names = {'old': ctx.put('old.rpm', old), 'new': ctx.put('new.rpm', new), 'empty': ctx.put('empty', b''), 'bad': ctx.put('bad', b'RPML\3foo\0\5'), 'missing': ctx.path('missing'), 'nodir': ctx.path('none/x'),
             'dir': ctx.path('adir'), 'out': ctx.path('out'), 'seqfile': ctx.path('seqfile'), '/dev/full': '/dev/full', None: None}
    ctx.rm('out', 'seqfile', 'made.drpm'); os.makedirs(names['dir'], exist_ok=True)
    wm = ctx.w('asan', 'prep')
    s = gen.apply_options(wm, spec['mo'], 0, ctx.path('seqfile'))
    r = wm.call('make', names['old'], names['new'], ctx.path('made.drpm'), s)
    gen.drop_options(wm, s)
    expect(r.rc == 0, 'drpm_make failed: %s', err(r.rc))
    names['made'] = ctx.path('made.drpm')
    d, b, tgt, _ = F.make(spec['s'], spec['prog'], old, ext=ext)
    names['foreign'] = names['delta'] = ctx.put('foreign.drpm', b)
    pd = pp = None
    if 'dd' in spec:
        lv, ms = spec['dd']; z = spec['s']['wrap']
        body = D.body_bytes(d)
        if lv == 'body':
            x = D.write(d, comp=z[0], level=z[1], new_rpm=R.Rpm(tgt), body=c09.mutate_body(d, ms))
        else:
            cs = C.compress(z[0], z[1], body); i = b.rindex(cs); o = b[:i]
            for m in ms:
                if lv == 'stream': cs = c09.raw_mutate(cs, m)
                else: o = c09.raw_mutate(o, m)
            x = o + cs
        pd = ctx.put('damaged.drpm', x)
        which, dm = spec['dp']
        pp = ctx.put('damaged.rpm', c10.damage(dm, spec[which]))
    o = R.Rpm(old); nm = o.hdr.get(1000); evr = o.nevr()[len(nm) + 1:]
    ents = [(f.path.lstrip(b'/'), f.mode, 0, len(f.content), b'\5' * 16) for f in gen.files_of(spec['old'])]
    names['print'] = ctx.put('print', rpml.write(nm, evr, ents, [e[0] for e in ents[:1]], [b'p'] if ents else []))
    names['list'] = ctx.put('list', rpml.write(nm, evr, ents))
    names['print2'] = ctx.put('print2', rpml.write(nm + b'x', evr, ents)); names['list2'] = ctx.put('list2', rpml.write(nm, evr + b'x', ents, [e[0] for e in ents[:1]], [b'p'] if ents else []))
    if not d.type:
        h = d.sequence.hex(); pre = (d.src_nevr + b'-').decode('utf-8', 'surrogateescape')
        seqs = dict(good=pre + h, odd=pre + h[:-1], hex=pre + h[:8] + 'x' + h[9:], short=pre + h[:12], name='other-1-1-' + h, bad=pre + 'f' * len(h), none='', **{})
    else: seqs = dict(good='a-1-1-' + '0' * 40, odd='a-1-1-' + '0' * 41, hex='a-1-1-' + '0' * 12 + 'x' * 40, short='a-1-1-00', name='-', bad='a-1-1-zz', none='')
    seqs[None] = None
    if spec.get('mods'):
        reg = [f.path for f in files if stat.S_ISREG(f.mode)]; plist = sorted(part)
        for i, how, which in spec['mods']:
            l = plist if which == 'part' else reg
            if l: c12.modify(os.fsdecode(l[i % len(l)]), how, 3)
    def P(n, kind):
        return (pd if kind == 'delta' else pp) if n == 'damaged' else names[n]
    labels = ['disk' if spec['disk'] else 'files']
    failing = []; used = set()
    expected = set(os.listdir(ctx.dir)) | {'out', 'seqfile'}
    def one(stp, rec):
        op = stp[0]
        if op == 'make':
            oo = dict(stp[4]); sq = oo.pop('seqto', None); pat = oo.pop('pat', None)
            oo.pop('seq', None)
            if oo.pop('null', None) and not (sq or pat): sl = None
            else: sl = gen.apply_options(w, dict(oo, **{}), 0, ctx.path('seqfile'))
            if sl is not None:
                if sq: w.call('optseq', sl, names[sq])
                if pat: w.call('optpat', sl, names[pat[0]], names[pat[1]])
            rs = [w.call('make', P(stp[1], 'pkg'), P(stp[2], 'pkg'), names[stp[3]], sl)]
            gen.drop_options(w, sl)
        elif op == 'apply': rs = [w.call('apply', P(stp[1], 'pkg'), P(stp[2], 'delta'), names[stp[3]])]
        elif op == 'check': rs = [w.call('check', P(stp[1], 'delta'), stp[2])]
        elif op == 'checkseq': rs = [w.call('checkseq', P(stp[1], 'pkg'), seqs[stp[2]], stp[3])]
        elif op == 'read':
            rs = [w.call('read', 5, P(stp[1], 'delta'))]
            if rs[0].rc == 0:
                for k, t in ALLTAGS: w.call('get', 5, k, t, 0)
                w.call('destroy', 5); used.add('object')
        else:
            live = set(); rs = []
            for c in stp[1]:
                if c[0] == 'optnew':
                    if c[1] + 8 in live: w.call('optfree', c[1] + 8)
                    live.add(c[1] + 8); w.call('optnew', c[1] + 8); continue
                a = [c[1] + 8] + ([c[2] + 8] if c[0] == 'optcopy' else [names[x] if isinstance(x, str) or x is None else x for x in c[2:]])
                if a[0] not in live or c[0] == 'optcopy' and a[1] not in live: continue
                rs.append(w.call(c[0], *a))
                if c[0] == 'optfree': live.discard(a[0])
            for x in live: w.call('optfree', x)
            if live: used.add('object')
        for r in rs:
            if r.rc: failing.append(r.rc); labels.append('%s:%s' % (op, err(r.rc)))
            else: labels.append(op + ':OK')
        rec.append([(r.rc, r.mem, r.fd) for r in rs])
    hist = []
    n = 5
    for i in range(n):
        m0 = int(w.raw('mem')[0]); f0 = int(w.raw('fds')[0]); rec = []
        for stp in spec['steps']:
            if i: labels_ = labels; labels = []
            one(stp, rec)
            if i: labels = labels_
        hist.append((int(w.raw('mem')[0]) - m0, int(w.raw('fds')[0]) - f0, rec))
        if i >= 1 and all(h[0] <= 0 and h[1] <= 0 for h in hist[-2:]): break
    else:
        for p in (pd, pp):               # what librpm itself loses on damaged headers
            if not p: continue
            w.raw('rpmtry', p)
            m0 = int(w.raw('mem')[0]); w.raw('rpmtry', p)
            if int(w.raw('mem')[0]) > m0: raise Skip('librpm loses memory')
        for j, what in ((0, 'allocated memory'), (1, 'number of open descriptors')):
            if all(h[j] > 0 for h in hist[-3:]):
                raise Violation('the %s grows with every repetition: by %s; (error, memory, descriptors) of the calls of the last one: %s' % (what, [h[j] for h in hist], hist[-1][2]))
    extra = set(os.listdir(ctx.dir)) - expected
    expect(not extra, 'files were left behind: %s', sorted(extra))
    nothing_left(ctx, var, gid)
    if failing: labels.append('failing')
    labels += sorted(used)
    return labels

def nontrivial(labels):
    return 'failing' in labels or 'object' in labels or 'disturbed' in labels and 'faults:10+' in labels
