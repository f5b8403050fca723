"""Failing I/O or memory never turns into a wrong success."""
import os, random, stat
from hypothesis import strategies as st
from kit import gen, foreign as F, fsdb, fscase, rpml, rpmfmt as R, delta as D, comp as C
from kit.common import *
from kit.runner import Crash

ID = 'C14'
LEVEL = 'exploration'
VARIANTS = ['faults', 'tinyfaults']
RULE = ('an operation was run undisturbed, then again with one allocation, read, write, open or seek failing (each point in turn, once and from there on) or with the output '
        'limited to some number of bytes, and every outcome was compared with the undisturbed one; non-trivial when at least ten of the faults took effect; distinct by the generated case')
ASSUMPTIONS = ['allocations: those made by the library\'s own code (librpm ends the process by itself when memory runs out)',
               'reads, writes, opens and seeks: the library\'s own on any file, and those librpm and the compression libraries make on the given packages and deltas; reads of the package database are not disturbed',
               'a failing close is not among the faults']

KIND = ['allocation', 'read', 'write', 'open/seek']
OPS = ['make', 'make', 'make', 'apply', 'apply', 'apply', 'foreign', 'disk', 'disk', 'check', 'seq', 'seqdb', 'read', 'read', 'opts', 'patch']

@st.composite
def strategy_(draw, tier):
    op = draw(st.sampled_from(OPS))
    s = dict(op=op)
    if op in ('disk', 'check', 'seqdb'):
        s.update(draw(fscase.installed(tier)))
    else:
        s['old'] = draw(gen.package(gen.MID, maxfiles=4))
    s['new'] = draw(gen.mutated(s['old'], gen.MID))
    if op in ('foreign', 'disk', 'check', 'seqdb'):
        s['s'] = draw(F.shape(types=(0,) if op != 'foreign' else (0, 1))); s['prog'] = draw(F.program(4, 5))
    else:
        s['opt'] = draw(gen.options((0, 0, 1))); s['opt'].pop('null', None)
    if op in ('make', 'patch'): s['alone'] = draw(st.sampled_from([None, None, None, 'old', 'new']))
    if op in ('disk', 'check', 'seqdb'): s['plk'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    if op in ('check', 'seqdb'): s['mode'] = draw(st.sampled_from([1, 2]))
    if op in ('apply', 'foreign', 'disk'): s['tiny'] = draw(st.sampled_from([0, 1]))
    s['seed'] = draw(st.integers(0, 10 ** 6))
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 480 if tier == 'quick' else 8000

def directed(tier):
    f = lambda n, k='r', sz=2000, **x: dict(d=0, n=n, k='reg', c=[[k, 1, n * 50, sz + n]], **x)
    old = dict(files=[f(0), f(2, 't', 9000), dict(d=0, n=1, k='lnk', l='long/' * 20), f(3, f=1)], z=[C.GZIP, 9])
    new = dict(files=[f(0), dict(f(2), c=[['m', 1, 100, 2000, 64, 1]]), f(4, 't', 500)], z=[C.GZIP, 9], ver='1.1')
    base = dict(old=old, new=new, seed=1)
    n = 0
    for z in ([C.GZIP, 9], [C.BZIP2, 9], [C.LZMA, 2], [C.XZ, 2], [C.ZSTD, 3], [C.NONE, 0]):
        for dc in ([C.NONE, 0], [C.GZIP, 9], [C.BZIP2, 9], [C.LZMA, 1], [C.XZ, 1], [C.ZSTD, 3], [C.LZIP, 1], 'rpm'):
            n += 1
            for t in (0, 1):
                opt = dict(dc=dc, ac=[[C.BZIP2, 9], [C.GZIP, 1], [C.ZSTD, 1], [C.XZ, 1], [C.LZMA, 1], [C.LZIP, 1], [C.NONE, 0]][n % 7], seq=1)
                if t: opt['type'] = 1
                b = dict(base, old=dict(old, z=z), new=dict(new, z=z), opt=opt)
                if tier == 'thorough' or (n + t) % 2: yield dict(b, op='make', alone=None)
                if tier == 'thorough' or (n + t) % 2 == 0: yield dict(b, op='apply', tiny=n & 1)
                if n % 3 == 0: yield dict(b, op='read')
                if n % 7 == 0:
                    for a in ('old', 'new'): yield dict(b, op='make', alone=a)
    sh = dict(type=0, ver=3, wrap=[C.GZIP, 6], add='sparse', aw=[C.BZIP2, 9], md5='full', z=[C.GZIP, 9], dflt=True, seed=1, nadj=3, param=2)
    prog = [[[['a', 0.9, 3000], ['a', 0.0, 9000], ['a', 0.5, 5000], ['a', 0.0, 9000], ['a', 0.9, 2000]], 30]]
    for tiny in (0, 1):
        for op in ('foreign', 'disk'):
            for t in (0, 1) if op == 'foreign' else (0,):
                yield dict(base, op=op, tiny=tiny, s=dict(sh, type=t), prog=prog)
                yield dict(base, op=op, tiny=tiny, s=dict(sh, type=t), prog=prog * 5, old=dict(old, files=old['files'] + [dict(d=i, n='x%d' % i, k='reg', c=[['r', i, 0, 300 + i]]) for i in range(8)]))
        for plk in (1, 2, 3): yield dict(base, op='disk', tiny=tiny, s=sh, prog=prog, plk=plk)
    for mode in (1, 2):
        for op in ('check', 'seqdb'):
            for plk in (0, 1, 2): yield dict(base, op=op, mode=mode, s=sh, prog=prog, plk=plk)
    yield dict(base, op='seq', opt={})
    yield dict(base, op='opts', opt={})
    for a in (None, 'old'): yield dict(base, op='patch', opt={}, alone=a)

ALLTAGS = [(k, t) for t, ks in {0: [3], 1: [0, 1, 2], 2: [0, 1, 2], 3: [0, 1, 2], 4: [3], 5: [3], 6: [3], 7: [0, 1, 2], 8: [3], 9: [0, 1, 2], 10: [3], 11: [0, 1, 2],
           12: [4], 13: [3], 14: [0, 1, 2], 15: [4], 16: [4], 17: [0, 1, 2], 18: [0, 1, 2]}.items() for k in ks]

COLLECT = None          # set to a list while hunting by hand: all failures instead of the first

def bad_(msg):
    if COLLECT is None: raise Violation(msg)
    COLLECT.append(msg)

def run(ctx, spec, leak=None, code=None):
    """leak: instead of the outcomes, what calls leave behind is looked at (C15); a function giving the worker
    code: instead of the outcomes, the errors of disturbed calls are looked at (C23); a function"""
    op = spec['op']; opt = spec.get('opt', {})
    var = 'tinyfaults' if spec.get('tiny') else 'faults'
    outs = {}                                # outputs of the undisturbed call
    cleanup = []
    if op in ('disk', 'check', 'seqdb'):
        fs, old, files, part, order, ext = fscase.setup(ctx, spec)
        w = leak(var, fs) if leak else fs.worker(var)
        undone = fscase.prelinked(part, spec.get('plk', 0))
        w.raw('prelink', 1)
    else:
        w = leak(var, fsdb.get(ctx)) if leak else ctx.w(var)
        old = gen.realize(spec['old'])
    new = gen.realize(spec['new'])
    po, pn, pd, pq, px = ctx.put('old.rpm', old), ctx.put('new.rpm', new), ctx.path('d.drpm'), ctx.path('seqfile'), ctx.path('out.rpm')
    ctx.rm('d.drpm', 'seqfile', 'out.rpm')
    if op == 'patch':
        o = R.Rpm(old); nm = o.hdr.get(1000); evr = o.nevr()[len(nm) + 1:]
        if spec['alone'] == 'new': spec = dict(spec, alone=None)
        ents = [(f.path.lstrip(b'/'), f.mode, 0, len(f.content), b'\5' * 16) for f in gen.files_of(spec['old'])]
        pp = ctx.put('print', rpml.write(nm, evr, ents, [e[0] for e in ents[:1]], [b'p'] if ents else []))
        pl = ctx.put('list', rpml.write(nm, evr, ents))
    def read(*names):
        return {n: ctx.get(n) for n in names if os.path.exists(ctx.path(n))}
    if op in ('make', 'patch'):
        s = gen.apply_options(w, opt, 0, pq)
        cleanup.append(lambda: gen.drop_options(w, s))
        if op == 'patch':
            r = w.call('optpat', s, pp, pl); expect(r.rc == 0, 'adding patches is refused')
        a, b = {None: (po, pn), 'old': (po, None), 'new': (None, pn)}[spec['alone']]
        call = lambda: w.call('make', a, b, pd, s)
        names = ['d.drpm', 'seqfile']
    elif op in ('foreign', 'disk', 'check', 'seqdb'):
        d, b, tgt, _ = F.make(spec['s'], spec['prog'], old, ext=ext if op != 'foreign' else None)
        ctx.put('d.drpm', b)
        seq = (d.src_nevr + b'-' + d.sequence.hex().encode()).decode('utf-8', 'surrogateescape')
        if op in ('foreign', 'disk'):
            call = lambda: w.call('apply', None if op == 'disk' else po, pd, px); names = ['out.rpm']
        elif op == 'check': call = lambda: w.call('check', pd, spec['mode']); names = []
        else: call = lambda: w.call('checkseq', None, seq, spec['mode']); names = []
    else:
        r, _, _ = make(ctx, w, old, new, opt)
        expect(r.rc == 0, 'drpm_make failed: %s', err(r.rc))
        if op == 'apply': call = lambda: w.call('apply', po, pd, px); names = ['out.rpm']
        elif op == 'seq':
            d = D.parse(ctx.get('d.drpm'))
            if d.type: raise Skip('rpm-only')
            seq = (d.src_nevr + b'-' + d.sequence.hex().encode()).decode('utf-8', 'surrogateescape')
            call = lambda: w.call('checkseq', po, seq, 0); names = []
        elif op == 'read':
            names = []
            def call():
                r = w.call('read', 5, pd)
                return r
        elif op == 'opts':
            names = []
            w.call('optnew', 0); w.call('optnew', 1); w.call('optseq', 1, pq); w.call('optpat', 1, po, pn)
            cleanup += [lambda: w.call('optfree', 0), lambda: w.call('optfree', 1)]
            which = spec['seed'] % 3
            call = [lambda: w.call('optcopy', 0, 1), lambda: w.call('optseq', 0, pq), lambda: w.call('optpat', 0, po, pn)][which]
    def tags():
        return [w.call('get', 5, k, t, 0).extra for k, t in ALLTAGS]
    def once():
        """-> (rc, outputs, Res)"""
        for n in names: ctx.rm(n)
        r = call()
        o = read(*names) if r.rc == 0 else None
        if op == 'read' and r.rc == 0:
            o = tags()
            w.call('destroy', 5)
        return r.rc, o, r
    labels = ['op:' + op, 'worker:' + var]
    effective = 0
    try:
        rc0, want, r0 = once()
        expect(rc0 == 0, '%s undisturbed returns %s', op, err(rc0))
        rnd = random.Random(spec['seed'])
        def outcome(rc, got, what, again=None):
            if leak:
                if again is None or r.mem <= 0 and r.fd <= 0: return
                hist = []
                for i in range(5):
                    m0 = int(w.raw('mem')[0]); f0 = int(w.raw('fds')[0])
                    rc, got, r2 = again()
                    hist.append((int(w.raw('mem')[0]) - m0, int(w.raw('fds')[0]) - f0))
                    if i >= 1 and all(h[0] <= 0 and h[1] <= 0 for h in hist[-2:]): return
                for j, thing in ((0, 'allocated memory'), (1, 'number of open descriptors')):
                    if all(h[j] > 0 for h in hist[-3:]):
                        bad_('%s: with %s the %s grows with every call: by %s; the call returns %s' % (op, what, thing, [h[j] for h in hist], err(rc)))
                return
            if rc == 0:
                if got != want:
                    bad = [n for n in (want if isinstance(want, dict) else ['the values read']) if not isinstance(want, dict) or got.get(n) != want[n]]
                    bad_('%s: with %s the call reports success but %s is not what an undisturbed call gives' % (op, what, ', '.join(bad) or 'output'))
        cap = 70 if ctx.tier == 'quick' else 400
        cap = max(10, cap * 12 // max(12, len(spec['old']['files'])))        # each call takes long with many files
        for kind in range(4):
            n = r0.n[kind]
            pts = range(1, n + 1) if n <= cap else sorted(rnd.sample(range(1, n + 1), cap))
            for i in pts:
                for sticky in (0, 1) if ctx.tier != 'quick' or n <= 40 and cap > 40 else (rnd.randrange(2),):
                    def again():
                        w.raw('fault', kind, i, sticky)
                        return once()
                    try:
                        rc, got, r = again()
                    except Crash as e:
                        bad_('%s: %s %d of %d failing%s: %s' % (op, KIND[kind], i, n, ' from there on' if sticky else '', e)); continue
                    if r.fired: effective += 1
                    if code:
                        if r.fired and rc: code(op, kind, i, n, sticky, rc)
                        continue
                    outcome(rc, got, '%s %d of %d failing%s' % (KIND[kind], i, n, ' from there on' if sticky else ''), again)
                    if op == 'opts' and rc:
                        # the object is still usable
                        r = w.call('optcopy', 2, 0) if 0 else w.call('opttype', 0, 0)
                        expect(r.rc == 0, 'options are unusable after a failed call')
        if op == 'read' and not code:
            expect(w.call('read', 5, pd).rc == 0, 'drpm_read failed')
            base = tags()
            for j, (k, t) in enumerate(ALLTAGS):
                if k < 3: continue
                w.raw('fault', 0, 1, 0)
                r = w.call('get', 5, k, t, 0)
                effective += r.fired
                expect(r.rc != 0 or r.extra == base[j], 'reading item %d with a failing allocation reports success with another value', t)
                expect(w.call('get', 5, k, t, 0).extra == base[j], 'item %d is different after a failed allocation', t)
            w.call('destroy', 5)
        if names and not leak:
            size = max([len(v) for v in want.values()] or [0])
            pts = set(range(0, min(size, 4))) | {size - 1, size - 2, 100, 107, 108} | {rnd.randrange(size) for _ in range(24 if ctx.tier == 'quick' else 200)}
            if 'seqfile' in want: pts |= set(range(0, len(want['seqfile']) + 1, 5))
            for lim in sorted(p for p in pts if 0 <= p < size):
                # librpm's database gets into trouble when its own files are limited
                w.raw('quota' if op == 'disk' or lim & 1 else 'fsize', lim)
                try:
                    rc, got, r = once()
                except Crash as e:
                    bad_('%s: output limited to %d of %d bytes: %s' % (op, lim, size, e)); continue
                finally:
                    if w.p: w.raw('fsize', -1); w.raw('quota', -1)
                effective += 1
                if code:
                    if rc: code(op, 2, lim, size, 1, rc)
                    continue
                outcome(rc, got, 'output limited to %d of %d bytes' % (lim, size))
            if op in ('apply', 'foreign', 'disk', 'make', 'patch') and not code:
                r = w.call('apply', None if op == 'disk' else po, pd, '/dev/full') if names == ['out.rpm'] else w.call('make', a, b, '/dev/full', s)
                expect(r.rc != 0, '%s: success is reported with a full output medium', op)
        for p in undone if op in ('disk', 'check', 'seqdb') and not code else ():
            os.rename(p + '.undo', p + '.gone')
            try: rc, got, r = once()
            except Crash as e:
                bad_('%s: undoing prelink failing: %s' % (op, e)); continue
            outcome(rc, got, 'undoing prelink failing', once)
            effective += 1
            os.rename(p + '.gone', p + '.undo')
        for lim in range(3, 12) if not code else ():
            w.raw('nofile', lim)
            try:
                rc, got, r = once()
            finally:
                if w.p: w.raw('nofile', 1024)
            outcome(rc, got, 'at most %d open descriptors' % lim)
            if leak: break
        rc, got, r = once()
        expect(rc == 0, '%s returns %s once the fault is gone', op, err(rc))
        outcome(rc, got, 'no fault any more')
    finally:
        if w.p:
            for f in cleanup: f()
    labels.append('faults:%s' % ('10+' if effective >= 10 else effective))
    return labels

def nontrivial(labels):
    return 'faults:10+' in labels
