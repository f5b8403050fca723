"""The error of a failing call tells what went wrong."""
import os, shutil, stat
from hypothesis import strategies as st
from kit import gen, foreign as F, fsdb, fscase, rpmfmt as R, delta as D, comp as C
from kit.common import *
from kit.runner import Violation, Skip
from . import c11, c12, c14, c15, c21

ID = 'C23'
LEVEL = 'exploration'
VARIANTS = ['asan', 'tiny', 'faults', 'tinyfaults']
RULE = ('calls were made to fail for a known reason: each allocation, read, write, open and seek failing in turn, every kind of unusable input and output in every role, other source packages, changed or '
        'missing installed packages, damaged inputs in histories of calls; the error was compared with that reason; non-trivial when at least one call failed; distinct by the generated case')
ASSUMPTIONS = ['allocations: those made by the library\'s own code', 'reads, writes, opens and seeks: the library\'s own on any file, and those librpm and the compression libraries make on the given packages and deltas',
               'failing reads of patch lists are left out']

NAME = {0: (MEMORY, 'allocation'), 1: (IO, 'read'), 2: (IO, 'write'), 3: (IO, 'open or seek')}
BADPKG = ['missing', 'nodir', 'dir', 'empty', 'text', 'cut', 'magic', 'delta', 'other', 'content', 'self']
PKGROLE = ['make-old', 'make-new', 'make-alone', 'apply-old', 'seq-old']
BADDELTA = ['missing', 'nodir', 'dir', 'empty', 'text', 'cut', 'package', 'magic']
DELTAROLE = ['apply', 'read', 'check']
BADOUT = ['nodir', 'dir', 'full']
DISK = ['none', 'decoy', 'flip0', 'fliplast', 'append', 'truncate1', 'empty', 'touch']

@st.composite
def strategy_(draw, tier):
    k = draw(st.sampled_from(['pkg'] * 8 + ['delta'] * 6 + ['out', 'out', 'disk', 'disk', 'disk', 'hist', 'hist', 'hist', 'dmg', 'dmg', 'dmg', 'fault']))
    if k == 'fault': return dict(k=k, s=draw(c14.strategy(tier)))
    if k == 'dmg': return dict(k=k, s=draw(c21.strategy(tier)))
    if k == 'hist': return dict(k=k, s=draw(c15.strategy(tier).filter(lambda s: 'faults' not in s)))
    if k == 'disk': s = dict(draw(fscase.installed(tier)), k=k, bad=draw(st.sampled_from(DISK)), mode=draw(st.sampled_from([1, 1, 2])), call=draw(st.sampled_from(['check', 'seq', 'apply'])), i=draw(st.integers(0, 60)), s=draw(F.shape(types=(0,))), prog=draw(F.program(3, 3)))
    else:
        s = dict(k=k, old=draw(gen.package(gen.MID, maxfiles=4)))
        s['new'] = draw(gen.mutated(s['old'], gen.MID)); s['opt'] = draw(gen.options((0, 0, 1)))
        s['pos'] = draw(st.floats(0, 0.999))
        if k == 'pkg': s['role'] = draw(st.sampled_from(PKGROLE)); s['bad'] = draw(st.sampled_from(BADPKG + ['cut'] * 4))
        elif k == 'delta': s['role'] = draw(st.sampled_from(DELTAROLE)); s['bad'] = draw(st.sampled_from(BADDELTA + ['cut'] * 6))
        else: s['role'] = draw(st.sampled_from(['make', 'alone', 'apply', 'seqfile'])); s['bad'] = draw(st.sampled_from(BADOUT))
    return s

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 3500 if tier == 'quick' else 60000

def directed(tier):
    f = lambda n, k='r', sz=2000, **x: dict(d=0, n=n, k='reg', c=[[k, 1, n * 50, sz + n]], **x)
    old = dict(files=[f(0), f(2, 't', 9000), dict(d=0, n=1, k='lnk', l='long/' * 20), f(3, f=1)], z=[C.GZIP, 9])
    new = dict(files=[f(0), dict(f(2), c=[['m', 1, 100, 2000, 64, 1]]), f(4, 't', 500)], z=[C.GZIP, 9], ver='1.1')
    for z in ([C.GZIP, 9], [C.BZIP2, 9], [C.LZMA, 2], [C.XZ, 2], [C.ZSTD, 3], [C.LZIP, 3], [C.NONE, 0]):
        for t in (0, 1):
            base = dict(old=dict(old, z=z), new=dict(new, z=z if z[0] != C.LZIP else [C.GZIP, 9]), opt=dict(type=t, dc=z, ac=z))
            n = 20 if tier == 'quick' else 100
            for role in PKGROLE:
                for bad in BADPKG:
                    for i in range(n) if bad == 'cut' else (0,): yield dict(base, k='pkg', role=role, bad=bad, pos=(i + .5) / n)
            for role in DELTAROLE:
                for bad in BADDELTA:
                    for i in range(n) if bad == 'cut' else (0,): yield dict(base, k='delta', role=role, bad=bad, pos=(i + .5) / n)
            for role in ('make', 'alone', 'apply', 'seqfile'):
                for bad in BADOUT: yield dict(base, k='out', role=role, bad=bad, pos=0)
    sh = dict(type=0, ver=3, wrap=[C.GZIP, 6], add=None, md5='full', z=[C.GZIP, 9], dflt=True, seed=1)
    many = dict(old, files=old['files'] + [dict(d=i % 3, n='x%d' % i, k='reg', c=[['r', i, 0, 300 + i]]) for i in range(60)])
    for o in (old, many):
        for bad in DISK:
            for mode in (1, 2):
                for call in ('check', 'seq', 'apply'):
                    for i in (0, 1): yield dict(old=o, k='disk', bad=bad, mode=mode, call=call, i=i, s=sh, prog=[[[['a', 0.0, 30000]], 3]])
    for i, s in enumerate(c21.directed(tier)):
        if tier == 'thorough' or i % 3 == 0 or s['m'][0][0] in ('drop', 'typ', 'e'): yield dict(k='dmg', s=s)
    for i, s in enumerate(c14.directed(tier)):
        if tier == 'thorough' or i % 2 or s['op'] not in ('make', 'apply'): yield dict(k='fault', s=s)
    for i, s in enumerate(c15.directed(tier)):
        if 'faults' not in s and (tier == 'thorough' or i % 2): yield dict(k='hist', s=s)

def run_disk(ctx, spec):
    fs, old, files, part, order, ext = fscase.setup(ctx, spec)
    w = fs.worker('asan'); w.raw('prelink', 1)
    d, b, tgt, _ = F.make(spec['s'], spec['prog'], old, ext=ext)
    pd = ctx.put('d.drpm', b)
    seq = (d.src_nevr + b'-' + d.sequence.hex().encode()).decode('utf-8', 'surrogateescape')
    bad, mode = spec['bad'], spec['mode']
    want = None
    if bad in ('none', 'decoy'):
        shutil.rmtree(fs.db, ignore_errors=True)
        if bad == 'decoy': fs.install(*fscase.decoys(spec['old'], 3))
        want = NOINSTALL
    else:
        if not part: raise Skip('no files to change')
        p = os.fsdecode(sorted(part)[spec['i'] % len(part)])
        c12.modify(p, bad, 0)
        size = part[os.fsencode(p)][0]
        changed = bad not in ('touch', 'append')
        if mode == 2: changed = os.stat(p).st_size != size
        if bad == 'touch': want = OK
        elif changed: want = MISMATCH
        elif bad in ('append',): want = OK if mode == 1 else MISMATCH
        else: want = OK
        if spec['call'] == 'apply': raise Skip('covered by the result')
    if spec['call'] == 'check': r = w.call('check', pd, mode)
    elif spec['call'] == 'seq': r = w.call('checkseq', None, seq, mode)
    else: r = w.call('apply', None, pd, ctx.path('out.rpm'))
    expect(r.rc == want, '%s (mode %d) with %s returns %s, not %s', spec['call'], mode, {'none': 'no installed package', 'decoy': 'only other packages installed'}.get(bad, 'a participating file changed (%s)' % bad), err(r.rc), err(want))
    return ['disk:' + bad, 'error:' + err(r.rc)]

def run_damaged(ctx, spec):
    w = ctx.w('asan')
    role = spec['role']; old, new = gen.realize(spec['old']), gen.realize(spec['new'])
    opt = spec['opt']
    if role == 'new': x = new = c21.damage(spec, spec['new'])
    else: x = old = c21.damage(spec, spec['old'])
    if role == 'alone': new = None; opt = {k: v for k, v in opt.items() if k != 'type'}
    r, pd, _ = make(ctx, w, old, new, opt)
    expect(r.rc in (OK, FORMAT, OTHER, OVERFLOW), 'drpm_make with a damaged package (%s) returns %s', spec['k'], err(r.rc))
    try: payload = R.Rpm(x).payload
    except Exception: payload = b''
    if len(payload) >= 8 and spec['k'] in ('payload', 'archive') and not (role == 'old' and opt.get('type')) and c21.complete(payload) is False:
        expect(r.rc == FORMAT, 'drpm_make with a payload that does not decompress (method %s) returns %s, not FORMAT', C.detect(payload), err(r.rc))
    return ['damaged:' + spec['k'], 'error:' + err(r.rc)]

def headers_end(b):
    try: return len(b) - len(R.Rpm(b).payload)
    except Exception: return 0

def run(ctx, spec):
    k = spec['k']
    if k == 'disk': return run_disk(ctx, spec)
    if k == 'dmg': return run_damaged(ctx, spec['s'])
    if k == 'hist':
        try: labels = c15.run(ctx, spec['s'])
        except Violation: raise Skip('a matter of C15')
        for l in labels: expect(not l.endswith(':PROG'), '%s returns PROG', l.split(':')[0])
        return ['history'] + ['error:' + l.split(':')[1] for l in labels if l.split(':')[0] in ('make', 'apply', 'read', 'check', 'checkseq')]
    if k == 'fault':
        seen = set()
        def code(op, kind, i, n, sticky, rc):
            if op == 'patch' and kind in (1, 3): return
            want, what = NAME[kind]
            seen.add(want)
            expect(rc == want, '%s: %s %d of %d failing%s is reported as %s, not %s', op, what, i, n, ' from there on' if sticky else '', err(rc), err(want))
        c14.run(ctx, spec['s'], code=code)
        return ['fault:' + spec['s']['op']] + ['error:' + err(x) for x in seen]
    w = ctx.w('asan')
    old, new = gen.realize(spec['old']), gen.realize(spec['new'])
    opt = spec['opt']; role, bad, pos = spec['role'], spec['bad'], spec['pos']
    if role == 'alone' and C.detect(R.Rpm(old).payload) == C.LZIP: raise Skip('lzip cannot be recorded in deltas')
    r, pd, _ = make(ctx, w, old, new, dict(opt, seq=0))
    expect(r.rc == 0, 'drpm_make failed: %s', err(r.rc))
    delta = ctx.get('d.drpm'); d = D.parse(delta)
    po, pn = ctx.put('old.rpm', old), ctx.put('new.rpm', new)
    out = ctx.path('o'); ctx.rm('o', 'bad'); os.makedirs(ctx.path('adir'), exist_ok=True)
    place = {'missing': ctx.path('missing'), 'nodir': ctx.path('none/x'), 'dir': ctx.path('adir'), 'full': '/dev/full'}
    want = {IO} if bad in place else {FORMAT}
    if bad == 'empty': x = b''
    elif bad == 'text': x = b'Hello, world. ' * 200
    elif bad == 'magic' and k == 'pkg': x = b'\xed\xab\xee\xda' + old[4:]
    elif bad == 'magic': x = b'drpn' + delta[4:] if delta[:4] == b'drpm' else b'\xed\xab\xee\xda' + delta[4:]
    elif bad == 'delta': x = delta
    elif bad == 'package': x = new
    elif bad == 'self': x = new; want = {MISMATCH}
    elif bad == 'other': x = gen.realize(dict(spec['old'], ver='77')); want = {MISMATCH}
    elif bad == 'content': x = gen.realize(dict(spec['old'], files=spec['old']['files'] + [dict(d=0, n='added', k='reg', c=[['b', 65, 100]])])); want = {MISMATCH}
    elif bad == 'cut' and k == 'pkg':
        src = new if role == 'make-new' else old
        x = src[:int(pos * headers_end(src))]
    elif bad == 'cut':
        x = delta[:int(pos * len(delta))]; want = {FORMAT, OK}
        if len(delta) - len(x) > 160: want = {FORMAT}
    else: x = None
    p = place.get(bad) if x is None else ctx.put('bad', x)
    if k == 'pkg':
        if bad in ('self', 'other', 'content') and role not in ('apply-old', 'seq-old'): raise Skip('a good package')
        if bad == 'self' and (R.Rpm(old).nevr() == R.Rpm(new).nevr() or old == new): raise Skip('the same package')
        if bad == 'content' and not d.type and c11.verdict(R.Rpm(x), d.src_nevr, d.sequence, True) is not False: raise Skip('still the source')
        if bad == 'delta' and role in ('apply-old', 'seq-old'): raise Skip('its header is the new one')
    s = None
    if role == 'seq-old':
        if d.type: raise Skip('rpm-only')
        seq = (d.src_nevr + b'-' + d.sequence.hex().encode()).decode('utf-8', 'surrogateescape')
        r = w.call('checkseq', p, seq, 0)
    elif role == 'apply-old': r = w.call('apply', p, pd, out)
    elif k == 'out' and role == 'apply': r = w.call('apply', po, pd, p)
    elif role == 'apply': r = w.call('apply', po, p, out)
    elif role == 'read':
        r = w.call('read', 5, p)
        if r.rc == 0: w.call('destroy', 5)
    elif role == 'check':
        r = w.call('check', p, 1)
        if want == {FORMAT, OK}: want = {FORMAT, NOINSTALL, ARGS}
    else:
        if role == 'seqfile' and (opt.get('type') or bad == 'missing'): raise Skip('no sequence file')
        s = gen.apply_options(w, dict(opt, null=0, seq=0), 0, ctx.path('seqfile'))
        if role == 'seqfile': expect(w.call('optseq', s, p).rc == 0, 'naming a sequence file is refused')
        a = {'make-old': (p, pn, out), 'make-new': (po, p, out), 'make-alone': (p, None, out), 'make': (po, pn, p), 'alone': (po, None, p), 'seqfile': (po, pn, out)}[role]
        r = w.call('make', *a, s)
        gen.drop_options(w, s)
    expect(r.rc in want, '%s with %s (%s) returns %s, not %s', role, {'pkg': 'an unusable package', 'delta': 'an unusable delta', 'out': 'an unusable output'}[k], bad, err(r.rc), ' or '.join(map(err, sorted(want))))
    return ['%s:%s' % (role, bad), 'error:' + err(r.rc)]

def nontrivial(labels):
    return any(l.startswith('error:') and l != 'error:OK' for l in labels)
