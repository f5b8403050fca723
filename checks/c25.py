"""Calls made in several threads at once do the same as when they are made one after another."""
import os, subprocess, random
from hypothesis import strategies as st
from kit import gen, build, foreign as F, fsdb, fscase, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C25'
LEVEL = 'exploration'
VARIANTS = ['tsan', 'tinytsan', 'fast']
RULE = ('at least two threads, started together and several times over, made, applied, read, queried or checked deltas, and every outcome (return value, written files, '
        'reported values) was compared with the same calls made one after another; non-trivial when at least two threads make calls of the same kind; distinct by the generated case')
ASSUMPTIONS = ['a data race is one that the thread sanitizer reports in the library\'s own code; races inside librpm or the compression libraries are not looked for',
               'each thread has option records, handles and output files of its own; option records and handles that are only read may be shared',
               'use of the package database is made from one thread at a time (librpm\'s own rules)']

OPS = ['make', 'make', 'make', 'apply', 'apply', 'apply', 'read', 'read', 'get', 'seq', 'seq', 'opts', 'err', 'bad']
Z = [[C.GZIP, 6], [C.BZIP2, 1], [C.XZ, 1], [C.LZMA, 1], [C.ZSTD, 3], [C.LZIP, 1], [C.NONE, 0]]

@st.composite
def op(draw):
    return [draw(st.sampled_from(OPS)), draw(st.integers(0, 7)), draw(st.integers(0, 40))]

@st.composite
def strategy_(draw, tier):
    pk = []
    for i in range(draw(st.sampled_from([1, 2, 2]))):
        a = draw(gen.package(gen.MID, maxfiles=5))
        pk.append(dict(old=a, new=draw(gen.mutated(a, gen.MID)), s=draw(F.shape()), prog=draw(F.program(4, 4))))
    ts = draw(st.lists(st.lists(op(), min_size=1, max_size=4), min_size=2, max_size=6))
    return dict(pk=pk, ts=ts, tiny=draw(st.sampled_from([0, 1])))

def strategy(tier):
    return strategy_(tier)

def examples(tier):
    return 1000 if tier == 'quick' else 12000

def directed(tier):
    f = lambda n, k='r', sz=2000, **x: dict(d=0, n=n, k='reg', c=[[k, 1, n * 50, sz + n]], **x)
    prog = [[[['a', 0.9, 3000], ['a', 0.0, 9000], ['a', 0.5, 5000], ['a', 0.0, 9000], ['a', 0.9, 2000]], 30]] * 3
    # the same kind of call in all threads, on the same and on different inputs, for every kind and compression
    for i, z in enumerate(Z):
        old = dict(files=[f(0), f(2, 't', 9000), dict(d=0, n=1, k='lnk', l='long/' * 20), f(3, f=1)], z=z)
        new = dict(files=[f(0), dict(f(2), c=[['m', 1, 100, 2000, 64, 1]]), f(4, 't', 500)], z=z, ver='1.1')
        o2 = dict(old, files=[f(0, 't', 30000)] + [f(j) for j in range(5, 9)], z=Z[(i + 3) % 7]); n2 = dict(o2, files=o2['files'][1:] + [f(9, 'r', 700)], ver='1.2')
        for t in (0, 1):
            pk = [dict(old=old, new=new, prog=prog, s=dict(type=t, ver=3, wrap=z if z[0] != C.LZIP else [C.GZIP, 1], add='sparse', aw=Z[(i + 1) % 7] if i != 5 else [C.GZIP, 9], md5='full', z=[C.GZIP, 9], dflt=True, seed=1)),
                  dict(old=o2, new=n2, prog=prog, s=dict(type=1 - t, ver=3, wrap=[C.GZIP, 6], add=None, md5='full', z=z if z[0] != C.LZIP else [C.XZ, 1], dflt=True, seed=2))]
            for kind in ('make', 'apply', 'read', 'seq', 'bad') + (('get', 'opts', 'err') if i == 0 else ()):
                yield dict(pk=pk, ts=[[[kind, j, i + 7 * j]] for j in range(4)], tiny=t)
                yield dict(pk=pk, ts=[[[kind, 2 * j, i + 14 * j], [kind, 2 * j + 1, i + 3]] for j in range(3)], tiny=1 - t)
            yield dict(pk=pk, ts=[[[k, j, i + j]] for j, k in enumerate(('make', 'apply', 'read', 'seq', 'bad', 'apply'))], tiny=t)

def optfields(i, seqfile):
    """option values number i as fields of the script"""
    dc = [None, [-1, 0]] + Z; ac = [None] + [z for z in Z]
    d = dc[i % len(dc)]; a = ac[i // 3 % len(ac)]
    return ['1' if i % 2 else '', str(1 + i % 3) if not i % 2 and i % 5 else '', '' if not d else str(d[0]), '' if not d else str(d[1]),
            '' if not a else str(a[0]), '' if not a else str(a[1]), '1' if i % 7 == 6 else '', seqfile]

def run(ctx, spec):
    var = 'tinytsan' if spec['tiny'] else 'tsan'
    exe = ctx.cache.get(var) or ctx.cache.setdefault(var, build.build(var))
    w = ctx.w('fast')
    fs = fsdb.get(ctx)
    lines = []; pk = []
    add = lambda who, *a: lines.append('\t'.join([str(who)] + ['\\N' if x is None else str(x) for x in a]))
    for i, p in enumerate(spec['pk']):
        old = gen.realize(p['old']); new = gen.realize(p['new'])
        po = ctx.put('old%d.rpm' % i, old); pn = ctx.put('new%d.rpm' % i, new)
        d, b, tgt, _ = F.make(p['s'], p['prog'], old)
        fd = ctx.put('f%d.drpm' % i, b)
        r = w.call('make', po, pn, ctx.path('l%d.drpm' % i), None)
        mine = r.rc == 0
        if not mine and p['new'].get('z', [C.GZIP])[0] != C.LZIP: raise Violation('drpm_make failed: %s' % err(r.rc))
        ident = d.src_nevr.decode('utf-8', 'surrogateescape') + '-' + (D.parse(ctx.get('l%d.drpm' % i)) if p['s']['type'] and mine else d).sequence.hex()
        cut = ctx.put('c%d.drpm' % i, b[:len(b) * 2 // 3])
        pk.append((po, pn, [fd, ctx.path('l%d.drpm' % i) if mine else fd], ident, cut))
        add('S', 'read', i, fd)
        add('S', 'opts', i, *optfields(i + 5, ''))
    n = len(pk); outs = 0; kinds = []
    for t, ops in enumerate(spec['ts']):
        ks = set()
        for k, x, y in ops:
            po, pn, ds, ident, cut = pk[x % n]
            outs += 1; ks.add(k)
            if k == 'make':
                out = ctx.path('o%d.drpm' % outs); sq = ctx.path('q%d' % outs)
                a, b = [(po, pn), (po, pn), (po, pn), (po, None), (None, pn)][y % 5]
                if y % 11 == 10: add(t, 'make', a, b, out, None, 'S%d' % (x % n))
                else: add(t, 'make', a, b, out, sq, 'own', *optfields(y, sq))
            elif k == 'apply': add(t, 'apply', po, ds[y % 2], ctx.path('o%d.rpm' % outs))
            elif k == 'read': add(t, 'read', (ds + [po])[y % 3 if y % 3 < 2 or y > 30 else 0])
            elif k == 'get': add(t, 'get', x % n)
            elif k == 'seq': add(t, 'seq', po, ident if y % 3 else ident[:-1] + ('0' if ident[-1] != '0' else '1'), 0)
            elif k == 'opts': add(t, 'opts', *optfields(y, ctx.path('nothing')))
            elif k == 'err': add(t, 'err')
            else:
                if y % 3 == 0: add(t, 'read', cut)
                elif y % 3 == 1: add(t, 'apply', po, cut, ctx.path('o%d.rpm' % outs))
                else: add(t, 'apply', pn, ds[0], ctx.path('o%d.rpm' % outs))
        kinds.append(ks)
    script = ctx.put('script', os.fsencode('\n'.join(lines) + '\n'))
    env = dict(os.environ, HOME=fs.home, LC_ALL='C', TSAN_OPTIONS='exitcode=66:halt_on_error=1:ignore_noninstrumented_modules=1:report_signal_unsafe=0:report_thread_leaks=0:history_size=3:allocator_may_return_null=1')
    def go(mode, rounds):
        try:
            q = subprocess.run([exe, script, mode, str(rounds)], capture_output=True, env=env, cwd=ctx.dir, timeout=300)
        except subprocess.TimeoutExpired:
            raise Violation('calls in %d threads do not return' % len(spec['ts']))
        o = q.stdout.decode('latin1').split('\n')
        if q.returncode or 'done' not in o:
            e = q.stderr.decode('latin1')
            if mode == 'par':
                keep = [l.strip() for l in e.splitlines() if 'WARNING' in l or 'ERROR' in l or 'HANG' in l or ' of size ' in l or l.strip().startswith('#') or 'SUMMARY' in l]
                raise Violation('calls in %d threads fail (status %d)\n%s' % (len(spec['ts']), q.returncode, '\n'.join(keep[:24])))
            raise Violation('calls one after another fail (status %d) %s' % (q.returncode, e[-600:]))
        return [l.split('\t') for l in o if l and l != 'done']
    want = {(l[0], l[2]): l[3:] for l in go('seq', 1)}
    rounds = 3 if ctx.tier == 'quick' else 8
    got = go('par', rounds)
    expect(len(got) == rounds * len(want), 'lost calls')
    ops = [l.split('\t')[1:] for l in lines if l[0] != 'S']
    for l in got:
        if l[3:] != want[l[0], l[2]]:
            raise Violation('%r in thread %s of %d returns %s (results %s), but %s (%s) when made alone' % (
                spec['ts'][int(l[0])][int(l[2])][0], l[0], len(spec['ts']), err(int(l[3])), ' '.join(l[4:]), err(int(want[l[0], l[2]][0])), ' '.join(want[l[0], l[2]][1:])))
    labels = ['threads:%d' % len(spec['ts']), 'worker:' + var] + sorted({'op:' + k for ks in kinds for k in ks})
    if any(sum(k in ks for ks in kinds) > 1 for k in set().union(*kinds)): labels.append('nt')
    return labels + ['outcome:' + err(int(v[0])) for v in want.values()]

def nontrivial(labels):
    return 'nt' in labels
