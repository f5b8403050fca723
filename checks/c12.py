"""The on-disk checks predict whether reconstruction can work."""
import os, stat, random, shutil, struct
from hypothesis import strategies as st
from kit import gen, foreign as F, fsdb, fscase, rpmfmt as R, delta as D, comp as C
from kit.common import *
from kit.fscase import elf

ID = 'C12'
LEVEL = 'exploration'
VARIANTS = ['asan', 'tiny']
RULE = ('an installed package with at least one participating regular file was checked (both modes, from the delta and from its sequence identifier) after at least '
        'one modification of a file on disk, and the verdicts were compared with the files on disk; distinct by the generated case')
ASSUMPTIONS = ['prelink is a stand-in inside the worker that undoes FILE to FILE.undo', 'the scratch database written by the rpm tool represents an installed package']

HOW = ['prelink', 'prelink', 'prelinkbad', 'prelinkgone', 'prelinkshort', 'flip0', 'flipmid', 'fliplast', 'append', 'truncate1', 'empty', 'missing', 'dir', 'symlink', 'touch', 'appendzero', 'elf', 'elfbad', 'grow8k', 'shrinkpad', 'dangling', 'rewrite', 'fliptail']

@st.composite
def strategy_(draw, tier):
    s = draw(fscase.installed(tier))
    s['var'] = draw(st.sampled_from(['asan', 'asan', 'tiny']))
    s['mods'] = draw(st.lists(st.tuples(st.integers(0, 60), st.sampled_from(HOW), st.sampled_from(['part', 'part', 'any'])).map(list), max_size=3))
    s['inst'] = draw(st.sampled_from([1] * 14 + [0, 2]))
    s['s'] = draw(F.shape(types=(0,)))
    s['prog'] = draw(F.program(3, 4))
    s['chld'] = draw(st.sampled_from([1, 1, 0]))
    s['tool'] = draw(st.sampled_from([1, 1, 1, 0]))
    s['elf'] = draw(st.integers(0, 15))
    return s

def strategy(tier):
    return strategy_(tier)

def modify(p, how, e, undone=None):
    """p: path of an existing regular file"""
    if not os.path.isfile(p) or os.path.islink(p):
        return
    d = open(p, 'rb').read(); n = len(d)
    def put(b):
        with open(p, 'wb') as f: f.write(b)
    if how == 'flip0' and n: put(bytes([d[0] ^ 1]) + d[1:])
    elif how == 'flipmid' and n: put(d[:n // 2] + bytes([d[n // 2] ^ 128]) + d[n // 2 + 1:])
    elif how == 'fliplast' and n: put(d[:-1] + bytes([d[-1] ^ 1]))
    elif how == 'append': put(d + b'x')
    elif how == 'appendzero': put(d + b'\0' * 4)
    elif how == 'grow8k': put(d + b'y' * 9000)
    elif how == 'truncate1' and n: put(d[:-1])
    elif how == 'empty': put(b'')
    elif how == 'missing': os.unlink(p)
    elif how == 'dir': os.unlink(p); os.mkdir(p)
    elif how == 'symlink': os.rename(p, p + '.moved'); os.symlink(p + '.moved', p)
    elif how == 'dangling': os.unlink(p); os.symlink(p + '.gone', p)
    elif how == 'touch': os.utime(p, (1, 1)); os.chmod(p, 0)
    elif how == 'rewrite': os.unlink(p); put(d)
    elif how == 'elf': put(elf(e % 4, n))
    elif how in ('prelink', 'prelinkbad', 'prelinkgone', 'prelinkshort'):
        b = elf(e % 4, n, True)
        put(b + b'\x5a' * (0, 1, 200, 9000)[e // 4 % 4])
        if how == 'prelinkbad' and n: d = d[:n // 2] + bytes([d[n // 2] ^ 1]) + d[n // 2 + 1:]
        if how == 'prelinkshort': d = d[:n * 2 // 3]
        if how == 'prelinkgone': d = b''                         # the tool fails and leaves nothing
        else:
            with open(p + '.undo', 'wb') as f: f.write(d)
        if undone is not None: undone[p] = d
    elif how == 'elfbad': put(elf(4 + e % 16, n))
    elif how == 'shrinkpad' and n > 4: put(d[:n // 2] + b'\0' * (n - n // 2))
    elif how == 'fliptail' and n > 8192: put(d[:8192] + bytes([d[8192] ^ 1]) + d[8193:])

def directed(tier):
    base = dict(type=0, ver=3, wrap=[C.GZIP, 6], add=None, md5='full', z=[C.GZIP, 9], dflt=True, seed=1)
    for size in (1, 2, 51, 52, 63, 64, 127, 128, 129, 4095, 4096, 4097, 8191, 8192, 8193, 20000):
        for algo in (8, 1):
            p = dict(files=[dict(d=0, n=0, k='reg', c=[['t', 1, 0, size]]), dict(d=0, n=1, k='reg', f=1, c=[['t', 1, 0, 10]])], z=[C.GZIP, 9], algo=algo)
            for how in sorted(set(HOW)):
                for e in range(16) if how.startswith('prelink') or how == 'elfbad' and algo == 8 and size in (1, 64, 8192) else range(10) if how.startswith('elf') and algo == 8 and size in (1, 64, 8192) else (0,):
                    for tgt in (0, 1) if how in ('flip0', 'missing', 'append') else (0,):
                        yield dict(old=p, mods=[[tgt, how, 'any']], inst=1, s=base, prog=[[[['a', 0.0, 30000]], 3]], elf=e)

def examples(tier):
    return 2600 if tier == 'quick' else 40000

def run(ctx, spec):
    fs, old, files, part, order, ext = fscase.setup(ctx, spec)
    w = fs.worker(spec.get('var', 'asan'))
    d, b, new, _ = F.make(spec['s'], spec['prog'], old, ext=ext)
    ctx.put('d.drpm', b)
    seq = (d.src_nevr + b'-' + d.sequence.hex().encode()).decode('utf-8', 'surrogateescape')
    reg = [f.path for f in files if stat.S_ISREG(f.mode)]
    pp = sorted(part); undone = {}; done = set()
    for i, how, which in spec['mods']:
        l = pp if which == 'part' else reg
        if l and l[i % len(l)] not in done:        # every file once: what a second change makes of a prelinked file is not modelled
            done.add(l[i % len(l)]); modify(os.fsdecode(l[i % len(l)]), how, spec['elf'], undone)
    w.raw('prelink', spec.get('tool', 1)); w.raw('sigchld', spec.get('chld', 1))
    installed = spec['inst'] == 1
    if not installed:
        shutil.rmtree(fs.db, ignore_errors=True)
        fs.install(*fscase.decoys(spec['old'], 3))
        if spec['inst'] == 2:                     # another build of the same name, version and release
            q = dict(fsdb.rooted(ctx, spec['old']))
            q['files'] = q['files'] + [dict(d=1, n='added', k='reg', c=[['b', 7, 77]])]
            fs.install(gen.realize(q))
    okfull = oksize = True; read = True
    for path, (size, dg) in part.items():
        p = os.fsdecode(path)
        try:
            sz = os.stat(p).st_size
            if p in undone and sz > size and spec.get('tool', 1): sz = size if fscase.digest(undone[p][:size], dg) else -1
            oksize &= sz == size
        except OSError:
            oksize = False
        try:
            c = open(p, 'rb').read()
            if p in undone and len(c) > size: c = undone[p] if spec.get('tool', 1) else b''
            c = c[:size]
            okfull &= len(c) == size and fscase.digest(c, dg)
        except OSError:
            okfull = False
    labels = []
    res = {}
    for name, want, mode in (('full', okfull, 1), ('filesizes', oksize, 2)):
        for how, r in (('delta', w.call('check', ctx.path('d.drpm'), mode)), ('sequence', w.call('checkseq', None, seq, mode))):
            if spec['inst'] == 0:
                expect(r.rc == NOINSTALL, '%s check by %s of a package that is not installed returns %s', name, how, err(r.rc))
            elif spec['inst'] == 2:
                # order of files or their digests differ from the sequence only if the added file takes part; it never does in the sequence
                pass
            elif want:
                expect(r.rc == OK, '%s check by %s returns %s although all participating files are as recorded', name, how, err(r.rc))
            else:
                expect(r.rc != OK, '%s check by %s succeeds although a participating file differs on disk', name, how)
            res[name] = r.rc == OK
    if installed and okfull:
        r = apply(ctx, w, None, None)
        expect(r.rc == OK, 'the full check succeeds but the application from disk returns %s', err(r.rc))
        same_bytes(ctx.get('out.rpm'), new, 'the package rebuilt from installed files')
    labels += ['installed' if installed else 'not-installed', 'full:%s' % okfull, 'size:%s' % oksize]
    if spec['mods'] and part and installed: labels.append('modified')
    if len(part) > 50: labels.append('many')
    for i, how, which in spec['mods']: labels.append('mod:' + how)
    return labels

def nontrivial(labels):
    return 'modified' in labels
