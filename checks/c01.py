"""Standard deltas rebuild the new package byte for byte."""
from hypothesis import strategies as st
from kit import gen, corecases, rpmfmt as R, delta as D, comp as C
from kit.common import *

ID = 'C01'
LEVEL = 'exploration'
VARIANTS = ['asan', 'tiny', 'fast']
RULE = ('the delta was made, it takes at least one copy from the old package and at least one byte of new data, and the rebuilt package was compared '
        'with the new one; distinct by the generated case')
ASSUMPTIONS = []

def strategy(tier):
    return st.tuples(gen.pair(big=tier == 'thorough', maxfiles=6 if tier == 'quick' else 10), gen.options((0,)), st.sampled_from(['asan', 'asan', 'tiny'])).map(lambda t: dict(old=t[0][0], new=t[0][1], opt=t[1], var=t[2]))

def examples(tier):
    return 7000 if tier == 'quick' else 40000

def directed(tier):
    opts = corecases.cycle_options((0,))
    for i, (old, new, big) in enumerate(corecases.pairs(tier)):
        yield dict(old=old, new=new, opt=next(opts), var='fast' if big else 'tiny' if i % 3 == 0 else 'asan')
    a = corecases.P([corecases.reg('a', [['r', 1, 0, 900], ['t', 1, 0, 900]]), corecases.reg('b', [['r', 2, 0, 300]], f=1)], ver='1.0')
    b = corecases.P([corecases.reg('a', [['r', 1, 0, 500], ['t', 2, 0, 77], ['m', 1, 500, 400, 50, 3], ['t', 1, 0, 900]]), corecases.reg('b', [['r', 2, 0, 310]], f=1)], ver='1.1')
    # more copies than 16 bits can count
    for n in (4 << 20, 5 << 20):
        yield dict(old=corecases.P([corecases.reg('a', [['r', 5, 0, n]])], (C.NONE, 0), ver='1.0'), new=corecases.P([corecases.reg('a', [['m', 5, 0, n, 60, 1]])], (C.NONE, 0), ver='1.1'), opt=dict(noadd=1, dc=[C.GZIP, 1]), var='fast')
    for o in corecases.option_grid((0,)):
        yield dict(old=a, new=b, opt=o, var='fast')

def run(ctx, spec):
    w = ctx.w(spec.get('var', 'asan'))
    old = gen.realize(spec['old']); new = gen.realize(spec['new'])
    r, pd, _ = make(ctx, w, old, new, spec['opt'])
    expect(r.rc == 0, 'drpm_make of a standard delta failed: %s', err(r.rc))
    d = ctx.get('d.drpm')
    r = apply(ctx, w, old, None)
    expect(r.rc == 0, 'drpm_apply of the fresh delta failed: %s', err(r.rc))
    same_bytes(ctx.get('out.rpm'), new, 'the rebuilt package')
    labels = ['target:' + C.NAMES[spec['new']['z'][0]], 'version:%s' % spec['opt'].get('ver', 'default')]
    p = D.parse(d)
    if p.ext_copies and any(l for a, l in p.ext_copies): labels.append('copies')
    if any(l for n, l in p.int_copies): labels.append('data')
    if p.add: labels.append('addblock')
    if p.offadj: labels.append('offadj')
    labels.append('worker:' + spec.get('var', 'asan'))
    if p.ext_data_len > 8192: labels.append('multi-block')
    return labels

def nontrivial(labels):
    return 'copies' in labels and 'data' in labels
