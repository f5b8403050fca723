"""Steps shared by the checks."""
import os, glob
from . import rpmfmt as R, delta as D, comp as C, gen
from .runner import Violation, Skip

OK, MEMORY, ARGS, IO, FORMAT, CONFIG, OTHER, OVERFLOW, PROG, MISMATCH, NOINSTALL = range(11)
ERR = 'OK MEMORY ARGS IO FORMAT CONFIG OTHER OVERFLOW PROG MISMATCH NOINSTALL'.split()

def err(rc):
    return ERR[rc] if 0 <= rc < len(ERR) else str(rc)

def expect(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)

def make(ctx, w, old, new, opts, out='d.drpm', slot=0):
    """old/new: bytes or None. Returns (Res, path, seqpath)"""
    po = ctx.put('old.rpm', old) if old is not None else None
    pn = ctx.put('new.rpm', new) if new is not None else None
    p = ctx.path(out); sq = ctx.path('seqfile')
    ctx.rm(out, 'seqfile')
    s = gen.apply_options(w, opts, slot, sq)
    r = w.call('make', po, pn, p, s)
    gen.drop_options(w, s)
    return r, p, sq

def apply(ctx, w, old, delta, out='out.rpm'):
    po = ctx.put('old.rpm', old) if old is not None else None
    pd = ctx.put('d.drpm', delta) if delta is not None else ctx.path('d.drpm')
    ctx.rm(out)
    r = w.call('apply', po, pd, ctx.path(out))
    return r

def first_diff(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return i
    return n

def same_bytes(got, want, what):
    if got != want:
        i = first_diff(got, want)
        raise Violation('%s differs at byte %d (lengths %d, expected %d): %s... expected %s...' % (
            what, i, len(got), len(want), got[i:i + 16].hex(), want[i:i + 16].hex()))
