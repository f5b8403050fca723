"""A scratch package database and installed file tree inside the case's scratch directory."""
import os, subprocess, shutil, stat
from . import gen

class Fs:
    def __init__(self, ctx):
        self.ctx = ctx
        self.home = ctx.path('home'); self.root = ctx.path('r')
        self.db = ctx.path('home/db')
        os.makedirs(self.home, exist_ok=True)
        with open(self.home + '/.rpmmacros', 'w') as f:
            f.write('%%_dbpath %s\n' % self.db)
        self.w = ctx.w('asan', 'fs', home=self.home)

    def worker(self, variant):
        return self.ctx.w(variant, 'fs', home=self.home)

    def reset(self):
        shutil.rmtree(self.db, ignore_errors=True)
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)

    def install(self, *pkgs):
        """register package files (bytes) as installed"""
        for i, b in enumerate(pkgs):
            p = self.ctx.put('inst.rpm', b)
            r = subprocess.run(['rpm', '-i', '--justdb', '--nodeps', '--force', '--noscripts', '--nodigest', '--nosignature', '--ignorearch', '--ignoreos',
                                '--dbpath', self.db, p], capture_output=True, env=dict(os.environ, HOME=self.home))
            q = subprocess.run(['rpm', '-qa', '--dbpath', self.db], capture_output=True, env=dict(os.environ, HOME=self.home))
            if r.returncode or len(q.stdout.split()) < i + 1:
                raise RuntimeError('rpm could not register the package: %r %r' % (r.stderr, q.stdout))

    def place(self, files):
        """write the regular files of a package (gen.files_of output) to disk"""
        for f in files:
            if stat.S_ISREG(f.mode):
                p = f.path
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as fh:
                    fh.write(f.content)

def get(ctx):
    if 'fs' not in ctx.cache:
        ctx.cache['fs'] = Fs(ctx)
    return ctx.cache['fs']

def rooted(ctx, p):
    """the package spec with its files below the scratch tree"""
    return dict(p, root=ctx.path('r'))
