"""Client of the worker process."""
import subprocess, os, tempfile, signal, select, collections, resource, sys
from . import build

Res = collections.namedtuple('Res', 'rc mem fd fired n extra')
ASAN_OPTIONS = ('abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2500:'
                'handle_abort=1:handle_segv=1:detect_stack_use_after_return=0:quarantine_size_mb=16:allocator_release_to_os_interval_ms=-1:'
                'detect_odr_violation=0:print_summary=1')

class Crash(Exception):
    """the library call crashed, aborted, was stopped by a sanitizer or never returned"""

class Worker:
    noin = False                        # the calls are made without an open standard input (descriptor 0 is free)
    def __init__(self, variant='asan', home=None, env=None, cpu=60, scratch=None, uid=None):
        self.exe = build.build(variant)
        self.variant = variant
        self.cpu = cpu
        self.env = dict(os.environ)
        self.env['ASAN_OPTIONS'] = ASAN_OPTIONS
        self.env['LC_ALL'] = 'C'
        if home:
            self.env['HOME'] = home
        if env:
            self.env.update(env)
        self.cwd = scratch
        self.p = None
        self.restarts = 0

    def start(self):
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe, str(self.cpu)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=self.env, cwd=self.cwd)
        self.restarts += 1
        self.closed = False

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except Exception:
                pass
            try:
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill(); self.p.wait()
            self.p.stdout.close()
            self.errf.close()
            self.p = None

    def raw(self, *fields):
        if self.p is None:
            self.start()
        if self.closed != Worker.noin:
            self.closed = Worker.noin
            self.raw('stdin', int(not Worker.noin))
        line = '\t'.join('\\N' if x is None else str(x) for x in fields) + '\n'
        try:
            self.p.stdin.write(os.fsencode(line) if isinstance(line, str) else line); self.p.stdin.flush()
            r = self.p.stdout.readline()
        except BrokenPipeError:
            r = b''
        if not r.endswith(b'\n'):
            rc = self.p.wait()
            self.errf.seek(0)
            err = self.errf.read().decode('latin1')
            self.p.stdout.close(); self.errf.close()
            self.p = None
            raise Crash('worker died (status %s) on %r\n%s' % (rc, [str(x)[:200] for x in fields], summarize(err)))
        return r[:-1].decode('latin1').split('\t')

    def call(self, *fields):
        r = self.raw(*fields)
        return Res(int(r[0]), int(r[1]), int(r[2]), int(r[3]), tuple(int(x) for x in r[4:8]), r[8:])

def summarize(err):
    keep = [l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l or 'SUMMARY' in l or 'HANG' in l or l.strip().startswith('#')]
    return '\n'.join(keep[:14])
