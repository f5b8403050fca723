"""Builds the drpm sources of /repo's working tree with the harnesses. Cached by content under a scratch build dir."""
import os, hashlib, subprocess, glob, sys, fcntl, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('DRPM_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')

SAN = ['-fsanitize=address,bounds,integer-divide-by-zero,unreachable,vla-bound,return', '-fno-sanitize-recover=all']
TOOL = '-Wl,' + ','.join('--wrap=' + s for s in 'execv execve execvp execl stat lstat stat64 lstat64 access close'.split())
WRAP = '-Wl,' + ','.join('--wrap=' + s for s in 'malloc calloc realloc strdup read pread write pwrite open creat lseek mkstemp fopen fopen64'.split())
SEEN = '-Wl,' + ','.join('--wrap=' + s for s in ('deflate inflate BZ2_bzCompress BZ2_bzDecompress lzma_code ZSTD_compressStream2 ZSTD_decompressStream LZ_compress_read LZ_compress_write LZ_decompress_read '
       'LZ_decompress_write MD5_Init MD5_Update MD5_Final SHA256_Init SHA256_Update SHA256_Final Fread Fwrite').split())
VARIANTS = {
    # name: (compiler, cflags, ldflags, config, harness, extra cdefs for harness)
    'asan': ('gcc', ['-O1', '-g', '-fno-omit-frame-pointer'] + SAN, SAN, ('zstd', 'lzip'), 'worker.c', []),
    'faults': ('gcc', ['-O1', '-g', '-fno-omit-frame-pointer'] + SAN, SAN + [WRAP], ('zstd', 'lzip'), 'worker.c', ['-DFAULTS']),
    'tinyfaults': ('gcc', ['-O1', '-g', '-fno-omit-frame-pointer', '-DDRPM_VERIF_SMALL_BLOCKS'] + SAN, SAN + [WRAP], ('zstd', 'lzip'), 'worker.c', ['-DFAULTS']),
    # same sources, uninitialised automatic variables patterned: results must not depend on it
    'pattern': ('gcc', ['-O1', '-g', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern'] + SAN, SAN, ('zstd', 'lzip'), 'worker.c', []),
    # blocks of 128 bytes, 4 of them in memory, 3 open files (hook in drpm_block.c)
    'tiny': ('gcc', ['-O1', '-g', '-fno-omit-frame-pointer', '-DDRPM_VERIF_SMALL_BLOCKS'] + SAN, SAN, ('zstd', 'lzip'), 'worker.c', []),
    # optimised, no sanitizer: big inputs
    'fast': ('gcc', ['-O2', '-g'], [], ('zstd', 'lzip'), 'worker.c', []),
    # races between threads
    'tsan': ('gcc', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread'], ['-fsanitize=thread'], ('zstd', 'lzip'), 'threads.c', []),
    'tinytsan': ('gcc', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread', '-DDRPM_VERIF_SMALL_BLOCKS'], ['-fsanitize=thread'], ('zstd', 'lzip'), 'threads.c', []),
    # coverage-guided fuzzing
    'fuzz': ('clang', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=fuzzer-no-link,address,bounds'], ['-fsanitize=fuzzer,address,bounds'], ('zstd', 'lzip'), 'fuzz.c', []),
    'tinyfuzz': ('clang', ['-O1', '-g', '-fno-omit-frame-pointer', '-DDRPM_VERIF_SMALL_BLOCKS', '-fsanitize=fuzzer-no-link,address,bounds'], ['-fsanitize=fuzzer,address,bounds'], ('zstd', 'lzip'), 'fuzz.c', []),
}
COMMON = ['-std=c99', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-DHAVE_CONFIG_H', '-D_FORTIFY_SOURCE=0', '-U_FORTIFY_SOURCE', '-w', '-fvisibility=hidden']

class BuildError(Exception):
    pass

def _libs():
    r = subprocess.run(['pkg-config', '--cflags', '--libs', 'rpm', 'libcrypto', 'libzstd', 'zlib', 'liblzma'], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    fl = r.stdout.split()
    return [x for x in fl if x.startswith('-I') or x.startswith('-D')], [x for x in fl if not (x.startswith('-I') or x.startswith('-D'))] + ['-lbz2', '-llz']

def sources():
    s = sorted(glob.glob(REPO + '/src/*.c'))
    h = sorted(glob.glob(REPO + '/src/*.h'))
    return s, h

def build(variant):
    cc, cfl, ldfl, cfg, harness, hdefs = VARIANTS[variant]
    srcs, hdrs = sources()
    hpath = os.path.join(HERE, 'harness', harness)
    m = hashlib.sha256()
    for p in srcs + hdrs + [hpath]:
        m.update(os.path.basename(p).encode()); m.update(open(p, 'rb').read())
    m.update(repr((VARIANTS[variant], COMMON, TOOL)).encode())
    key = m.hexdigest()[:20]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, '%s-%s' % (variant, key))
    with open(os.path.join(BUILD, '.lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        old = sorted(glob.glob(os.path.join(BUILD, variant + '-*')), key=os.path.getmtime)
        for p in old[:-3]:
            os.unlink(p)
        tmp = tempfile.mkdtemp(prefix='obj', dir=BUILD)
        try:
            with open(tmp + '/config.h', 'w') as fh:
                fh.write('#ifndef _CONFIG_H_\n#define _CONFIG_H_\n%s%s#define _XOPEN_SOURCE 700\n#endif\n' % (
                    '#define WITH_ZSTD\n' if 'zstd' in cfg else '', '#define HAVE_LZLIB_DEVEL\n' if 'lzip' in cfg else ''))
            inc, libs = _libs()
            def one(p):
                ob = os.path.join(tmp, os.path.basename(p) + '.o')
                extra = hdefs if p == hpath else []
                fl = list(cfl)
                r = subprocess.run([cc] + fl + (COMMON if p != hpath else COMMON[3:]) + ['-I' + tmp, '-I' + REPO + '/src'] + inc + extra +
                                   ['-c', p, '-o', ob], capture_output=True, text=True)
                if r.returncode:
                    raise BuildError(r.stderr[-3000:])
                return ob
            with ThreadPoolExecutor(8) as ex:
                objs = list(ex.map(one, srcs + [hpath]))
            r = subprocess.run([cc] + ldfl + ([TOOL] if harness == 'worker.c' else [SEEN] if harness == 'threads.c' else ['-Wl,--wrap=realloc'] if harness == 'fuzz.c' else []) + objs + ['-o', tmp + '/out'] + libs + ['-lm', '-ldl', '-lpthread'], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-3000:])
            os.rename(tmp + '/out', exe)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return exe

if __name__ == '__main__':
    for v in sys.argv[1:] or VARIANTS:
        print(v, build(v))
