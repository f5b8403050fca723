/* Runs public drpm calls in several threads at once (or one after another) and prints what each did.
 * usage: threads SCRIPT par|seq ROUNDS    Fields of the script are separated by tabs; "\N" stands for a null pointer. Only drpm.h is used. */
#define _GNU_SOURCE
#include "drpm.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/time.h>

/* The compression libraries and librpm are not instrumented: what they read and write on behalf of the library is told to the sanitizer here. */
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <lzlib.h>
#include <zstd.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <rpm/rpmio.h>
void __tsan_read_range(void *, unsigned long);
void __tsan_write_range(void *, unsigned long);
#pragma GCC visibility push(default)
#define RD(p, n) do { if ((n) > 0) __tsan_read_range((void *)(p), (unsigned long)(n)); } while (0)
#define WR(p, n) do { if ((n) > 0) __tsan_write_range((void *)(p), (unsigned long)(n)); } while (0)
#define STREAM(type, name, call, real, args, next_t) \
    int real; int call { next_t *i = (next_t *)s->next_in, *o = (next_t *)s->next_out; int rc; WR(s, sizeof *s); rc = name args; \
        RD(i, (char *)s->next_in - (char *)i); WR(o, (char *)s->next_out - (char *)o); return rc; }
STREAM(z_stream, __real_deflate, __wrap_deflate(z_stream *s, int f), __real_deflate(z_stream *s, int f), (s, f), char)
STREAM(z_stream, __real_inflate, __wrap_inflate(z_stream *s, int f), __real_inflate(z_stream *s, int f), (s, f), char)
STREAM(bz_stream, __real_BZ2_bzCompress, __wrap_BZ2_bzCompress(bz_stream *s, int f), __real_BZ2_bzCompress(bz_stream *s, int f), (s, f), char)
STREAM(bz_stream, __real_BZ2_bzDecompress, __wrap_BZ2_bzDecompress(bz_stream *s), __real_BZ2_bzDecompress(bz_stream *s), (s), char)
STREAM(lzma_stream, __real_lzma_code, __wrap_lzma_code(lzma_stream *s, int f), __real_lzma_code(lzma_stream *s, int f), (s, f), char)
size_t __real_ZSTD_compressStream2(ZSTD_CCtx *c, ZSTD_outBuffer *o, ZSTD_inBuffer *i, ZSTD_EndDirective e);
size_t __wrap_ZSTD_compressStream2(ZSTD_CCtx *c, ZSTD_outBuffer *o, ZSTD_inBuffer *i, ZSTD_EndDirective e)
{
    size_t a = i->pos, b = o->pos, rc;
    WR(i, sizeof *i); WR(o, sizeof *o);
    rc = __real_ZSTD_compressStream2(c, o, i, e);
    RD((char *)i->src + a, i->pos - a); WR((char *)o->dst + b, o->pos - b);
    return rc;
}
size_t __real_ZSTD_decompressStream(ZSTD_DCtx *c, ZSTD_outBuffer *o, ZSTD_inBuffer *i);
size_t __wrap_ZSTD_decompressStream(ZSTD_DCtx *c, ZSTD_outBuffer *o, ZSTD_inBuffer *i)
{
    size_t a = i->pos, b = o->pos, rc;
    WR(i, sizeof *i); WR(o, sizeof *o);
    rc = __real_ZSTD_decompressStream(c, o, i);
    RD((char *)i->src + a, i->pos - a); WR((char *)o->dst + b, o->pos - b);
    return rc;
}
#define LZ(name, ctx, MARK) int __real_##name(struct ctx *c, uint8_t *b, int n); \
    int __wrap_##name(struct ctx *c, uint8_t *b, int n) { int rc = __real_##name(c, b, n); MARK(b, rc); return rc; }
LZ(LZ_compress_read, LZ_Encoder, WR)
LZ(LZ_compress_write, LZ_Encoder, RD)
LZ(LZ_decompress_read, LZ_Decoder, WR)
LZ(LZ_decompress_write, LZ_Decoder, RD)
#define DIGEST(D, T, len) \
    int __real_##D##_Init(T *c); int __wrap_##D##_Init(T *c) { WR(c, sizeof *c); return __real_##D##_Init(c); } \
    int __real_##D##_Update(T *c, const void *p, size_t n); int __wrap_##D##_Update(T *c, const void *p, size_t n) { WR(c, sizeof *c); RD(p, n); return __real_##D##_Update(c, p, n); } \
    int __real_##D##_Final(unsigned char *o, T *c); int __wrap_##D##_Final(unsigned char *o, T *c) { WR(c, sizeof *c); WR(o, len); return __real_##D##_Final(o, c); }
DIGEST(MD5, MD5_CTX, 16)
DIGEST(SHA256, SHA256_CTX, 32)
ssize_t __real_Fread(void *p, size_t n, size_t k, FD_t f);
ssize_t __wrap_Fread(void *p, size_t n, size_t k, FD_t f) { ssize_t rc = __real_Fread(p, n, k, f); WR(p, rc > 0 ? rc : 0); return rc; }
ssize_t __real_Fwrite(const void *p, size_t n, size_t k, FD_t f);
ssize_t __wrap_Fwrite(const void *p, size_t n, size_t k, FD_t f) { RD(p, n * k); return __real_Fwrite(p, n, k, f); }
#pragma GCC visibility pop

#define MAXF 16
#define MAXT 16
#define MAXOP 64
#define NSLOT 16
static drpm_make_options *opts[NSLOT];
static drpm *deltas[NSLOT];
struct op { char *f[MAXF]; int nf; };
struct thread { int id, nops, rounds; struct op ops[MAXOP]; char *text; size_t len, cap; pthread_t t; };
static struct thread th[MAXT];
static pthread_barrier_t gate;
static int par;

static uint64_t fnv(uint64_t h, const void *p, size_t n) { const unsigned char *b = p; while (n--) { h ^= *b++; h *= 1099511628211ull; } return h; }
#define H0 1469598103934665603ull
static void say(struct thread *t, const char *s)
{
    size_t n = strlen(s);
    if (t->len + n + 1 > t->cap) { t->cap = 2 * t->cap + n + 256; t->text = realloc(t->text, t->cap); if (!t->text) abort(); }
    memcpy(t->text + t->len, s, n + 1); t->len += n;
}
static uint64_t filehash(const char *p)
{
    char b[4096]; size_t n; uint64_t h = H0;
    FILE *x = p ? fopen(p, "rb") : NULL;
    if (!x) return 0;
    while ((n = fread(b, 1, sizeof b, x)) > 0) h = fnv(h, b, n);
    fclose(x);
    return h ? h : 1;
}
static uint64_t dump(drpm *d)
{
    uint64_t h = H0;
    for (int tag = -1; tag < 22; tag++) {
        unsigned u = 0xA5; unsigned long ul = 0xA5; unsigned long long ull = 0xA5; char *s = NULL; unsigned long *a = NULL; int rc;
        rc = drpm_get_uint(d, tag, &u); h = fnv(h, &rc, sizeof rc); h = fnv(h, &u, sizeof u);
        rc = drpm_get_ulong(d, tag, &ul); h = fnv(h, &rc, sizeof rc); h = fnv(h, &ul, sizeof ul);
        rc = drpm_get_ullong(d, tag, &ull); h = fnv(h, &rc, sizeof rc); h = fnv(h, &ull, sizeof ull);
        rc = drpm_get_string(d, tag, &s); h = fnv(h, &rc, sizeof rc); if (!rc && s) h = fnv(h, s, strlen(s)); if (!rc) free(s);
        ul = 0; rc = drpm_get_ulong_array(d, tag, &a, &ul); h = fnv(h, &rc, sizeof rc); if (!rc) { h = fnv(h, &ul, sizeof ul); if (a) h = fnv(h, a, ul * sizeof *a); free(a); }
    }
    return h;
}
static int setup_opts(drpm_make_options **o, struct op *p, int i)
{
    /* type version dcomp dlevel acomp alevel noadd seqfile; empty: leave the default */
    int rc;
#define F(k) (i + (k) < p->nf && *p->f[i + (k)] ? p->f[i + (k)] : NULL)
    if ((rc = drpm_make_options_init(o))) return rc;
    if (F(0)) drpm_make_options_set_type(*o, atoi(F(0)));
    if (F(1)) drpm_make_options_set_version(*o, atoi(F(1)));
    if (F(2)) { if (atoi(F(2)) < 0) drpm_make_options_get_delta_comp_from_rpm(*o); else drpm_make_options_set_delta_comp(*o, atoi(F(2)), atoi(F(3))); }
    if (F(4)) drpm_make_options_set_addblk_comp(*o, atoi(F(4)), atoi(F(5)));
    if (F(6)) drpm_make_options_forbid_addblk(*o);
    if (F(7)) drpm_make_options_set_seqfile(*o, F(7));
    return 0;
}
static const char *N(struct op *p, int i) { return i >= p->nf || !strcmp(p->f[i], "\\N") ? NULL : p->f[i]; }
static void one(struct thread *t, int round, int k)
{
    struct op *p = &t->ops[k];
    const char *c = p->f[0];
    char line[256];
    int rc = -1; uint64_t h = 0, h2 = 0;
    if (!strcmp(c, "make")) {           /* make old new delta seqfile shared|own ... */
        drpm_make_options *own = NULL, *o;
        if (*p->f[5] == 'S') o = opts[atoi(p->f[5] + 1)];
        else { setup_opts(&own, p, 6); o = own; }
        if (N(p, 3)) unlink(N(p, 3));
        rc = drpm_make(N(p, 1), N(p, 2), N(p, 3), o);
        h = filehash(N(p, 3));
        if (own) { h2 = filehash(N(p, 4)); drpm_make_options_destroy(&own); }
    } else if (!strcmp(c, "apply")) {
        unlink(p->f[3]);
        rc = drpm_apply(N(p, 1), p->f[2], p->f[3]); h = filehash(p->f[3]);
    } else if (!strcmp(c, "read")) {
        drpm *d = NULL;
        rc = drpm_read(&d, p->f[1]);
        if (!rc) { h = dump(d); drpm_destroy(&d); }
    } else if (!strcmp(c, "get")) {
        h = dump(deltas[atoi(p->f[1])]); rc = 0;
    } else if (!strcmp(c, "seq")) {
        rc = drpm_check_sequence(N(p, 1), p->f[2], atoi(p->f[3]));
    } else if (!strcmp(c, "check")) {
        rc = drpm_check(p->f[1], atoi(p->f[2]));
    } else if (!strcmp(c, "opts")) {
        drpm_make_options *a = NULL, *b = NULL;
        rc = setup_opts(&a, p, 1);
        drpm_make_options_init(&b); rc |= drpm_make_options_copy(b, a); rc |= drpm_make_options_defaults(a);
        drpm_make_options_destroy(&a); drpm_make_options_destroy(&b);
    } else if (!strcmp(c, "err")) {
        h = H0;
        for (int i = -2; i < 15; i++) { const char *s = drpm_strerror(i); if (s) h = fnv(h, s, strlen(s)); }
        rc = 0;
    }
    sprintf(line, "%d\t%d\t%d\t%d\t%016llx\t%016llx\n", t->id, round, k, rc, (unsigned long long)h, (unsigned long long)h2);
    say(t, line);
}
static void *run(void *a)
{
    struct thread *t = a;
    for (int r = 0; r < t->rounds; r++) {
        if (par) pthread_barrier_wait(&gate);
        for (int k = 0; k < t->nops; k++) one(t, r, k);
    }
    return NULL;
}
static void on_prof(int s)
{
    static const char m[] = "HANG cpu limit\n";
    (void)s;
    if (write(2, m, sizeof m - 1)) {}
    _exit(97);
}
int main(int argc, char **argv)
{
    char *line = NULL; size_t cap = 0; ssize_t len; int rounds, n = 0;
    FILE *in = argc > 3 ? fopen(argv[1], "r") : NULL;
    if (!in) return 2;
    par = !strcmp(argv[2], "par"); rounds = atoi(argv[3]);
    signal(SIGPROF, on_prof);
    struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
    struct itimerval it = {{0, 0}, {240, 0}}; setitimer(ITIMER_PROF, &it, NULL);
    while ((len = getline(&line, &cap, in)) > 0) {
        struct op op; memset(&op, 0, sizeof op);
        if (line[len - 1] == '\n') line[--len] = 0;
        char *who = strdup(line), *t = strchr(who, '\t');
        if (!t) return 2;
        *t++ = 0;
        for (char *p = t; op.nf < MAXF; ) { op.f[op.nf++] = p; char *q = strchr(p, '\t'); if (!q) break; *q = 0; p = q + 1; }
        if (*who == 'S') {              /* shared things, prepared by the main thread */
            int slot = atoi(op.f[1]), rc;
            if (!strcmp(op.f[0], "read")) rc = drpm_read(&deltas[slot], op.f[2]); else rc = setup_opts(&opts[slot], &op, 2);
            if (rc) { printf("setup %d\n", rc); return 3; }
            continue;
        }
        struct thread *x = &th[atoi(who) % MAXT];
        if (x->nops < MAXOP) x->ops[x->nops++] = op;
        if (atoi(who) + 1 > n) n = atoi(who) + 1;
    }
    for (int i = 0; i < n; i++) { th[i].id = i; th[i].rounds = rounds; }
    if (par) {
        pthread_barrier_init(&gate, NULL, n);
        for (int i = 0; i < n; i++) if (pthread_create(&th[i].t, NULL, run, &th[i])) return 4;
        for (int i = 0; i < n; i++) pthread_join(th[i].t, NULL);
    } else
        for (int i = 0; i < n; i++) run(&th[i]);
    for (int i = 0; i < NSLOT; i++) { if (deltas[i]) drpm_destroy(&deltas[i]); if (opts[i]) drpm_make_options_destroy(&opts[i]); }
    for (int i = 0; i < n; i++) if (th[i].text) fputs(th[i].text, stdout);
    puts("done");
    fflush(stdout);
    return 0;
}
