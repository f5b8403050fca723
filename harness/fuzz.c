/* Coverage-guided fuzzing (libFuzzer) of the public calls. DRPM_FUZZ_DIR holds old.rpm, new.rpm and d.drpm; DRPM_FUZZ_OP names the role of the input. Only drpm.h is used. */
#define _GNU_SOURCE
#include "drpm.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>

static char list[4096], in[64], out[4096], out2[4096], old[4096], new_[4096], delta[4096];
static const char *op;
static int fd;
static drpm_make_options *opts[2], *popts;

/* data that decompress to very much more than their size are not explored further (growing a buffer by small steps is slow with the sanitizer) */
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n) { return n > (1u << 18) ? NULL : __real_realloc(p, n); }

static void must(int c, const char *what)
{
    if (!c) { fprintf(stderr, "ORACLE: %s\n", what); abort(); }
}
#define RANGE(rc) must((rc) >= 0 && (rc) <= 10, "return value out of range")
int LLVMFuzzerInitialize(int *argc, char ***argv)
{
    const char *dir = getenv("DRPM_FUZZ_DIR");
    (void)argc; (void)argv;
    op = getenv("DRPM_FUZZ_OP");
    if (!dir || !op) exit(2);
    snprintf(old, sizeof old, "%s/old.rpm", dir); snprintf(new_, sizeof new_, "%s/new.rpm", dir); snprintf(delta, sizeof delta, "%s/d.drpm", dir);
    snprintf(out, sizeof out, "%s/out-%d", dir, (int)getpid()); snprintf(out2, sizeof out2, "%s/out2-%d", dir, (int)getpid());
    fd = memfd_create("in", 0);
    if (fd < 0) exit(2);
    snprintf(in, sizeof in, "/proc/self/fd/%d", fd);
    for (int i = 0; i < 2; i++) {
        if (drpm_make_options_init(&opts[i]) || drpm_make_options_set_type(opts[i], i ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD) || drpm_make_options_set_delta_comp(opts[i], DRPM_COMP_GZIP, 1)) exit(2);
        drpm_make_options_forbid_addblk(opts[i]);
    }
    snprintf(list, sizeof list, "%s/list", dir);
    if (drpm_make_options_init(&popts) || drpm_make_options_add_patches(popts, !strcmp(op, "print") ? in : list, !strcmp(op, "print") ? list : in) || drpm_make_options_set_delta_comp(popts, DRPM_COMP_GZIP, 1)) exit(2);
    return 0;
}
static void query(drpm *d)
{
    for (int tag = 0; tag < 20; tag++) {
        unsigned u; unsigned long ul, *a; unsigned long long ull; char *s; int rc;
        rc = drpm_get_uint(d, tag, &u); RANGE(rc);
        rc = drpm_get_ulong(d, tag, &ul); RANGE(rc);
        rc = drpm_get_ullong(d, tag, &ull); RANGE(rc);
        s = NULL; rc = drpm_get_string(d, tag, &s); RANGE(rc); if (!rc) { if (s) { volatile size_t n = strlen(s); (void)n; } free(s); }
        a = NULL; ul = 0; rc = drpm_get_ulong_array(d, tag, &a, &ul); RANGE(rc);
        if (!rc) { volatile unsigned long x = 0; for (unsigned long i = 0; i < ul; i++) x += a[i]; free(a); }
    }
}
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    int rc;
    if (!strcmp(op, "seq")) {
        char *s = malloc(size + 1);
        memcpy(s, data, size); s[size] = 0;
        rc = drpm_check_sequence(old, s, 0); RANGE(rc);
        free(s);
        return 0;
    }
    if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET) || write(fd, data, size) != (ssize_t)size) exit(2);
    if (!strcmp(op, "apply")) {
        drpm *d = NULL;
        rc = drpm_read(&d, in); RANGE(rc);
        must((rc == 0) == (d != NULL), "drpm_read: handle and return value differ");
        if (rc == 0) { query(d); drpm_destroy(&d); must(d == NULL, "drpm_destroy"); }
        rc = drpm_apply(old, in, out); RANGE(rc);
    } else if (!strcmp(op, "applyold")) {
        rc = drpm_apply(in, delta, out); RANGE(rc);
    } else if (!strcmp(op, "print") || !strcmp(op, "list")) {
        rc = drpm_make(old, new_, out, popts); RANGE(rc);
    } else {                            /* makeold0 makeold1 makenew0 makenew1 */
        int t = op[7] - '0', n = !strncmp(op, "makenew", 7);
        rc = drpm_make(n ? old : in, n ? in : new_, out, opts[t]); RANGE(rc);
        if (rc == 0) { rc = drpm_apply(n ? old : in, out, out2); RANGE(rc); }
    }
    return 0;
}

/* Mutations know the parts of a file (lead, signature, header, payload or the body of a delta), numbers in big endian words and the hexadecimal fields of archive entries. */
size_t LLVMFuzzerMutate(uint8_t *data, size_t size, size_t max);
static uint64_t rs;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
static uint32_t value(uint32_t was)
{
    static const uint32_t v[] = {0, 1, 2, 3, 4, 16, 17, 32, 96, 110, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffffeu, 0xfffffffdu, 0x3fffffff, 0x40000000, 0x55555556, 0x20000000};
    switch (rnd() % 6) {
    case 0: return v[rnd() % (sizeof v / sizeof *v)];
    case 1: return was + 1 + rnd() % 3;
    case 2: return was - 1 - rnd() % 3;
    case 3: return was ^ (1u << rnd() % 32);
    case 4: return rnd() % 300;
    default: return was * 2;
    }
}
size_t LLVMFuzzerCustomMutator(uint8_t *data, size_t size, size_t max, unsigned int seed)
{
    size_t b[8], n = 0, a, e;
    uint8_t *x;
    rs = seed * 0x9E3779B97F4A7C15ull + 1; rnd(); rnd();
    if (size < 12 || !strcmp(op, "seq") || rnd() % 4 == 0) return LLVMFuzzerMutate(data, size, max);
    b[n++] = 0;
    for (size_t i = 96; i + 16 < size && n < 4; i++)
        if (!memcmp(data + i, "\x8e\xad\xe8\x01", 4)) {
            b[n++] = i;
            if (n == 3) {
                size_t end = i + 16 + 16 * (size_t)(data[i + 10] << 8 | data[i + 11]) + (data[i + 13] << 16 | data[i + 14] << 8 | data[i + 15]);
                if (end < size) b[n++] = end;
                break;
            }
        }
    if (n == 1 && size > 20 && (x = memmem(data, size, "DLT", 3)) != NULL && x != data) b[n++] = x - data;
    b[n] = size;
    a = rnd() % 2 ? n - 1 : rnd() % n;
    e = b[a + 1]; a = b[a];
    if (e <= a + 4) return LLVMFuzzerMutate(data, size, max);
    if (rnd() % 2) {                    /* numbers */
        for (int k = 1 + rnd() % 2; k-- > 0; ) {
            size_t p = a + rnd() % (e - a - 3);
            x = memmem(data + p, e - p, "070701", 6);
            if (x && rnd() % 2 && (size_t)(x - data) + 110 <= size) {
                char h[9]; uint8_t *f = x + 6 + 8 * (rnd() % 13);
                memcpy(h, f, 8); h[8] = 0;
                snprintf(h, 9, "%08x", value(strtoul(h, NULL, 16)));
                memcpy(f, h, 8);
            } else {
                x = data + p;
                uint32_t w = value((uint32_t)x[0] << 24 | x[1] << 16 | x[2] << 8 | x[3]);
                x[0] = w >> 24; x[1] = w >> 16; x[2] = w >> 8; x[3] = w;
            }
        }
        return size;
    }
    {                                   /* one part */
        size_t room = max > size ? max - size : 0, len;
        if (room > 200) room = 200;
        if (!(x = malloc(e - a + room + 1))) return size;
        memcpy(x, data + a, e - a);
        len = LLVMFuzzerMutate(x, e - a, e - a + room);
        memmove(data + a + len, data + e, size - e);
        memcpy(data + a, x, len);
        free(x);
        return size - (e - a) + len;
    }
}
