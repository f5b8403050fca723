/* Persistent worker: runs public drpm API calls named on stdin, one per line, and reports what they did.
 * Fields are separated by tabs; "\N" stands for a null pointer. Only drpm.h is used. */
#define _GNU_SOURCE
#include "drpm.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <sys/resource.h>
#include <rpm/rpmlib.h>
#include <rpm/rpmlog.h>
#include <rpm/rpmmacro.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define ASAN 1
#endif
#ifdef ASAN
size_t __sanitizer_get_current_allocated_bytes(void);
#define ALLOCATED() __sanitizer_get_current_allocated_bytes()
#else
#define ALLOCATED() ((size_t)0)
#endif

/* the most memory that a call and the libraries it uses held at any moment */
static long long held, held_max; static int holding;
#ifdef ASAN
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *);
static void on_malloc(const volatile void *p, size_t n) { (void)p; if (holding && (held += n) > held_max) held_max = held; }
static void on_free(const volatile void *p) { if (holding && p) held -= __sanitizer_get_allocated_size(p); }
#endif

#define NSLOT 16
static drpm_make_options *opts[NSLOT];
static drpm *deltas[NSLOT];
static FILE *out;

/* ---- fault injection (calls made by the library's own object files only: linker --wrap) ---- */
static long f_count[4];          /* 0 alloc, 1 read, 2 write, 3 open/seek */
static long f_at[4];             /* fail the n-th (1-based) call, 0 = never */
static int f_sticky[4];          /* and all later ones */
static long q_left = -1;         /* bytes that can still be written before the medium is full, -1 = any number */
static int armed;
static int fired;

static int fault(int kind)
{
    if (!armed)
        return 0;
    f_count[kind]++;
    if (f_at[kind] && (f_count[kind] == f_at[kind] || (f_sticky[kind] && f_count[kind] > f_at[kind]))) {
        fired++;
        return 1;
    }
    return 0;
}

#ifdef FAULTS
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
ssize_t __real_read(int, void *, size_t); ssize_t __real_pread(int, void *, size_t, off_t);
ssize_t __real_write(int, const void *, size_t); ssize_t __real_pwrite(int, const void *, size_t, off_t);
int __real_open(const char *, int, ...); int __real_creat(const char *, mode_t); off_t __real_lseek(int, off_t, int);
int __real_mkstemp(char *);
char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { if (fault(0)) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (fault(0)) { errno = ENOMEM; return NULL; } return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (n && fault(0)) { errno = ENOMEM; return NULL; } return __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { if (fault(0)) { errno = ENOMEM; return NULL; } return __real_strdup(s); }
/* calls made by the libraries the library uses (librpm above all), on files of the scratch directory: symbols of the executable come first */
#include <dlfcn.h>
static int inwrap;
/* how much of a write of n bytes the medium takes */
static size_t quota(size_t n)
{
    if (!armed || q_left < 0) return n;
    if ((size_t)q_left < n) { fired++; n = q_left; }
    q_left -= n;
    return n;
}
#define QUOTA(n) do { if ((n) > 0 && ((n) = quota(n)) == 0) { errno = ENOSPC; return -1; } } while (0)
static char track[1024];
static const char *scratch; static size_t scratch_len;
static void *sym(const char *n) { void *p = dlsym(RTLD_NEXT, n); if (!p) abort(); return p; }
#define REAL(name, type) ((type)({ static void *p_; if (!p_) p_ = sym(name); p_; }))
static int tracked(int fd) { return armed && !inwrap && fd >= 0 && fd < 1024 && track[fd]; }
#pragma GCC visibility push(default)
ssize_t read(int fd, void *b, size_t n)
{
    if (tracked(fd) && fault(1)) { errno = EIO; return -1; }
    return REAL("read", ssize_t (*)(int, void *, size_t))(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (tracked(fd) && fault(2)) { errno = ENOSPC; return -1; }
    if (tracked(fd)) QUOTA(n);
    return REAL("write", ssize_t (*)(int, const void *, size_t))(fd, b, n);
}
off_t lseek(int fd, off_t o, int w)
{
    if (tracked(fd) && fault(3)) { errno = EIO; return -1; }
    return REAL("lseek", off_t (*)(int, off_t, int))(fd, o, w);
}
int open(const char *p, int fl, ...)
{
    mode_t m = 0; int t, r;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    t = armed && !inwrap && scratch && !strncmp(p, scratch, scratch_len) && !strstr(p, "/home/");
    if (t && fault(3)) { errno = EMFILE; return -1; }
    r = REAL("open", int (*)(const char *, int, ...))(p, fl, m);
    if (r >= 0 && r < 1024) track[r] = t;
    return r;
}
#pragma GCC visibility pop
#define IN(type, call) ({ inwrap++; type r_ = call; inwrap--; r_; })
ssize_t __wrap_read(int fd, void *b, size_t n) { if (fault(1)) { errno = EIO; return -1; } return IN(ssize_t, __real_read(fd, b, n)); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { if (fault(1)) { errno = EIO; return -1; } return __real_pread(fd, b, n, o); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (fault(2)) { errno = ENOSPC; return -1; } QUOTA(n); return IN(ssize_t, __real_write(fd, b, n)); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { if (fault(2)) { errno = ENOSPC; return -1; } QUOTA(n); return __real_pwrite(fd, b, n, o); }
int __wrap_open(const char *p, int fl, ...)
{
    mode_t m = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (fault(3)) { errno = EMFILE; return -1; }
    return IN(int, __real_open(p, fl, m));
}
int __wrap_creat(const char *p, mode_t m) { if (fault(3)) { errno = EMFILE; return -1; } return IN(int, __real_creat(p, m)); }
off_t __wrap_lseek(int fd, off_t o, int w) { if (fault(3)) { errno = EIO; return -1; } return IN(off_t, __real_lseek(fd, o, w)); }
int __wrap_mkstemp(char *t) { if (fault(3)) { errno = EMFILE; return -1; } return IN(int, __real_mkstemp(t)); }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { if (fault(3)) { errno = EMFILE; return NULL; } return __real_fopen(p, m); }
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen64(const char *p, const char *m) { if (fault(3)) { errno = EMFILE; return NULL; } return __real_fopen64(p, m); }
#endif

/* a stand-in for the prelink tool: undoing FILE gives FILE.undo; nothing is executed */
static int prelink_there;
#define TOOL "/usr/sbin/prelink"
int __real_execv(const char *, char *const *); int __real_stat(const char *, struct stat *); int __real_lstat(const char *, struct stat *); int __real_access(const char *, int);
static int tool(const char *p) { const char *b = strrchr(p, '/'); return !strcmp(b ? b + 1 : p, "prelink"); }
static int run_tool(char *const *a)
{
    const char *from = NULL, *to = NULL; char name[5000], buf[65536]; int i, x, y; ssize_t n;
    armed = 0;
    if (!prelink_there) { errno = ENOENT; return -1; }
    for (i = 1; a[i]; i++)
        if (!strcmp(a[i], "-o") && a[i + 1]) to = a[++i];
        else if (a[i][0] != '-') from = a[i];
    if (!from || !to || strlen(from) > 4000) _exit(1);
    sprintf(name, "%s.undo", from);
    if ((x = open(name, O_RDONLY)) < 0 || (y = open(to, O_WRONLY | O_CREAT | O_TRUNC, 0600)) < 0) _exit(1);
    while ((n = read(x, buf, sizeof buf)) > 0) if (write(y, buf, n) != n) _exit(1);
    _exit(0);
}
int __wrap_execv(const char *p, char *const *a) { return tool(p) ? run_tool(a) : __real_execv(p, a); }
int __wrap_execve(const char *p, char *const *a, char *const *e) { return tool(p) ? run_tool(a) : (e ? execvpe(p, a, e) : -1); }
int __wrap_execvp(const char *p, char *const *a) { return tool(p) ? run_tool(a) : (errno = ENOENT, -1); }
int __wrap_execl(const char *p, const char *a0, ...)
{
    char *v[64]; int n = 0; va_list ap;
    va_start(ap, a0);
    for (const char *x = a0; x && n < 63; x = va_arg(ap, const char *)) v[n++] = (char *)x;
    va_end(ap); v[n] = NULL;
    return __wrap_execv(p, v);
}
static int tool_stat(struct stat *s) { if (!prelink_there) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0755; s->st_nlink = 1; s->st_size = 1; return 0; }
int __wrap_stat(const char *p, struct stat *s) { return !strcmp(p, TOOL) ? tool_stat(s) : __real_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { return !strcmp(p, TOOL) ? tool_stat(s) : __real_lstat(p, s); }
int __wrap_stat64(const char *p, struct stat *s) { return __wrap_stat(p, s); }
int __wrap_lstat64(const char *p, struct stat *s) { return __wrap_lstat(p, s); }
int __wrap_access(const char *p, int m) { return !strcmp(p, TOOL) ? (prelink_there ? 0 : (errno = ENOENT, -1)) : __real_access(p, m); }

/* closing a descriptor that is not open closes what another thread just opened */
int __real_close(int);
int __wrap_close(int fd)
{
    int r = __real_close(fd);
    if (r < 0 && errno == EBADF && fd >= 0) { dprintf(2, "ERROR: close of descriptor %d, which is not open\n", fd); abort(); }
    return r;
}

/* the time seen by the library can be moved */
static long clock_offset;
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); time_t r = t.tv_sec + clock_offset; if (p) *p = r; return r; }

static int count_fds(void)
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n - 3; /* ., .., the directory itself */
}

static int cpu_limit = 60;
static void on_prof(int s)
{
    static const char m[] = "HANG cpu limit\n";
    (void)s;
    if (write(2, m, sizeof m - 1)) {}
    _exit(97);
}
static void timer(int secs)
{
    struct itimerval it = {{0, 0}, {secs, 0}};
    setitimer(ITIMER_PROF, &it, NULL);
}

static size_t mem0; static int fd0;
static void begin(void)
{
    mem0 = ALLOCATED(); fd0 = count_fds();
    memset(f_count, 0, sizeof f_count); fired = 0;
    timer(cpu_limit);
    held = held_max = 0; holding = 1;
    armed = 1;
}
static void end(int rc)
{
    armed = 0; holding = 0;
    timer(0);
    /* librpm keeps (and with every call extends) its configuration: not what is measured here */
    rpmFreeMacros(NULL); rpmFreeRpmrc(); rpmlogClose();
    size_t m = ALLOCATED();
    fprintf(out, "%d\t%lld\t%d\t%d\t%ld\t%ld\t%ld\t%ld", rc, (long long)m - (long long)mem0, count_fds() - fd0, fired,
            f_count[0], f_count[1], f_count[2], f_count[3]);
    memset(f_at, 0, sizeof f_at); memset(f_sticky, 0, sizeof f_sticky);
}

static void hex(const char *s)
{
    if (!s) { fputs("\\N", out); return; }
    fputc('x', out);
    for (; *s; s++) fprintf(out, "%02x", (unsigned char)*s);
}

#define MAXF 16
static char *f[MAXF];
static int nf;
static const char *S(int i) { return (i >= nf || strcmp(f[i], "\\N") == 0) ? NULL : f[i]; }
static long I(int i) { return i < nf ? strtol(f[i], NULL, 0) : 0; }
static drpm_make_options *O(int i) { const char *s = S(i); return s ? opts[atoi(s) % NSLOT] : NULL; }
static drpm *D(int i) { const char *s = S(i); return s ? deltas[atoi(s) % NSLOT] : NULL; }

int main(int argc, char **argv)
{
    char *line = NULL; size_t cap = 0; ssize_t len;
    int fd = fcntl(1, F_DUPFD, 100);
    FILE *in = fdopen(fcntl(0, F_DUPFD, 100), "r");
    if (argc > 1) cpu_limit = atoi(argv[1]);
    out = fdopen(fd, "w");
#ifdef FAULTS
    scratch = getcwd(NULL, 0); scratch_len = scratch ? strlen(scratch) : 0;
#endif
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0); dup2(nul, 1); if (nul > 2) close(nul);
    signal(SIGPROF, on_prof);
#ifdef ASAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    signal(SIGXFSZ, SIG_IGN);
    signal(SIGPIPE, SIG_IGN);
    struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);

    while ((len = getline(&line, &cap, in)) > 0) {
        if (line[len - 1] == '\n') line[--len] = 0;
        nf = 0;
        for (char *p = line; nf < MAXF; ) {
            f[nf++] = p;
            char *t = strchr(p, '\t');
            if (!t) break;
            *t = 0; p = t + 1;
        }
        const char *c = f[0];
        int rc;
        if (!strcmp(c, "apply")) { begin(); rc = drpm_apply(S(1), S(2), S(3)); end(rc); }
        else if (!strcmp(c, "check")) { begin(); rc = drpm_check(S(1), I(2)); end(rc); }
        else if (!strcmp(c, "checkseq")) { begin(); rc = drpm_check_sequence(S(1), S(2), I(3)); end(rc); }
        else if (!strcmp(c, "make")) { begin(); rc = drpm_make(S(1), S(2), S(3), O(4)); end(rc); }
        else if (!strcmp(c, "read")) { drpm **p = S(1) ? &deltas[I(1)] : NULL; begin(); rc = drpm_read(p, S(2)); end(rc); fprintf(out, "\t%d", p && *p != NULL); }
        else if (!strcmp(c, "destroy")) { drpm **p = S(1) ? &deltas[I(1)] : NULL; begin(); rc = drpm_destroy(p); end(rc); fprintf(out, "\t%d", p && *p != NULL); }
        else if (!strcmp(c, "get")) {
            /* get slot kind tag nulltarget */
            drpm *d = D(1); int kind = I(2), tag = I(3), nt = I(4);
            unsigned u = 0xA5A5A5A5u; unsigned long ul = 0xA5A5A5A5A5A5A5A5ul; unsigned long long ull = 0xA5A5A5A5A5A5A5A5ull;
            char *s = (char *)0x10; unsigned long *arr = (unsigned long *)0x10;
            begin();
            switch (kind) {
            case 0: rc = drpm_get_uint(d, tag, nt ? NULL : &u); break;
            case 1: rc = drpm_get_ulong(d, tag, nt ? NULL : &ul); break;
            case 2: rc = drpm_get_ullong(d, tag, nt ? NULL : &ull); break;
            case 3: rc = drpm_get_string(d, tag, nt ? NULL : &s); break;
            default: rc = drpm_get_ulong_array(d, tag, (nt & 1) ? NULL : &arr, (nt & 2) ? NULL : &ul); break;
            }
            end(rc);
            fputc('\t', out);
            if (kind == 0) fprintf(out, "%u", u);
            else if (kind == 1) fprintf(out, "%lu", ul);
            else if (kind == 2) fprintf(out, "%llu", ull);
            else if (kind == 3) { if (s == (char *)0x10) fputs("-", out); else { hex(s); free(s); } }
            else {
                if (arr == (unsigned long *)0x10) fputs("-", out);
                else {
                    fprintf(out, "%lu:", ul);
                    if (!arr) fputs("\\N", out);
                    else for (unsigned long i = 0; i < ul; i++) fprintf(out, "%s%lu", i ? "," : "", arr[i]);
                    free(arr);
                }
            }
        }
        else if (!strcmp(c, "optnew")) { drpm_make_options **p = S(1) ? &opts[I(1)] : NULL; begin(); rc = drpm_make_options_init(p); end(rc); }
        else if (!strcmp(c, "optfree")) { drpm_make_options **p = S(1) ? &opts[I(1)] : NULL; begin(); rc = drpm_make_options_destroy(p); end(rc); fprintf(out, "\t%d", p && *p != NULL); }
        else if (!strcmp(c, "optdef")) { begin(); rc = drpm_make_options_defaults(O(1)); end(rc); }
        else if (!strcmp(c, "optcopy")) { begin(); rc = drpm_make_options_copy(O(1), O(2)); end(rc); }
        else if (!strcmp(c, "opttype")) { begin(); rc = drpm_make_options_set_type(O(1), I(2)); end(rc); }
        else if (!strcmp(c, "optver")) { begin(); rc = drpm_make_options_set_version(O(1), I(2)); end(rc); }
        else if (!strcmp(c, "optdcomp")) { begin(); rc = drpm_make_options_set_delta_comp(O(1), I(2), I(3)); end(rc); }
        else if (!strcmp(c, "optfromrpm")) { begin(); rc = drpm_make_options_get_delta_comp_from_rpm(O(1)); end(rc); }
        else if (!strcmp(c, "optnoadd")) { begin(); rc = drpm_make_options_forbid_addblk(O(1)); end(rc); }
        else if (!strcmp(c, "optacomp")) { begin(); rc = drpm_make_options_set_addblk_comp(O(1), I(2), I(3)); end(rc); }
        else if (!strcmp(c, "optseq")) { begin(); rc = drpm_make_options_set_seqfile(O(1), S(2)); end(rc); }
        else if (!strcmp(c, "optpat")) { begin(); rc = drpm_make_options_add_patches(O(1), S(2), S(3)); end(rc); }
        else if (!strcmp(c, "strerror")) { begin(); const char *s = drpm_strerror(I(1)); end(0); fputc('\t', out); hex(s); }
        else if (!strcmp(c, "fault")) { int k = I(1); f_at[k] = I(2); f_sticky[k] = I(3); fputs("0", out); }
        else if (!strcmp(c, "quota")) { q_left = I(1); fputs("0", out); }
        else if (!strcmp(c, "fsize")) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = I(1) < 0 ? r.rlim_max : (rlim_t)I(1); rc = setrlimit(RLIMIT_FSIZE, &r); fprintf(out, "%d", rc); }
        else if (!strcmp(c, "nofile")) { struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = I(1); rc = setrlimit(RLIMIT_NOFILE, &r); fprintf(out, "%d", rc); }
        else if (!strcmp(c, "fds")) { fprintf(out, "%d", count_fds()); }
        else if (!strcmp(c, "peak")) { fprintf(out, "%lld", held_max); }
        else if (!strcmp(c, "mem")) { fprintf(out, "%zu", ALLOCATED()); }
        else if (!strcmp(c, "chdir")) { fprintf(out, "%d", chdir(f[1])); }
        else if (!strcmp(c, "setegid")) { fprintf(out, "%d", setegid(I(1))); }
        else if (!strcmp(c, "stdin")) { if (!I(1)) close(0); else if (fcntl(0, F_GETFD) < 0) { int n = open("/dev/null", O_RDWR); if (n > 0) { dup2(n, 0); close(n); } } fputs("0", out); }
        else if (!strcmp(c, "prelink")) { prelink_there = I(1); fputs("0", out); }
        else if (!strcmp(c, "rpmtry")) {       /* reads the headers of a package with librpm alone */
            FD_t fd = Fopen(f[1], "rb\0"); char lead[96]; Header a = NULL, b = NULL; off_t pos;
            if (fd && Fread(lead, 1, 96, fd) == 96 && (a = headerRead(fd, HEADER_MAGIC_YES)) && (pos = Ftell(fd)) >= 0 && Fseek(fd, (8 - pos % 8) % 8, SEEK_CUR) >= 0) b = headerRead(fd, HEADER_MAGIC_YES);
            fprintf(out, "%d", (a != NULL) + (b != NULL));
            headerFree(a); headerFree(b); if (fd) Fclose(fd);
        }
        else if (!strcmp(c, "sigchld")) { signal(SIGCHLD, I(1) ? SIG_DFL : SIG_IGN); fputs("0", out); }
        else if (!strcmp(c, "std")) {       /* descriptors 0 and 1: closed, or open on the null device */
            if (fcntl(0, F_GETFD) >= 0) close(0);
            if (fcntl(1, F_GETFD) >= 0) close(1);
            if (I(1)) { int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); if (n > 1) close(n); }
            fputs("0", out);
        }
        else if (!strcmp(c, "clock")) { clock_offset = I(1); fprintf(out, "0"); }
        else if (!strcmp(c, "umask")) { fprintf(out, "%d", (int)umask(I(1))); }
        else if (!strcmp(c, "setenv")) { fprintf(out, "%d", setenv(f[1], f[2], 1)); }
        else { fputs("?", out); }
        fputc('\n', out);
        fflush(out);
    }
    return 0;
}
