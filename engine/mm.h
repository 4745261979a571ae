#ifdef DRV_STANDALONE
// ------------------------------------------------------------- messages of the TCP backend (mini MPI)
#include <time.h>
#include <dlfcn.h>
#include <sys/socket.h>
#include "../src/backends/tcp/minimpi.h"

// connections may fail: DRV_CONNFAIL = <percentage>
int connect(int fd, const struct sockaddr* a, socklen_t l)
{
    static int (*real)(int, const struct sockaddr*, socklen_t);
    static int pct = -1; static unsigned st;
    if (!real) *(void**) &real = dlsym(RTLD_NEXT, "connect");
    if (pct < 0) { char* e = getenv("DRV_CONNFAIL"); st = getpid() * 2654435761u; pct = e ? atoi(e) : 0; }
    if (pct > 0) {
        unsigned x = __atomic_add_fetch(&st, 0x9e3779b9u, __ATOMIC_SEQ_CST);
        x ^= x >> 16; x *= 0x85ebca6bu; x ^= x >> 13; x *= 0xc2b2ae35u; x ^= x >> 16;
        if ((int)(x % 100) < pct) { errno = ECONNREFUSED; return -1; }
    }
    return real(fd, a, l);
}

static Laik_Tcp_MiniMpiComm* mmC[64];
static const int mmSize[] = { 8, 4, 8, 4, 1, 8, 4, 1 };
// element i of input with given seed: small values, sums are exact in each type
static void mm_set(char* b, int ty, long i, int seed)
{
    int v = (int)((seed * 31L + i * 7 + (i >> 8) * 3) % 23);
    if (ty == LAIK_TCP_MINIMPI_DOUBLE) { double x = v * .25; memcpy(b, &x, 8); }
    else if (ty == LAIK_TCP_MINIMPI_FLOAT) { float x = v * .25; memcpy(b, &x, 4); }
    else { int64_t x = v * (ty == LAIK_TCP_MINIMPI_INT64 || ty == LAIK_TCP_MINIMPI_UINT64 ? 1000000007L : 1) - (ty == 2 || ty == 3 || ty == 4 ? 11 : 0); memcpy(b, &x, mmSize[ty]); }
}
static char* mm_buf(int ty, long n, int seed)
{
    char* b = malloc(n * mmSize[ty]);       // exact size: accesses beyond are found
    for (long i = 0; i < n; i++) mm_set(b + i * mmSize[ty], ty, i, seed);
    return b;
}
static char* mm_sum(int ty, long n, int k, int* seeds)
{
    char* b = calloc(n ? n : 1, mmSize[ty]);
    for (int j = 0; j < k; j++) {
        char* x = mm_buf(ty, n, seeds[j]);
        for (long i = 0; i < n; i++) {
            if (ty == LAIK_TCP_MINIMPI_DOUBLE) ((double*) b)[i] += ((double*) x)[i];
            else if (ty == LAIK_TCP_MINIMPI_FLOAT) ((float*) b)[i] += ((float*) x)[i];
            else { uint64_t p = 0, q = 0; memcpy(&p, b + i * mmSize[ty], mmSize[ty]); memcpy(&q, x + i * mmSize[ty], mmSize[ty]); p += q; memcpy(b + i * mmSize[ty], &p, mmSize[ty]); }
        }
        free(x);
    }
    return b;
}
static const char* mm_cmp(const char* got, const char* want, long bytes)
{
    static char r[40];
    for (long i = 0; i < bytes; i++) if (got[i] != want[i]) { sprintf(r, "differs@%ld", i); return r; }
    return "ok";
}
static double mm_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void mm_fail(int rc) { char* b = malloc(LAIK_TCP_MINIMPI_MAX_ERROR_STRING); int l = 0; (void) !laik_tcp_minimpi_error_string(rc, b, &l); OUT(" error:%d", l > 0); free(b); }

static void mm_cmd(void)
{
    char op[20]; snprintf(op, sizeof op, "%s", word());
    int rc = 0;
    if (!strcmp(op, "init")) {
        static char* av[] = { "drvproc", 0 }; int ac = 1; char** avp = av;
        rc = laik_tcp_minimpi_init(&ac, &avp);
        if (rc) { fprintf(stderr, "mini MPI: init failed\n"); exit(3); }
        mmC[0] = LAIK_TCP_MINIMPI_COMM_WORLD;
        rc = laik_tcp_minimpi_comm_rank(mmC[0], &C->id);
        OUT("#rank %d proc\n", C->id);
        return;
    }
    if (!strcmp(op, "fin")) { int f = -1; rc = laik_tcp_minimpi_finalize(); int r2 = laik_tcp_minimpi_initialized(&f); OUT("MM fin %d %d %d\n", rc, r2, f); return; }
    if (!strcmp(op, "dup")) { int n = num(), c = num(); rc = laik_tcp_minimpi_comm_dup(mmC[c], &mmC[n]); OUT("MM dup %d\n", rc); return; }
    if (!strcmp(op, "split")) { int n = num(), c = num(), co = num(), hi = num(); rc = laik_tcp_minimpi_comm_split(mmC[c], co, hi, &mmC[n]); OUT("MM split %d", rc); if (rc) mm_fail(rc); OUT("\n"); return; }
    int id = num(), c = num();
    OUT("MM %s %d", op, id);
    if (!strcmp(op, "rank")) { int r = -9, s = -9; rc = laik_tcp_minimpi_comm_rank(mmC[c], &r); rc |= laik_tcp_minimpi_comm_size(mmC[c], &s); OUT(" %d %d", r, s); }
    else if (!strcmp(op, "send")) {
        int to = num(), tag = num(), ty = num(); long n = num(); int seed = num();
        char* b = mm_buf(ty, n, seed); char* b2 = mm_buf(ty, n, seed);
        rc = laik_tcp_minimpi_send(b, n, ty, to, tag, mmC[c]);
        OUT(" @%.9f %s", mm_now(), mm_cmp(b, b2, n * mmSize[ty]));
        if (n) memset(b, 0x5a, n * mmSize[ty]);        // buffer may be reused
        free(b); free(b2);
    }
    else if (!strcmp(op, "recv")) {
        int fr = num(), tag = num(), ty = num(); long max = num(), n = num(); int seed = num();
        char* b = malloc(max * mmSize[ty]); memset(b, 0xa5, max * mmSize[ty]);
        Laik_Tcp_MiniMpiStatus st = 0; int cnt = -1;
        OUT(" @%.9f", mm_now());
        rc = laik_tcp_minimpi_recv(b, max, ty, fr, tag, mmC[c], &st);
        if (!rc) {
            rc = laik_tcp_minimpi_get_count(&st, ty, &cnt);
            char* w = mm_buf(ty, n, seed);
            OUT(" %d %s", cnt, mm_cmp(b, w, (n < max ? n : max) * mmSize[ty]));
            bool same = true;
            for (long i = n * mmSize[ty]; i < max * mmSize[ty]; i++) if ((unsigned char) b[i] != 0xa5) same = false;
            OUT(" %d", same);
            free(w);
        }
        free(b);
    }
    else if (!strcmp(op, "bcast")) {
        int root = num(), ty = num(); long n = num(); int seed = num(), me = 0;
        rc = laik_tcp_minimpi_comm_rank(mmC[c], &me);
        char* w = mm_buf(ty, n, seed); char* b = mm_buf(ty, n, me == root ? seed : seed + 5);
        rc |= laik_tcp_minimpi_bcast(b, n, ty, root, mmC[c]);
        OUT(" %s", mm_cmp(b, w, n * mmSize[ty]));
        free(b); free(w);
    }
    else if (!strcmp(op, "reduce") || !strcmp(op, "allreduce")) {
        // root (-1: allreduce) type count inplace k seeds
        int root = num(), ty = num(); long n = num(); int inp = num(), k = num(), me = 0, seeds[64];
        for (int i = 0; i < k; i++) seeds[i] = num();
        rc = laik_tcp_minimpi_comm_rank(mmC[c], &me);
        char* in = mm_buf(ty, n, seeds[me]); char* in2 = mm_buf(ty, n, seeds[me]);
        char* out = inp ? in : mm_buf(ty, n, 99); char* out2 = mm_buf(ty, n, 99);
        char* w = mm_sum(ty, n, k, seeds);
        void* a = inp ? LAIK_TCP_MINIMPI_IN_PLACE : in;
        rc |= root < 0 ? laik_tcp_minimpi_allreduce(a, out, n, ty, LAIK_TCP_MINIMPI_SUM, mmC[c])
                       : laik_tcp_minimpi_reduce(a, out, n, ty, LAIK_TCP_MINIMPI_SUM, root, mmC[c]);
        long by = n * mmSize[ty];
        if (root < 0 || root == me) OUT(" %s", mm_cmp(out, w, by));
        else OUT(" %s", inp ? mm_cmp(out, in2, by) : mm_cmp(out, out2, by));
        if (!inp) { OUT(" %s", mm_cmp(in, in2, by)); free(out); }
        free(in); free(in2); free(out2); free(w);
    }
    else if (!strcmp(op, "barrier")) {
        double t0 = mm_now();
        rc = laik_tcp_minimpi_barrier(mmC[c]);
        OUT(" %.9f %.9f", t0, mm_now());
    }
    else abort();
    if (rc) mm_fail(rc);
    OUT("\n");
}
#endif
