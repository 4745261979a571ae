#include <errno.h>
// Interpreter for test scripts on top of the LAIK API. One line = one command.
// Built (together with the LAIK sources) into one shared object per simulated
// rank, and into the per-process driver used for the TCP backends.
#define _GNU_SOURCE
#include "laik-internal.h"
#ifdef USE_MPI
#include "laik-backend-mpi.h"
#endif
#include "laik-backend-single.h"
#include "sim.h"
#include <assert.h>
#include <inttypes.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>

#ifdef DRV_STANDALONE
void ob_add(OutBuf* b, const char* fmt, ...);
#endif

extern long hp_blocks __attribute__((weak)), hp_bytes __attribute__((weak));     // heap.c
#define NTAB 300
typedef struct Alloc { void* p; size_t n; struct Alloc* next; int data; } Alloc;

typedef struct {
    int id, size;
    DrvEnv* env;
    Laik_Instance* inst;
    int portfd;
    Laik_Group* G[NTAB];
    Laik_Space* S[NTAB];
    Laik_Partitioner* R[NTAB];
    Laik_Partitioning* P[NTAB];
    Laik_Data* D[NTAB];
    Laik_Reservation* V[NTAB];
    Laik_Transition* T[NTAB];
    Laik_ActionSeq* A[NTAB];
    Laik_KVStore* K[NTAB];
    Laik_Layout* L[NTAB];
    Laik_Type* types[NTAB];
    char* prov[NTAB];
    Alloc* live;
    long allocs, frees, allocErr, curBytes, maxBytes;
    struct { long a, f, ab, fb, cur, max; } da[NTAB];   // per container
    unsigned long unmaps;
} Ctx;

static Ctx* C;         // current context
static OutBuf* O;

#define OUT(...) ob_add(O, __VA_ARGS__)

// ------------------------------------------------------------- tokens
static const char* tp;   // token pointer
static char tok[70000];
static bool more(void) { while (*tp == ' ') tp++; return *tp && *tp != '\n'; }
static char* word(void)
{
    while (*tp == ' ') tp++;
    int n = 0;
    while (*tp && *tp != ' ' && *tp != '\n' && n < (int)sizeof tok - 1) tok[n++] = *tp++;
    tok[n] = 0;
    return tok;
}
static int64_t num(void)
{
    if (!more()) { fprintf(stderr, "driver: missing number\n"); abort(); }
    char* w = word();
    return strtoll(w, 0, 10);
}
static int hid(void) { int64_t v = num(); if (v < 0 || v >= NTAB) { fprintf(stderr, "driver: bad handle %ld\n", (long)v); abort(); } return v; }
static double fnum(void) { return strtod(word(), 0); }

// hex string to bytes; "-" = empty
static int hexbytes(char* buf, int max)
{
    char* w = word();
    if (!strcmp(w, "-")) return 0;
    int n = 0;
    for (; w[0] && w[1] && n < max; w += 2) { unsigned v; sscanf(w, "%2x", &v); buf[n++] = v; }
    return n;
}
static void outhex(const void* p, long n)
{
    if (n == 0) OUT("-");
    for (long i = 0; i < n; i++) OUT("%02x", ((const unsigned char*)p)[i]);
}

// ------------------------------------------------------------- values
static uint64_t mix(uint64_t seed, int64_t i0, int64_t i1, int64_t i2, int64_t who)
{
    uint64_t h = seed * 0x9E3779B97F4A7C15ULL + (uint64_t)i0 * 0xBF58476D1CE4E5B9ULL
        + (uint64_t)i1 * 0x94D049BB133111EBULL + (uint64_t)i2 * 0xD6E8FEB86659FD93ULL
        + (uint64_t)who * 0xA0761D6478BD642FULL;
    h ^= h >> 29; h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
    return h;
}

static Laik_Type* gettype(const char* w)
{
    if (!strcmp(w, "char")) return laik_Char;
    if (!strcmp(w, "int32")) return laik_Int32;
    if (!strcmp(w, "int64")) return laik_Int64;
    if (!strcmp(w, "uchar")) return laik_UChar;
    if (!strcmp(w, "uint32")) return laik_UInt32;
    if (!strcmp(w, "uint64")) return laik_UInt64;
    if (!strcmp(w, "float")) return laik_Float;
    if (!strcmp(w, "double")) return laik_Double;
    if (w[0] == 't') return C->types[atoi(w + 1)];
    fprintf(stderr, "driver: bad type %s\n", w); abort();
}

// user-defined types with reductions working on each byte
#define NUT 4
static int ut_size[NUT];
static void ut_init_n(int n, void* p, int count, Laik_ReductionOperation o)
{
    int v = (o == LAIK_RO_Prod) ? 1 : (o == LAIK_RO_Min || o == LAIK_RO_And) ? 255 : 0;
    memset(p, v, (size_t)count * ut_size[n]);
}
static void ut_reduce_n(int n, void* out, const void* in1, const void* in2, int count, Laik_ReductionOperation o)
{
    size_t len = (size_t)count * ut_size[n];
    unsigned char* q = out; const unsigned char *a = in1, *b = in2;
    if (!a || !b) {
        if (a || b) memmove(q, a ? a : b, len); else ut_init_n(n, q, count, o);
        return;
    }
    for (size_t i = 0; i < len; i++)
        switch (o) {
        case LAIK_RO_Sum: q[i] = a[i] + b[i]; break;
        case LAIK_RO_Prod: q[i] = a[i] * b[i]; break;
        case LAIK_RO_Min: q[i] = a[i] < b[i] ? a[i] : b[i]; break;
        case LAIK_RO_Max: q[i] = a[i] > b[i] ? a[i] : b[i]; break;
        case LAIK_RO_And: q[i] = a[i] & b[i]; break;
        case LAIK_RO_Or: q[i] = a[i] | b[i]; break;
        default: abort();
        }
}
#define UT(n) static void ut_init##n(void* p, int c, Laik_ReductionOperation o) { ut_init_n(n, p, c, o); } \
    static void ut_reduce##n(void* out, const void* a, const void* b, int c, Laik_ReductionOperation o) { ut_reduce_n(n, out, a, b, c, o); }
UT(0) UT(1) UT(2) UT(3)
static laik_init_t ut_init[NUT] = { ut_init0, ut_init1, ut_init2, ut_init3 };
static laik_reduce_t ut_reduce[NUT] = { ut_reduce0, ut_reduce1, ut_reduce2, ut_reduce3 };

// mode 0: any bits, 1: small, 2: small nonzero (products)
static void setval(Laik_Type* t, char* p, uint64_t h, int mode)
{
    int sm = mode == 1 ? (int)(h % 7) - 3 : 0;
    if (mode == 2) { static const int v[6] = {1, 2, 3, -1, -2, 1}; sm = v[h % 6]; }
    int us = mode == 1 ? (int)(h % 4) : mode == 2 ? (int)(h % 3) + 1 : 0;
    if (t == laik_Float) { float f = mode ? sm : (float)((int)(h % 2001) - 1000); memcpy(p, &f, 4); }
    else if (t == laik_Double) { double f = mode ? sm : (double)((int64_t)(h % 2000000001) - 1000000000); memcpy(p, &f, 8); }
    else {
        uint64_t v = h;
        if (mode) v = (t == laik_UChar || t == laik_UInt32 || t == laik_UInt64) ? (uint64_t)us : (uint64_t)(int64_t)sm;
        // little endian truncation; for larger types repeat
        for (int i = 0; i < t->size; i++) { p[i] = (char)(v >> (8 * (i % 8))); if (i % 8 == 7) v = v * 0x9E3779B97F4A7C15ULL + 1; }
    }
}

static void outval(Laik_Type* t, const char* p)
{
    if (t == laik_Float) { float f; memcpy(&f, p, 4); OUT(" %.9g", f); }
    else if (t == laik_Double) { double f; memcpy(&f, p, 8); OUT(" %.17g", f); }
    else if (t == laik_Char) OUT(" %d", *(const signed char*)p);
    else if (t == laik_UChar) OUT(" %u", *(const unsigned char*)p);
    else if (t == laik_Int32) { int32_t v; memcpy(&v, p, 4); OUT(" %" PRId32, v); }
    else if (t == laik_UInt32) { uint32_t v; memcpy(&v, p, 4); OUT(" %" PRIu32, v); }
    else if (t == laik_Int64) { int64_t v; memcpy(&v, p, 8); OUT(" %" PRId64, v); }
    else if (t == laik_UInt64) { uint64_t v; memcpy(&v, p, 8); OUT(" %" PRIu64, v); }
    else { OUT(" "); outhex(p, t->size); }
}

// ------------------------------------------------------------- allocator
static int alloc_data_id(Laik_Data* d) { for (int i = 0; i < NTAB; i++) if (C->D[i] == d) return i; return -1; }
static void* t_malloc(Laik_Data* d, size_t n)
{
    Alloc* a = malloc(sizeof *a);
    a->p = malloc(n ? n : 1); a->n = n; a->next = C->live; a->data = alloc_data_id(d);
    memset(a->p, 0x5a, n);
    C->live = a; C->allocs++; C->curBytes += n;
    if (a->data < 0) C->allocErr++;
    else {
        C->da[a->data].a++; C->da[a->data].ab += n; C->da[a->data].cur += n;
        if (C->da[a->data].cur > C->da[a->data].max) C->da[a->data].max = C->da[a->data].cur;
    }
    if (C->curBytes > C->maxBytes) C->maxBytes = C->curBytes;
    return a->p;
}
static void t_free(Laik_Data* d, void* p)
{
    for (Alloc** a = &C->live; *a; a = &(*a)->next)
        if ((*a)->p == p) { Alloc* x = *a; *a = x->next; C->curBytes -= x->n;
            if (x->data < 0 || alloc_data_id(d) != x->data) C->allocErr++;   // returned for another container
            else { C->da[x->data].f++; C->da[x->data].fb += x->n; C->da[x->data].cur -= x->n; }
            free(x->p); free(x); C->frees++; return; }
    C->allocErr++;
}

// ------------------------------------------------------------- backends
static void nb_exec(Laik_ActionSeq* as) { (void)as; }
static void nb_update(Laik_Group* g) { (void)g; }
static void nb_sync(Laik_KVStore* k) { (void)k; }
static Laik_Backend nullBackend = { .name = "null", .exec = nb_exec, .updateGroup = nb_update, .sync = nb_sync };

void gen_setup(Laik_Instance** inst, int rank, int size, const char* spec);
#ifdef SIM_GEN
#else
void gen_setup(Laik_Instance** inst, int rank, int size, const char* spec) { (void)inst; (void)rank; (void)size; (void)spec; abort(); }
#endif

// LAIK allows only one instance to log: further (fake) ones do not
void laik_log_init_real(Laik_Instance* i);
void laik_log_init(Laik_Instance* i)
{
    static bool done = false;
    if (!done) laik_log_init_real(i);
    done = true;
}

static Laik_Instance* fake_instance(int size, int id)
{
    char loc[32];
    sprintf(loc, "loc%d", id);
    Laik_Instance* inst = laik_new_instance(&nullBackend, size, id, 0, 0, strdup(loc), 0);
    Laik_Group* w = laik_create_group(inst, size);
    w->size = size; w->myid = id;
    for (int i = 0; i < size; i++) w->locationid[i] = i;
    inst->world = w;
    return inst;
}

// ------------------------------------------------------------- partitioners
typedef struct { int task, tag; Laik_Index from, to; } CRange;
typedef struct { int n; int dims; bool single; CRange* r; } Custom;

static void run_custom(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp)
{
    Custom* c = laik_partitioner_data(pp->partitioner);
    for (int i = 0; i < c->n; i++) {
        CRange* r = &c->r[i];
        if (c->single) { laik_append_index_1d(rr, r->task, r->from.i[0]); continue; }
        Laik_Range g;
        laik_range_init(&g, pp->space, &r->from, &r->to);
        laik_append_range(rr, r->task, &g, r->tag, (void*)(long)(i + 1));
    }
}

// derived partitioner: same ranges as <other>, rotated by one process
static void run_rotate(Laik_RangeReceiver* rr, Laik_PartitionerParams* pp)
{
    int n = laik_partitioning_rangecount(pp->other);
    int gs = laik_size(pp->group);
    for (int i = 0; i < n; i++) {
        Laik_TaskRange* tr = laik_partitioning_get_taskrange(pp->other, i);
        laik_append_range(rr, (laik_taskrange_get_task(tr) + 1) % gs, laik_taskrange_get_range(tr),
                          laik_taskrange_get_tag(tr), 0);
    }
}

typedef struct { int kind; uint64_t seed; int k; int n; double* tab; int64_t base; } Weights;
static Weights* parse_weights(void)
{
    // none | hash seed k | tab base n v1..vn
    Weights* w = calloc(1, sizeof *w);
    char* s = word();
    if (!strcmp(s, "none")) { free(w); return 0; }
    if (!strcmp(s, "hash")) { w->kind = 1; w->seed = num(); w->k = num(); return w; }
    w->kind = 2; w->base = num(); w->n = num(); w->tab = malloc(sizeof(double) * (w->n + 1));
    for (int i = 0; i < w->n; i++) w->tab[i] = fnum();
    return w;
}
static double wval(Weights* w, int64_t i)
{
    if (w->kind == 1) return (double)(1 + mix(w->seed, i, 0, 0, 0) % w->k);
    i -= w->base;
    return (i < 0 || i >= w->n) ? 1.0 : w->tab[i];
}
static double idx_w(Laik_Index* i, const void* ud) { return wval(((Weights**)ud)[0], i->i[(intptr_t)((Weights**)ud)[2]]); }
static double task_w(int rank, const void* ud) { return wval(((Weights**)ud)[1], rank); }

// ------------------------------------------------------------- element access
static int es(Laik_Data* d) { return d->elemsize; }

// borders of mapping: bounding box of all own ranges with given map number (from user level API)
static bool mapbox(Laik_Partitioning* p, int mapNo, int dims, Laik_Index* from, Laik_Index* to)
{
    bool any = false;
    int n = laik_my_rangecount(p);
    for (int i = 0; i < n; i++) {
        Laik_TaskRange* tr = laik_my_range(p, i);
        if (laik_taskrange_get_mapNo(tr) != mapNo) continue;
        const Laik_Range* r = laik_taskrange_get_range(tr);
        for (int k = 0; k < dims; k++) {
            if (!any || r->from.i[k] < from->i[k]) from->i[k] = r->from.i[k];
            if (!any || r->to.i[k] > to->i[k]) to->i[k] = r->to.i[k];
        }
        any = true;
    }
    return any;
}

typedef struct { int dims, mapNo, mode; Laik_Data* d; char* base; uint64_t ys, zs, xn, yn, zn; Laik_Index mf, mt; Laik_Mapping* m; } Acc;

// mode 0: base pointer + strides, 1: layout offset, 2: laik_get_map_addr
static bool acc_init(Acc* a, Laik_Data* d, int mapNo, int mode)
{
    Laik_Partitioning* p = laik_data_get_partitioning(d);
    a->d = d; a->dims = laik_space_getdimensions(laik_data_get_space(d)); a->mapNo = mapNo; a->mode = mode;
    if (!mapbox(p, mapNo, a->dims, &a->mf, &a->mt)) return false;
    void* b = 0;
    a->ys = a->zs = 0; a->yn = a->zn = 1;
    if (mode == 0) {
        if (a->dims == 1) a->m = laik_get_map_1d(d, mapNo, &b, &a->xn);
        else if (a->dims == 2) a->m = laik_get_map_2d(d, mapNo, &b, &a->yn, &a->ys, &a->xn);
        else a->m = laik_get_map_3d(d, mapNo, &b, &a->zn, &a->zs, &a->yn, &a->ys, &a->xn);
    }
    else a->m = laik_get_map(d, mapNo);
    a->base = b;
    return a->m != 0;
}
static char* acc_addr(Acc* a, Laik_Index* i)
{
    if (a->mode == 0) {
        uint64_t x = i->i[0] - a->mf.i[0], y = 0, z = 0;
        if (a->dims > 1) y = i->i[1] - a->mf.i[1];
        if (a->dims > 2) z = i->i[2] - a->mf.i[2];
        if (x >= a->xn || y >= a->yn || z >= a->zn) return 0;
        return a->base + (x + y * a->ys + z * a->zs) * es(a->d);
    }
    if (a->mode == 1) return a->m->start + laik_offset(a->m->layout, a->m->layoutSection, i) * es(a->d);
    return laik_get_map_addr(a->d, a->mapNo, i);
}

static void idx_first(Laik_Index* i, const Laik_Index* from) { *i = *from; }
static bool idx_next(Laik_Index* i, const Laik_Index* from, const Laik_Index* to, int dims)
{
    for (int k = 0; k < dims; k++) {
        i->i[k]++;
        if (i->i[k] < to->i[k]) return true;
        i->i[k] = from->i[k];
    }
    return false;
}

static void norm(Laik_Index* f, Laik_Index* t, int dims)
{
    for (int k = dims; k < 3; k++) { f->i[k] = 0; t->i[k] = 1; }
}

static void readbox(int dims, Laik_Index* f, Laik_Index* t)
{
    for (int k = 0; k < 3; k++) { f->i[k] = 0; t->i[k] = 1; }
    for (int k = 0; k < dims; k++) { f->i[k] = num(); t->i[k] = num(); }
}

static void outbox(int dims, const Laik_Range* r)
{
    for (int k = 0; k < dims; k++) OUT(" %" PRId64 " %" PRId64, r->from.i[k], r->to.i[k]);
}

// fill own elements: all, or restricted to a box
static void do_fill(Laik_Data* d, uint64_t seed, int useid, int mode, int amode, Laik_Index* bf, Laik_Index* bt)
{
    Laik_Partitioning* p = laik_data_get_partitioning(d);
    int dims = laik_space_getdimensions(laik_data_get_space(d));
    int n = laik_my_rangecount(p);
    int who = useid ? laik_myid(laik_partitioning_get_group(p)) + 1 : 0;
    for (int k = 0; k < n; k++) {
        Laik_TaskRange* tr = laik_my_range(p, k);
        Laik_Range r = *laik_taskrange_get_range(tr);
        norm(&r.from, &r.to, dims);
        int mapNo = laik_taskrange_get_mapNo(tr);
        if (bf) for (int j = 0; j < dims; j++) {
            if (r.from.i[j] < bf->i[j]) r.from.i[j] = bf->i[j];
            if (r.to.i[j] > bt->i[j]) r.to.i[j] = bt->i[j];
        }
        bool empty = false;
        for (int j = 0; j < dims; j++) if (r.from.i[j] >= r.to.i[j]) empty = true;
        if (empty) continue;
        Acc a;
        if (!acc_init(&a, d, mapNo, amode)) { OUT("NOMAP fill %d\n", mapNo); continue; }
        Laik_Index i;
        idx_first(&i, &r.from);
        do {
            char* q = acc_addr(&a, &i);
            if (!q) { OUT("BADADDR fill\n"); return; }
            setval(d->type, q, mix(seed, i.i[0], dims > 1 ? i.i[1] : 0, dims > 2 ? i.i[2] : 0, who), mode);
        } while (idx_next(&i, &r.from, &r.to, dims));
    }
}

static void do_dump(Laik_Data* d, const char* label, int amode, bool hashonly)
{
    Laik_Partitioning* p = laik_data_get_partitioning(d);
    int dims = laik_space_getdimensions(laik_data_get_space(d));
    int n = p ? laik_my_rangecount(p) : 0;
    OUT("DUMP %s %d %d\n", label, n, p ? laik_my_mapcount(p) : 0);
    for (int k = 0; k < n; k++) {
        Laik_TaskRange* tr = laik_my_range(p, k);
        Laik_Range r = *laik_taskrange_get_range(tr);
        norm(&r.from, &r.to, dims);
        int mapNo = laik_taskrange_get_mapNo(tr);
        OUT("R %d %d", mapNo, laik_taskrange_get_tag(tr));
        outbox(dims, &r);
        OUT(" :");
        bool empty = false;
        for (int j = 0; j < dims; j++) if (r.from.i[j] >= r.to.i[j]) empty = true;
        if (empty) { OUT("\n"); continue; }
        Acc a;
        if (!acc_init(&a, d, mapNo, amode)) { OUT(" NOMAP\n"); continue; }
        Laik_Index i;
        idx_first(&i, &r.from);
        uint64_t h = 14695981039346656037ULL;
        do {
            char* q = acc_addr(&a, &i);
            if (!q) { OUT(" BADADDR"); break; }
            if (hashonly) { for (int b = 0; b < es(d); b++) h = (h ^ (unsigned char)q[b]) * 1099511628211ULL; }
            else outval(d->type, q);
        } while (idx_next(&i, &r.from, &r.to, dims));
        if (hashonly) OUT(" %" PRIu64, h);
        OUT("\n");
    }
}

// compare with expected fill values inside the driver (for large containers)
static void do_check(Laik_Data* d, const char* label, uint64_t seed, int64_t who, int mode)
{
    Laik_Partitioning* p = laik_data_get_partitioning(d);
    int dims = laik_space_getdimensions(laik_data_get_space(d));
    int n = laik_my_rangecount(p);
    uint64_t bad = 0, tot = 0;
    Laik_Index first = {{0,0,0}};
    char exp[64];
    for (int k = 0; k < n; k++) {
        Laik_TaskRange* tr = laik_my_range(p, k);
        Laik_Range r = *laik_taskrange_get_range(tr);
        norm(&r.from, &r.to, dims);
        Acc a;
        if (!acc_init(&a, d, laik_taskrange_get_mapNo(tr), 0)) { OUT("NOMAP check\n"); continue; }
        Laik_Index i;
        idx_first(&i, &r.from);
        do {
            char* q = acc_addr(&a, &i);
            setval(d->type, exp, mix(seed, i.i[0], dims > 1 ? i.i[1] : 0, dims > 2 ? i.i[2] : 0, who), mode);
            if (!q || memcmp(q, exp, es(d))) { if (!bad) first = i; bad++; }
            tot++;
        } while (idx_next(&i, &r.from, &r.to, dims));
    }
    OUT("CHECK %s %" PRIu64 " %" PRIu64 " %" PRId64 " %" PRId64 " %" PRId64 "\n", label, tot, bad, first.i[0], first.i[1], first.i[2]);
}

// ------------------------------------------------------------- dump helpers
static void dump_list(Laik_RangeList* l, int dims)
{
    if (!l) { OUT("LIST null\n"); return; }
    int n = laik_rangelist_rangecount(l);
    OUT("LIST %d %u\n", n, l->tid_count);
    for (int i = 0; i < n; i++) {
        Laik_TaskRange* tr = laik_rangelist_taskrange(l, i);
        OUT("T %d %d %d %ld", laik_taskrange_get_task(tr), laik_taskrange_get_mapNo(tr), laik_taskrange_get_tag(tr),
            (long)laik_taskrange_get_data(tr));
        outbox(dims, laik_taskrange_get_range(tr));
        OUT("\n");
    }
}

static void dump_tgroup(Laik_Transition* t, int g)
{
    if (g == -1) { OUT(" all"); return; }
    int n = laik_trans_groupCount(t, g);
    OUT(" %d", n);
    for (int i = 0; i < n; i++) OUT(",%d", laik_trans_taskInGroup(t, g, i));
}

static void dump_trans(Laik_Transition* t)
{
    if (!t) { OUT("TRANS null\n"); return; }
    int dims = t->dims;
    OUT("TRANS %d %d %d %d %d\n", t->localCount, t->initCount, t->sendCount, t->recvCount, t->redCount);
    for (int i = 0; i < t->localCount; i++) {
        struct localTOp* o = &t->local[i];
        OUT("L %d %d %d %d", o->fromRangeNo, o->fromMapNo, o->toRangeNo, o->toMapNo); outbox(dims, &o->range); OUT("\n");
    }
    for (int i = 0; i < t->initCount; i++) {
        struct initTOp* o = &t->init[i];
        OUT("I %d %d %d", o->rangeNo, o->mapNo, o->redOp); outbox(dims, &o->range); OUT("\n");
    }
    for (int i = 0; i < t->sendCount; i++) {
        struct sendTOp* o = &t->send[i];
        OUT("S %d %d %d", o->toTask, o->rangeNo, o->mapNo); outbox(dims, &o->range); OUT("\n");
    }
    for (int i = 0; i < t->recvCount; i++) {
        struct recvTOp* o = &t->recv[i];
        OUT("V %d %d %d", o->fromTask, o->rangeNo, o->mapNo); outbox(dims, &o->range); OUT("\n");
    }
    for (int i = 0; i < t->redCount; i++) {
        struct redTOp* o = &t->red[i];
        OUT("X %d %d %d %d %d", o->redOp, o->myInputRangeNo, o->myInputMapNo, o->myOutputRangeNo, o->myOutputMapNo);
        dump_tgroup(t, o->inputGroup); dump_tgroup(t, o->outputGroup);
        outbox(dims, &o->range); OUT("\n");
    }
}

static void dump_stat(Laik_SwitchStat* s, const char* label)
{
    OUT("STAT %s switches=%d noact=%d malloc=%d free=%d mallocB=%lu freedB=%lu initB=%lu copyB=%lu curB=%lu maxB=%lu trans=%d "
        "send=%u recv=%u red=%u asend=%u arecv=%u esend=%lu erecv=%lu ered=%lu bsend=%lu brecv=%lu bred=%lu initops=%lu redops=%lu bufcopy=%lu\n",
        label, s->switches, s->switches_noactions, s->mallocCount, s->freeCount, s->mallocedBytes, s->freedBytes,
        s->initedBytes, s->copiedBytes, s->currAllocedBytes, s->maxAllocedBytes, s->transitionCount,
        s->msgSendCount, s->msgRecvCount, s->msgReduceCount, s->msgAsyncSendCount, s->msgAsyncRecvCount,
        s->elemSendCount, s->elemRecvCount, s->elemReduceCount, s->byteSendCount, s->byteRecvCount, s->byteReduceCount,
        s->initOpCount, s->reduceOpCount, s->byteBufCopyCount);
}

// ------------------------------------------------------------- layout tests
// memory map check: every live mapping must be inside a live allocation / provided memory
static void dump_maps(Laik_Data* d, const char* label)
{
    Laik_Partitioning* p = laik_data_get_partitioning(d);
    int dims = laik_space_getdimensions(laik_data_get_space(d));
    int n = p ? laik_my_mapcount(p) : 0;
    OUT("MAPS %s %d %d\n", label, n, p ? laik_my_rangecount(p) : 0);
    for (int i = 0; i < n; i++) {
        Laik_Mapping* m = laik_get_map(d, i);
        if (!m) { OUT("M null\n"); continue; }
        OUT("M %d no %d count %lu base %lu start %lu cap %lu req", i, laik_map_get_mapNo(m), (unsigned long)m->count,
            (unsigned long)m->base, (unsigned long)m->start, (unsigned long)m->capacity);
        outbox(dims, &m->requiredRange);
        OUT("\n");
    }
}

// all element addresses of own ranges in all access modes
static void dump_addrs(Laik_Data* d, const char* label, int only)
{
    Laik_Partitioning* p = laik_data_get_partitioning(d);
    int dims = laik_space_getdimensions(laik_data_get_space(d));
    int n = p ? laik_my_rangecount(p) : 0;
    OUT("ADDRS %s %d\n", label, n);
    for (int k = 0; k < n; k++) {
        Laik_TaskRange* tr = laik_my_range(p, k);
        Laik_Range r = *laik_taskrange_get_range(tr);
        norm(&r.from, &r.to, dims);
        int mapNo = laik_taskrange_get_mapNo(tr);
        Acc a[3];
        for (int m = 0; m < 3; m++) if (!acc_init(&a[m], d, mapNo, only < 0 ? m : only)) { OUT("NOMAP\n"); return; }
        Laik_Index i;
        idx_first(&i, &r.from);
        do {
            OUT("A %d %" PRId64 " %" PRId64 " %" PRId64 " %lu %lu %lu\n", mapNo, i.i[0], i.i[1], i.i[2],
                (unsigned long)acc_addr(&a[0], &i), (unsigned long)acc_addr(&a[1], &i), (unsigned long)acc_addr(&a[2], &i));
        } while (idx_next(&i, &r.from, &r.to, dims));
    }
}

static void kvs_created(Laik_KVStore* k, Laik_KVS_Entry* e) { (void)k; OUT("CB created %s ", laik_kvs_key(e)); unsigned n; char* p = laik_kvs_data(e, &n); outhex(p, n); OUT("\n"); }
static void kvs_changed(Laik_KVStore* k, Laik_KVS_Entry* e) { (void)k; OUT("CB changed %s ", laik_kvs_key(e)); unsigned n; char* p = laik_kvs_data(e, &n); outhex(p, n); OUT("\n"); }
static void kvs_removed(Laik_KVStore* k, char* key) { (void)k; OUT("CB removed %s\n", key); }

static Laik_Layout* gen_layout_factory(int n, Laik_Range* ranges);

#include "drv_extra.h"

// ------------------------------------------------------------- commands
static void docmd(char* cmd)
{
    Laik_Index f, t;
    if (!strcmp(cmd, "init")) {
        char* w = word();
        if (!strcmp(w, "fake")) { num(); C->inst = fake_instance(C->size, C->id); }
        else if (!strcmp(w, "gen")) { char spec[300]; snprintf(spec, sizeof spec, "%s", word()); gen_setup(&C->inst, C->id, C->size, spec); }
        else {
            setenv("LAIK_BACKEND", w, 1);
#ifdef DRV_STANDALONE
            static char* av[] = { "drvproc", 0 };
            static int ac = 1; static char** avp = av;
            C->inst = laik_init(&ac, &avp);
#else
            C->inst = laik_init(0, 0);
#endif
        }
#ifdef DRV_STANDALONE
        // the backend decides on the rank
        C->id = laik_mylocationid(C->inst);
        OUT("#rank %d proc\n", C->id);
#endif
        C->G[0] = laik_world(C->inst);
    }
    else if (!strcmp(cmd, "finalize")) { if (C->inst->backend != &nullBackend) laik_finalize(C->inst); }
    else if (!strcmp(cmd, "yield")) { if (C->env->yield) C->env->yield(); }
    else if (!strcmp(cmd, "echo")) { OUT("ECHO %s\n", word()); }
    else if (!strcmp(cmd, "loglevel")) { laik_set_loglevel(num()); }
    // ---- groups
    else if (!strcmp(cmd, "world")) { int g = hid(); C->G[g] = laik_world(C->inst); }
    else if (!strcmp(cmd, "shrink")) {
        int g = hid(), b = hid(), n = num(); int l[64];
        for (int i = 0; i < n; i++) l[i] = num();
        C->G[g] = laik_new_shrinked_group(C->G[b], n, l);
    }
    else if (!strcmp(cmd, "clone")) { int g = hid(); C->G[g] = laik_clone_group(C->G[hid()]); }
    else if (!strcmp(cmd, "union")) { int g = hid(); Laik_Group* a = C->G[hid()]; C->G[g] = laik_new_union_group(a, C->G[hid()]); }
    else if (!strcmp(cmd, "setworld")) { laik_set_world(C->inst, C->G[hid()]); }
    else if (!strcmp(cmd, "release")) { laik_release_group(C->G[hid()]); }
    else if (!strcmp(cmd, "resize")) { int g = hid(); C->G[g] = laik_allow_world_resize(C->inst, num()); }
    else if (!strcmp(cmd, "finishresize")) { laik_finish_world_resize(C->inst); }
    else if (!strcmp(cmd, "dumpg")) {
        int gi = hid();
        Laik_Group* g = C->G[gi];
        OUT("GROUP %d size %d myid %d loc", gi, laik_size(g), laik_myid(g));
        for (int i = 0; i < laik_size(g); i++) OUT(" %d", laik_group_locationid(g, i));
        OUT(" parent %d", laik_group_parent(g) ? laik_size(laik_group_parent(g)) : -1);
        if (g->parent) {
            OUT(" to"); for (int i = 0; i < g->size; i++) OUT(" %d", g->toParent[i]);
            OUT(" from"); for (int i = 0; i < g->parent->size; i++) OUT(" %d", g->fromParent[i]);
        }
        if (g->parent2) {
            OUT(" parent2 %d", laik_size(g->parent2));
            OUT(" to2"); for (int i = 0; i < g->size; i++) OUT(" %d", g->toParent2[i]);
            OUT(" from2"); for (int i = 0; i < g->parent2->size; i++) OUT(" %d", g->fromParent2[i]);
        }
        OUT("\n");
    }
    else if (!strcmp(cmd, "dumpw")) {
        OUT("WORLD size %d myid %d epoch %d phase %d myloc %d\n", laik_size(C->inst->world), laik_myid(C->inst->world),
            laik_epoch(C->inst), laik_phase(C->inst), laik_mylocationid(C->inst));
    }
    else if (!strcmp(cmd, "syncloc")) { laik_sync_location(C->inst); }
    else if (!strcmp(cmd, "dumploc")) {
        Laik_Group* g = C->G[hid()];
        OUT("LOC my %s :", laik_mylocation(C->inst));
        for (int i = 0; i < laik_size(g); i++) { char* l = laik_group_location(g, i); OUT(" %s", l ? l : "(null)"); }
        OUT("\n");
    }
    // ---- spaces
    else if (!strcmp(cmd, "space")) {
        int s = hid(), dims = num(); readbox(dims, &f, &t);
        int64_t n[3]; bool zero = true;
        for (int k = 0; k < 3; k++) { n[k] = t.i[k] - f.i[k]; if (k < dims && f.i[k]) zero = false; }
        Laik_Space* sp = dims == 1 ? laik_new_space_1d(C->inst, n[0]) : dims == 2 ? laik_new_space_2d(C->inst, n[0], n[1])
                                   : laik_new_space_3d(C->inst, n[0], n[1], n[2]);
        if (!zero) {
            if (dims == 1) laik_change_space_1d(sp, f.i[0], t.i[0]);
            else if (dims == 2) laik_change_space_2d(sp, f.i[0], t.i[0], f.i[1], t.i[1]);
            else laik_change_space_3d(sp, f.i[0], t.i[0], f.i[1], t.i[1], f.i[2], t.i[2]);
        }
        C->S[s] = sp;
    }
    else if (!strcmp(cmd, "dumps")) {
        Laik_Space* s = C->S[hid()];
        int d = laik_space_getdimensions(s);
        OUT("SPACE %d %" PRIu64, d, laik_space_size(s)); outbox(d, laik_space_asrange(s)); OUT("\n");
    }
    // ---- partitioners
    else if (!strcmp(cmd, "pr")) {
        int r = hid();
        char* w = word();
        if (!strcmp(w, "all")) C->R[r] = laik_new_all_partitioner();
        else if (!strcmp(w, "All")) C->R[r] = laik_All;
        else if (!strcmp(w, "master")) C->R[r] = laik_new_master_partitioner();
        else if (!strcmp(w, "Master")) C->R[r] = laik_Master;
        else if (!strcmp(w, "copy")) { int a = num(); C->R[r] = laik_new_copy_partitioner(a, num()); }
        else if (!strcmp(w, "halo")) C->R[r] = laik_new_halo_partitioner(num());
        else if (!strcmp(w, "cornerhalo")) C->R[r] = laik_new_cornerhalo_partitioner(num());
        else if (!strcmp(w, "bisection")) C->R[r] = laik_new_bisection_partitioner();
        else if (!strcmp(w, "grid")) { int a = num(), b = num(); C->R[r] = laik_new_grid_partitioner(a, b, num()); }
        else if (!strcmp(w, "rotate")) C->R[r] = laik_new_partitioner("rotate", run_rotate, 0, 0);
        else if (!strcmp(w, "block")) {
            int pdim = num(), cyc = num(), how = num();
            Weights** ws = malloc(3 * sizeof *ws);
            ws[0] = parse_weights(); ws[1] = parse_weights(); ws[2] = (Weights*)(intptr_t)pdim;
            // how: 0 one call, 1 through setters, 2 convenience constructors (1d, one kind of weight)
            if (how == 0) C->R[r] = laik_new_block_partitioner(pdim, cyc, ws[0] ? idx_w : 0, ws[1] ? task_w : 0, ws);
            else if (how == 1) {
                C->R[r] = laik_new_block_partitioner(pdim, 1, 0, 0, 0);
                if (ws[0]) laik_set_index_weight(C->R[r], idx_w, ws);
                if (ws[1]) laik_set_task_weight(C->R[r], task_w, ws);
                laik_set_cycle_count(C->R[r], cyc);
            }
            else {
                if (ws[0]) C->R[r] = laik_new_block_partitioner_iw1(idx_w, ws);
                else if (ws[1]) C->R[r] = laik_new_block_partitioner_tw1(task_w, ws);
                else C->R[r] = laik_new_block_partitioner1();
                if (cyc != 1) laik_set_cycle_count(C->R[r], cyc);
            }
        }
        else if (!strcmp(w, "reassign")) {
            Laik_Group* g = C->G[hid()];
            Weights** ws = calloc(3, sizeof *ws);
            ws[0] = parse_weights();
            C->R[r] = laik_new_reassign_partitioner(g, ws[0] ? idx_w : 0, ws);
        }
        else if (!strcmp(w, "custom")) {
            Custom* c = calloc(1, sizeof *c);
            int flags = num();
            c->single = (flags & LAIK_PF_SingleIndex) != 0;
            c->dims = num(); c->n = num();
            c->r = calloc(c->n + 1, sizeof(CRange));
            for (int i = 0; i < c->n; i++) {
                c->r[i].task = num(); c->r[i].tag = num();
                readbox(c->dims, &c->r[i].from, &c->r[i].to);
            }
            C->R[r] = laik_new_partitioner("custom", run_custom, c, flags);
        }
        else { fprintf(stderr, "driver: bad partitioner %s\n", w); abort(); }
    }
    // ---- partitionings: part p g s pr other mode [p2]
    else if (!strcmp(cmd, "part")) {
        int p = hid(); Laik_Group* g = C->G[hid()]; Laik_Space* s = C->S[hid()]; Laik_Partitioner* r = C->R[hid()];
        int o = num(), mode = num();
        Laik_Partitioning* other = o < 0 ? 0 : C->P[o];
        if (mode == 0) C->P[p] = laik_new_partitioning(r, g, s, other);
        else {
            C->P[p] = laik_new_empty_partitioning(g, s, r, other);
            if (mode == 2) laik_partitioning_store_allranges(C->P[p]);
            if (mode == 3) laik_partitioning_store_myranges(C->P[p]);
        }
    }
    else if (!strcmp(cmd, "pclone")) { int p = hid(); C->P[p] = laik_clone_empty_partitioning(C->P[hid()]); laik_partitioning_store_allranges(C->P[p]); }
    else if (!strcmp(cmd, "pstore")) {
        Laik_Partitioning* p = C->P[hid()];
        char* w = word();
        if (!strcmp(w, "all")) laik_partitioning_store_allranges(p);
        else if (!strcmp(w, "my")) laik_partitioning_store_myranges(p);
        else { Laik_Partitioning* p2 = C->P[hid()]; laik_partitioning_store_intersectranges(p, p2); }
    }
    else if (!strcmp(cmd, "pmigrate")) { Laik_Partitioning* p = C->P[hid()]; laik_partitioning_migrate(p, C->G[hid()]); }
    else if (!strcmp(cmd, "pfree")) { int p = hid(); laik_free_partitioning(C->P[p]); C->P[p] = 0; }
    else if (!strcmp(cmd, "dumpp")) {
        int pi = hid(); char* w = word();
        Laik_Partitioning* p = C->P[pi];
        int dims = laik_space_getdimensions(laik_partitioning_get_space(p));
        OUT("PART %d %s\n", pi, w);
        if (!strcmp(w, "all")) dump_list(laik_partitioning_allranges(p), dims);
        else if (!strcmp(w, "my")) dump_list(laik_partitioning_myranges(p), dims);
        else if (!strcmp(w, "inter")) dump_list(laik_partitioning_interranges(p, C->P[hid()]), dims);
        else if (!strcmp(w, "api")) {
            // complete view through the accessor functions
            int n = laik_partitioning_rangecount(p);
            OUT("LIST %d %d\n", n, laik_size(laik_partitioning_get_group(p)));
            for (int i = 0; i < n; i++) {
                Laik_TaskRange* tr = laik_partitioning_get_taskrange(p, i);
                OUT("T %d %d %d %ld", laik_taskrange_get_task(tr), laik_taskrange_get_mapNo(tr), laik_taskrange_get_tag(tr),
                    (long)laik_taskrange_get_data(tr));
                outbox(dims, laik_taskrange_get_range(tr)); OUT("\n");
            }
            OUT("END %d\n", laik_partitioning_get_taskrange(p, n) == 0);
        }
        else if (!strcmp(w, "own")) {
            int n = laik_my_rangecount(p), m = laik_my_mapcount(p);
            OUT("OWN %d %d\n", n, m);
            for (int i = 0; i < n; i++) {
                Laik_TaskRange* tr = laik_my_range(p, i);
                OUT("T %d %d %d %ld", laik_taskrange_get_task(tr), laik_taskrange_get_mapNo(tr), laik_taskrange_get_tag(tr),
                    (long)laik_taskrange_get_data(tr));
                Laik_Range r = *laik_taskrange_get_range(tr);
                outbox(dims, &r);
                int64_t v[6] = {0};
                if (dims == 1) laik_my_range_1d(p, i, v, v+1);
                else if (dims == 2) laik_my_range_2d(p, i, v, v+1, v+2, v+3);
                else laik_my_range_3d(p, i, v, v+1, v+2, v+3, v+4, v+5);
                // each border for its own
                for (int k = 0; k < 2 * dims; k++) {
                    int64_t x = 0, *q[6] = {0}; q[k] = &x;
                    Laik_TaskRange* s = (dims == 1) ? laik_my_range_1d(p, i, q[0], q[1]) : (dims == 2) ? laik_my_range_2d(p, i, q[0], q[1], q[2], q[3]) :
                                        laik_my_range_3d(p, i, q[0], q[1], q[2], q[3], q[4], q[5]);
                    if (x != v[k] || laik_taskrange_get_task(s) != laik_taskrange_get_task(tr)) v[k] = -77;
                }
                OUT(" nd"); for (int k = 0; k < 2 * dims; k++) OUT(" %" PRId64, v[k]);
                OUT("\n");
            }
            int64_t e[6] = {7, 9, 7, 9, 7, 9};   // no range: empty
            Laik_TaskRange* no = (dims == 1) ? laik_my_range_1d(p, n, e, e+1) : (dims == 2) ? laik_my_range_2d(p, n, e, e+1, e+2, e+3) :
                                 laik_my_range_3d(p, n, e, e+1, e+2, e+3, e+4, e+5);
            bool past = laik_my_range(p, n) == 0 && no == 0;
            for (int k = 0; k < dims; k++) past = past && e[2*k] == e[2*k+1];
            OUT("PAST %d %d\n", past, laik_my_range(p, -1) == 0);
            for (int k = 0; k < m; k++) {
                int c = laik_my_maprangecount(p, k);
                OUT("MAPR %d %d", k, c);
                for (int i = 0; i < c; i++) {
                    Laik_TaskRange* tr = laik_my_maprange(p, k, i);
                    Laik_Range r = *laik_taskrange_get_range(tr);
                    OUT(" |"); outbox(dims, &r);
                }
                OUT(" past %d\n", laik_my_maprange(p, k, c) == 0);
            }
        }
        else if (!strcmp(w, "pred")) {
            OUT("PRED all %d single %d covers %d\n", laik_partitioning_isAll(p), laik_partitioning_isSingle(p), laik_partitioning_coversSpace(p));
        }
        else if (!strcmp(w, "equal")) { OUT("EQUAL %d\n", laik_partitioning_isEqual(p, C->P[hid()])); }
        else if (!strcmp(w, "tid")) {
            // counts for any task id (range list API)
            Laik_RangeList* l = laik_partitioning_allranges(p);
            for (int tid = 0; tid < (int)l->tid_count; tid++) {
                int n = laik_rangelist_tidrangecount(l, tid), m = laik_rangelist_tidmapcount(l, tid);
                OUT("TID %d %d %d", tid, n, m);
                for (int i = 0; i < n; i++) { Laik_TaskRange* tr = laik_rangelist_tidrange(l, tid, i); OUT(" |"); outbox(dims, laik_taskrange_get_range(tr)); }
                for (int k = 0; k < m; k++) {
                    int c = laik_rangelist_tidmaprangecount(l, tid, k);
                    OUT(" map %d %d", k, c);
                    for (int i = 0; i < c; i++) { Laik_TaskRange* tr = laik_rangelist_tidmaprange(l, tid, k, i); OUT(" |"); outbox(dims, laik_taskrange_get_range(tr)); }
                }
                OUT("\n");
            }
        }
        else if (!strcmp(w, "mq")) {
            // single query, without any other access before: range <n> of mapping <k> of process (-1: own, -2: number of own mappings ...)
            int tid = num(), k = num(), n = num();
            if (tid == -2) OUT("MQ mapcount %d\n", laik_my_mapcount(p));
            else if (tid == -3) OUT("MQ count %d\n", laik_my_maprangecount(p, k));
            else {
                Laik_RangeList* l = (tid < 0) ? 0 : laik_partitioning_allranges(p);
                Laik_TaskRange* tr = (tid < 0) ? laik_my_maprange(p, k, n) : laik_rangelist_tidmaprange(l, tid, k, n);
                OUT("MQ"); if (tr) outbox(dims, laik_taskrange_get_range(tr)); else OUT(" none"); OUT("\n");
            }
        }
        else if (!strcmp(w, "g2l")) {
            Laik_Index g = {{0,0,0}}, l = {{0,0,0}};
            for (int k = 0; k < dims; k++) g.i[k] = num();
            bool ok = laik_index_global2local(p, &g, &l);
            OUT("G2L %d", ok); if (ok) for (int k = 0; k < dims; k++) OUT(" %" PRId64, l.i[k]); OUT("\n");
        }
    }
    // ---- data
    else if (!strcmp(cmd, "type")) {
        int i = hid(), size = num(); char nm[20]; sprintf(nm, "t%d", i);
        C->types[i] = laik_type_register(strdup(nm), size);
        if (more() && num()) {
            // with reductions per byte
            if (i >= NUT) { OUT("ERR type\n"); return; }
            ut_size[i] = size;
            laik_type_set_init(C->types[i], ut_init[i]);
            laik_type_set_reduce(C->types[i], ut_reduce[i]);
        }
    }
    else if (!strcmp(cmd, "data")) { int d = hid(); Laik_Space* s = C->S[hid()]; C->D[d] = laik_new_data(s, gettype(word())); }
    else if (!strcmp(cmd, "alloctrack")) {
        Laik_Data* d = C->D[hid()];
        laik_set_allocator(d, laik_new_allocator(t_malloc, t_free, 0));
    }
    else if (!strcmp(cmd, "genlayout")) { laik_data_set_layout_factory(C->D[hid()], gen_layout_factory); }
    else if (!strcmp(cmd, "provide")) {
        // provide d n: memory of n bytes for next switch
        int di = hid(); size_t n = num();
        if ((long)n < 0) {
            // exactly for first mapping of partitioning -n-1
            Laik_Partitioning* p = C->P[-(long)n - 1]; int dims = laik_space_getdimensions(laik_data_get_space(C->D[di]));
            n = 0;
            if (laik_my_mapcount(p) > 0 && mapbox(p, 0, dims, &f, &t)) { n = es(C->D[di]); for (int k = 0; k < dims; k++) n *= t.i[k] - f.i[k]; }
        }
        if (n == 0) { laik_data_provide_memory(C->D[di], 0, 0); return; }
        C->prov[di] = malloc(n);   // never freed before end: LAIK must not free it
        memset(C->prov[di], 0x77, n);
        laik_data_provide_memory(C->D[di], C->prov[di], n);
        OUT("PROVIDED %d %lu %zu\n", di, (unsigned long)C->prov[di], n);
    }
    else if (!strcmp(cmd, "switch")) {
        Laik_Data* d = C->D[hid()]; int p = num(), fl = num(), ro = num();
        laik_switchto_partitioning(d, p < 0 ? 0 : C->P[p], fl, ro);
    }
    else if (!strcmp(cmd, "switchnew")) {
        Laik_Data* d = C->D[hid()]; int p = hid(); Laik_Group* g = C->G[hid()]; Laik_Partitioner* r = C->R[hid()]; int fl = num(), ro = num();
        C->P[p] = laik_switchto_new_partitioning(d, g, r, fl, ro);
        // only processes of the group take part
        if ((C->P[p] == 0) != (laik_myid(g) < 0)) {
            fprintf(stderr, "driver: switch to new partitioning: %s at process with id %d in group\n", C->P[p] ? "partitioning" : "nothing", laik_myid(g));
            abort();
        }
    }
    else if (!strcmp(cmd, "switchflow")) { Laik_Data* d = C->D[hid()]; int fl = num(), ro = num(); laik_switchto_flow(d, fl, ro); }
    else if (!strcmp(cmd, "initpart")) { Laik_Data* d = C->D[hid()]; laik_set_initial_partitioning(d, C->P[hid()]); }
    else if (!strcmp(cmd, "dfree")) { int d = hid(); laik_free(C->D[d]); C->D[d] = 0; }
    else if (!strcmp(cmd, "fill")) {
        // fill d seed useid mode amode [dims box]
        Laik_Data* d = C->D[hid()]; uint64_t seed = num(); int id = num(), mode = num(), am = num();
        if (more()) { int dims = num(); readbox(dims, &f, &t); do_fill(d, seed, id, mode, am, &f, &t); }
        else do_fill(d, seed, id, mode, am, 0, 0);
    }
    else if (!strcmp(cmd, "filld")) { Laik_Data* d = C->D[hid()]; laik_fill_double(d, fnum()); }
    else if (!strcmp(cmd, "dump")) { Laik_Data* d = C->D[hid()]; char l[40]; snprintf(l, 40, "%s", word()); do_dump(d, l, more() ? num() : 0, false); }
    else if (!strcmp(cmd, "hash")) { Laik_Data* d = C->D[hid()]; char l[40]; snprintf(l, 40, "%s", word()); do_dump(d, l, 0, true); }
    else if (!strcmp(cmd, "check")) { Laik_Data* d = C->D[hid()]; char l[40]; snprintf(l, 40, "%s", word()); uint64_t s = num(); int64_t who = num(); do_check(d, l, s, who, num()); }
    else if (!strcmp(cmd, "maps")) { Laik_Data* d = C->D[hid()]; dump_maps(d, word()); }
    else if (!strcmp(cmd, "addrs")) { Laik_Data* d = C->D[hid()]; char l[40]; snprintf(l, 40, "%s", word()); dump_addrs(d, l, more() ? num() : -1); }
    else if (!strcmp(cmd, "prov")) { int d = hid(); OUT("PROV %lu\n", (unsigned long)C->prov[d]); }
    else if (!strcmp(cmd, "dstat")) { Laik_Data* d = C->D[hid()]; dump_stat(d->stat, word()); }
    else if (!strcmp(cmd, "astat")) {
        OUT("ALLOC %s allocs %ld frees %ld err %ld cur %ld max %ld live", word(), C->allocs, C->frees, C->allocErr, C->curBytes, C->maxBytes);
        for (Alloc* a = C->live; a; a = a->next) OUT(" %lu:%zu:%d", (unsigned long)a->p, a->n, a->data);
        OUT("\n");
    }
    else if (!strcmp(cmd, "dastat")) {
        int d = hid();
        OUT("DALLOC %s malloc=%ld free=%ld mallocB=%ld freedB=%ld curB=%ld maxB=%ld\n", word(), C->da[d].a, C->da[d].f, C->da[d].ab, C->da[d].fb, C->da[d].cur, C->da[d].max);
    }
    else if (!strcmp(cmd, "heap")) { if (&hp_blocks) OUT("HEAP %s %ld %ld\n", word(), hp_blocks, hp_bytes); }
    else if (!strcmp(cmd, "simstat")) {
        SimStat* s = C->env->stat;
        OUT("SIM %s sends=%lu recvs=%lu isends=%lu irecvs=%lu reduces=%lu esend=%lu erecv=%lu ered=%lu bsend=%lu brecv=%lu bred=%lu hash=%lu\n", word(),
            s->sends, s->recvs, s->isends, s->irecvs, s->reduces, s->elemSend, s->elemRecv, s->elemReduce,
            s->byteSend, s->byteRecv, s->byteReduce, s->hash);
    }
    else if (!strcmp(cmd, "datan")) {
        // datan d s type sizes...: container with own new space (s)
        int d = hid(), si = hid(); Laik_Type* ty = gettype(word()); int64_t s1 = num();
        C->D[d] = more() ? laik_new_data_2d(C->inst, ty, s1, num()) : laik_new_data_1d(C->inst, ty, s1);
        C->S[si] = laik_data_get_space(C->D[d]);
    }
    else if (!strcmp(cmd, "dget")) {
        // dget d label p|-1: what the container reports about itself
        Laik_Data* d = C->D[hid()]; const char* label = word(); int p = num();
        Laik_Partitioning* pp = (p < 0) ? 0 : C->P[p];
        Laik_Space* sp = laik_data_get_space(d);
        int dims = laik_space_getdimensions(sp);
        OUT("DGET %s %d %d %d %d %" PRIu64, label, laik_data_get_partitioning(d) == pp, laik_data_get_group(d) == (pp ? laik_partitioning_get_group(pp) : 0),
            laik_data_get_inst(d) == C->inst, dims, laik_space_size(sp));
        for (int i = 0;; i++) {
            Laik_TaskRange* tr = laik_data_range(d, i);
            if (!tr) break;
            OUT(" |"); outbox(dims, laik_taskrange_get_range(tr)); OUT(" %d", laik_taskrange_get_task(tr));
        }
        OUT("\n");
    }
    else if (!strcmp(cmd, "dquery")) {
        // dquery d idx...: translations for 1d indexes
        Laik_Data* d = C->D[hid()];
        while (more()) {
            int64_t g = num();
            uint64_t l = 0; int mn = -7; uint64_t l2 = 0;
            Laik_Mapping* m = laik_global2local_1d(d, g, &l);
            Laik_Mapping* m2 = laik_global2maplocal_1d(d, g, &mn, &l2);
            OUT("Q1 %" PRId64 " %d", g, m != 0);
            if (m) { OUT(" %d %" PRIu64, laik_map_get_mapNo(m), l); }
            OUT(" : %d %d", m2 != 0, mn);
            if (m2) OUT(" %" PRIu64 " back %" PRId64, l2, laik_maplocal2global_1d(d, mn, l2));
            if (m && laik_my_mapcount(laik_data_get_partitioning(d)) == 1) OUT(" single %" PRId64, laik_local2global_1d(d, l));
            OUT("\n");
        }
    }
    // ---- transitions, action sequences
    else if (!strcmp(cmd, "trans")) {
        int ti = hid(); Laik_Space* s = C->S[hid()]; int a = num(), b = num(), fl = num(), ro = num();
        C->T[ti] = laik_calc_transition(s, a < 0 ? 0 : C->P[a], b < 0 ? 0 : C->P[b], fl, ro);
    }
    else if (!strcmp(cmd, "dumpt")) { int ti = hid(); OUT("T# %d\n", ti); dump_trans(C->T[ti]); }
    else if (!strcmp(cmd, "tfree")) { int ti = hid(); laik_free_transition(C->T[ti]); C->T[ti] = 0; }
    else if (!strcmp(cmd, "exect")) { Laik_Data* d = C->D[hid()]; laik_exec_transition(d, C->T[hid()]); }
    else if (!strcmp(cmd, "actions")) {
        int a = hid(); Laik_Data* d = C->D[hid()]; Laik_Transition* t = C->T[hid()]; int r1 = num(), r2 = num();
        C->A[a] = laik_calc_actions(d, t, r1 < 0 ? 0 : C->V[r1], r2 < 0 ? 0 : C->V[r2]);
    }
    else if (!strcmp(cmd, "execa")) { laik_exec_actions(C->A[hid()]); }
    else if (!strcmp(cmd, "afree")) { int a = hid(); laik_aseq_free(C->A[a]); C->A[a] = 0; }
    // ---- reservations
    else if (!strcmp(cmd, "res")) { int v = hid(); C->V[v] = laik_reservation_new(C->D[hid()]); }
    else if (!strcmp(cmd, "resadd")) { int v = hid(); laik_reservation_add(C->V[v], C->P[hid()]); }
    else if (!strcmp(cmd, "resalloc")) { laik_reservation_alloc(C->V[hid()]); }
    else if (!strcmp(cmd, "resuse")) { Laik_Data* d = C->D[hid()]; laik_data_use_reservation(d, C->V[hid()]); }
    else if (!strcmp(cmd, "resunuse")) { Laik_Data* d = C->D[hid()]; d->activeReservation = 0; }
    else if (!strcmp(cmd, "resfree")) { int v = hid(); laik_reservation_free(C->V[v]); C->V[v] = 0; }
    // ---- KVS
    else if (!strcmp(cmd, "kvs")) { int k = hid(); C->K[k] = laik_kvs_new(strdup(word()), C->inst); }
    else if (!strcmp(cmd, "kcb")) { laik_kvs_reg_callbacks(C->K[hid()], kvs_created, kvs_changed, kvs_removed); }
    else if (!strcmp(cmd, "kset")) {
        static char buf[30000]; Laik_KVStore* k = C->K[hid()]; char key[300]; snprintf(key, 300, "%s", word());
        int n = hexbytes(buf, sizeof buf);
        char* exact = malloc(n ? n : 1); memcpy(exact, buf, n);   // exact size: ASan sees overreads
        laik_kvs_set(k, key, n, exact);
        free(exact);
    }
    else if (!strcmp(cmd, "ksets")) {
        Laik_KVStore* k = C->K[hid()]; char key[300]; snprintf(key, 300, "%s", word());
        char* v = strdup(word());
        laik_kvs_sets(k, key, v); free(v);
    }
    else if (!strcmp(cmd, "kremove")) { Laik_KVStore* k = C->K[hid()]; OUT("KREM %d\n", laik_kvs_remove(k, word())); }
    else if (!strcmp(cmd, "knull")) {
        // setting no value removes
        Laik_KVStore* k = C->K[hid()]; char* key = word(); unsigned n;
        int had = laik_kvs_get(k, key, &n) != 0;
        OUT("KREM %d\n", laik_kvs_set(k, key, 3, 0) == 0 ? had : -1);
    }
    else if (!strcmp(cmd, "kclean")) { laik_kvs_clean(C->K[hid()]); }
    else if (!strcmp(cmd, "ksort")) { laik_kvs_sort(C->K[hid()]); }
    else if (!strcmp(cmd, "ksync")) { laik_kvs_sync(C->K[hid()]); }
    else if (!strcmp(cmd, "kfree")) { int k = hid(); laik_kvs_free(C->K[k]); C->K[k] = 0; }
    else if (!strcmp(cmd, "kget")) {
        Laik_KVStore* k = C->K[hid()];
        while (more()) {
            char* key = word(); unsigned n = 0; char* p = laik_kvs_get(k, key, &n);
            Laik_KVS_Entry* e = laik_kvs_entry(k, key);
            OUT("KGET %s %d %d ", key, p != 0, e != 0); if (p) outhex(p, n); else OUT("-"); OUT("\n");
        }
    }
    else if (!strcmp(cmd, "kdump")) {
        Laik_KVStore* k = C->K[hid()]; unsigned n = laik_kvs_count(k);
        OUT("KVS %s %u\n", word(), n);
        for (unsigned i = 0; i < n; i++) {
            Laik_KVS_Entry* e = laik_kvs_getn(k, i); unsigned sz = 0; char* p = laik_kvs_data(e, &sz);
            char c[64]; unsigned cn = laik_kvs_copy(e, c, 16);
            OUT("KE %s %u ", laik_kvs_key(e), laik_kvs_size(e)); outhex(p, sz); OUT(" copy %u ", cn); outhex(c, cn); OUT("\n");
        }
        OUT("KEND %d\n", laik_kvs_getn(k, n) == 0);
    }
    else if (!extra_cmd(cmd)) { fprintf(stderr, "driver: unknown command '%s'\n", cmd); abort(); }
}

static void run_script(const char* s)
{
    while (*s) {
        const char* nl = strchr(s, '\n');
        size_t len = nl ? (size_t)(nl - s) : strlen(s);
        char* line = malloc(len + 1);
        memcpy(line, s, len); line[len] = 0;
        s += len + (nl ? 1 : 0);
        tp = line;
        bool sel = true;
        if (*tp == '@') {
            // @0,2 cmd: only these ranks
            sel = false;
            const char* q = tp + 1;
            while (1) {
                char* e; long v = strtol(q, &e, 10);
                if (v == C->id) sel = true;
                if (*e != ',') { tp = e; break; }
                q = e + 1;
            }
        }
        if (sel && more() && *tp != '#') { char cmd[64]; snprintf(cmd, sizeof cmd, "%s", word()); docmd(cmd); }
        free(line);
    }
}

__attribute__((visibility("default")))
int drv_run(DrvEnv* env, const char* script)
{
    O = env->out;
    int nfake = 0;
    if (!strncmp(script, "init fake ", 10)) nfake = atoi(script + 10);
    if (nfake) {
        for (int i = 0; i < nfake; i++) {
            C = calloc(1, sizeof *C);
            C->id = i; C->size = nfake; C->env = env;
            OUT("#rank %d fake\n", i);
            run_script(script);
        }
    } else {
        C = calloc(1, sizeof *C);
        C->id = env->rank; C->size = env->size; C->env = env;
        run_script(script);
    }
    return 0;
}

#ifdef DRV_STANDALONE
// one real process: script file, rank and size given on the command line; all
// observations go to the output file
void ob_add(OutBuf* b, const char* fmt, ...)
{
    va_list ap;
    while (1) {
        size_t room = b->cap - b->len;
        va_start(ap, fmt);
        int n = vsnprintf(b->p ? b->p + b->len : 0, room, fmt, ap);
        va_end(ap);
        if ((size_t)n < room) { b->len += n; return; }
        b->cap = (b->cap + n + 1024) * 2;
        b->p = realloc(b->p, b->cap);
        if (!b->p) abort();
    }
}
int main(int argc, char** argv)
{
    // drvproc <script> <out> <rank> <size>
    if (argc < 5) return 2;
    FILE* f = fopen(argv[1], "r");
    if (!f) return 2;
    static char text[4000000];
    size_t n = fread(text, 1, sizeof text - 1, f);
    text[n] = 0; fclose(f);
    static SimStat st; static OutBuf ob;
    DrvEnv env = { .rank = atoi(argv[3]), .size = atoi(argv[4]), .stat = &st, .out = &ob };
    drv_run(&env, text);
    f = fopen(argv[2], "w");
    fwrite(ob.p ? ob.p : "", 1, ob.len, f);
    fprintf(f, "#end\n");
    fclose(f);
    return 0;
}
#endif

#ifndef DRV_STANDALONE
int drv_getpid(void) { return 12345; }
#endif
