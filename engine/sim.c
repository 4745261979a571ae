// Engine: runs N independent copies of LAIK (one shared object per rank) in one
// process on top of a simulated MPI with a seeded, deterministic scheduler.
//
// usage: engine <path to rank library without index, e.g. build/rank>
// Protocol on stdin/stdout: case  = "<len>\n<bytes>"
//                           reply = "<status> <len>\n<bytes>"
// Each case is run in a forked child. status: OK, or how the child ended.
#define _GNU_SOURCE
#include "sim.h"
#include <mpi.h>
#include <assert.h>
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXR 40

void ob_add(OutBuf* b, const char* fmt, ...)
{
    va_list ap;
    while (1) {
        size_t room = b->cap - b->len;
        va_start(ap, fmt);
        int n = vsnprintf(b->p ? b->p + b->len : NULL, room, fmt, ap);
        va_end(ap);
        if ((size_t)n < room) { b->len += n; return; }
        b->cap = (b->cap + n + 1024) * 2;
        b->p = realloc(b->p, b->cap);
        if (!b->p) abort();
    }
}

// ---------------------------------------------------------------- parameters
static int nranks = 1;
static uint64_t rng = 1;
static int p_eager = 1;    // 0: all synchronous, 1: all eager, 2: random per message
static int p_lazy = 0;     // percent: data movement delayed to wait calls
static int p_yield = 20;   // percent: yield at MPI call

static uint64_t rnd(void)
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1DULL >> 11;
}

// ---------------------------------------------------------------- scheduler
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[MAXR];
static int current = -1;
static bool done[MAXR];
static bool (*waitfn[MAXR])(void*);
static void* waitarg[MAXR];
static const char* waitwhat[MAXR];
static __thread int me = -1;
static SimStat stats[MAXR];
static OutBuf out[MAXR];
static OutBuf simmsg;
static int resfd = -1;
static bool mpi_errors_seen;

static void child_finish(const char* status)
{
    OutBuf b = {0};
    ob_add(&b, "!%s\n", status);
    if (simmsg.p) ob_add(&b, "%s", simmsg.p);
    for (int r = 0; r < nranks; r++) {
        ob_add(&b, "#rank %d %s\n", r, done[r] ? "done" : "running");
        if (out[r].p) ob_add(&b, "%s", out[r].p);
    }
    ob_add(&b, "#end\n");
    size_t off = 0;
    while (off < b.len) {
        ssize_t n = write(resfd, b.p + off, b.len - off);
        if (n <= 0) break;
        off += n;
    }
    _exit(0);
}

static void sim_error(const char* fmt, ...)
{
    char buf[500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    ob_add(&simmsg, "SIMERR rank %d: %s\n", me, buf);
    child_finish("MPIERR");
}

// choose next rank to run; called with mtx held
static void pick_next(void)
{
    int cand[MAXR], n = 0;
    bool alldone = true;
    for (int r = 0; r < nranks; r++) {
        if (done[r]) continue;
        alldone = false;
        if (!waitfn[r] || waitfn[r](waitarg[r])) cand[n++] = r;
    }
    if (alldone) { current = MAXR; return; }
    if (n == 0) {
        for (int r = 0; r < nranks; r++)
            if (!done[r]) ob_add(&simmsg, "BLOCKED rank %d in %s\n", r, waitwhat[r] ? waitwhat[r] : "?");
        child_finish("DEADLOCK");
    }
    current = cand[rnd() % n];
    pthread_cond_signal(&cv[current]);
}

static void handoff(void)
{
    pthread_mutex_lock(&mtx);
    pick_next();
    while (current != me) pthread_cond_wait(&cv[me], &mtx);
    pthread_mutex_unlock(&mtx);
}

static void sim_yield(void) { waitfn[me] = 0; handoff(); }

static void maybe_yield(void)
{
    if (p_yield && (int)(rnd() % 100) < p_yield) sim_yield();
}

static void block_until(bool (*fn)(void*), void* arg, const char* what)
{
    if (fn(arg)) return;
    waitfn[me] = fn; waitarg[me] = arg; waitwhat[me] = what;
    handoff();
    waitfn[me] = 0;
}

// ---------------------------------------------------------------- MPI objects
typedef struct { int n; int member[MAXR]; int seq[MAXR]; } Comm;  // seq: per-rank collective counter
#define MAXCOMM 400
static Comm comms[MAXCOMM];
static int ncomms = 2;

static int dsize(MPI_Datatype t)
{
    switch (t) {
    case MPI_CHAR: case MPI_INT8_T: case MPI_UINT8_T: case MPI_UNSIGNED_CHAR:
    case MPI_SIGNED_CHAR: case MPI_BYTE: return 1;
    case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT32_T: case MPI_UINT32_T: case MPI_FLOAT: case MPI_INTEGER:
    case MPI_INT: case MPI_UNSIGNED: return 4;
    case MPI_INT64_T: case MPI_UINT64_T: case MPI_DOUBLE: case MPI_LONG: case MPI_UNSIGNED_LONG:
    case MPI_LONG_LONG: case MPI_LONG_LONG_INT: case MPI_UNSIGNED_LONG_LONG: return 8;
    }
    sim_error("invalid MPI datatype %d", t);
    return 0;
}

static int comm_rank(MPI_Comm c)
{
    if (c <= 0 || c >= ncomms) sim_error("invalid communicator %d", c);
    for (int i = 0; i < comms[c].n; i++) if (comms[c].member[i] == me) return i;
    sim_error("rank not in communicator %d", c);
    return -1;
}

static void hash(const char* op, long a, long b, long c, long d)
{
    uint64_t h = stats[me].hash;
    for (; *op; op++) h = (h ^ *op) * 0x100000001b3ULL;
    long v[4] = {a, b, c, d};
    for (int i = 0; i < 4; i++) h = (h ^ (uint64_t)v[i]) * 0x9E3779B97F4A7C15ULL, h ^= h >> 31;
    stats[me].hash = h;
}

// a request: send or receive
typedef struct Req Req;
struct Req {
    bool used, isSend, done, waited;
    MPI_Comm comm; int src, dst, tag;   // src/dst: rank in comm
    MPI_Datatype dt; int count;         // recv: max count
    char* buf;                          // user buffer
    char* data; long bytes;             // send: buffered copy (0: not yet copied)
    bool eager;
    Req* match;
    bool delivered;                     // recv: data in user buffer
    MPI_Status st;
    unsigned long seq;
    uint64_t sum; long sumbytes;        // content of the user buffer (to detect changes while pending)
};

static uint64_t bufsum(const char* p, long n)
{
    uint64_t h = 1469598103934665603ULL, v;
    for (; n >= 8; n -= 8, p += 8) { memcpy(&v, p, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; }
    for (; n > 0; n--, p++) h = (h ^ (unsigned char)*p) * 0x100000001b3ULL;
    return h;
}
#define MAXREQ 60000
static Req* reqs[MAXREQ];
static int nreqs = 1;
// not yet matched requests, in posting order
static Req *pend[MAXREQ];
static int npend;
static int owner_of(Req* r) { return comms[r->comm].member[r->isSend ? r->src : r->dst]; }

static Req* newreq(int* id)
{
    if (nreqs == MAXREQ) { ob_add(&simmsg, "too many requests\n"); child_finish("LIMIT"); }
    Req* r = calloc(1, sizeof(Req));
    r->used = true;
    reqs[nreqs] = r;
    *id = nreqs++;
    return r;
}

static void copy_send(Req* s)
{
    if (s->data) return;
    s->data = malloc(s->bytes ? s->bytes : 1);
    memcpy(s->data, s->buf, s->bytes);   // ASan checks the user buffer
}

static void deliver(Req* r)
{
    if (r->delivered) return;
    Req* s = r->match;
    copy_send(s);
    memcpy(r->buf, s->data, s->bytes);
    r->delivered = true;
    r->sumbytes = s->bytes; r->sum = bufsum(r->buf, r->sumbytes);
    free(s->data); s->data = 0;
    s->done = true;
}

static bool matches(Req* s, Req* r)
{
    return s->comm == r->comm && s->dst == r->dst && (r->src == s->src || r->src == MPI_ANY_SOURCE)
        && (r->tag == s->tag || r->tag == MPI_ANY_TAG);
}

static void post(Req* q)
{
    for (int i = 0; i < npend; i++) {
        Req* o = pend[i];
        if (o->isSend == q->isSend) continue;
        Req *s = q->isSend ? q : o, *r = q->isSend ? o : q;
        if (!matches(s, r)) continue;
        memmove(pend + i, pend + i + 1, (npend - i - 1) * sizeof(Req*));
        npend--;
        if (s->dt != r->dt)
            sim_error("datatype mismatch: sent %d, received %d (from %d to %d)", s->dt, r->dt, s->src, s->dst);
        if (s->bytes > (long)r->count * dsize(r->dt))
            sim_error("message truncated: sent %ld bytes, room for %ld (from %d to %d)",
                      s->bytes, (long)r->count * dsize(r->dt), s->src, s->dst);
        s->match = r; r->match = s;
        r->st.MPI_SOURCE = s->src; r->st.MPI_TAG = s->tag;
        r->st.sim_dtype = s->dt; r->st.sim_bytes = s->bytes;
        r->done = true;
        if (!(p_lazy && (int)(rnd() % 100) < p_lazy)) deliver(r);
        s->done = true;
        return;
    }
    pend[npend++] = q;
}

static bool req_done(void* a) { Req* r = a; return r->done; }

static void check_peer(MPI_Comm c, int p)
{
    comm_rank(c);
    if (p < 0 || p >= comms[c].n) sim_error("invalid peer rank %d in communicator of size %d", p, comms[c].n);
}

static Req* start_send(const void* buf, int count, MPI_Datatype dt, int dst, int tag, MPI_Comm c, int* id, bool blocking)
{
    check_peer(c, dst);
    if (count < 0) sim_error("negative count in send");
    Req* s = newreq(id);
    s->isSend = true; s->comm = c; s->src = comm_rank(c); s->dst = dst; s->tag = tag;
    s->dt = dt; s->count = count; s->buf = (char*)buf; s->bytes = (long)count * dsize(dt);
    s->sumbytes = s->bytes; s->sum = bufsum(s->buf, s->sumbytes);
    s->eager = (p_eager == 1) || (p_eager == 2 && (rnd() & 1));
    if (s->eager) {
        s->done = true;
        if (blocking || !(p_lazy && (int)(rnd() % 100) < p_lazy)) copy_send(s);
    }
    post(s);
    return s;
}

static Req* start_recv(void* buf, int count, MPI_Datatype dt, int src, int tag, MPI_Comm c, int* id)
{
    if (src != MPI_ANY_SOURCE) check_peer(c, src);
    if (count < 0) sim_error("negative count in receive");
    Req* r = newreq(id);
    r->isSend = false; r->comm = c; r->dst = comm_rank(c); r->src = src; r->tag = tag;
    r->dt = dt; r->count = count; r->buf = buf;
    r->sumbytes = (long)count * dsize(dt); r->sum = bufsum(r->buf, r->sumbytes);
    post(r);
    return r;
}

static void finish(Req* q, MPI_Status* st, const char* what)
{
    block_until(req_done, q, what);
    // the buffer must not be changed while the operation is pending
    if (bufsum(q->buf, q->sumbytes) != q->sum)
        sim_error("%s buffer modified while operation is pending (from %d to %d, count %d)",
                  q->isSend ? "send" : "receive", q->src, q->dst, q->count);
    if (q->isSend) {
        // completion: take the data out of the user buffer now
        if (q->match) { if (!q->match->delivered) copy_send(q); }
        else copy_send(q);
    } else {
        deliver(q);
        if (st) *st = q->st;
        stats[me].elemRecv += q->st.sim_bytes / dsize(q->dt);
        stats[me].byteRecv += q->st.sim_bytes;
    }
    q->waited = true;
}

int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
    maybe_yield();
    hash("send", n, t, d, tag);
    stats[me].sends++; stats[me].elemSend += n; stats[me].byteSend += (long)n * dsize(t);
    int id; Req* s = start_send(b, n, t, d, tag, c, &id, true);
    finish(s, 0, "MPI_Send");
    maybe_yield();
    return MPI_SUCCESS;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
    int e = p_eager; p_eager = 0;
    int r = MPI_Send(b, n, t, d, tag, c);
    p_eager = e;
    return r;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st)
{
    maybe_yield();
    hash("recv", n, t, s, tag);
    stats[me].recvs++;
    int id; Req* r = start_recv(b, n, t, s, tag, c, &id);
    finish(r, st, "MPI_Recv");
    maybe_yield();
    return MPI_SUCCESS;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q)
{
    maybe_yield();
    hash("isend", n, t, d, tag);
    stats[me].isends++; stats[me].elemSend += n; stats[me].byteSend += (long)n * dsize(t);
    start_send(b, n, t, d, tag, c, q, false);
    return MPI_SUCCESS;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q)
{
    maybe_yield();
    hash("irecv", n, t, s, tag);
    stats[me].irecvs++;
    start_recv(b, n, t, s, tag, c, q);
    return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* q, MPI_Status* st)
{
    maybe_yield();
    if (*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
    if (*q < 0 || *q >= nreqs || reqs[*q]->waited || owner_of(reqs[*q]) != me)
        sim_error("wait on invalid request");
    finish(reqs[*q], st, reqs[*q]->isSend ? "MPI_Wait(send)" : "MPI_Wait(recv)");
    *q = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st)
{
    for (int i = 0; i < n; i++) MPI_Wait(q + i, st ? st + i : 0);
    return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* st)
{
    sim_yield();
    *flag = 1;
    if (*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
    if (!reqs[*q]->done) { *flag = 0; return MPI_SUCCESS; }
    return MPI_Wait(q, st);
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n)
{
    long s = dsize(t);
    *n = (st->sim_bytes % s) ? MPI_UNDEFINED : (int)(st->sim_bytes / s);
    return MPI_SUCCESS;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag,
                 void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* status)
{
    MPI_Request q1, q2;
    MPI_Irecv(rb, rn, rt, s, rtag, c, &q1);
    MPI_Isend(sb, sn, st, d, stag, c, &q2);
    MPI_Wait(&q1, status);
    return MPI_Wait(&q2, 0);
}

// ---------------------------------------------------------------- collectives
typedef struct {
    bool used; MPI_Comm comm; int seq;
    const char* op; int count; MPI_Datatype dt; int mop, root;
    int arrived, left;
    const char* in[MAXR]; char* outb[MAXR]; char* copy[MAXR];
    int color[MAXR], key[MAXR], res[MAXR];
    bool fin;
} Coll;
#define MAXCOLL 30000
static Coll* colls[MAXCOLL];
static int ncolls;
static bool coll_fin(void* a) { return ((Coll*)a)->fin; }

#define RED(T, BIT) { T* a = (T*)acc; const T* b = (const T*)in; \
    for (int i = 0; i < n; i++) switch (op) { \
    case MPI_SUM: a[i] = (T)(a[i] + b[i]); break; case MPI_PROD: a[i] = (T)(a[i] * b[i]); break; \
    case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break; case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break; \
    case MPI_LAND: a[i] = a[i] && b[i]; break; case MPI_LOR: a[i] = a[i] || b[i]; break; BIT \
    default: sim_error("invalid operation %d for type %d", op, t); } break; }
#define BITS case MPI_BAND: a[i] = a[i] & b[i]; break; case MPI_BOR: a[i] = a[i] | b[i]; break; \
    case MPI_BXOR: a[i] = a[i] ^ b[i]; break;
static void redop(char* acc, const char* in, int n, MPI_Datatype t, int op)
{
    switch (t) {
    case MPI_CHAR: case MPI_INT8_T: case MPI_SIGNED_CHAR: RED(int8_t, BITS)
    case MPI_UINT8_T: case MPI_UNSIGNED_CHAR: case MPI_BYTE: RED(uint8_t, BITS)
    case MPI_INT16_T: RED(int16_t, BITS)
    case MPI_UINT16_T: RED(uint16_t, BITS)
    case MPI_INT32_T: case MPI_INTEGER: case MPI_INT: RED(int32_t, BITS)
    case MPI_UINT32_T: case MPI_UNSIGNED: RED(uint32_t, BITS)
    case MPI_INT64_T: case MPI_LONG: case MPI_LONG_LONG: case MPI_LONG_LONG_INT: RED(int64_t, BITS)
    case MPI_UINT64_T: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: RED(uint64_t, BITS)
    case MPI_FLOAT: RED(float,)
    case MPI_DOUBLE: RED(double,)
    default: sim_error("invalid type %d in reduction", t);
    }
}

static void coll_complete(Coll* c)
{
    Comm* cm = &comms[c->comm];
    long bytes = c->dt ? (long)c->count * dsize(c->dt) : 0;
    if (!strcmp(c->op, "allreduce") || !strcmp(c->op, "reduce")) {
        char* acc = malloc(bytes + 1);
        memcpy(acc, c->copy[0], bytes);
        for (int i = 1; i < cm->n; i++) redop(acc, c->copy[i], c->count, c->dt, c->mop);
        for (int i = 0; i < cm->n; i++)
            if (c->root < 0 || c->root == i) memcpy(c->outb[i], acc, bytes);
        free(acc);
    }
    else if (!strcmp(c->op, "bcast")) {
        for (int i = 0; i < cm->n; i++) if (i != c->root) memcpy(c->outb[i], c->copy[c->root], bytes);
    }
    else if (!strcmp(c->op, "gather")) {
        for (int i = 0; i < cm->n; i++)
            if (c->root < 0 || c->root == i)
                for (int j = 0; j < cm->n; j++) memcpy(c->outb[i] + j * bytes, c->copy[j], bytes);
    }
    else if (!strcmp(c->op, "split") || !strcmp(c->op, "dup")) {
        for (int i = 0; i < cm->n; i++) c->res[i] = -1;
        for (int i = 0; i < cm->n; i++) {
            if (c->res[i] >= 0) continue;
            if (c->color[i] == MPI_UNDEFINED) { c->res[i] = MPI_COMM_NULL; continue; }
            if (ncomms == MAXCOMM) child_finish("LIMIT");
            int id = ncomms++;
            Comm* nc = &comms[id];
            // members sorted by (key, old rank)
            int idx[MAXR], n = 0;
            for (int j = i; j < cm->n; j++) if (c->color[j] == c->color[i]) idx[n++] = j;
            for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++)
                if (c->key[idx[b]] < c->key[idx[a]] || (c->key[idx[b]] == c->key[idx[a]] && idx[b] < idx[a])) {
                    int t = idx[a]; idx[a] = idx[b]; idx[b] = t;
                }
            nc->n = n;
            for (int a = 0; a < n; a++) { nc->member[a] = cm->member[idx[a]]; c->res[idx[a]] = id; }
        }
    }
    for (int i = 0; i < cm->n; i++) { free(c->copy[i]); c->copy[i] = 0; }
    c->fin = true;
}

static Coll* collective(const char* op, MPI_Comm comm, const void* in, void* outb, int count,
                        MPI_Datatype dt, int mop, int root, int color, int key)
{
    maybe_yield();
    int r = comm_rank(comm);
    Comm* cm = &comms[comm];
    int seq = cm->seq[r]++;
    if (root >= cm->n) sim_error("invalid root %d", root);
    if (count < 0) sim_error("negative count in %s", op);
    Coll* c = 0;
    for (int i = ncolls - 1; i >= 0; i--)
        if (colls[i]->comm == comm && colls[i]->seq == seq) { c = colls[i]; break; }
    if (!c) {
        if (ncolls == MAXCOLL) child_finish("LIMIT");
        c = calloc(1, sizeof(Coll));
        c->comm = comm; c->seq = seq; c->op = op; c->count = count; c->dt = dt; c->mop = mop; c->root = root;
        colls[ncolls++] = c;
    }
    else if (strcmp(c->op, op) || c->count != count || c->dt != dt || c->mop != mop || c->root != root)
        sim_error("collective mismatch: %s(count %d, type %d, op %d, root %d) versus %s(count %d, type %d, op %d, root %d)",
                  op, count, dt, mop, root, c->op, c->count, c->dt, c->mop, c->root);
    const void* src = (in == MPI_IN_PLACE) ? outb : in;
    long bytes = dt ? (long)count * dsize(dt) : 0;
    if (!strcmp(op, "allreduce") || !strcmp(op, "reduce")) {
        if (in == MPI_IN_PLACE && root >= 0 && root != r) sim_error("MPI_IN_PLACE in reduce on non-root");
        if (in != MPI_IN_PLACE && in == outb && bytes && (root < 0 || root == r))
            sim_error("aliased buffers in %s", op);
        if (in == MPI_IN_PLACE || in) { c->copy[r] = malloc(bytes + 1); memcpy(c->copy[r], src, bytes); }
        else if (bytes) sim_error("null send buffer in %s", op);
        else c->copy[r] = malloc(1);
    }
    else if (!strcmp(op, "bcast")) {
        if (r == root) { c->copy[r] = malloc(bytes + 1); memcpy(c->copy[r], outb, bytes); }
    }
    else if (!strcmp(op, "gather")) { c->copy[r] = malloc(bytes + 1); memcpy(c->copy[r], src, bytes); }
    c->outb[r] = outb; c->color[r] = color; c->key[r] = key;
    c->arrived++;
    if (c->arrived == cm->n) coll_complete(c);
    block_until(coll_fin, c, op);
    maybe_yield();
    return c;
}

int MPI_Allreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    hash("allreduce", n, t, o, 0);
    stats[me].reduces++; stats[me].elemReduce += n; stats[me].byteReduce += (long)n * dsize(t);
    collective("allreduce", c, s, d, n, t, o, -1, 0, 0);
    return MPI_SUCCESS;
}
int MPI_Reduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c)
{
    hash("reduce", n, t, o, root);
    stats[me].reduces++; stats[me].elemReduce += n; stats[me].byteReduce += (long)n * dsize(t);
    collective("reduce", c, s, d, n, t, o, root, 0, 0);
    return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{ hash("bcast", n, t, root, 0); collective("bcast", c, 0, b, n, t, 0, root, 0, 0); return MPI_SUCCESS; }
int MPI_Barrier(MPI_Comm c)
{ hash("barrier", 0, 0, 0, 0); collective("barrier", c, 0, 0, 0, 0, 0, -1, 0, 0); return MPI_SUCCESS; }
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* d, int n2, MPI_Datatype t2, MPI_Comm c)
{ (void)n2; (void)t2; hash("allgather", n, t, 0, 0); collective("gather", c, s, d, n, t, 0, -1, 0, 0); return MPI_SUCCESS; }
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* d, int n2, MPI_Datatype t2, int root, MPI_Comm c)
{ (void)n2; (void)t2; hash("gather", n, t, root, 0); collective("gather", c, s, d, n, t, 0, root, 0, 0); return MPI_SUCCESS; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* nc)
{
    int r = comm_rank(c);
    hash("split", color, key, 0, 0);
    *nc = collective("split", c, 0, 0, 0, 0, 0, -1, color, key)->res[r];
    return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* nc)
{
    int r = comm_rank(c);
    *nc = collective("dup", c, 0, 0, 0, 0, 0, -1, 0, 0)->res[r];
    return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* n) { comm_rank(c); *n = comms[c].n; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = comm_rank(c); return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler h) { (void)c; (void)h; return MPI_SUCCESS; }
int MPI_Get_processor_name(char* s, int* n) { *n = sprintf(s, "simnode%d", me); return MPI_SUCCESS; }
int MPI_Error_string(int e, char* s, int* n) { *n = sprintf(s, "error %d", e); return MPI_SUCCESS; }
int MPI_Init(int* a, char*** v) { (void)a; (void)v; return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalize(void) { return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm c, int e) { (void)c; sim_error("MPI_Abort(%d)", e); return 0; }
double MPI_Wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ---------------------------------------------------------------- ranks
static drv_run_t drv[MAXR];
static const char* script;
static DrvEnv envs[MAXR];

static void* rank_main(void* arg)
{
    me = (int)(long)arg;
    pthread_mutex_lock(&mtx);
    while (current != me) pthread_cond_wait(&cv[me], &mtx);
    pthread_mutex_unlock(&mtx);
    drv[me](&envs[me], script);
    pthread_mutex_lock(&mtx);
    done[me] = true;
    pick_next();
    pthread_mutex_unlock(&mtx);
    return 0;
}

static void run_child(char* text)
{
    // header lines
    while (*text == '!') {
        char* nl = strchr(text, '\n');
        *nl = 0;
        char k[64] = "", rest[2000] = "";
        int n = 0;
        sscanf(text + 1, "%63s %n", k, &n);
        snprintf(rest, sizeof rest, "%s", text + 1 + n);
        if (!strcmp(k, "ranks")) nranks = atoi(rest);
        else if (!strcmp(k, "seed")) rng = strtoull(rest, 0, 10) * 0x9E3779B97F4A7C15ULL + 0x1234567;
        else if (!strcmp(k, "eager")) p_eager = atoi(rest);
        else if (!strcmp(k, "lazy")) p_lazy = atoi(rest);
        else if (!strcmp(k, "yield")) p_yield = atoi(rest);
        else if (!strcmp(k, "env")) {
            char* sp = strchr(rest, ' ');
            if (sp) { *sp = 0; setenv(rest, sp + 1, 1); } else unsetenv(rest);
        }
        text = nl + 1;
    }
    if (nranks < 1 || nranks > MAXR) child_finish("BADCASE");
    script = text;
    comms[1].n = nranks;
    pthread_t th[MAXR];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4 << 20);
    for (int r = 0; r < nranks; r++) {
        comms[1].member[r] = r;
        pthread_cond_init(&cv[r], 0);
        envs[r] = (DrvEnv){ .rank = r, .size = nranks, .stat = &stats[r], .out = &out[r], .yield = sim_yield };
    }
    for (int r = 0; r < nranks; r++) pthread_create(&th[r], &at, rank_main, (void*)(long)r);
    pthread_mutex_lock(&mtx);
    pick_next();
    pthread_mutex_unlock(&mtx);
    for (int r = 0; r < nranks; r++) pthread_join(th[r], 0);
    int left = 0;
    for (int i = 0; i < npend; i++) {
        Req* q = pend[i];
        ob_add(&simmsg, "LEFTOVER %s from %d to %d tag %d count %d\n", q->isSend ? "send" : "recv", q->src, q->dst, q->tag, q->count);
        left++;
    }
    for (int i = 1; i < nreqs; i++)
        if (!reqs[i]->waited) { ob_add(&simmsg, "LEFTOVER unwaited %s request\n", reqs[i]->isSend ? "send" : "recv"); left++; break; }
    for (int i = 0; i < ncolls; i++) if (!colls[i]->fin) { ob_add(&simmsg, "LEFTOVER collective %s\n", colls[i]->op); left++; }
    child_finish(left ? "LEFTOVER" : "OK");
}

static bool readall(int fd, char* p, size_t n)
{
    while (n) {
        ssize_t k = read(fd, p, n);
        if (k <= 0) return false;
        p += k; n -= k;
    }
    return true;
}

int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    int nso = argc > 2 ? atoi(argv[2]) : MAXR;
    for (int r = 0; r < nso; r++) {
        char path[500];
        snprintf(path, sizeof path, "%s%d.so", argv[1], r);
        void* h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
        drv[r] = (drv_run_t)dlsym(h, "drv_run");
        if (!drv[r]) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPIPE, SIG_IGN);
    int outfd = dup(1);
    while (1) {
        char line[64];
        int i = 0;
        while (i < 63) { if (read(0, line + i, 1) != 1) return 0; if (line[i] == '\n') break; i++; }
        line[i] = 0;
        long len = 0, timeout = 20000;
        sscanf(line, "%ld %ld", &len, &timeout);
        char* text = malloc(len + 1);
        if (!readall(0, text, len)) return 0;
        text[len] = 0;
        int pfd[2];
        if (pipe(pfd)) return 2;
        int efd = memfd_create("err", 0);
        pid_t pid = fork();
        if (pid == 0) {
            close(pfd[0]);
            dup2(efd, 2); dup2(efd, 1);
            int nul = 0; (void)nul;
            close(0);
            resfd = pfd[1];
            setpgid(0, 0);
            run_child(text);
            _exit(3);
        }
        close(pfd[1]);
        char* res = 0; size_t rl2 = 0, rc = 0;
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        bool timedout = false;
        while (1) {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            long el = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
            struct pollfd pf = { pfd[0], POLLIN, 0 };
            int pr = el >= timeout ? 0 : poll(&pf, 1, timeout - el);
            if (pr < 0 && errno == EINTR) continue;
            if (pr == 0) { timedout = true; kill(pid, SIGKILL); break; }
            if (rc - rl2 < 65536) { rc = (rc + 65536) * 2; res = realloc(res, rc); }
            ssize_t k = read(pfd[0], res + rl2, rc - rl2);
            if (k <= 0) break;
            rl2 += k;
        }
        close(pfd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        bool complete = rl2 >= 5 && !memcmp(res + rl2 - 5, "#end\n", 5);
        char status[64];
        if (timedout) strcpy(status, "TIMEOUT");
        else if (complete) strcpy(status, "OK");
        else if (WIFSIGNALED(st)) snprintf(status, sizeof status, "SIGNAL%d", WTERMSIG(st));
        else snprintf(status, sizeof status, "EXIT%d", WEXITSTATUS(st));
        OutBuf b = {0};
        if (rl2) { ob_add(&b, "%.*s", (int)rl2, res); }
        // last part of stderr/stdout
        off_t esz = lseek(efd, 0, SEEK_END);
        long lim = complete ? 4000 : 12000;
        if (esz > 0) {
            char* eb = malloc(esz + 1);
            long n = pread(efd, eb, esz < lim ? esz : lim, 0);
            if (n > 0) { eb[n] = 0; ob_add(&b, "#stderr\n%s\n", eb); }
            if (esz > lim) {
                long st2 = esz - lim < lim ? lim : esz - lim;
                n = pread(efd, eb, esz - st2, st2);
                if (n > 0) { eb[n] = 0; ob_add(&b, "%s\n", eb); }
            }
            free(eb);
        }
        close(efd);
        char hdr[100];
        int hl = sprintf(hdr, "%s %zu\n", status, b.len);
        if (write(outfd, hdr, hl) != hl) return 0;
        size_t off = 0;
        while (off < b.len) { ssize_t k = write(outfd, b.p + off, b.len - off); if (k <= 0) return 0; off += k; }
        free(b.p); free(res); free(text);
    }
}
