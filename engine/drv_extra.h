// Part of driver.c: commands for single components (types, ranges, layouts,
// space store, program control, agents)

// ---- user-defined layout: reversed dimension order (last dimension fastest),
// using the generic pack/unpack/copy functions of LAIK
typedef struct { Laik_Range range; uint64_t stride[3]; uint64_t count; } RevEntry;
typedef struct { Laik_Layout h; RevEntry e[]; } RevLayout;

static int rev_section(Laik_Layout* l, Laik_Index* idx)
{
    RevLayout* rl = (RevLayout*)l;
    for (int n = 0; n < l->map_count; n++) {
        bool in = true;
        for (int k = 0; k < l->dims; k++)
            if (idx->i[k] < rl->e[n].range.from.i[k] || idx->i[k] >= rl->e[n].range.to.i[k]) in = false;
        if (in) return n;
    }
    return -1;
}
static int rev_mapno(Laik_Layout* l, int n) { (void)l; return n; }
static int64_t rev_offset(Laik_Layout* l, int n, Laik_Index* idx)
{
    RevEntry* e = &((RevLayout*)l)->e[n];
    int64_t off = 0;
    for (int k = 0; k < l->dims; k++) {
        if (idx->i[k] < e->range.from.i[k] || idx->i[k] >= e->range.to.i[k]) {
            fprintf(stderr, "driver: layout asked for index outside of section\n"); abort();
        }
        off += (idx->i[k] - e->range.from.i[k]) * e->stride[k];
    }
    return off;
}
static Laik_Layout* gen_layout_factory(int n, Laik_Range* ranges)
{
    int dims = ranges[0].space->dims;
    RevLayout* l = calloc(1, sizeof(RevLayout) + n * sizeof(RevEntry));
    uint64_t count = 0;
    for (int i = 0; i < n; i++) {
        RevEntry* e = &l->e[i];
        e->range = ranges[i];
        uint64_t s = 1;
        for (int k = dims - 1; k >= 0; k--) { e->stride[k] = s; s *= ranges[i].to.i[k] - ranges[i].from.i[k]; }
        e->count = s; count += s;
    }
    laik_init_layout(&l->h, dims, n, count, rev_section, rev_mapno, rev_offset, 0, 0, 0, 0, 0);
    return &l->h;
}

#include <sys/mman.h>
// ---- agents
void laik_ext_loadagent(Laik_Instance*, laik_agent_init, int, char**);
#define NAG 30
typedef struct { Laik_Ft_Agent a; int nfail; char fail[32][MAX_UID_LENGTH]; int peeks, gets, iters, lastiter; bool hasiter; } TAgent;
static TAgent* tag[NAG];
static int* libUnloads;
static int profFd[8] = { -1, -1, -1, -1, -1, -1, -1, -1 };
static int tagNo;
#define AG(N) static int ag_peek##N(void) { tag[N]->peeks++; return tag[N]->nfail; } \
  static void ag_get##N(int* n, node_uid_t* l) { tag[N]->gets++; *n = tag[N]->nfail; for (int i = 0; i < *n; i++) memcpy(l[i].uid, tag[N]->fail[i], MAX_UID_LENGTH); } \
  static void ag_iter##N(const int i) { tag[N]->iters++; tag[N]->lastiter = i; }
AG(0) AG(1) AG(2) AG(3) AG(4) AG(5) AG(6) AG(7) AG(8) AG(9) AG(10) AG(11) AG(12) AG(13) AG(14) AG(15) AG(16) AG(17) AG(18) AG(19) AG(20) AG(21) AG(22) AG(23) AG(24) AG(25) AG(26) AG(27) AG(28) AG(29)
#define AGF(F) { F##0, F##1, F##2, F##3, F##4, F##5, F##6, F##7, F##8, F##9, F##10, F##11, F##12, F##13, F##14, F##15, F##16, F##17, F##18, F##19, F##20, F##21, F##22, F##23, F##24, F##25, F##26, F##27, F##28, F##29 }
static Laik_Agent* ag_init(int argc, char** argv)
{
    static laik_agent_peek_failed pk[NAG] = AGF(ag_peek);
    static laik_agent_get_failed gt[NAG] = AGF(ag_get);
    static laik_agent_set_iter it[NAG] = AGF(ag_iter);
    TAgent* t = tag[tagNo];
    t->a.base.id = tagNo; t->a.base.name = "test";
    t->a.base.type = (Laik_Agent_Type)(argc > 0 ? atoi(argv[0]) : 1);
    if (t->a.base.type == LAIK_AGENT_FT) {
        t->a.peekfail = pk[tagNo]; t->a.getfail = gt[tagNo];
        if (t->hasiter) t->a.setiter = it[tagNo];
    }
    return (Laik_Agent*)t;
}

// exact-size copies for ASan
static char* exact_hex(int* n)
{
    static char buf[65000];
    *n = hexbytes(buf, sizeof buf);
    char* p = malloc(*n ? *n : 1);
    memcpy(p, buf, *n);
    return p;
}

static void out_range(const char* l, int dims, const Laik_Range* r) { OUT(" %s", l); outbox(dims, r); }

// connection to control port of the master, sending a line
static int port_open(const char* line)
{
    char buf[20000];
    int len = snprintf(buf, sizeof buf, "%s\n", line);
    struct sockaddr_in sin = { .sin_family = AF_INET, .sin_port = htons(atoi(getenv("LAIK_TCP2_PORT"))) };
    sin.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    if (fd < 0 || connect(fd, (struct sockaddr*)&sin, sizeof sin) != 0 || write(fd, buf, len) != len) { fprintf(stderr, "driver: cannot send to control port\n"); abort(); }
    return fd;
}

// handle incoming requests
static void port_progress(void)
{
    if (C->inst && C->inst->backend->make_progress) (C->inst->backend->make_progress)();
}

// wait for the answer to (status and) help commands on the given connection, and close it
static char* port_status(int fd)
{
    static char st[200000];
    int len = 0;
    st[0] = 0;
    while (1) {
        port_progress();
        int r = recv(fd, st + len, sizeof st - 1 - len, MSG_DONTWAIT);
        if (r == 0 || (r < 0 && errno != EAGAIN)) { fprintf(stderr, "driver: connection to control port closed\n"); abort(); }
        if (r < 0) { usleep(200); continue; }
        len += r;
        st[len] = 0;
        if (strstr(st, "process accepts binary data format\n")) break;
    }
    close(fd);
    port_progress();
    return st;
}

// ---- example applications (see exmain.h), compiled into this object
extern struct { const char* name; int (*fn)(int, char**); } ex_table[];

Laik_Instance* ex_laik_init(int* argc, char*** argv)
{
    C->inst = laik_init(argc, argv);
#ifdef DRV_STANDALONE
    C->id = laik_mylocationid(C->inst);
    OUT("#rank %d proc\n", C->id);
#endif
    return C->inst;
}
int ex_printf(const char* fmt, ...)
{
    static char buf[20000]; static int len = 0;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf + len, sizeof buf - len, fmt, ap);
    va_end(ap);
    len += n;
    if (len >= (int) sizeof buf) { fprintf(stderr, "driver: example output too long\n"); abort(); }
    char* nl;
    while ((nl = strchr(buf, '\n'))) {
        *nl = 0;
        OUT("P %s\n", buf);
        len -= nl + 1 - buf;
        memmove(buf, nl + 1, len + 1);
    }
    return n;
}
unsigned ex_sleep(unsigned s) { (void) s; if (C->env->yield) C->env->yield(); return 0; }
void ex_exit(int rc) { fprintf(stderr, "driver: example exits with %d\n", rc); abort(); }

#include "mm.h"

// own preparation of action sequences: given transformation passes, "B" = preparation by the backend
static char ex_passes[64];
static void (*ex_prepare)(Laik_ActionSeq*);
static void passes_prepare(Laik_ActionSeq* as)
{
    laik_aseq_splitTransitionExecs(as);
    bool done = false;
    for (const char* p = ex_passes; *p && as->actionCount > 0; p++) switch (*p) {
        case 'f': laik_aseq_flattenPacking(as); break;
        case 'm': laik_aseq_replaceWithAllReduce(as); break;
        case 'c': laik_aseq_combineActions(as); break;
        case 'a': laik_aseq_allocBuffer(as); break;
        case 'r': laik_aseq_splitReduce(as); break;
        case 'o': laik_aseq_sort_rounds(as); break;
        case '2': laik_aseq_sort_2phases(as); break;
        case 'd': laik_aseq_sort_rankdigits(as); break;
        case 'y': laik_aseq_copySeq(as); break;
        case 'B': ex_prepare(as); done = true; break;
        default: abort();
    }
    if (done) return;
    as->backend = C->inst->backend;
    laik_aseq_freeTempSpace(as);
    laik_aseq_calc_stats(as);
}

static bool extra_cmd(char* cmd)
{
    Laik_Index f, t;
    if (!strcmp(cmd, "passes")) {
        snprintf(ex_passes, sizeof ex_passes, "%s", word());
        Laik_Backend* b = (Laik_Backend*) C->inst->backend;
        if (!ex_prepare) ex_prepare = b->prepare;
        b->prepare = passes_prepare;
        return true;
    }
    // ---- real processes: synchronisation by files, requests on the control port
    if (!strcmp(cmd, "waitfile")) {
        char* p = word();
        while (access(p, F_OK) != 0) { port_progress(); usleep(500); }
    }
    else if (!strcmp(cmd, "touch")) { FILE* fh = fopen(word(), "w"); if (fh) fclose(fh); }
    else if (!strcmp(cmd, "waitreq")) {
        // let the backend make progress until there are n join requests queued (as shown by the status of the master)
        int n = num();
        while (1) {
            int j = 0;
            char* st = port_status(port_open("status\nhelp"));
            for (char* p = st; (p = strstr(p, "queued for processing: 'register")); p++) j++;
            if (j == n) break;
            usleep(200);
        }
    }
    else if (!strcmp(cmd, "progress")) { (C->inst->backend->make_progress)(); }
    else if (!strcmp(cmd, "sendport")) {
        // sendport <rest of line>: one line to the port of the master, connection gets closed when master processed it
        while (*tp == ' ') tp++;
        int fd = port_open(tp);
        if (write(fd, "help\n", 5) != 5) { fprintf(stderr, "driver: cannot send to control port\n"); abort(); }
        port_status(fd);
    }
    else if (!strcmp(cmd, "keepport")) {
        // keepport <rest of line>: connection stays open until closeport
        while (*tp == ' ') tp++;
        C->portfd = port_open(tp);
    }
    else if (!strcmp(cmd, "closeport")) { close(C->portfd); port_status(port_open("status\nhelp")); }
    else if (!strcmp(cmd, "gparent")) { int g = hid(); C->G[g] = laik_group_parent(C->inst->world); }
    // ---- element types
    else if (!strcmp(cmd, "tinit")) {
        // tinit type op n: initialise n elements inside a larger buffer
        Laik_Type* ty = gettype(word()); int op = num(), n = num();
        size_t s = (size_t)ty->size;
        char* b = malloc((n + 4) * s);
        memset(b, 0xa5, (n + 4) * s);
        ty->init(b + 2 * s, n, op);
        bool ok = true;
        for (size_t i = 0; i < 2 * s; i++) if ((unsigned char)b[i] != 0xa5 || (unsigned char)b[(n + 2) * s + i] != 0xa5) ok = false;
        OUT("TINIT %d", ok); for (int i = 0; i < n; i++) outval(ty, b + (2 + i) * s); OUT("\n");
        free(b);
    }
    else if (!strcmp(cmd, "tred")) {
        // tred type op n alias in1 in2 (hex or null); alias: 0 separate out, 1 out=in1, 2 out=in2
        Laik_Type* ty = gettype(word()); int op = num(), n = num(), alias = num();
        size_t s = (size_t)ty->size;
        char* in[2] = {0, 0}; char* cp[2] = {0, 0};
        for (int k = 0; k < 2; k++) {
            const char* save = tp;
            char* w = word();
            if (!strcmp(w, "null")) continue;
            tp = save;
            int len; char* p = exact_hex(&len);
            if (len != (int)(n * s)) { fprintf(stderr, "driver: tred length\n"); abort(); }
            in[k] = p;
            cp[k] = malloc(len + 1); memcpy(cp[k], p, len);
        }
        char* out;
        if (alias) out = in[alias - 1];
        else { out = malloc(n * s ? n * s : 1); memset(out, 0xa5, n * s); }
        ty->reduce(out, in[0], in[1], n, op);
        bool intact = true;
        for (int k = 0; k < 2; k++) if (in[k] && in[k] != out && memcmp(in[k], cp[k], n * s)) intact = false;
        OUT("TRED %d", intact); for (int i = 0; i < n; i++) outval(ty, out + i * s); OUT("\n");
        if (!alias) free(out);
        free(in[0]); free(in[1]); free(cp[0]); free(cp[1]);
    }
    // ---- range algebra
    else if (!strcmp(cmd, "range2")) {
        // range2 s box1 box2
        Laik_Space* s = C->S[hid()]; int dims = laik_space_getdimensions(s);
        Laik_Range r[2];
        for (int k = 0; k < 2; k++) {
            readbox(dims, &f, &t);
            if (dims == 1) laik_range_init_1d(&r[k], s, f.i[0], t.i[0]);
            else if (dims == 2) laik_range_init_2d(&r[k], s, f.i[0], t.i[0], f.i[1], t.i[1]);
            else laik_range_init_3d(&r[k], s, f.i[0], t.i[0], f.i[1], t.i[1], f.i[2], t.i[2]);
            Laik_Range q; laik_range_init(&q, s, &f, &t);
            if (!laik_range_isEqual(&q, &r[k])) OUT("INITDIFF\n");
            laik_range_init_copy(&q, &r[k]);
            if (!laik_range_isEqual(&q, &r[k])) OUT("COPYDIFF\n");
        }
        OUT("RANGE2 empty %d %d size %" PRIu64 " %" PRIu64 " eq %d %d within %d %d insp %d %d",
            laik_range_isEmpty(&r[0]), laik_range_isEmpty(&r[1]), laik_range_size(&r[0]), laik_range_size(&r[1]),
            laik_range_isEqual(&r[0], &r[1]), laik_range_isEqual(&r[1], &r[0]),
            laik_range_within_range(&r[0], &r[1]), laik_range_within_range(&r[1], &r[0]),
            laik_range_within_space(&r[0], s), laik_range_within_space(&r[1], s));
        Laik_Range* i = laik_range_intersect(&r[0], &r[1]);
        if (i) { Laik_Range c = *i; out_range("int", dims, &c); } else OUT(" int -");
        i = laik_range_intersect(&r[1], &r[0]);
        if (i) { Laik_Range c = *i; out_range("int2", dims, &c); } else OUT(" int2 -");
        Laik_Range e = r[0], e2 = r[1];
        laik_range_expand(&e, &r[1]); laik_range_expand(&e2, &r[0]);
        out_range("exp", dims, &e); out_range("exp2", dims, &e2);
        OUT("\n");
        // invalid ranges
        Laik_Range inv = r[0]; inv.space = 0;
        Laik_Range exi = inv; laik_range_expand(&exi, &r[1]);
        i = laik_range_intersect(&inv, &r[1]);
        Laik_Range* j = laik_range_intersect(&r[1], &inv);
        OUT("RINV %d %" PRIu64 " %d %d %d %d %d %d %d %d\n", laik_range_isEmpty(&inv), laik_range_size(&inv),
            laik_range_within_range(&inv, &r[1]), laik_range_within_range(&r[1], &inv), laik_range_within_space(&inv, s),
            laik_range_isEqual(&inv, &r[0]), laik_range_isEqual(&r[0], &inv), exi.space != 0,
            i && !laik_range_isEmpty(i), j && !laik_range_isEmpty(j));
        Laik_Index ia, is2, in; laik_index_init(&in, r[0].from.i[0], dims > 1 ? r[0].from.i[1] : 0, dims > 2 ? r[0].from.i[2] : 0);
        Laik_Index ib; laik_index_init(&ib, r[1].to.i[0], dims > 1 ? r[1].to.i[1] : 0, dims > 2 ? r[1].to.i[2] : 0);
        for (int d = 0; d < 3; d++) { ia.i[d] = is2.i[d] = 0; }
        OUT("RIDX %d %d", laik_index_isEqual(dims, &in, &ib), laik_index_isEqual(dims, &in, &r[0].from));
        if (num()) {
            laik_add_index(&ia, &in, &ib); laik_sub_index(&is2, &ib, &in);
            for (int d = 0; d < 3; d++) OUT(" %" PRId64, ia.i[d]);
            for (int d = 0; d < 3; d++) OUT(" %" PRId64, is2.i[d]);
        }
        OUT("\n");
    }
    else if (!strcmp(cmd, "chspace")) {
        Laik_Space* s = C->S[hid()]; int dims = num(); readbox(dims, &f, &t);
        if (dims == 1) laik_change_space_1d(s, f.i[0], t.i[0]);
        else if (dims == 2) laik_change_space_2d(s, f.i[0], t.i[0], f.i[1], t.i[1]);
        else laik_change_space_3d(s, f.i[0], t.i[0], f.i[1], t.i[1], f.i[2], t.i[2]);
    }
    else if (!strcmp(cmd, "fspace")) { int s = hid(); laik_free_space(C->S[s]); C->S[s] = 0; }
    // ---- layouts
    else if (!strcmp(cmd, "lexlay")) {
        // lexlay s n box..: properties of a lex layout
        Laik_Space* s = C->S[hid()]; int dims = laik_space_getdimensions(s), n = num();
        Laik_Range* r = malloc(sizeof(Laik_Range) * (n ? n : 1));
        for (int k = 0; k < n; k++) { readbox(dims, &f, &t); laik_range_init(&r[k], s, &f, &t); }
        Laik_Layout* l = laik_new_layout_lex(n, r);
        OUT("LEX dims %d maps %d count %" PRIu64 "\n", l->dims, l->map_count, l->count);
        for (int k = 0; k < n; k++) {
            OUT("LM %d mapno %d stride", k, l->mapno(l, k));
            for (int d = 0; d < dims; d++) OUT(" %" PRIu64, laik_layout_lex_stride(l, k, d));
            Laik_Index a = r[k].from, b = r[k].to, i; norm(&a, &b, dims); idx_first(&i, &a);
            OUT(" :");
            do { OUT(" %" PRId64 "/%d", laik_offset(l, k, &i), l->section(l, &i)); } while (idx_next(&i, &a, &b, dims));
            OUT("\n");
        }
        // outside of all ranges
        while (more()) { Laik_Index i = {{0,0,0}}; for (int k = 0; k < dims; k++) i.i[k] = num(); OUT("LS %d\n", l->section(l, &i)); }
        char* d = l->describe(l); OUT("LD %d\n", d && *d);
        free(l); free(r);
    }
    else if (!strcmp(cmd, "lpack")) {
        // lpack d map box nchunks c1..cn: pack with given buffer sizes in turn
        Laik_Data* d = C->D[hid()]; int m = num(); int dims = laik_space_getdimensions(laik_data_get_space(d));
        readbox(dims, &f, &t);
        int n = num(); int c[20]; for (int i = 0; i < n; i++) c[i] = num();
        Laik_Mapping* map = laik_get_map(d, m);
        Laik_Range r; laik_range_init(&r, laik_data_get_space(d), &f, &t);
        Laik_Index idx = r.from;
        OUT("LPACK");
        for (int k = 0; k < 100000; k++) {
            if (laik_index_isEqual(dims, &idx, &r.to)) break;
            int sz = c[k % n];
            char* buf = malloc(sz);
            unsigned cnt = map->layout->pack(map, &r, &idx, buf, sz);
            OUT(" |%u", cnt);
            for (unsigned i = 0; i < cnt; i++) outval(d->type, buf + i * es(d));
            free(buf);
        }
        char one[64];
        OUT(" end %u\n", map->layout->pack(map, &r, &idx, one, 64));
    }
    else if (!strcmp(cmd, "lunpack")) {
        // lunpack d map box seed nchunks c1..: unpack generated values
        Laik_Data* d = C->D[hid()]; int m = num(); int dims = laik_space_getdimensions(laik_data_get_space(d));
        readbox(dims, &f, &t);
        uint64_t seed = num();
        int n = num(); int c[20]; for (int i = 0; i < n; i++) c[i] = num();
        Laik_Mapping* map = laik_get_map(d, m);
        Laik_Range r; laik_range_init(&r, laik_data_get_space(d), &f, &t);
        Laik_Index a = f, b = t, i; norm(&a, &b, dims); idx_first(&i, &a);
        uint64_t tot = laik_range_size(&r);
        char* all = malloc(tot * es(d));
        uint64_t q = 0;
        do { setval(d->type, all + q++ * es(d), mix(seed, i.i[0], dims > 1 ? i.i[1] : 0, dims > 2 ? i.i[2] : 0, 0), 0); } while (idx_next(&i, &a, &b, dims));
        Laik_Index idx = r.from;
        uint64_t off = 0;
        OUT("LUNPACK");
        for (int k = 0; k < 100000 && off < tot; k++) {
            uint64_t sz = c[k % n], left = (tot - off) * es(d);
            if (sz > left) sz = left;
            char* buf = malloc(sz); memcpy(buf, all + off * es(d), sz);
            unsigned cnt = map->layout->unpack(map, &r, &idx, buf, sz);
            OUT(" |%u", cnt);
            free(buf);
            off += cnt;
        }
        OUT(" end %d\n", laik_index_isEqual(dims, &idx, &r.to));
        free(all);
    }
    else if (!strcmp(cmd, "lcopy")) {
        // lcopy d1 m1 d2 m2 box mode: 0 laik_data_copy, 1 generic
        Laik_Data* d1 = C->D[hid()]; int m1 = num(); Laik_Data* d2 = C->D[hid()]; int m2 = num();
        int dims = laik_space_getdimensions(laik_data_get_space(d1));
        readbox(dims, &f, &t);
        int mode = num();
        Laik_Range r; laik_range_init(&r, laik_data_get_space(d1), &f, &t);
        if (mode) laik_layout_copy_gen(&r, laik_get_map(d1, m1), laik_get_map(d2, m2));
        else laik_data_copy(&r, laik_get_map(d1, m1), laik_get_map(d2, m2));
    }
    else if (!strcmp(cmd, "rawset")) {
        // fill whole memory of mapping
        Laik_Data* d = C->D[hid()]; Laik_Mapping* m = laik_get_map(d, num()); uint64_t seed = num();
        for (uint64_t i = 0; i < m->allocCount; i++) setval(d->type, m->start + i * es(d), mix(seed, i, 0, 0, 77), 0);
    }
    else if (!strcmp(cmd, "raw")) {
        Laik_Data* d = C->D[hid()]; int mn = num(); Laik_Mapping* m = laik_get_map(d, mn);
        OUT("RAW %d %" PRIu64 " :", mn, m->allocCount);
        for (uint64_t i = 0; i < m->allocCount; i++) outval(d->type, m->start + i * es(d));
        OUT("\n");
    }
    else if (!strcmp(cmd, "offs")) {
        // offsets of all indexes in required range of mapping
        Laik_Data* d = C->D[hid()]; int mn = num(); Laik_Mapping* m = laik_get_map(d, mn);
        int dims = laik_space_getdimensions(laik_data_get_space(d));
        Laik_Index a = m->requiredRange.from, b = m->requiredRange.to, i; norm(&a, &b, dims); idx_first(&i, &a);
        OUT("OFFS %d", mn); outbox(dims, &m->requiredRange); OUT(" :");
        do { OUT(" %" PRId64, laik_offset(m->layout, m->layoutSection, &i)); } while (idx_next(&i, &a, &b, dims));
        OUT("\n");
    }
    else if (!strcmp(cmd, "mapq")) {
        // mapping interface for all map numbers, also invalid ones
        Laik_Data* d = C->D[hid()]; char lb[40]; snprintf(lb, 40, "%s", word());
        int dims = laik_space_getdimensions(laik_data_get_space(d));
        Laik_Partitioning* p = laik_data_get_partitioning(d);
        int n = p ? laik_my_mapcount(p) : 0;
        int lex = num();
        OUT("MAPQ %s %d\n", lb, n);
        for (int k = -1; k < n + 2; k++) {
            Laik_Mapping* m = laik_get_map(d, k);
            OUT("MQ %d %d", k, m != 0);
            if (m && !lex) { OUT(" %d\n", laik_map_get_mapNo(m)); continue; }
            uint64_t xs = 9, ys = 9, zs = 9, yt = 0, zt = 0; void* b = (void*)77; Laik_Mapping* m2;
            if (dims == 1) m2 = laik_get_map_1d(d, k, &b, &xs);
            else if (dims == 2) m2 = laik_get_map_2d(d, k, &b, &ys, &yt, &xs);
            else m2 = laik_get_map_3d(d, k, &b, &zs, &zt, &ys, &yt, &xs);
            OUT(" %d %d %" PRIu64, m ? laik_map_get_mapNo(m) : -1, m == m2, xs);
            if (dims > 1) OUT(" %" PRIu64, ys);
            if (dims > 2) OUT(" %" PRIu64, zs);
            if (!m) OUT(" %d", b == 0);
            else if (m2) {
                // optional output parameters
                if (dims == 1) m2 = laik_get_map_1d(d, k, 0, 0);
                else if (dims == 2) m2 = laik_get_map_2d(d, k, 0, 0, 0, 0);
                else m2 = laik_get_map_3d(d, k, 0, 0, 0, 0, 0, 0);
                OUT(" %d", m2 == m);
            }
            OUT("\n");
        }
    }
#ifdef DRV_STANDALONE
    else if (!strcmp(cmd, "mm")) { mm_cmd(); }
#endif
    // ---- space store
    else if (!strcmp(cmd, "spname")) { int s = hid(); laik_set_space_name(C->S[s], strdup(word())); }
    else if (!strcmp(cmd, "spset")) { laik_spacestore_set(C->S[hid()]); }
    else if (!strcmp(cmd, "spsync")) { laik_sync_spaces(C->inst); }
    else if (!strcmp(cmd, "spget")) {
        int s = hid(); char nm[200]; snprintf(nm, 200, "%s", word());
        Laik_Space* sp = laik_spacestore_get(C->inst, strdup(nm));
        C->S[s] = sp;
        OUT("SPGET %s %d", nm, sp != 0);
        if (sp) { int d = laik_space_getdimensions(sp); OUT(" %d %s %" PRIu64, d, sp->name, laik_space_size(sp)); outbox(d, laik_space_asrange(sp)); }
        OUT("\n");
    }
    // ---- program control
    else if (!strcmp(cmd, "newinst")) {
        // further instance in same process (single backend object)
        int k = num();
        static Laik_Instance* extra[8];
        if (k >= 8) abort();
        if (!extra[k]) extra[k] = fake_instance(1, 0);
        C->inst = extra[k];
    }
    else if (!strcmp(cmd, "setiter")) { laik_set_iteration(C->inst, num()); }
    else if (!strcmp(cmd, "iterreset")) { laik_iter_reset(C->inst); }
    else if (!strcmp(cmd, "setphase")) { int n = num(); char* s = strdup(word()); laik_set_phase(C->inst, n, s, (void*)(long)num()); }
    else if (!strcmp(cmd, "getctl")) {
        int p = -99; const char* nm = 0; void* d = 0;
        laik_get_phase(C->inst, &p, &nm, &d);
        OUT("CTL %d %d %s %ld\n", laik_get_iteration(C->inst), p, nm ? nm : "(null)", (long)d);
    }
    else if (!strcmp(cmd, "agent")) {
        // agent type hasiter nfail uid..
        int type = num(), hi = num(), n = num();
        if (tagNo >= NAG || n > 32) abort();
        TAgent* a = tag[tagNo] = calloc(1, sizeof(TAgent));
        a->hasiter = hi; a->nfail = n;
        for (int i = 0; i < n; i++) snprintf(a->fail[i], MAX_UID_LENGTH, "%s", word());
        char ts[10]; sprintf(ts, "%d", type); char* av[1] = { ts };
        laik_ext_loadagent(C->inst, ag_init, 1, av);
        tagNo++;
    }
    else if (!strcmp(cmd, "agfail")) {
        int k = num(), n = num(); tag[k]->nfail = n;
        for (int i = 0; i < n; i++) snprintf(tag[k]->fail[i], MAX_UID_LENGTH, "%s", word());
    }
    else if (!strcmp(cmd, "getfailed")) {
        int max = num(); int n = 0;
        node_uid_t* l = calloc(max ? max : 1, sizeof *l);
        laik_get_failed(C->inst, &n, l, max);
        OUT("FAILED %d", n); for (int i = 0; i < n && i < max; i++) OUT(" %s", l[i].uid); OUT("\n");
        free(l);
    }
    else if (!strcmp(cmd, "agstat")) {
        OUT("AG %d", tagNo);
        for (int i = 0; i < tagNo; i++) OUT(" %d:%d:%d:%d", tag[i]->peeks, tag[i]->gets, tag[i]->iters, tag[i]->lastiter);
        OUT("\n");
    }
    else if (!strcmp(cmd, "agfile")) {
        // agfile path nfail uid..: agent of a shared library, counting its unloads
        static int unloads;
        char* path = strdup(word()); char a0[30], a1[10]; char* av[40] = { a0, a1 };
        int n = num(); if (n > 32) abort();
        sprintf(a0, "%p", (void*) &unloads); sprintf(a1, "%d", n);
        for (int i = 0; i < n; i++) av[2 + i] = strdup(word());
        libUnloads = &unloads;
        laik_ext_load_agent_from_file(C->inst, path, n + 2, av);
    }
    else if (!strcmp(cmd, "agsimple")) {
        // agsimple path iter task: agent of external/simple, task fails at iteration
        char* path = strdup(word()); char* av[2]; av[0] = strdup(word()); av[1] = strdup(word());
        laik_ext_load_agent_from_file(C->inst, path, 2, av);
    }
    else if (!strcmp(cmd, "unloads")) { OUT("UNLOADS %d\n", libUnloads ? *libUnloads : 0); }
    else if (!strcmp(cmd, "finish")) { laik_finalize(C->inst); }
    else if (!strcmp(cmd, "extclean")) { laik_ext_cleanup(C->inst); }
    else if (!strcmp(cmd, "extinit")) { laik_ext_init(C->inst); }
    // ---- logging
    else if (!strcmp(cmd, "logmsg")) { int l = num(), n; char* x = exact_hex(&n); laik_log(l, "%.*s", n, x); free(x); }
    else if (!strcmp(cmd, "logbegin")) { OUT("LOGBEGIN %d\n", laik_log_begin(num())); }
    else if (!strcmp(cmd, "logappend")) { int n; char* x = exact_hex(&n); laik_log_append("%.*s", n, x); free(x); }
    else if (!strcmp(cmd, "logflush")) {
        if (more()) { int n; char* x = exact_hex(&n); laik_log_flush("%.*s", n, x); free(x); }
        else laik_log_flush(0);
    }
    else if (!strcmp(cmd, "logshown")) { OUT("LOGSHOWN %d\n", laik_log_shown(num())); }
    else if (!strcmp(cmd, "loginc")) { laik_log_inc(); }
    else if (!strcmp(cmd, "logout")) { const char* x = word(); printf("OUTLINE %s\n", x); fflush(stdout); fprintf(stderr, "ERRLINE %s\n", x); }
    else if (!strcmp(cmd, "logobj")) {
        // logobj p|t|a|s|d <handle> <level>: debug output of an object
        char k = *word(); int h = hid(); int l = num();
        if (laik_log_begin(l)) {
            laik_log_append("object ");
            switch (k) {
            case 'p': laik_log_Partitioning(C->P[h]); break;
            case 't': laik_log_Transition(C->T[h], true); break;
            case 'a': if (C->A[h]) laik_log_ActionSeq(C->A[h], true); break;
            case 's': laik_log_Space(C->S[h]); break;
            case 'd': laik_log_SwitchStat(C->D[h]->stat); break;
            }
            laik_log_flush(0);
        }
    }
    else if (!strcmp(cmd, "dname")) { Laik_Data* d = C->D[hid()]; laik_data_set_name(d, strdup(word())); }
    else if (!strcmp(cmd, "pname")) { Laik_Partitioning* p = C->P[hid()]; laik_partitioning_set_name(p, strdup(word())); }
    // ---- profiling
    else if (!strcmp(cmd, "profon")) { laik_enable_profiling(C->inst); }
    else if (!strcmp(cmd, "profreset")) { laik_reset_profiling(C->inst); }
    else if (!strcmp(cmd, "profuser")) { if (num()) laik_profile_user_start(C->inst); else laik_profile_user_stop(C->inst); }
    else if (!strcmp(cmd, "proffile")) {
        // proffile path | @k: memory file k
        char* w = word(); char path[60];
        if (*w == '@') {
            int k = atoi(w + 1) & 7;
            if (profFd[k] < 0) profFd[k] = memfd_create("prof", 0);
            sprintf(w = path, "/proc/self/fd/%d", profFd[k]);
        }
        laik_enable_profiling_file(C->inst, w);
    }
    else if (!strcmp(cmd, "profcat")) {
        int k = num() & 7; static char buf[60000];
        int n = profFd[k] < 0 ? 0 : pread(profFd[k], buf, sizeof buf - 1, 0);
        buf[n < 0 ? 0 : n] = 0;
        OUT("PCAT %d begin\n", k);
        for (char* l = buf; *l; ) { char* e = strchr(l, '\n'); if (e) *e = 0; OUT("PCAT %d %s%s\n", k, l, e ? "" : "(no newline)"); if (!e) break; l = e + 1; }
    }
    else if (!strcmp(cmd, "profend")) {
        // usable without an instance
        OUT("PROFEND %.9f %.9f\n", laik_get_total_time(), laik_get_backend_time());
        laik_writeout_profile(); laik_profile_printf("late\n");
    }
    else if (!strcmp(cmd, "profoff")) { laik_enable_profiling(0); }
    else if (!strcmp(cmd, "profwrite")) { laik_writeout_profile(); }
    else if (!strcmp(cmd, "profprint")) { laik_profile_printf("%s\n", word()); }
    else if (!strcmp(cmd, "profclose")) { laik_close_profiling_file(C->inst); }
    else if (!strcmp(cmd, "profget")) {
        OUT("PROF %.9f %.9f on %d at %.9f\n", laik_get_total_time(), laik_get_backend_time(), C->inst->profiling->do_profiling, laik_wtime());
    }
    else if (!strcmp(cmd, "busy")) { double t0 = laik_wtime(); double d = num() * 1e-6; while (laik_wtime() - t0 < d) ; }
    // ---- example applications: example <backend> <name> <args..>
    else if (!strcmp(cmd, "example")) {
        static char* av[40]; int ac = 0;
        setenv("LAIK_BACKEND", strdup(word()), 1);
        while (more() && ac < 39) av[ac++] = strdup(word());
        av[ac] = 0;
        int k = 0;
        while (ex_table[k].name && strcmp(ex_table[k].name, av[0])) k++;
        if (!ex_table[k].name) { OUT("NOEXAMPLE\n"); return true; }
        OUT("EXIT %d\n", ex_table[k].fn(ac, av));
    }
    else return false;
    return true;
}
