// accounting of memory allocated by LAIK itself (calls of malloc, calloc, realloc, strdup, free of its objects
// are redirected to here): blocks and bytes alive
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>

typedef struct { void* p; size_t n; } Blk;
static Blk* tab;
static size_t cap, used;      // used: including deleted entries
#define DEL ((void*) 1)
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
long hp_blocks, hp_bytes;

static size_t slot(void* p) { return ((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull % cap; }

static void put(void* p, size_t n)
{
    if (!p) return;
    pthread_mutex_lock(&lock);
    if (2 * (used + 1) > cap) {
        Blk* o = tab; size_t oc = cap;
        cap = 4 * (hp_blocks + 256); used = 0;
        tab = calloc(cap, sizeof *tab);
        for (size_t i = 0; i < oc; i++)
            if (o[i].p && o[i].p != DEL) {
                size_t s = slot(o[i].p);
                while (tab[s].p) s = (s + 1) % cap;
                tab[s] = o[i]; used++;
            }
        free(o);
    }
    size_t s = slot(p);
    while (tab[s].p && tab[s].p != DEL) s = (s + 1) % cap;
    if (!tab[s].p) used++;
    tab[s].p = p; tab[s].n = n;
    hp_blocks++; hp_bytes += n;
    pthread_mutex_unlock(&lock);
}

static void del(void* p)
{
    if (!p) return;
    pthread_mutex_lock(&lock);
    for (size_t s = cap ? slot(p) : 0; cap && tab[s].p; s = (s + 1) % cap)
        if (tab[s].p == p) { tab[s].p = DEL; hp_blocks--; hp_bytes -= tab[s].n; break; }
    pthread_mutex_unlock(&lock);
}

void* hp_malloc(size_t n) { void* p = malloc(n); put(p, n); return p; }
void* hp_calloc(size_t a, size_t b) { void* p = calloc(a, b); put(p, a * b); return p; }
void* hp_realloc(void* o, size_t n) { del(o); void* p = realloc(o, n); if (p) put(p, n); return p; }
void hp_free(void* p) { del(p); free(p); }
char* hp_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = hp_malloc(n); memcpy(p, s, n); return p; }
