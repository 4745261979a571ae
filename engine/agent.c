// agent in a shared library: reports the nodes given, counts unloading of the library
#include <stdlib.h>
#include <stdio.h>
#include <stdbool.h>
#include "laik/agent.h"
static int* unloads;
static int nfail;
static char** fails;
static int peek(void) { return nfail; }
static void get(int* n, node_uid_t* l) { *n = nfail; for (int i = 0; i < nfail; i++) snprintf(l[i].uid, MAX_UID_LENGTH, "%s", fails[i]); }
Laik_Agent* agent_init(int argc, char** argv)
{
    (void) argc;
    void* p; sscanf(argv[0], "%p", &p); unloads = p;
    nfail = atoi(argv[1]);
    fails = calloc(nfail + 1, sizeof(char*));
    for (int i = 0; i < nfail; i++) fails[i] = argv[2 + i];
    Laik_Ft_Agent* a = calloc(1, sizeof *a);
    a->base.name = "lib"; a->base.type = LAIK_AGENT_FT;
    a->peekfail = peek; a->getfail = get;
    return &a->base;
}
static __attribute__((destructor)) void gone(void) { if (unloads) ++*unloads; }
