// force-included when compiling the example applications: they become callable
// functions, with their output going into the observations of the process
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
int ex_printf(const char* fmt, ...);
unsigned ex_sleep(unsigned s);
void ex_exit(int rc) __attribute__((noreturn));
#define printf ex_printf
#define sleep ex_sleep
#define exit ex_exit
#define laik_init ex_laik_init
#define main ex_main
