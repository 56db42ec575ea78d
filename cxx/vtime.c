/* Preloaded into the Python worker: virtual time() so that the library's RNG seeds are inputs. */
#include <time.h>
static long long g_clock = 1500000000;
void wv_set_clock(long long t) { g_clock = t; }
time_t time(time_t *t) { if (t) *t = (time_t)g_clock; return (time_t)g_clock; }
