/* Preloaded: processor time grows by two seconds each time it is asked for, so that every progress update falls due.
   It starts shortly before the number of milliseconds leaves the range of an int. */
#include <time.h>
clock_t clock(void) { static clock_t t = 2147300 * (clock_t)CLOCKS_PER_SEC; return t += 2 * CLOCKS_PER_SEC; }
