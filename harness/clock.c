/* A clock of its own for the program under test: every look at any clock finds MPSV_CLOCK nanoseconds more,
   or, with MPSV_VARY, one to MPSV_VARY times as much, in turns.
   Leftovers on its stack: MPSV_STACK is the byte that fresh stack is full of.
   And, with MPSV_ENV, an environment in which every variable that could be made up has that value. */
#define _GNU_SOURCE
#include <alloca.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
extern char **environ;
static char *variable(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
/* what libraries ask for on their own account */
static const char *known[] = {"MPSV_", "LC_", "LANG", "LOC", "NLS", "TZ", "TMP", "TEMP", "HOME", "PATH", "PWD", "SHELL", "USER", "TERM", "GLIBC", "GCONV", "GETCONF", "MALLOC",
                              "LD_", "GOMP", "OMP_", "ASAN_", "UBSAN_", "LSAN_", "TSAN_", "MSAN_", "GCOV", "LLVM_PROFILE", "RES_", "POSIX", "OUTPUT_CHARSET", "GLIBCXX", NULL};
char *getenv(const char *name) {
    char *v = variable(name), *made = variable("MPSV_ENV");
    if (v || !made) return v;
    for (int i = 0; known[i]; i++)
        if (!strncmp(name, known[i], strlen(known[i]))) return NULL;
    return made;
}
char *secure_getenv(const char *name) { return getenv(name); }
static long long now_ns(void) {
    static long long t = 1700000000000000000LL;
    static int n = 0;
    const char *s = variable("MPSV_CLOCK"), *v = variable("MPSV_VARY");
    return t += (s ? atoll(s) : 1000000) * (v ? 1 + (n++ * 7) % atoi(v) : 1);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    long long t = now_ns();
    (void)c;
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *tv, void *z) {
    long long t = now_ns();
    (void)z;
    tv->tv_sec = t / 1000000000LL;
    tv->tv_usec = t % 1000000000LL / 1000;
    return 0;
}
time_t time(time_t *p) {
    time_t t = now_ns() / 1000000000LL;
    if (p) *p = t;
    return t;
}
__attribute__((constructor, noinline)) static void dirty(void) {
    const char *s = variable("MPSV_STACK");
    size_t n = 1 << 20;
    volatile char *p;
    char c;
    if (!s) return;
    c = (char)atoi(s);
    p = alloca(n);
    while (n--) p[n] = c;
}
