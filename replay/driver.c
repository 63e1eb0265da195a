/* Native replayer: runs one harness of the real, natively compiled library on a recorded assignment.
 *
 *   driver LIB.so HARNESS OUT value...
 *
 * Exit status: 0 the harness returned; 3 an assertion failed (its code is printed); 4 an assumption
 * was false; 5 a single allocation above ALLOC_LIMIT was requested; anything else, including death by
 * a signal, is what the code under test did.  Observed values go to OUT, one per line.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>

#define ALLOC_LIMIT (32u << 20)

static char **vals;
static int nvals, pos;
static FILE *out;
static bool armed;

static uint64_t next(void) { return pos < nvals ? strtoull(vals[pos++], NULL, 10) : (pos++, 0); }

uint8_t sym_u8(void) { return (uint8_t)next(); }
uint16_t sym_u16(void) { return (uint16_t)next(); }
uint32_t sym_u32(void) { return (uint32_t)next(); }
uint64_t sym_u64(void) { return next(); }
uint32_t sym_choose(uint32_t n) { uint32_t v = (uint32_t)next(); return n ? v % n : 0; }
uint32_t sym_deep(void) { const char *d = getenv("SYMX_DEEP"); return d ? (uint32_t)atoi(d) : 0; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_observe(uint64_t v) { fprintf(out, "%llu\n", (unsigned long long)v); }
void sym_cover(uint32_t c) { fprintf(out, "cover %u\n", c); }
static void stop(int rc) { fflush(out); _exit(rc); }
void sym_assume(bool c) { if (!c) { printf("assumption false\n"); fflush(stdout); stop(4); } }
void sym_assert(bool c, uint32_t code) { if (!c) { printf("assertion %u failed\n", code); fflush(stdout); stop(3); } }

/* The library's allocations resolve here; a huge request is reported instead of served. */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
static void big(size_t n) {
  if (armed && n > ALLOC_LIMIT) {
    char b[96];
    int k = snprintf(b, sizeof b, "allocation of %zu bytes requested\n", n);
    if (write(1, b, k) < 0) {}
    stop(5);
  }
}
void *malloc(size_t n) { big(n); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { big(a * b); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { big(n); return __libc_realloc(p, n); }
int posix_memalign(void **p, size_t a, size_t n) { big(n); *p = __libc_memalign(a, n); return *p ? 0 : 12; }

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  struct rlimit c = {60, 60}, as = {8ull << 30, 8ull << 30}, core = {0, 0};
  setrlimit(RLIMIT_CPU, &c);
  setrlimit(RLIMIT_AS, &as);
  setrlimit(RLIMIT_CORE, &core);
  out = fopen(argv[3], "w");
  if (!out) return 2;
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  void (*f)(void) = (void (*)(void))dlsym(h, argv[2]);
  if (!f) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  vals = argv + 4;
  nvals = argc - 4;
  armed = true;
  f();
  armed = false;
  printf("returned\n");
  fflush(stdout);
  stop(0);
}
