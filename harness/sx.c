/* Native side of the harness primitives: inputs come from a vector. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static uint64_t *in_v;
static size_t in_n, in_p;
static uint64_t digest = 0xcbf29ce484222325ull;
static int verbose;

void __sx_native_begin(uint64_t *v, size_t n, int verb) {
  in_v = v; in_n = n; in_p = 0; verbose = verb; digest = 0xcbf29ce484222325ull;
}
uint64_t __sx_native_digest(void) { return digest; }

uint64_t __sx_sym(uint64_t lo, uint64_t hi) {
  uint64_t r = lo;
  if (in_p < in_n) r = in_v[in_p];
  in_p++;
  if (r < lo || r > hi) { printf("REPLAY-DIVERGED input %zu = %llu not in [%llu,%llu]\n", in_p - 1, (unsigned long long)r, (unsigned long long)lo, (unsigned long long)hi); fflush(stdout); _exit(5); }
  return r;
}
void __sx_assume(uint64_t c) {
  if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(4); }
}
void __sx_check(uint64_t c, const char *p, uint64_t n) {
  if (!c) { printf("REPLAY-VIOLATION %.*s\n", (int)n, p); fflush(stdout); _exit(3); }
}
void __sx_fail(const char *p, uint64_t n) {
  printf("REPLAY-VIOLATION %.*s\n", (int)n, p); fflush(stdout); _exit(3);
}
void __sx_observe(uint64_t v) {
  digest = (digest ^ v) * 0x100000001b3ull;
  digest = (digest << 17) | (digest >> 47);
  if (verbose > 1) printf("observe %llx\n", (unsigned long long)v);
}
void __sx_reach(uint64_t l) { (void)l; }
uint64_t __sx_conc(uint64_t v) { return v; }
void __sx_note(const char *p, uint64_t n) {
  if (verbose) { printf("note: %.*s\n", (int)n, p); fflush(stdout); }
}
