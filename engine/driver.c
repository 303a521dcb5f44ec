// Native replay: loads the natively compiled harness + juno and feeds it a vector of inputs.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
typedef struct { char kind[8]; uint64_t v, k1, k2; int used; } In;
static In *in; static size_t n, cur; static int allow, fails;
static void die(const char *m) { printf("%s\n", m); fflush(stdout); _exit(3); }
static uint64_t next(const char *k) {
  while (cur < n && !strcmp(in[cur].kind, "rng")) cur++;
  if (cur >= n) die("VECTOR-END");
  if (strcmp(in[cur].kind, k)) { printf("VECTOR-MISMATCH want %s have %s at %zu\n", k, in[cur].kind, cur); fflush(stdout); _exit(3); }
  return in[cur++].v;
}
double vf_f64(double lo, double hi) { (void)lo; (void)hi; uint64_t b = next("f64"); double d; memcpy(&d, &b, 8); return d; }
uint64_t vf_u64(uint64_t lo, uint64_t hi) { (void)lo; (void)hi; return next("u64"); }
_Bool vf_bool(void) { return next("bool") != 0; }
uint64_t vf_choice(uint64_t k) { (void)k; return next("choice"); }
void vf_assume(_Bool c) { if (!c) die("ASSUME-FALSE"); }
_Bool vf_accept(_Bool c) { return c; }
void vf_check(_Bool c, const char *p, size_t l) { if (!c) { printf("FAIL %.*s\n", (int)l, p); fflush(stdout); fails++; } }
void vf_close(double a, double b, const char *p, size_t l) {
  int ok = (isnan(a) && isnan(b)) || a == b || fabs(a - b) <= 1e-6 * (fabs(a) + fabs(b) + 1.0);
  if (!ok) { printf("FAIL %.*s (%.17g vs %.17g)\n", (int)l, p, a, b); fflush(stdout); fails++; } }
void vf_le(double a, double b, const char *p, size_t l) {
  int ok = a <= b || a <= b + 1e-6 * (fabs(a) + fabs(b) + 1.0);
  if (!ok) { printf("FAIL %.*s (%.17g > %.17g)\n", (int)l, p, a, b); fflush(stdout); fails++; } }
void vf_cover(const char *p, size_t l) { (void)p; (void)l; }
void vf_allow_panic(uint64_t a) { allow = a != 0; }
void vf_flags(uint64_t a) { (void)a; }
void vf_limit(uint64_t a, uint64_t b) { (void)a; (void)b; }
uint32_t vf_rng_at(uint64_t seed, uint64_t pos) {
  for (size_t i = 0; i < n; i++) if (!strcmp(in[i].kind, "rng") && in[i].k1 == seed && in[i].k2 == pos) return (uint32_t)in[i].v;
  uint64_t h = (seed * 0x9E3779B97F4A7C15ull) ^ (pos + 1) * 0xBF58476D1CE4E5B9ull; h ^= h >> 31; h *= 0x94D049BB133111EBull; return (uint32_t)(h >> 29); } // off the modelled path
static char **ARGV; static int child;
_Bool vf_second(void) { return child & 1; }
// the same words come out of other processes given the same inputs
void vf_across(const uint64_t *w, uint64_t k, const char *p, size_t l) {
  if (child) { if (write(9, w, k * 8) != (ssize_t)(k * 8)) _exit(9); _exit(0); }
  for (int c = 1; c <= 8; c++) {
    int fd[2]; if (pipe(fd)) return; char num[8]; snprintf(num, 8, "%d", c);
    pid_t pid = fork(); if (!pid) { setenv("VF_CHILD", num, 1); dup2(fd[1], 9); close(fd[0]); if (fd[1] != 9) close(fd[1]); int nul = open("/dev/null", 1); dup2(nul, 1); execv("/proc/self/exe", ARGV); _exit(9); }
    close(fd[1]); uint64_t x, i = 0, bad = 0; FILE *f = fdopen(fd[0], "r"); while (fread(&x, 8, 1, f) == 1) { if (i >= k || x != w[i]) bad = 1; i++; } fclose(f); int st; waitpid(pid, &st, 0);
    if (bad || i != k) { printf("FAIL %.*s\n", (int)l, p); fflush(stdout); fails++; return; } } }
_Bool vf_is_concrete(uint64_t a) { (void)a; return 1; }
uint64_t vf_pick(uint64_t a) { return a; }
void vf_debug(uint64_t a) { (void)a; }
static void onsig(int s) { printf(allow ? "PANIC-ALLOWED sig%d\n" : "PANIC sig%d\n", s); fflush(stdout); _exit(4); }
int main(int c, char **v) {
  if (c < 3) return 2;
  ARGV = v; if (getenv("VF_CHILD")) child = atoi(getenv("VF_CHILD"));
  FILE *f = fopen(v[2], "r"); if (!f) { perror(v[2]); return 2; }
  char line[512], entry[128] = ""; uint64_t cfg = 0; size_t cap = 0;
  while (fgets(line, sizeof line, f)) {
    char k[128]; if (sscanf(line, "%100s", k) != 1 || k[0] == '#') continue;
    if (!strcmp(k, "entry")) { sscanf(line, "%*s %120s", entry); continue; }
    if (!strcmp(k, "cfg")) { cfg = strtoull(line + 4, 0, 10); continue; }
    if (n == cap) { cap = cap ? cap * 2 : 64; in = realloc(in, cap * sizeof *in); }
    In x; memset(&x, 0, sizeof x); strncpy(x.kind, k, 7); char *e; x.v = strtoull(line + strlen(k), &e, 16);
    if (!strcmp(k, "rng")) { x.k1 = strtoull(e, &e, 10); x.k2 = strtoull(e, &e, 10); }
    in[n++] = x; }
  fclose(f);
  alarm(50);
  void *h = dlopen(v[1], RTLD_NOW | RTLD_GLOBAL); if (!h) { printf("DLOPEN %s\n", dlerror()); return 2; }
  void (*fn)(uint64_t) = (void (*)(uint64_t))dlsym(h, entry); if (!fn) { printf("NO-ENTRY %s\n", entry); return 2; }
  signal(SIGABRT, onsig); signal(SIGILL, onsig); signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGTRAP, onsig);
  fn(cfg);
  printf(fails ? "END fail\n" : "END ok\n"); fflush(stdout); _exit(fails ? 1 : 0);
}
