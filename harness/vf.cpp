#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <math.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include "AbstractPlatform.h"

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HEAP_NOW() __sanitizer_get_current_allocated_bytes()
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HEAP_NOW() __sanitizer_get_current_allocated_bytes()
#endif
#endif
#ifndef HEAP_NOW
#define HEAP_NOW() ((size_t)0)
#endif

extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:handle_abort=1:"
         "allocator_may_return_null=0:max_allocation_size_mb=512:malloc_context_size=12:fast_unwind_on_malloc=1:fast_unwind_on_fatal=1:"
         "strict_string_checks=0:replace_str=1:quarantine_size_mb=64";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=78"; }

namespace vf {
Ctx*     C = nullptr;
uint64_t now_us = 1000000000ULL;
uint32_t auto_tick_us = 0;
unsigned long log_lines = 0;
uint32_t (*rand32_hook)() = nullptr;
void (*log_hook)(uint8_t, const char*, StringBuilder*) = nullptr;

static uint64_t sm(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
void Rng::seed(uint64_t a, uint64_t b, uint64_t c) {
  uint64_t x = a * 0x9e3779b97f4a7c15ULL + b * 0xd1342543de82ef95ULL + c * 0xaf251af3b0f025b5ULL + 0x12345;
  sm(x); s[0] = sm(x); s[1] = sm(x);
  if (!s[0] && !s[1]) s[0] = 1;
}
uint64_t Rng::u64() {
  uint64_t a = s[0]; const uint64_t b = s[1];
  const uint64_t r = a + b;
  s[0] = b; a ^= a << 23;
  s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
  return r ^ (r >> 29);
}
uint64_t Rng::edgy64() {
  switch (below(8)) {
    case 0: return below(4);
    case 1: return below(300);
    case 2: case 3: { uint64_t v = 1ULL << below(64); return v + (uint64_t)((int64_t)below(5) - 2); }
    case 4: return ~(uint64_t)0 - below(4);
    case 5: return u64() >> below(64);
    case 6: { uint64_t v = 1ULL << below(64); return (uint64_t)0 - v + (uint64_t)((int64_t)below(5) - 2); }
    default: return u64();
  }
}
int64_t Rng::edgyBits(unsigned bits, bool sgn) {
  uint64_t v = edgy64();
  if (bits < 64) {
    // Re-draw boundaries for the width half of the time.
    if (chance(1, 3)) {
      uint64_t m = 1ULL << (bits - 1);
      uint64_t m2 = (bits == 64) ? 0 : (1ULL << bits);
      uint64_t picks[] = {0, 1, m - 1, m, m + 1, m2 - 1, m2 - 2, m - 2};
      v = picks[below(8)];
    }
    v &= (1ULL << bits) - 1;
    if (sgn && ((v >> (bits - 1)) & 1)) v |= ~((1ULL << bits) - 1);
  }
  return (int64_t)v;
}
double Rng::edgyDouble() {
  switch (below(10)) {
    case 0: return 0.0;
    case 1: return (double)(int64_t)edgyBits(32, true);
    case 2: return (double)(int32_t)(range(-1000, 1000)) / 8;
    case 3: return (double)(int64_t)edgy64();
    case 4: return -(double)below(1000);
    case 5: { uint64_t v = u64(); double d; memcpy(&d, &v, 8); return (d != d) ? 1.5 : d; }
    case 6: return (double)(float)edgyFloat();
    case 7: return (double)(edgy64());
    default: return ((double)(int64_t)(u64() >> 12) / (double)(1ULL << below(60)));
  }
}
float Rng::edgyFloat() {
  switch (below(6)) {
    case 0: return 0.0f;
    case 1: return (float)range(-100000, 100000);
    case 2: return (float)range(-100000, 100000) / 64.0f;
    case 3: { uint32_t v = u32(); float f; memcpy(&f, &v, 4); return (f != f) ? -2.25f : f; }
    case 4: return (float)(int64_t)edgyBits(40, true);
    default: return (float)(int32_t)u32() / 65536.0f;
  }
}

uint64_t fnv(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
  return h;
}
uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2)); return sm(x); }

std::string hex(const void* p, size_t n, size_t max) {
  static const char* H = "0123456789abcdef";
  std::string r; const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n && i < max; i++) { r += H[b[i] >> 4]; r += H[b[i] & 15]; }
  if (n > max) { char t[24]; snprintf(t, sizeof t, "..(%u)", (unsigned)n); r += t; }
  return r;
}
std::string quote(const void* p, size_t n, size_t max) {
  std::string r = "\""; const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n && i < max; i++) {
    char t[8];
    if (b[i] >= 32 && b[i] < 127 && b[i] != '"' && b[i] != '\\') r += (char)b[i];
    else { snprintf(t, sizeof t, "\\x%02x", b[i]); r += t; }
  }
  r += '"';
  if (n > max) { char t[24]; snprintf(t, sizeof t, "..(%u)", (unsigned)n); r += t; }
  return r;
}

/* ---- Static state ---- */
static char     log_buf[1 << 20];
static size_t   log_len = 0;
static bool     log_cut = false;
static uint64_t case_hash = 0;
static uint64_t ev_count = 0;

struct Tab {   // Open-addressed set of 64-bit hashes.
  uint64_t* t; size_t cap; size_t n;
  void init(size_t c) { cap = c; n = 0; t = (uint64_t*)mmap(0, c * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  bool add(uint64_t h) {
    if (!h) h = 1;
    if (n * 4 > cap * 3) return false;
    size_t i = (size_t)(h & (cap - 1));
    while (t[i]) { if (t[i] == h) return false; i = (i + 1) & (cap - 1); }
    t[i] = h; n++; return true;
  }
};
static Tab tab_cases, tab_feats;
struct Cnt { const char* k; uint64_t n; };
static Cnt cnts[256]; static int n_cnts = 0;

static volatile uint64_t* progress = nullptr;   // [0] = running case index + 1
static FILE* out = nullptr;

static void vlog(const char* fmt, va_list ap, bool hashed) {
  char tmp[4096];
  int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
  if (n < 0) return;
  if (n >= (int)sizeof tmp) n = sizeof tmp - 1;
  if (hashed) { case_hash = fnv(tmp, n, case_hash); case_hash = fnv("\n", 1, case_hash); ev_count++; }
  if (C && C->verbose) { fwrite(tmp, 1, n, stderr); fputc('\n', stderr); }
  if (log_len + n + 2 < sizeof log_buf) { memcpy(log_buf + log_len, tmp, n); log_len += n; log_buf[log_len++] = '\n'; }
  else if (!log_cut) {   // Keep the tail: drop the first half.
    size_t half = log_len / 2; memmove(log_buf, log_buf + half, log_len - half); log_len -= half; log_cut = true;
    log_cut = false;
  }
}
void Ctx::op(const char* f, ...)   { va_list a; va_start(a, f); vlog(f, a, true);  va_end(a); }
void Ctx::note(const char* f, ...) { va_list a; va_start(a, f); vlog(f, a, false); va_end(a); }
void Ctx::hash(const void* p, size_t n) { case_hash = fnv(p, n, case_hash); ev_count++; }
void Ctx::feat(uint64_t h) { tab_feats.add(h); }
void Ctx::count(const char* k, uint64_t n) {
  for (int i = 0; i < n_cnts; i++) if (cnts[i].k == k || 0 == strcmp(cnts[i].k, k)) { cnts[i].n += n; return; }
  if (n_cnts < 256) { cnts[n_cnts].k = k; cnts[n_cnts].n = n; n_cnts++; }
}

static void jstr(FILE* f, const char* s, size_t n) {
  fputc('"', f);
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static std::string* samples = nullptr;   // JSON strings
static int n_samples = 0;

static void write_out(const char* status, const char* key, const char* msg) {
  if (!out) return;
  fprintf(out, "{\"status\":\"%s\",\"case\":%llu,", status, C ? (unsigned long long)C->idx : 0ULL);
  fprintf(out, "\"key\":"); jstr(out, key, strlen(key));
  fprintf(out, ",\"msg\":"); jstr(out, msg, strlen(msg));
  size_t off = (log_len > 6000) ? log_len - 6000 : 0;
  fprintf(out, ",\"log\":"); jstr(out, log_buf + off, log_len - off);
  fprintf(out, "}\n"); fflush(out);
}
void fail(const char* key, const char* fmt, ...) {
  char tmp[4096]; va_list a; va_start(a, fmt); vsnprintf(tmp, sizeof tmp, fmt, a); va_end(a);
  fprintf(stderr, "FAIL case=%llu key=%s: %s\n", C ? (unsigned long long)C->idx : 0ULL, key, tmp);
  write_out("fail", key, tmp);
  fflush(stderr); fflush(stdout);
  _exit(3);
}
void broken(const char* fmt, ...) {
  char tmp[4096]; va_list a; va_start(a, fmt); vsnprintf(tmp, sizeof tmp, fmt, a); va_end(a);
  fprintf(stderr, "BROKEN case=%llu: %s\n", C ? (unsigned long long)C->idx : 0ULL, tmp);
  write_out("broken", "broken", tmp);
  _exit(5);
}
static void on_prof(int) {
  static const char m[] = "HANG: a case used up its CPU time\n";
  (void)!write(2, m, sizeof m - 1);
  write_out("fail", "hang", "the case used up its CPU time without ending");
  _exit(4);
}
}  // namespace vf

using namespace vf;

/* ---- The platform, as the library expects to be given it ---- */
long unsigned millis() { return (long unsigned)(now_us / 1000); }
long unsigned micros() { now_us += auto_tick_us; return (long unsigned)now_us; }
void sleep_ms(uint32_t m) { now_us += (uint64_t)m * 1000; }
void sleep_us(uint32_t u) { now_us += u; }
uint32_t randomUInt32() { return C && rand32_hook ? rand32_hook() : C ? C->rng.u32() : 4; }
int8_t random_fill(uint8_t* b, size_t len) { for (size_t i = 0; i < len; i++) b[i] = C ? (uint8_t)C->rng.u32() : 7; return 0; }
void c3p_log(uint8_t l, const char* t, StringBuilder* b) { log_lines++; if (log_hook) log_hook(l, t, b); }

static int usage() { fprintf(stderr, "--seed S --start A --step K --count N [--tier thorough] [--out F] [--hashes F] [--progress F] [--cpu SEC] [-v]\n"); return 2; }

int main(int argc, char** argv) {
  uint64_t seed = 1, start = 0, step = 1, count = 1, cpu = 20; bool thorough = false, verbose = false;
  const char *fo = nullptr, *fh = nullptr, *fp = nullptr;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-v") { verbose = true; continue; }
    if (i + 1 >= argc) return usage();
    const char* v = argv[++i];
    if (a == "--seed") seed = strtoull(v, 0, 10);
    else if (a == "--start") start = strtoull(v, 0, 10);
    else if (a == "--step") step = strtoull(v, 0, 10);
    else if (a == "--count") count = strtoull(v, 0, 10);
    else if (a == "--cpu") cpu = strtoull(v, 0, 10);
    else if (a == "--tier") thorough = !strcmp(v, "thorough");
    else if (a == "--out") fo = v;
    else if (a == "--hashes") fh = v;
    else if (a == "--progress") fp = v;
    else return usage();
  }
  if (fo) { out = fopen(fo, "w"); if (!out) return 2; setvbuf(out, nullptr, _IOFBF, 1 << 16); }
  static uint64_t local_progress[2];
  progress = local_progress;
  if (fp) {
    int fd = open(fp, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 4096)) return 2;
    progress = (volatile uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  tab_cases.init(1 << 21); tab_feats.init(1 << 20);
  signal(SIGPROF, on_prof);
  setvbuf(stdout, nullptr, _IONBF, 0);
  srand((unsigned)seed);
  Ctx ctx; memset((void*)&ctx, 0, sizeof ctx);
  std::string samp[4]; samples = samp;
  ctx.rng.seed(seed, ~0ULL, 0);
  C = &ctx; ctx.seed = seed; ctx.thorough = thorough; ctx.verbose = verbose; ctx.idx = start;
  vf_setup();
  uint64_t ran = 0, nontriv = 0, events = 0;
  double worst = 0; uint64_t worst_case = 0;
  for (uint64_t n = 0; n < count; n++) {
    const uint64_t idx = start + n * step;
    size_t first_delta = 0;
    for (int pass = 0; pass < 3; pass++) {
      progress[0] = idx + 1;
      memset((void*)&ctx, 0, sizeof ctx);
      ctx.rng.seed(seed, idx, 77); ctx.seed = seed; ctx.idx = idx; ctx.thorough = thorough; ctx.verbose = verbose; ctx.leak_check = true;
      log_len = 0; case_hash = 0xcbf29ce484222325ULL; ev_count = 0; auto_tick_us = 0;
      now_us = 1000000000ULL + (idx % 97) * 12345;
      struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &tv, nullptr);
      struct timespec t0, t1; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
      const size_t h0 = HEAP_NOW();
      vf_case(ctx);
      const size_t h1 = HEAP_NOW();
      clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1);
      double el = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1000000000;
      if (el > worst) { worst = el; worst_case = idx; }
      if (!ctx.leak_check || h1 <= h0) break;
      // Something may have been allocated once and for all (stdio, function statics): the case
      //   is deterministic, so a real leak shows up again, and again.
      if (pass == 2) { if (h1 - h0 == first_delta) { if (verbose && __lsan_do_recoverable_leak_check) __lsan_do_recoverable_leak_check(); fail("leak", "the case kept %u bytes of heap (each time it was run)", (unsigned)(h1 - h0)); } }
      first_delta = h1 - h0;
    }
    ran++; events += ev_count;
    if (ctx.nontrivial) {
      if (tab_cases.add(case_hash)) {
        nontriv++;
        if (n_samples < 3 && log_len) { samp[n_samples++] = std::string(log_buf, log_len > 700 ? 700 : log_len); }
      }
    }
  }
  progress[0] = 0;
  if (out) {
    fprintf(out, "{\"status\":\"ok\",\"ran\":%llu,\"nontrivial\":%llu,\"events\":%llu,\"feats\":%llu,\"worst_s\":%.3f,\"worst_case\":%llu,\"counters\":{",
      (unsigned long long)ran, (unsigned long long)nontriv, (unsigned long long)events, (unsigned long long)tab_feats.n, worst, (unsigned long long)worst_case);
    for (int i = 0; i < n_cnts; i++) { if (i) fputc(',', out); jstr(out, cnts[i].k, strlen(cnts[i].k)); fprintf(out, ":%llu", (unsigned long long)cnts[i].n); }
    fprintf(out, "},\"samples\":[");
    for (int i = 0; i < n_samples; i++) { if (i) fputc(',', out); jstr(out, samp[i].c_str(), samp[i].size()); }
    fprintf(out, "],\"rule\":"); jstr(out, VF_RULE, strlen(VF_RULE)); fprintf(out, "}\n"); fclose(out);
  }
  if (fh) {
    FILE* f = fopen(fh, "wb"); if (!f) return 2;
    uint64_t a = tab_cases.n, b = tab_feats.n; fwrite(&a, 8, 1, f); fwrite(&b, 8, 1, f);
    for (size_t i = 0; i < tab_cases.cap; i++) if (tab_cases.t[i]) fwrite(&tab_cases.t[i], 8, 1, f);
    for (size_t i = 0; i < tab_feats.cap; i++) if (tab_feats.t[i]) fwrite(&tab_feats.t[i], 8, 1, f);
    fclose(f);
  }
  if (!out) fprintf(stderr, "ok: %llu cases, %llu distinct nontrivial, %llu events, %u feats, worst %.3fs @%llu\n", (unsigned long long)ran, (unsigned long long)nontriv, (unsigned long long)events, (unsigned)tab_feats.n, worst, (unsigned long long)worst_case);
  return 0;
}
