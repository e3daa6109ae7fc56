/* vf: the small runtime-monitoring framework that every harness uses.
 *
 * A harness is a set of "cases". A case is a pure function of (seed, index):
 * it drives the real library code with a workload drawn from its RNG, and
 * on-line monitors compare what it observes with a reference. The framework
 *   - records which case is running (so that an abort is attributable),
 *   - keeps the text of the case (for replay, samples, and the distinct count),
 *   - meters events (per-kind counters) and observed states (feature hashes),
 *   - bounds each case in CPU time (a case that never ends is a finding),
 *   - checks that a case gives back all the heap that it took.
 * It uses no heap of its own between the start and the end of a case.
 */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>

class StringBuilder;
namespace vf {

struct Rng {
  uint64_t s[2];
  void seed(uint64_t a, uint64_t b, uint64_t c);
  uint64_t u64();
  uint32_t u32() { return (uint32_t)(u64() >> 32); }
  // Uniform in [0, n). n > 0
  uint32_t below(uint32_t n) { return (uint32_t)(((u64() >> 32) * (uint64_t)n) >> 32); }
  // Uniform in [lo, hi]
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(u64() % (uint64_t)(hi - lo + 1)); }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
  // Integers that like boundaries: powers of two and their neighbours, small, extreme.
  uint64_t edgy64();
  int64_t  edgyBits(unsigned bits, bool sgn);
  double   edgyDouble();
  float    edgyFloat();
};

struct Ctx {
  Rng      rng;
  uint64_t seed;
  uint64_t idx;
  bool     thorough;
  bool     verbose;
  bool     nontrivial;    // The harness sets it when the case exercised something.
  bool     leak_check;    // Default true: heap in == heap out.

  void op(const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // One event of the case: goes to the log and the case's hash.
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // Log only.
  void hash(const void*, size_t);      // Feed the case's hash without text.
  void feat(uint64_t h);               // An observed state / behaviour class.
  void count(const char* key, uint64_t n = 1);   // An event counter. Key must be a literal.
};

extern Ctx* C;      // The current case.

// A violated property. KEY names the oracle (stable); text describes. Never returns.
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// The case could not be judged.
[[noreturn]] void broken(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

#define VF_CHECK(cond, key, ...) do { if (!(cond)) vf::fail(key, __VA_ARGS__); } while (0)

uint64_t mix(uint64_t a, uint64_t b);
uint64_t fnv(const void*, size_t, uint64_t h = 0xcbf29ce484222325ULL);
std::string hex(const void*, size_t, size_t max = 400);
std::string quote(const void*, size_t, size_t max = 80);

// Virtual time. millis() and micros() of the platform are derived from it.
extern uint64_t now_us;
inline void advance_us(uint64_t d) { now_us += d; }
extern uint32_t auto_tick_us;       // Added at each micros() reading. Default 0.
extern unsigned long log_lines;     // c3p_log() calls seen.
extern uint32_t (*rand32_hook)();   // Gives the platform's random numbers, if set.
extern void (*log_hook)(uint8_t, const char*, StringBuilder*);   // Given each of them, if set.

}  // namespace vf

// Supplied by each harness.
extern const char* VF_PROPERTY;
extern const char* VF_RULE;
void vf_setup();            // Once per process.
void vf_case(vf::Ctx&);     // One case.

#endif
