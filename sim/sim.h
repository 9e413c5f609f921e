// Deterministic simulation engine. One 64-bit seed decides every choice of a
// run; every choice is also recorded on a decision tape, grouped by simulation
// step, so that a run can be replayed from (and minimised on) the tape alone.
#ifndef VERIF_SIM_SIM_H_
#define VERIF_SIM_SIM_H_

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace dst {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

constexpr int kMaxFaultKinds = 48;
constexpr int kMaxNames = 160;
constexpr size_t kMaxWords = 1u << 19;
constexpr size_t kMaxGroups = 1u << 16;
constexpr size_t kStateSlots = 1u << 20;
constexpr size_t kMaxRunHashes = 1u << 22;

// Lives in memory shared between the supervising parent and the forked child
// that executes simulated runs, so it survives a crash of the child.
struct Shared {
  // Tape of the current (or last) run.
  uint32_t num_groups;
  uint32_t num_words;
  uint32_t group_start[kMaxGroups + 1];
  uint64_t words[kMaxWords];
  // Progress.
  volatile uint64_t run_index;
  volatile uint64_t run_seed;
  volatile uint64_t runs_done;
  volatile uint64_t steps_total;
  volatile uint64_t heartbeat;
  uint64_t sim_time;
  uint64_t twice_checked;
  uint64_t num_run_hashes;
  uint64_t run_hashes[kMaxRunHashes];
  // Result of the last run.
  uint64_t history_hash;
  int failed;               // 1: violation, 2: engine error
  char cls[160];
  char msg[2000];
  // Named counters (faults, probes).
  int num_names;
  char names[kMaxNames][48];
  int is_fault[kMaxNames];
  uint64_t counts[kMaxNames];
  // Distinct state hashes reached (open addressing, bounded).
  uint64_t state_count;
  uint64_t state_seen;
  uint64_t states[kStateSlots];
  // A few sample histories.
  int num_samples;
  char samples[4][1600];
};

class Sim {
 public:
  explicit Sim(Shared* sh) : sh_(sh) {}

  // ---- decisions -------------------------------------------------------
  // Uniform value in [0, n). The only source of randomness of a run.
  uint64_t Pick(uint64_t n);
  // Uniform value in [lo, hi].
  int64_t Range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(Pick(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool Chance(unsigned num, unsigned den) { return Pick(den) >= den - num; }
  // A 64-bit value biased to interesting ones.
  uint64_t Bits();
  // Index drawn with the given weights.
  int Weighted(std::initializer_list<unsigned> w);
  // Begins the next simulation step (one tape group). False: the run is over.
  bool Step();
  void set_max_steps(int n) { max_steps_ = n; }
  int steps() const { return steps_; }

  // ---- history ---------------------------------------------------------
  void Log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void Note(uint64_t v) { hash_ = Mix(hash_ ^ v); }
  // Fault kind that actually fired.
  void Fault(const char* kind) { Count(kind, 1); }
  // Rare-condition probe.
  void Probe(const char* name) { Count(name, 0); }
  // Abstract state reached; distinct values are counted.
  void State(uint64_t h);
  void AdvanceTime(uint64_t t) { sim_time_ += t; }
  uint64_t now() const { return sim_time_; }
  // The run exercised what the property is about (see each check's rule).
  void NonTrivial() { nontrivial_ = true; }
  bool nontrivial() const { return nontrivial_; }

  // ---- verdicts --------------------------------------------------------
  // Property violated: records it and ends the process running the run.
  [[noreturn]] void Violation(const char* cls, const char* fmt, ...)
      __attribute__((format(printf, 3, 4)));
  [[noreturn]] void EngineError(const char* fmt, ...)
      __attribute__((format(printf, 2, 3)));

  bool verbose = false;

  // ---- engine side -----------------------------------------------------
  void BeginSeeded(uint64_t seed);
  void BeginTape(const std::vector<std::vector<uint64_t>>* tape);
  void End();
  uint64_t history_hash() const { return hash_; }
  std::string* capture = nullptr;

 private:
  void Count(const char* name, int is_fault);
  uint64_t Next();
  Shared* sh_;
  uint64_t s_[4] = {0, 0, 0, 0};
  const std::vector<std::vector<uint64_t>>* tape_ = nullptr;
  size_t tape_group_ = 0;
  size_t tape_pos_ = 0;
  uint64_t hash_ = 0;
  int steps_ = 0;
  int max_steps_ = 100;
  uint64_t sim_time_ = 0;
  bool nontrivial_ = false;
};

// The simulator executing the current run (for seams reached from C code).
extern Sim* g_sim;

#define SIM_CHECK(sim, cond, cls, ...)            \
  do {                                            \
    if (!(cond)) (sim).Violation(cls, __VA_ARGS__); \
  } while (0)

}  // namespace dst

// Supplied by each harness.
extern const char* const kHarnessProperty;
// Executes one simulated run. Returns after the world has been torn down.
void RunOne(dst::Sim& sim);
// If true, bytes allocated by a run must all be released by its end.
extern const bool kHarnessChecksLeaks;

#endif  // VERIF_SIM_SIM_H_
