#include "sim.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <sstream>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#endif
#endif
#ifdef VERIF_ASAN
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:handle_abort=1:exitcode=77:abort_on_error=0:"
         "max_malloc_fill_size=1048576:malloc_fill_byte=190:"
         "detect_stack_use_after_return=0:symbolize=0:print_legend=0:"
         "print_full_thread_history=0:allocator_may_return_null=0:"
         "quarantine_size_mb=32:thread_local_quarantine_size_kb=256:"
         "detect_odr_violation=0";
}
#endif

namespace dst {

Sim* g_sim = nullptr;
static Shared* g_shared = nullptr;

static inline uint64_t Rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

uint64_t Sim::Next() {  // xoshiro256**
  uint64_t r = Rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
  s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3];
  s_[2] ^= t; s_[3] = Rotl(s_[3], 45);
  return r;
}

uint64_t Sim::Pick(uint64_t n) {
  uint64_t v;
  if (tape_ != nullptr) {
    v = 0;
    if (tape_group_ < tape_->size()) {
      const auto& g = (*tape_)[tape_group_];
      if (tape_pos_ < g.size()) v = g[tape_pos_++];
    }
  } else {
    v = Next();
    if (n != 0) v %= n;
  }
  if (n != 0) v %= n;
  if (sh_->num_words < kMaxWords) sh_->words[sh_->num_words++] = v;
  else EngineError("tape overflow");
  sh_->heartbeat = sh_->heartbeat + 1;
  Note(v);
  return v;
}

uint64_t Sim::Bits() {
  switch (Pick(8)) {
    case 0: return Pick(4);
    case 1: return Pick(256);
    case 2: return ~Pick(4);
    case 3: return 1ull << Pick(64);
    case 4: return (1ull << Pick(64)) - 1;
    default: return Pick(0);
  }
}

int Sim::Weighted(std::initializer_list<unsigned> w) {
  unsigned sum = 0;
  for (auto x : w) sum += x;
  uint64_t r = Pick(sum);
  int i = 0;
  for (auto x : w) {
    if (r < x) return i;
    r -= x;
    ++i;
  }
  return 0;
}

bool Sim::Step() {
  if (tape_ != nullptr) {
    if (tape_group_ + 1 >= tape_->size()) return false;
    ++tape_group_;
    tape_pos_ = 0;
  } else if (steps_ >= max_steps_) {
    return false;
  }
  if (sh_->num_groups >= kMaxGroups) EngineError("too many steps");
  sh_->group_start[sh_->num_groups++] = sh_->num_words;
  ++steps_;
  sh_->steps_total = sh_->steps_total + 1;
  sh_->heartbeat = sh_->heartbeat + 1;
  return true;
}

void Sim::BeginSeeded(uint64_t seed) {
  tape_ = nullptr;
  uint64_t x = seed;
  for (auto& s : s_) s = Mix(x++);
  End();
}

void Sim::BeginTape(const std::vector<std::vector<uint64_t>>* tape) {
  tape_ = tape;
  tape_group_ = 0;
  tape_pos_ = 0;
  End();
}

// Resets per-run state.
void Sim::End() {
  hash_ = 0x1234567;
  steps_ = 0;
  sim_time_ = 0;
  nontrivial_ = false;
  max_steps_ = 100;
  sh_->num_groups = 1;
  sh_->num_words = 0;
  sh_->group_start[0] = 0;
  sh_->failed = 0;
  sh_->cls[0] = sh_->msg[0] = 0;
}

void Sim::Log(const char* fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > static_cast<int>(sizeof buf) - 1) n = sizeof buf - 1;
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < n; ++i) h = (h ^ static_cast<unsigned char>(buf[i])) * 1099511628211ull;
  Note(h);
  if (verbose) {
    printf("[step %d t=%llu] %s\n", steps_, static_cast<unsigned long long>(sim_time_), buf);
    fflush(stdout);
  }
  if (g_shared->num_samples < 4) {
    char* s = g_shared->samples[g_shared->num_samples];
    size_t l = strlen(s);
    if (l + n + 3 < sizeof g_shared->samples[0]) {
      memcpy(s + l, buf, n);
      s[l + n] = ';';
      s[l + n + 1] = 0;
    }
  }
}

void Sim::Count(const char* name, int is_fault) {
  for (int i = 0; i < sh_->num_names; ++i)
    if (strcmp(sh_->names[i], name) == 0 && sh_->is_fault[i] == is_fault) {
      sh_->counts[i]++;
      return;
    }
  if (sh_->num_names >= kMaxNames) return;
  int i = sh_->num_names++;
  snprintf(sh_->names[i], sizeof sh_->names[i], "%s", name);
  sh_->is_fault[i] = is_fault;
  sh_->counts[i] = 1;
}

void Sim::State(uint64_t h) {
  h = Mix(h) | 1;
  sh_->state_seen++;
  if (sh_->state_count > kStateSlots / 2) return;
  size_t i = h & (kStateSlots - 1);
  while (sh_->states[i] != 0) {
    if (sh_->states[i] == h) return;
    i = (i + 1) & (kStateSlots - 1);
  }
  sh_->states[i] = h;
  sh_->state_count++;
}

[[noreturn]] static void Stop(Shared* sh, int code) {
  (void)sh;
  fflush(stdout);
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}

void Sim::Violation(const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh_->msg, sizeof sh_->msg, fmt, ap);
  va_end(ap);
  snprintf(sh_->cls, sizeof sh_->cls, "%s", cls);
  sh_->history_hash = hash_;
  sh_->failed = 1;
  if (verbose) printf("[step %d] VIOLATED %s: %s\n", steps_, sh_->cls, sh_->msg);
  Stop(sh_, 3);
}

void Sim::EngineError(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh_->msg, sizeof sh_->msg, fmt, ap);
  va_end(ap);
  snprintf(sh_->cls, sizeof sh_->cls, "engine-error");
  sh_->failed = 2;
  Stop(sh_, 4);
}

// ---------------------------------------------------------------------------
// Supervisor.

using Tape = std::vector<std::vector<uint64_t>>;

static double Now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static Tape GetTape(Shared* sh) {
  Tape t;
  for (uint32_t g = 0; g < sh->num_groups; ++g) {
    uint32_t b = sh->group_start[g];
    uint32_t e = g + 1 < sh->num_groups ? sh->group_start[g + 1] : sh->num_words;
    t.emplace_back(sh->words + b, sh->words + e);
  }
  return t;
}

struct Outcome {
  int failed = 0;  // 0 ok, 1 violation, 2 engine error
  std::string cls, msg;
  uint64_t hash = 0;
};

#ifdef VERIF_ASAN
static void OnAsanReport(const char* report) {
  if (g_shared == nullptr || g_shared->failed) return;
  const char* d = __asan_get_report_description();
  snprintf(g_shared->cls, sizeof g_shared->cls, "memory-error:%s",
           d && *d ? d : "crash");
  snprintf(g_shared->msg, sizeof g_shared->msg, "%.1900s", report);
  if (g_sim != nullptr) g_shared->history_hash = g_sim->history_hash();
  g_shared->failed = 1;
}
#endif

static uint64_t LiveBytes() {
#ifdef VERIF_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

static void Execute(Sim& sim) {
  g_sim = &sim;
  RunOne(sim);
}

// Runs a tape in a forked child.
static Outcome RunTape(Shared* sh, const Tape& tape, bool verbose, double limit) {
  fflush(stdout);
  fflush(stderr);
  sh->failed = 0;
  sh->cls[0] = sh->msg[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    if (!verbose) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
    }
    Sim sim(sh);
    sim.verbose = verbose;
    sim.BeginTape(&tape);
    if (kHarnessChecksLeaks) {
      // Warm up lazily initialised statics, then measure.
      Execute(sim);
      sim.verbose = false;
      sim.BeginTape(&tape);
      uint64_t before = LiveBytes();
      Execute(sim);
      uint64_t after = LiveBytes();
      if (before != after)
        sim.Violation("leak", "%lld bytes still allocated after the run's objects were all released",
                      (long long)(after - before));
    } else {
      Execute(sim);
    }
    sh->history_hash = sim.history_hash();
    Stop(sh, 0);
  }
  double deadline = Now() + limit;
  int st = 0;
  Outcome o;
  int spins = 0;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (Now() > deadline) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      o.failed = 1;
      o.cls = "hang";
      o.msg = "run did not finish";
      return o;
    }
    usleep(spins++ < 200 ? 100 : 2000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    o.hash = sh->history_hash;
    return o;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 4) {
    o.failed = 2;
    o.msg = sh->msg;
    o.cls = sh->cls;
    return o;
  }
  o.failed = 1;
  o.cls = sh->cls;
  o.msg = sh->msg;
  o.hash = sh->failed == 1 ? sh->history_hash : 0;
  if (o.cls.empty()) {
    o.cls = WIFSIGNALED(st) ? "crash:signal" : "crash:exit";
    o.msg = "process ended: status " + std::to_string(st);
  }
  return o;
}

static bool WriteReplay(const char* path, const Tape& t, const Outcome& o, uint64_t seed) {
  std::ofstream f(path);
  f << "DST-REPLAY 1\nproperty " << kHarnessProperty << "\nseed " << seed << "\nclass "
    << o.cls << "\n";
  std::string m = o.msg.substr(0, 600);
  for (auto& c : m) if (c == '\n') c = ' ';
  f << "message " << m << "\nhash " << o.hash << "\ngroups " << t.size() << "\n";
  for (auto& g : t) {
    f << "g " << g.size();
    for (auto v : g) f << ' ' << v;
    f << "\n";
  }
  return f.good();
}

static bool ReadReplay(const char* path, Tape* t, std::string* cls, uint64_t* hash) {
  std::ifstream f(path);
  std::string line;
  if (!std::getline(f, line) || line != "DST-REPLAY 1") return false;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "class") *cls = line.size() > 6 ? line.substr(6) : "";
    else if (k == "hash") is >> *hash;
    else if (k == "g") {
      size_t n;
      is >> n;
      std::vector<uint64_t> g(n);
      for (auto& v : g) is >> v;
      t->push_back(g);
    }
  }
  return !t->empty();
}

static Tape Minimise(Shared* sh, Tape tape, const Outcome& target, double budget,
                     double limit, int* tries) {
  double end = Now() + budget;
  auto fails = [&](const Tape& t) {
    ++*tries;
    Outcome o = RunTape(sh, t, false, limit);
    return o.failed == 1 && o.cls == target.cls;
  };
  bool progress = true;
  while (progress && Now() < end) {
    progress = false;
    // Drop chunks of steps (group 0 is the configuration).
    for (size_t chunk = std::max<size_t>(1, (tape.size() - 1) / 2);; chunk /= 2) {
      for (size_t i = tape.size(); i > 1 && Now() < end;) {
        size_t b = i > chunk + 1 ? i - chunk : 1;
        Tape c(tape.begin(), tape.begin() + b);
        c.insert(c.end(), tape.begin() + i, tape.end());
        if (c.size() < tape.size() && fails(c)) {
          tape = c;
          progress = true;
        }
        i = b;
        if (i > tape.size()) i = tape.size();
      }
      if (chunk <= 1) break;
    }
    // Shrink values.
    for (size_t g = 0; g < tape.size() && Now() < end; ++g) {
      // Drop the tail (zeros are implied).
      while (!tape[g].empty() && tape[g].back() == 0) tape[g].pop_back();
      for (size_t k = 0; k < tape[g].size() && Now() < end; ++k) {
        uint64_t v = tape[g][k];
        if (v == 0) continue;
        for (uint64_t cand : {uint64_t{0}, v / 2, v - 1}) {
          if (cand >= tape[g][k]) continue;
          Tape c = tape;
          c[g][k] = cand;
          if (fails(c)) {
            tape = c;
            progress = true;
            break;
          }
        }
      }
    }
  }
  return tape;
}

static void JsonStr(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 0x20 || c > 0x7e) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

static int Batch(Shared* sh, uint64_t base, uint64_t first, uint64_t stride, uint64_t count,
                 double seconds, double hang_limit, const char* out, const char* replay) {
  double t0 = Now();
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    Sim sim(sh);
    bool warm = false;
    for (uint64_t i = first; i < count; i += stride) {
      if (seconds > 0 && Now() - t0 > seconds) break;
      uint64_t seed = Mix(Mix(base) + i);
      sh->run_index = i;
      sh->run_seed = seed;
      int reps = (i / stride) % 16 == 0 ? 2 : 1;
      uint64_t h[2] = {0, 0};
      for (int r = 0; r < reps; ++r) {
        sim.BeginSeeded(seed);
        uint64_t before = LiveBytes();
        Execute(sim);
        uint64_t after = LiveBytes();
        h[r] = sim.history_hash();
        if (kHarnessChecksLeaks && before != after) {
          // Exclude one-time initialisation: it does not happen twice.
          sim.BeginSeeded(seed);
          before = LiveBytes();
          Execute(sim);
          after = LiveBytes();
          if (before != after)
            sim.Violation("leak", "%lld bytes still allocated after the run's objects were all released",
                          (long long)(after - before));
        }
      }
      (void)warm;
      if (reps == 2) {
        sh->twice_checked++;
        if (h[0] != h[1]) sim.EngineError("history of seed %llu differs between two executions",
                                          (unsigned long long)seed);
      }
      sh->runs_done = sh->runs_done + 1;
      if (sim.nontrivial() && sh->num_run_hashes < kMaxRunHashes)
        sh->run_hashes[sh->num_run_hashes++] = sim.history_hash();
      sh->sim_time += sim.now();
      if (sh->num_samples < 4 && (i / stride) % 7 == 0) sh->num_samples++;
      else if (sh->num_samples < 4) sh->samples[sh->num_samples][0] = 0;
    }
    Stop(sh, 0);
  }
  int st = 0;
  uint64_t last = ~0ull;
  double last_change = Now();
  bool hung = false;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    usleep(5000);
    if (sh->run_index != last) {
      last = sh->run_index;
      last_change = Now();
    } else if (Now() - last_change > hang_limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      hung = true;
      break;
    }
  }
  Outcome o;
  Tape tape, min;
  int tries = 0, orig_steps = 0;
  int status = 0;  // 0 held, 1 violation, 2 engine error
  std::string err;
  uint64_t fail_seed = sh->run_seed;
  uint64_t fail_index = sh->run_index;
  // Statistics of the search proper, before the confirmation runs below.
  uint64_t runs = sh->runs_done, steps = sh->steps_total, simt = sh->sim_time;
  if (hung || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 4) {
      status = 2;
      err = sh->msg;
    } else {
      status = 1;
      tape = GetTape(sh);
      orig_steps = tape.size();
      // Same tape twice: same class and, for oracle violations, same history.
      Outcome a = RunTape(sh, tape, false, hang_limit);
      Outcome b = RunTape(sh, tape, false, hang_limit);
      if (a.failed != 1 || b.failed != 1 || a.cls != b.cls || a.hash != b.hash) {
        status = 2;
        err = "violation did not reproduce: '" + a.cls + "' '" + b.cls + "' (first seen " +
              std::string(sh->cls) + ")";
      } else {
        double lim = a.cls == "hang" ? std::min(hang_limit, 5.0) : hang_limit;
        min = Minimise(sh, tape, a, a.cls == "hang" ? 40 : 60, lim, &tries);
        o = RunTape(sh, min, false, hang_limit);
        Outcome o2 = RunTape(sh, min, false, hang_limit);
        if (o.failed != 1 || o.cls != a.cls || o2.cls != o.cls || o2.hash != o.hash) {
          min = tape;
          o = a;
        }
        if (!WriteReplay(replay, min, o, fail_seed)) {
          status = 2;
          err = "cannot write replay file";
        }
      }
    }
  }
  FILE* f = fopen(out, "w");
  if (!f) return 2;
  fprintf(f, "{\"status\":%d,\"runs\":%llu,\"steps\":%llu,\"sim_time\":%llu,\"twice\":%llu,", status,
          (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)simt,
          (unsigned long long)sh->twice_checked);
  fprintf(f, "\"wall\":%.3f,\"states\":%llu,\"state_visits\":%llu,\"fail_seed\":%llu,\"fail_index\":%llu,\"orig_steps\":%d,\"min_steps\":%d,\"tries\":%d,",
          Now() - t0, (unsigned long long)sh->state_count, (unsigned long long)sh->state_seen,
          (unsigned long long)fail_seed, (unsigned long long)fail_index, orig_steps, (int)min.size(), tries);
  fprintf(f, "\"cls\":");
  JsonStr(f, o.cls.c_str());
  fprintf(f, ",\"msg\":");
  JsonStr(f, o.msg.c_str());
  fprintf(f, ",\"err\":");
  JsonStr(f, err.c_str());
  for (int k = 0; k < 2; ++k) {
    fprintf(f, ",\"%s\":{", k ? "faults" : "probes");
    bool c = false;
    for (int i = 0; i < sh->num_names; ++i)
      if (sh->is_fault[i] == k) {
        if (c) fputc(',', f);
        c = true;
        JsonStr(f, sh->names[i]);
        fprintf(f, ":%llu", (unsigned long long)sh->counts[i]);
      }
    fprintf(f, "}");
  }
  fprintf(f, ",\"samples\":[");
  for (int i = 0; i < std::min(sh->num_samples, 4); ++i) {
    if (i) fputc(',', f);
    JsonStr(f, sh->samples[i]);
  }
  fprintf(f, "]}\n");
  fclose(f);
  std::string rp = std::string(out) + ".runs";
  FILE* rf = fopen(rp.c_str(), "wb");
  if (rf) {
    fwrite(sh->run_hashes, 8, sh->num_run_hashes, rf);
    fclose(rf);
  }
  // Distinct states, for merging across workers.
  std::string sp = std::string(out) + ".states";
  FILE* sf = fopen(sp.c_str(), "wb");
  if (sf) {
    for (size_t i = 0; i < kStateSlots; ++i)
      if (sh->states[i]) fwrite(&sh->states[i], 8, 1, sf);
    fclose(sf);
  }
  return status;
}

// LOG(FATAL) / CHECK failures inside the code under test.
static void OnFatal(const char* text) {
  if (g_shared == nullptr || g_shared->failed) return;
  snprintf(g_shared->cls, sizeof g_shared->cls, "fatal");
  snprintf(g_shared->msg, sizeof g_shared->msg, "LOG(FATAL)/CHECK: %.1800s", text);
  if (g_sim != nullptr) g_shared->history_hash = g_sim->history_hash();
  g_shared->failed = 1;
  Stop(g_shared, 3);
}

}  // namespace dst

extern "C" void verif_fatal_hook(const char* text) { dst::OnFatal(text); }

int main(int argc, char** argv) {
  using namespace dst;
  g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g_shared == MAP_FAILED) return 2;
#ifdef VERIF_ASAN
  __asan_set_error_report_callback(OnAsanReport);
#endif
  signal(SIGPIPE, SIG_IGN);
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "--batch" && argc >= 9) {
    // --batch BASE FIRST STRIDE COUNT SECONDS OUT REPLAY [HANG]
    return Batch(g_shared, strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10),
                 strtoull(argv[4], nullptr, 10), strtoull(argv[5], nullptr, 10), atof(argv[6]),
                 argc > 9 ? atof(argv[9]) : 30.0, argv[7], argv[8]);
  }
  if (mode == "--replay" && argc >= 3) {
    // Exit 0: the recorded violation reproduced exactly; 1: it did not.
    Tape t;
    std::string cls;
    uint64_t hash = 0;
    if (!ReadReplay(argv[2], &t, &cls, &hash)) return 2;
    bool quiet = argc > 3 && std::string(argv[3]) == "-q";
    Outcome o = RunTape(g_shared, t, !quiet, 40.0);
    printf("replay: class=%s hash=%llu message=%s\n", o.cls.c_str(), (unsigned long long)o.hash,
           o.msg.c_str());
    if (o.failed == 1 && o.cls == cls && o.hash == hash) {
      printf("REPRODUCED\n");
      return 0;
    }
    printf("NOT REPRODUCED (expected class=%s hash=%llu)\n", cls.c_str(), (unsigned long long)hash);
    return 1;
  }
  if (mode == "--hashes" && argc >= 5) {
    // --hashes BASE FIRST COUNT: prints the history hash of each run.
    Sim sim(g_shared);
    uint64_t base = strtoull(argv[2], nullptr, 10), first = strtoull(argv[3], nullptr, 10),
             n = strtoull(argv[4], nullptr, 10);
    for (uint64_t i = first; i < first + n; ++i) {
      sim.BeginSeeded(Mix(Mix(base) + i));
      Execute(sim);
      printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)sim.history_hash());
    }
    return 0;
  }
  if (mode == "--one" && argc >= 4) {
    Sim sim(g_shared);
    sim.verbose = true;
    sim.BeginSeeded(Mix(Mix(strtoull(argv[2], nullptr, 10)) + strtoull(argv[3], nullptr, 10)));
    Execute(sim);
    printf("hash %016llx steps %d\n", (unsigned long long)sim.history_hash(), sim.steps());
    return 0;
  }
  fprintf(stderr, "usage: --batch|--replay|--hashes|--one\n");
  return 2;
}
