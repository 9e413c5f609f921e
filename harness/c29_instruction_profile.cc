// C29: the instruction profile. Real code: InstructionProfiler, SimpleCounter,
// ElfProgramLoader. Simulated: the files (behind a stand-in for ELFIO, which is
// not available offline), the core that sets the program counter, the sink.
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <errno.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <sstream>

#include "mpact/sim/generic/counters.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "mpact/sim/util/other/instruction_profiler.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"
#include "sim.h"

using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::Instruction;
using mpact::sim::generic::ReferenceCount;
using mpact::sim::generic::SimpleCounter;
using mpact::sim::util::ElfProgramLoader;
using mpact::sim::util::InstructionProfiler;
using mpact::sim::util::MemoryInterface;
using ELFIO::VerifFile;
const char* const kHarnessProperty = "C29";
const bool kHarnessChecksLeaks = true;

namespace {
bool g_active = false;
struct Memory : public MemoryInterface {
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override {}
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override {}
  void Store(uint64_t, DataBuffer*) override {}
  void Store(DataBuffer*, DataBuffer*, int, DataBuffer*) override {}
};
using ull = unsigned long long;

// The executable granules of a file, as inclusive ranges.
struct Text {
  std::vector<std::pair<uint64_t, uint64_t>> r;
  bool Has(uint64_t g) const {
    for (auto& [a, b] : r) if (g >= a && g <= b) return true;
    return false;
  }
};

struct Profile {
  explicit Profile(int s) : shift(s) {}
  int shift;
  bool has_loader = false;
  Text text;
  std::unique_ptr<InstructionProfiler> p;
  std::map<uint64_t, uint64_t> must;   // granules of the text
  std::map<uint64_t, uint64_t> may;    // the others: counted right, or not at all
  uint64_t samples = 0, lost = 0;
};

struct World {
  explicit World(dst::Sim& s) : sim(s) {}
  dst::Sim& sim;
  Memory mem;
  std::vector<std::pair<uint64_t, uint64_t>> segs;   // executable bytes, inclusive
  std::vector<std::unique_ptr<Profile>> profiles;
  std::unique_ptr<SimpleCounter<uint64_t>> pc;
  bool enabled = true;

  void Sampled(uint64_t v) {
    for (auto& p : profiles) {
      if (!p->has_loader) { sim.Probe("sample-before-program"); continue; }
      uint64_t g = v >> p->shift;
      if (p->text.Has(g)) { p->must[g]++; p->samples++; }
      else { p->may[g]++; sim.Probe("sample-outside-text"); }
    }
  }
  void Check(Profile& p) {
    std::ostringstream os;
    p.p->WriteProfile(os);
    std::istringstream is(os.str());
    std::string line;
    SIM_CHECK(sim, std::getline(is, line) && line == "Address,Count", "format", "the profile starts with '%s'", line.c_str());
    std::map<uint64_t, uint64_t> got;
    bool first = true;
    uint64_t last = 0;
    while (std::getline(is, line)) {
      ull a, n;
      SIM_CHECK(sim, sscanf(line.c_str(), "0x%llx,%llu", &a, &n) == 2, "format", "profile line '%s'", line.c_str());
      SIM_CHECK(sim, (a & ((1ull << p.shift) - 1)) == 0, "format", "0x%llx is not the start of a granule of %llu bytes", a, 1ull << p.shift);
      SIM_CHECK(sim, n != 0, "format", "0x%llx is listed with count 0", a);
      SIM_CHECK(sim, first || a > last, "order", "0x%llx is listed after 0x%llx", a, (ull)last);
      first = false;
      last = a;
      got[a >> p.shift] = n;
    }
    for (auto& [g, n] : p.must) {
      SIM_CHECK(sim, got.count(g), "samples-lost", "0x%llx was sampled %llu times and is not in the profile", (ull)(g << p.shift), (ull)n);
      SIM_CHECK(sim, got[g] == n, "wrong-count", "0x%llx was sampled %llu times, the profile says %llu", (ull)(g << p.shift), (ull)n, (ull)got[g]);
    }
    for (auto& [g, n] : got) {
      if (p.must.count(g)) continue;
      SIM_CHECK(sim, p.may.count(g), "invented-sample", "the profile has %llu samples of 0x%llx, which was never sampled", (ull)n, (ull)(g << p.shift));
      SIM_CHECK(sim, n == p.may[g], "wrong-count", "0x%llx, outside the text, was sampled %llu times, the profile says %llu", (ull)(g << p.shift), (ull)p.may[g], (ull)n);
    }
    if (!p.must.empty()) sim.Probe("profile-checked");
  }
};

uint64_t Pc(World& w) {
  dst::Sim& sim = w.sim;
  if (w.segs.empty() || sim.Chance(1, 12)) return sim.Bits();
  auto& s = w.segs[sim.Pick(w.segs.size())];
  switch (sim.Weighted({6, 3, 4, 2, 2})) {
    case 0: return s.first + sim.Pick(s.second - s.first + 1);
    case 1: return s.first + std::min<uint64_t>(sim.Pick(5), s.second - s.first);
    case 2: return s.second - std::min<uint64_t>(sim.Pick(5), s.second - s.first);
    case 3: return s.first - 1 - sim.Pick(9);
    default: return s.second + 1 + sim.Pick(9);
  }
}
}  // namespace

extern "C" int stat(const char* name, struct stat* st) noexcept {
  if (g_active) {
    memset(st, 0, sizeof *st);
    if (ELFIO::VerifFiles().count(name)) { st->st_mode = S_IFREG | 0644; st->st_size = 1000; return 0; }
    errno = ENOENT;
    return -1;
  }
  return syscall(SYS_newfstatat, AT_FDCWD, name, st, 0);
}

void RunOne(dst::Sim& sim) {
  ELFIO::VerifFiles().clear();
  World w(sim);
  // A file of segments in address order.
  VerifFile f;
  f.entry = 0;
  int n = sim.Range(0, 6);
  static const uint64_t kBase[] = {0, 1, 0x1000, 0x10000, 0x8000'0000, 0xffff'f000, 0x1234'5670'0000};
  uint64_t at = sim.Pick(3) ? kBase[sim.Pick(7)] : sim.Range(0, 70000);
  bool at_top = sim.Chance(1, 10);
  for (int i = 0; i < n; ++i) {
    VerifFile::Seg s;
    s.type = sim.Chance(1, 8) ? ELFIO::PT_NOTE : ELFIO::PT_LOAD;
    s.flags = sim.Chance(1, 4) ? (int)ELFIO::PF_R : (int)(ELFIO::PF_R | ELFIO::PF_X | (sim.Pick(2) ? ELFIO::PF_W : 0));
    s.vaddr = at;
    s.paddr = sim.Pick(2) ? 0 : sim.Range(1, 100000);
    s.memsz = sim.Chance(1, 8) ? 0 : sim.Chance(1, 8) ? sim.Range(1, 6000) : sim.Range(1, 40);
    if (at_top && i == n - 1) {   // ends with the last byte of the address space
      s.memsz = sim.Range(1, 40);
      s.vaddr = 0 - s.memsz;
      s.type = ELFIO::PT_LOAD;
      s.flags |= ELFIO::PF_X;
      sim.Probe("text-at-top");
    }
    int size = std::min<uint64_t>(s.memsz, sim.Range(0, 8));
    for (int k = 0; k < size; ++k) s.data.push_back(k);
    f.segs.push_back(s);
    if (s.type == ELFIO::PT_LOAD && (s.flags & ELFIO::PF_X) && s.memsz > 0) w.segs.push_back({s.vaddr, s.vaddr + s.memsz - 1});
    at = s.vaddr + s.memsz;
    switch (sim.Weighted({4, 4, 2, 2, 2})) {
      case 0: break;
      case 1: at += sim.Range(0, 64); break;
      case 2: at += sim.Range(0x0ff0, 0x1010) << sim.Pick(4); break;   // about where ranges are no longer joined
      case 3: at += sim.Range(1, 0x5000); break;
      case 4: at += 1ull << sim.Range(14, 40); break;
    }
  }
  if (w.segs.size() > 1) sim.Probe("several-texts");
  if (sim.Chance(1, 16)) { f.load_fails_after = sim.Pick(n + 1); w.segs.clear(); }
  ELFIO::VerifFiles()["sim:/file"] = f;
  ElfProgramLoader loader(&w.mem);
  bool missing = sim.Chance(1, 20);
  g_active = true;
  auto r = sim.Pick(2) ? loader.LoadProgram(missing ? "sim:/none" : "sim:/file") : loader.LoadSymbols(missing ? "sim:/none" : "sim:/file");
  g_active = false;
  if (missing) w.segs.clear();
  if (!r.ok()) sim.Fault("program-not-loaded");
  w.pc = std::make_unique<SimpleCounter<uint64_t>>("pc", sim.Pick(2) ? 0 : sim.Bits());
  w.pc->SetIsEnabled(true);
  bool failed = !r.ok();
  auto take = [&](Profile& p) {
    p.has_loader = true;
    for (auto& [a, b] : w.segs) p.text.r.push_back({a >> p.shift, b >> p.shift});
  };
  int np = sim.Pick(3) ? 1 : sim.Range(2, 3);
  for (int i = 0; i < np; ++i) {
    auto p = std::make_unique<Profile>(sim.Pick(4) ? sim.Range(0, 3) : sim.Range(0, 8));
    if (p->shift == 0) sim.Probe("granule-of-one");
    if (sim.Pick(2)) {
      p->p = std::make_unique<InstructionProfiler>(loader, 1u << p->shift);
      take(*p);
    } else {
      p->p = std::make_unique<InstructionProfiler>(1u << p->shift);
    }
    w.pc->AddListener(p->p.get());
    w.profiles.push_back(std::move(p));
  }
  // What a partly parsed file holds is not fixed, so all of it counts as outside.
  if (failed) for (auto& p : w.profiles) p->text.r.clear();
  sim.Log("%zu text segments, %d profiles", w.segs.size(), np);
  for (auto& [a, b] : w.segs) sim.Log("text 0x%llx-0x%llx", (ull)a, (ull)b);
  for (auto& p : w.profiles) sim.Log("granule %d%s", 1 << p->shift, p->has_loader ? "" : ", no program yet");
  sim.set_max_steps(sim.Range(2, 80));
  uint64_t pc = 0;
  while (sim.Step()) {
    switch (sim.Weighted({12, 4, 2, 1, 2, 1})) {
      case 0: case 1: {
        // A jump, then a stretch of straight-line code.
        pc = Pc(w);
        int run = sim.Pick(3) ? 1 : sim.Range(1, 12);
        uint64_t step = 1ull << sim.Pick(4);
        sim.Log("pc 0x%llx, %d times, +%llu", (ull)pc, run, (ull)step);
        for (int i = 0; i < run; ++i, pc += step) {
          w.pc->SetValue(pc);
          if (w.enabled) w.Sampled(pc);
        }
        break;
      }
      case 2: {
        auto& p = *w.profiles[sim.Pick(w.profiles.size())];
        if (p.has_loader) break;
        sim.Log("program set");
        p.p->SetElfLoader(&loader);
        take(p);
        if (failed) p.text.r.clear();
        sim.Probe("program-set-later");
        break;
      }
      case 3:
        w.enabled = sim.Pick(3);
        w.pc->SetIsEnabled(w.enabled);
        sim.Log("counter %s", w.enabled ? "on" : "off");
        break;
      case 4: {
        auto& p = *w.profiles[sim.Pick(w.profiles.size())];
        w.Check(p);
        break;
      }
      case 5: {
        // The same place over and over.
        int k = sim.Range(1, 300);
        pc = Pc(w);
        sim.Log("pc 0x%llx, %d times", (ull)pc, k);
        for (int i = 0; i < k; ++i) {
          w.pc->SetValue(pc);
          if (w.enabled) w.Sampled(pc);
        }
        break;
      }
    }
    uint64_t h = w.enabled;
    for (auto& p : w.profiles) for (auto& [g, c] : p->must) h = dst::Mix(h ^ g * 31 ^ c);
    sim.State(h);
    sim.AdvanceTime(1);
  }
  for (auto& p : w.profiles) {
    if (p->samples >= 2) sim.NonTrivial();
    w.Check(*p);
  }
}
