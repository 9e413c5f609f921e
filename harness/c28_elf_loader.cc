// C28: the ELF program loader. Real code: ElfProgramLoader, DataBuffer(Factory).
// Simulated: the files (behind a stand-in for ELFIO, which is not available
// offline), stat(), the memories and the core debug interface (writes may fail
// or come up short).
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <errno.h>
#include <fcntl.h>
#include <map>
#include <set>

#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/type_helpers.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"
#include "sim.h"

using mpact::sim::generic::CoreDebugInterface;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::Instruction;
using mpact::sim::generic::ReferenceCount;
using mpact::sim::util::ElfProgramLoader;
using mpact::sim::util::MemoryDescriptor;
using mpact::sim::util::MemoryInterface;
using ELFIO::VerifFile;
using ELFIO::VerifSymbol;
const char* const kHarnessProperty = "C28";
const bool kHarnessChecksLeaks = true;

namespace {
bool g_active = false;
struct World;
using Bytes = std::map<uint64_t, uint8_t>;
struct Memory : public MemoryInterface {
  explicit Memory(World& x) : w(x) {}
  World& w;
  Bytes bytes;
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override;
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override;
  void Store(uint64_t a, DataBuffer* db) override;
  void Store(DataBuffer*, DataBuffer*, int, DataBuffer*) override;
};
struct Core : public CoreDebugInterface {
  explicit Core(World& x) : w(x) {}
  World& w;
  Bytes bytes;
  using HR = HaltReason;
  absl::Status Halt() override { return absl::OkStatus(); }
  absl::Status Halt(HR) override { return absl::OkStatus(); }
  absl::Status Halt(HaltReasonValueType) override { return absl::OkStatus(); }
  absl::StatusOr<int> Step(int) override { return 0; }
  absl::Status Run() override { return absl::OkStatus(); }
  absl::Status Wait() override { return absl::OkStatus(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { return RunStatus::kHalted; }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return 0u; }
  absl::StatusOr<uint64_t> ReadRegister(const std::string&) override { return 0; }
  absl::Status WriteRegister(const std::string&, uint64_t) override { return absl::OkStatus(); }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string&) override { return nullptr; }
  absl::StatusOr<size_t> ReadMemory(uint64_t, void*, size_t) override { return 0; }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override;
  bool HasBreakpoint(uint64_t) override { return false; }
  absl::Status SetSwBreakpoint(uint64_t) override { return absl::OkStatus(); }
  absl::Status ClearSwBreakpoint(uint64_t) override { return absl::OkStatus(); }
  absl::Status ClearAllSwBreakpoints() override { return absl::OkStatus(); }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override { return nullptr; }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { return std::string(); }
};
enum Kind { kOne, kTwo, kMany, kDebug };
struct World {
  explicit World(dst::Sim& s) : sim(s), core(*this) { for (int i = 0; i < 3; ++i) mems.push_back(std::make_unique<Memory>(*this)); }
  dst::Sim& sim;
  Core core;
  std::vector<std::unique_ptr<Memory>> mems;
  std::vector<MemoryDescriptor> descs;
  std::vector<uint64_t> split, delta;   // of the descriptors
  Kind kind = kOne;
  bool loading = false;
  bool write_failed = false;
  int fail_write = -1, writes = 0;      // which write of a load fails
  int fail_how = 0;
  // What is loaded (-1: nothing was ever loaded), and how.
  std::string loaded;
  bool by_program = false;
  bool unknown = false;                 // the last load failed
  uint64_t scale = 1;

  // Where a segment goes: memory index, or -1.
  int Target(const VerifFile::Seg& s) const {
    switch (kind) {
      case kOne: return 0;
      case kTwo: return (s.flags & ELFIO::PF_X) ? 0 : 1;
      case kMany:
        for (size_t i = 0; i < split.size(); ++i) if (s.vaddr < split[i]) return i;
        return -1;
      case kDebug: return 0;
    }
    return -1;
  }
  uint64_t Address(const VerifFile::Seg& s, int t) const {
    uint64_t a = s.paddr == 0 ? s.vaddr : s.paddr;
    return kind == kMany && t >= 0 ? a + delta[t] : a;
  }
};

void Memory::Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) { w.sim.Violation("reads-memory", "the loader loaded from memory"); }
void Memory::Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) { w.sim.Violation("reads-memory", "the loader loaded from memory"); }
void Memory::Store(DataBuffer*, DataBuffer*, int, DataBuffer*) { w.sim.Violation("odd-write", "vector store by the loader"); }
void Memory::Store(uint64_t a, DataBuffer* db) {
  w.sim.Log("store of %d bytes at 0x%llx", db->size<uint8_t>(), (unsigned long long)a);
  w.writes++;
  for (int i = 0; i < db->size<uint8_t>(); ++i) bytes[a + i] = db->Get<uint8_t>(i);
}
absl::StatusOr<size_t> Core::WriteMemory(uint64_t a, const void* b, size_t n) {
  size_t k = n;
  bool fail = w.writes++ == w.fail_write;
  if (fail) {
    w.write_failed = true;
    if (w.fail_how == 0) { w.sim.Fault("write-fails"); w.sim.Log("write of %zu bytes at 0x%llx fails", n, (unsigned long long)a); return absl::InternalError("write fails"); }
    if (w.fail_how == 1) { w.sim.Fault("write-of-nothing"); k = 0; }
    else { w.sim.Fault("short-write"); k = n > 1 ? w.sim.Pick(n) : 0; }
  }
  w.sim.Log("write of %zu bytes at 0x%llx: %zu", n, (unsigned long long)a, k);
  for (size_t i = 0; i < k; ++i) bytes[a + i] = static_cast<const uint8_t*>(b)[i];
  return k;
}

std::string Name(int i) { return "sim:/file" + std::to_string(i); }

VerifFile MakeFile(dst::Sim& sim) {
  VerifFile f;
  f.entry = sim.Chance(1, 8) ? sim.Bits() : sim.Range(0, 4096);
  int n = sim.Range(0, 5);
  for (int i = 0; i < n; ++i) {
    VerifFile::Seg s;
    switch (sim.Weighted({8, 2, 1, 1})) {
      case 0: s.type = ELFIO::PT_LOAD; break;
      case 1: s.type = ELFIO::PT_NOTE; break;
      case 2: s.type = ELFIO::PT_NULL; break;
      case 3: s.type = ELFIO::PT_TLS; break;
    }
    s.flags = sim.Pick(8);
    s.vaddr = sim.Chance(1, 8) ? sim.Bits() : sim.Range(0, 300);
    s.paddr = sim.Chance(1, 2) ? 0 : sim.Chance(1, 8) ? sim.Bits() : sim.Range(1, 300);
    int size = sim.Chance(1, 6) ? 0 : sim.Chance(1, 60) ? sim.Range(1, 3000) : sim.Range(1, 24);
    for (int k = 0; k < size; ++k) s.data.push_back(k < 64 ? sim.Pick(256) : k * 7);
    s.memsz = size + (sim.Chance(1, 2) ? 0 : sim.Range(0, 40));
    f.segs.push_back(s);
  }
  if (sim.Chance(1, 3)) {
    VerifFile::Seg s;
    s.type = ELFIO::PT_GNU_STACK;
    s.memsz = sim.Chance(1, 4) ? 0 : sim.Chance(1, 4) ? 1 : sim.Range(1, 100000);
    s.vaddr = sim.Pick(100);
    f.segs.insert(f.segs.begin() + sim.Pick(f.segs.size() + 1), s);
  }
  // Symbols: functions do not partly overlap.
  int secs = sim.Range(0, 3);
  uint64_t at = sim.Range(0, 16);
  for (int i = 0; i < secs; ++i) {
    VerifFile::Sec s;
    s.type = sim.Chance(1, 4) ? ELFIO::SHT_PROGBITS : ELFIO::SHT_SYMTAB;
    if (s.type == ELFIO::SHT_SYMTAB) {
      s.symbols.push_back({});
      int k = sim.Range(0, 6);
      for (int j = 0; j < k; ++j) {
        VerifSymbol y;
        y.name = "s" + std::to_string(sim.Pick(8));
        y.bind = sim.Pick(3);
        y.type = sim.Chance(2, 3) ? ELFIO::STT_FUNC : ELFIO::STT_OBJECT;
        if (y.type == ELFIO::STT_FUNC) {
          y.value = at;
          y.size = sim.Chance(1, 5) ? 0 : sim.Range(1, 20);
          if (sim.Chance(1, 5) && s.symbols.back().type == ELFIO::STT_FUNC) {   // alias
            y.value = s.symbols.back().value;
            y.size = s.symbols.back().size;
          } else if (y.size > 1 && sim.Chance(1, 4)) {   // a label without size inside the next function
            VerifSymbol z = y;
            z.name = "l" + std::to_string(sim.Pick(8));
            z.value = at + sim.Pick(y.size);
            z.size = 0;
            s.symbols.push_back(z);
            at += y.size + sim.Pick(3);
          } else {
            at += y.size + sim.Pick(3);
          }
        } else {
          y.value = sim.Pick(200);
          y.size = sim.Pick(20);
        }
        s.symbols.push_back(y);
      }
    }
    f.secs.push_back(s);
  }
  if (sim.Chance(1, 8)) f.load_fails_after = sim.Pick(f.secs.size() + f.segs.size() + 1);
  else if (sim.Chance(1, 10)) f.invalid = "broken";
  return f;
}

const VerifFile* Loaded(World& w) { return w.loaded.empty() ? nullptr : &ELFIO::VerifFiles()[w.loaded]; }

std::vector<Bytes> Contents(World& w) {
  std::vector<Bytes> v;
  if (w.kind == kDebug) v.push_back(w.core.bytes);
  else for (auto& m : w.mems) v.push_back(m->bytes);
  return v;
}

void DoLoad(World& w, ElfProgramLoader& l, bool program) {
  dst::Sim& sim = w.sim;
  int i = sim.Pick(4);   // 3: does not exist
  std::string name = Name(i);
  auto before = Contents(w);
  w.writes = 0;
  w.write_failed = false;
  w.fail_write = sim.Chance(1, 3) ? sim.Pick(4) : -1;
  w.fail_how = sim.Pick(3);
  sim.Log("%s(%s)", program ? "LoadProgram" : "LoadSymbols", name.c_str());
  g_active = true;
  auto r = program ? l.LoadProgram(name) : l.LoadSymbols(name);
  g_active = false;
  auto after = Contents(w);
  auto it = ELFIO::VerifFiles().find(name);
  bool bad = it == ELFIO::VerifFiles().end() || it->second.load_fails_after >= 0 || !it->second.invalid.empty();
  if (bad) {
    sim.Fault(it == ELFIO::VerifFiles().end() ? "missing-file" : !it->second.invalid.empty() ? "invalid-file" : "file-load-fails");
    if (r.ok()) sim.Violation("failure-hidden", "load of an unreadable file reported success");
    if (before != after) sim.Violation("wrong-write", "a load that failed wrote to memory");
    w.unknown = true;
    if (!w.loaded.empty()) sim.Probe("load-fails-after-load");
    return;
  }
  const VerifFile& f = it->second;
  if (!program && before != after) sim.Violation("wrong-write", "loading symbols wrote to memory");
  if (w.write_failed && r.ok()) sim.Violation("failure-hidden", "a segment write failed and the load reported success");
  if (program) {
    // What memory must hold.
    auto want = before;
    bool partial = w.write_failed, unplaced = false, any = false;
    for (auto& s : f.segs) {
      if (s.type != ELFIO::PT_LOAD || s.data.empty()) continue;
      int t = w.Target(s);
      if (t < 0) { unplaced = true; sim.Probe("segment-without-memory"); continue; }
      any = true;
      uint64_t a = w.Address(s, t);
      for (size_t k = 0; k < s.data.size(); ++k) {
        if (partial) {
          // Anything written must belong to some segment.
          continue;
        }
        want[t][a + k] = s.data[k];
      }
    }
    if (any) sim.NonTrivial();
    if (!partial) {
      for (size_t m = 0; m < want.size(); ++m)
        if (want[m] != after[m]) {
          uint64_t a = 0;
          for (auto& [k, v] : want[m]) if (!after[m].count(k) || after[m][k] != v) { a = k; break; }
          for (auto& [k, v] : after[m]) if (!want[m].count(k)) { a = k; break; }
          sim.Violation("wrong-write", "after the load memory %zu at 0x%llx holds %d, expected %d", m, (unsigned long long)a,
                        after[m].count(a) ? after[m][a] : -1, want[m].count(a) ? want[m][a] : -1);
        }
    } else {
      std::map<uint64_t, std::set<uint8_t>> may;
      for (auto& s : f.segs)
        if (s.type == ELFIO::PT_LOAD)
          for (size_t k = 0; k < s.data.size(); ++k) may[w.Address(s, 0) + k].insert(s.data[k]);
      for (auto& [a, v] : after[0]) {
        bool same = before[0].count(a) && before[0][a] == v;
        if (!same && !may[a].count(v)) sim.Violation("wrong-write", "a failed load left %d at 0x%llx", v, (unsigned long long)a);
      }
    }
    if (!r.ok() && !w.write_failed && !unplaced) sim.Violation("false-failure", "load failed: %s", std::string(r.status().message()).c_str());
  } else if (!r.ok()) {
    sim.Violation("false-failure", "loading symbols failed: %s", std::string(r.status().message()).c_str());
  }
  if (r.ok() && *r != f.entry) sim.Violation("wrong-entry", "entry point 0x%llx, the file says 0x%llx", (unsigned long long)*r, (unsigned long long)f.entry);
  if (!w.loaded.empty() && w.loaded != name) sim.Probe("another-file-loaded");
  w.loaded = name;
  w.by_program = program && !w.write_failed;
  w.unknown = false;
}

// A lookup is to answer for the file loaded last. After a failed load it may
// also report an error.
void Lookups(World& w, ElfProgramLoader& l) {
  dst::Sim& sim = w.sim;
  const VerifFile* f = Loaded(w);
  std::vector<const VerifSymbol*> all;
  if (f)
    for (auto& s : f->secs)
      if (s.type == ELFIO::SHT_SYMTAB)
        for (auto& y : s.symbols) all.push_back(&y);
  int n = sim.Range(1, 6);
  for (int q = 0; q < n; ++q) {
    switch (sim.Pick(4)) {
      case 0: {
        std::string name = (sim.Chance(1, 6) ? "l" : "s") + std::to_string(sim.Pick(9));
        auto r = l.GetSymbol(name);
        bool exists = false, match = false;
        for (auto* y : all)
          if (y->name == name) { exists = true; match |= r.ok() && r->first == y->value && r->second == y->size; }
        if (r.ok() && !match) sim.Violation("wrong-symbol", "GetSymbol(%s) = (0x%llx, %llu), which the loaded file does not have", name.c_str(), (unsigned long long)r->first, (unsigned long long)r->second);
        if (!r.ok() && exists && !w.unknown) sim.Violation("symbol-missing", "GetSymbol(%s) not found", name.c_str());
        if (exists && r.ok()) sim.Probe("symbol-found");
        break;
      }
      case 1: {
        uint64_t a = sim.Pick(120);
        auto r = l.GetFcnSymbolName(a);
        bool exists = false, match = false;
        for (auto* y : all)
          if (y->type == ELFIO::STT_FUNC && y->value == a) { exists = true; match |= r.ok() && *r == y->name; }
        if (r.ok() && !match) sim.Violation("wrong-function", "GetFcnSymbolName(%llu) = %s", (unsigned long long)a, r->c_str());
        if (!r.ok() && exists && !w.unknown) sim.Violation("symbol-missing", "GetFcnSymbolName(%llu) not found", (unsigned long long)a);
        if (exists && r.ok()) sim.Probe("function-found");
        break;
      }
      case 2: {
        uint64_t a = sim.Pick(120);
        auto r = l.GetFunctionName(a);
        bool exists = false, match = false;
        for (auto* y : all)
          if (y->type == ELFIO::STT_FUNC && a >= y->value && a - y->value < y->size / w.scale) { exists = true; match |= r.ok() && *r == y->name; }
        if (r.ok() && !match) sim.Violation("wrong-function", "GetFunctionName(%llu) = %s", (unsigned long long)a, r->c_str());
        if (!r.ok() && exists && !w.unknown) sim.Violation("symbol-missing", "GetFunctionName(%llu) not found", (unsigned long long)a);
        if (exists && r.ok()) sim.Probe("function-found-by-range");
        break;
      }
      case 3: {
        auto r = l.GetStackSize();
        uint64_t size = 0;
        if (f)
          for (auto& s : f->segs) if (s.type == ELFIO::PT_GNU_STACK) size = s.memsz;
        bool present = false;
        if (f)
          for (auto& s : f->segs) present |= s.type == ELFIO::PT_GNU_STACK;
        if (r.ok() && !present) sim.Violation("wrong-stack-size", "GetStackSize() = %llu, %s", (unsigned long long)*r, f ? "the loaded file does not give any" : "nothing was loaded");
        if (r.ok() && *r != size) sim.Violation("wrong-stack-size", "GetStackSize() = %llu, the loaded file has %llu", (unsigned long long)*r, (unsigned long long)size);
        if (!r.ok() && size > 0 && w.by_program && !w.unknown) sim.Violation("symbol-missing", "no stack size, the loaded file has %llu", (unsigned long long)size);
        if (r.ok()) sim.Probe("stack-size-found");
        break;
      }
    }
  }
}
}  // namespace

extern "C" int stat(const char* name, struct stat* st) noexcept {
  if (g_active) {
    memset(st, 0, sizeof *st);
    if (ELFIO::VerifFiles().count(name)) { st->st_mode = S_IFREG | 0644; st->st_size = 1000; return 0; }
    errno = ENOENT;
    return -1;
  }
  return syscall(SYS_newfstatat, AT_FDCWD, name, st, 0);
}

void RunOne(dst::Sim& sim) {
  ELFIO::VerifFiles().clear();
  for (int i = 0; i < 3; ++i) {
    ELFIO::VerifFiles()[Name(i)] = MakeFile(sim);
  }
  World w(sim);
  w.kind = static_cast<Kind>(sim.Pick(4));
  std::unique_ptr<ElfProgramLoader> l;
  switch (w.kind) {
    case kOne: l = std::make_unique<ElfProgramLoader>(static_cast<MemoryInterface*>(w.mems[0].get())); break;
    case kTwo: l = std::make_unique<ElfProgramLoader>(w.mems[0].get(), w.mems[1].get()); break;
    case kMany: {
      sim.Probe("several-memories");
      int n = sim.Range(0, 3);
      for (int i = 0; i < n; ++i) {
        w.split.push_back(i == 2 || sim.Chance(1, 4) ? ~0ull : sim.Range(1, 300));
        w.delta.push_back(sim.Chance(1, 2) ? 0 : sim.Range(1, 5000));
        MemoryDescriptor d;
        d.memory = w.mems[i].get();
        d.predicate_fcn = [&w, i](const ELFIO::segment& s) { return s.get_virtual_address() < w.split[i]; };
        if (w.delta[i] != 0) d.address_fcn = [&w, i](uint64_t a) { return a + w.delta[i]; };
        w.descs.push_back(std::move(d));
      }
      l = std::make_unique<ElfProgramLoader>(w.descs);
      break;
    }
    case kDebug: l = std::make_unique<ElfProgramLoader>(&w.core); break;
  }
  if (sim.Chance(1, 4)) { w.scale = sim.Range(1, 4); l->set_text_size_scale(w.scale); sim.Probe("text-size-scale"); }
  sim.set_max_steps(sim.Range(1, 12));
  while (sim.Step()) {
    if (sim.Chance(1, 2)) DoLoad(w, *l, sim.Chance(2, 3));
    Lookups(w, *l);
    sim.State(dst::Mix(w.kind * 64 + w.by_program * 2 + w.unknown) ^ std::hash<std::string>()(w.loaded) ^ (w.kind == kDebug ? w.core.bytes.size() : w.mems[0]->bytes.size()) * 31);
    sim.AdvanceTime(1);
  }
  l.reset();
}
