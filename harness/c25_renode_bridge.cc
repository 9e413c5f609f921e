// C25: Renode bridge. Real code: the C interface, RenodeAgent,
// RenodeMemoryAccess, Instruction, function delay line. Stubs: simulated cores
// behind RenodeDebugInterface (may fail, come up short, halt), bus callbacks,
// and the read() system call under the image file (may fail, short, interrupt).
#include <errno.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>

#include "mem_world.h"
#include "mpact/sim/util/renode/renode_debug_interface.h"
#include "mpact/sim/util/renode/renode_memory_access.h"
#include "mpact/sim/util/renode/renode_mpact.h"

using namespace mpact::sim::util;
using namespace mpact::sim::util::renode;
using HR = mpact::sim::generic::CoreDebugInterface::HaltReason;
const char* const kHarnessProperty = "C25";
const bool kHarnessChecksLeaks = true;

// ---- seam: read() ---------------------------------------------------------
namespace {
struct FilePlan { bool on = false; int calls = 0; int fail_at = -1; bool short_reads = false; bool failed = false; } g_file;
}
extern "C" ssize_t read(int fd, void* buf, size_t n) {
  if (g_file.on && fd > 2) {
    if (g_file.calls++ == g_file.fail_at) { g_file.failed = true; errno = EIO; return -1; }
    if (g_file.short_reads && n > 1) n = 1 + dst::g_sim->Pick(n);
  }
  return syscall(SYS_read, fd, buf, n);
}

namespace {
struct World;
World* g_w = nullptr;
struct Core : public RenodeDebugInterface {
  World* w;
  int serial;
  std::string name, type;
  MemoryInterface* bus;
  std::vector<uint8_t> mem = std::vector<uint8_t>(512);   // grown by images
  uint8_t At(uint64_t a) const { return a < mem.size() ? mem[a] : 0; }
  bool w_bad = false;   // an access far outside what any call named
  std::map<uint32_t, uint64_t> regs;
  std::map<int, bool> irqs;
  std::map<std::string, std::string> config;
  uint64_t executed = 0;
  uint32_t last_halt = *HR::kNone;
  // Plan for the next calls.
  bool fail = false;              // the next call fails
  bool fail_halt_reason = false;
  int fail_halt_in = -1;
  int short_by = 0;
  uint64_t stop_after = ~0ull;    // instructions until the core stops by itself
  uint32_t stop_reason = 0;
  bool fail_when_stopped = false;
  bool stopped = false;           // it did
  int calls = 0;
  int name_len = 0;
  bool zero_write_fails = false;
  int fail_write_in = -1, short_write_in = -1;
  Core(World* x, int s, std::string n, std::string t, MemoryInterface* m);
  ~Core() override;
  bool Fails() { calls++; if (!fail) return false; fail = false; return true; }
  absl::StatusOr<uint64_t> LoadExecutable(const char* f, bool syms) override { if (Fails()) return absl::InternalError("load"); return (uint64_t)strlen(f) * 16 + syms; }
  absl::StatusOr<uint64_t> ReadRegister(uint32_t r) override { if (Fails() || r > 40) return absl::NotFoundError("reg"); return regs[r]; }
  absl::Status WriteRegister(uint32_t r, uint64_t v) override { if (Fails() || r > 40) return absl::NotFoundError("reg"); regs[r] = v; return absl::OkStatus(); }
  int32_t GetRenodeRegisterInfoSize() const override { return 3 + serial % 5; }
  absl::Status GetRenodeRegisterInfo(int32_t i, int32_t max_len, char* nm, RenodeCpuRegister& info) override {
    if (Fails() || i < 0 || i >= 3 + serial % 5) return absl::OutOfRangeError("index");
    name_len = max_len;
    snprintf(nm, max_len, "register%d-of-core%d", i, serial);
    info = {i + serial, 32, true, false};
    return absl::OkStatus();
  }
  absl::Status SetConfig(const char* n[], const char* v[], int size) override { if (Fails()) return absl::InternalError("cfg"); for (int i = 0; i < size; i++) config[n[i]] = v[i]; return absl::OkStatus(); }
  absl::Status SetIrqValue(int32_t n, bool v) override { if (Fails()) return absl::InternalError("irq"); irqs[n] = v; return absl::OkStatus(); }
  absl::StatusOr<int> Step(int num) override;
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override {
    calls++;
    if (fail_halt_in >= 0 && fail_halt_in-- == 0) return absl::InternalError("halt reason");
    return last_halt;
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override {
    if (Fails()) return absl::InternalError("read");
    size_t k = n > (size_t)short_by ? n - short_by : 0;
    for (size_t i = 0; i < k; i++) static_cast<uint8_t*>(b)[i] = At(a + i);
    return k;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    if (Fails()) return absl::InternalError("write");
    if (n == 0 && zero_write_fails) return absl::OutOfRangeError("empty write");
    if (fail_write_in >= 0 && fail_write_in-- == 0) return absl::InternalError("write");
    size_t k = n > (size_t)short_by ? n - short_by : 0;
    if (short_write_in >= 0 && short_write_in-- == 0) k = n ? n - 1 : 0;
    if (k && a + k - 1 <= 0x60000) { if (a + k > mem.size()) mem.resize(a + k); std::memcpy(&mem[a], b, k); } else if (k) w_bad = true;
    return k;
  }
};
struct Inst {
  int id;
  int serial;
  Core* core = nullptr;
  int name_len;
  int rd = -1, wr = -1;   // which callbacks are bound
  std::string name;
};
struct BusCall { int cb; bool write; uint64_t addr; std::string data; };
struct World : public memw::World {
  explicit World(dst::Sim& s) : memw::World(s) {}
  std::vector<std::unique_ptr<Inst>> live;
  int serials = 0;
  Core* last = nullptr;
  bool refuse = false;
  int created = 0, destroyed = 0;
  int base = 0;
  std::vector<BusCall> bus;
  int bus_short = 0;
  int stepped = 0, called = 0;
  std::string scratch;
};
Core::Core(World* x, int s, std::string n, std::string t, MemoryInterface* m) : w(x), serial(s), name(n), type(t), bus(m) { w->created++; }
Core::~Core() { w->destroyed++; for (auto& l : w->live) if (l->core == this) l->core = nullptr; }
absl::StatusOr<int> Core::Step(int num) {
  if (Fails()) return absl::InternalError("step");
  dst::Sim& sim = w->sim;
  SIM_CHECK(sim, num > 0, "step-argument", "the core was asked to step %d instructions", num);
  if ((uint64_t)num > stop_after || (uint64_t)num == stop_after) {
    int k = stop_after;
    if (fail_when_stopped) return absl::InternalError("step");
    executed += k;
    stop_after = ~0ull;
    stopped = true;
    last_halt = stop_reason;
    return k;
  }
  stop_after -= num;
  executed += num;
  last_halt = *HR::kNone;
  return num;
}
// Bus callbacks: four distinct C functions.
template <int N>
int32_t BusRead(uint64_t a, char* b, int32_t n) {
  World* w = g_w;
  int k = std::max(0, n - w->bus_short);
  std::string d;
  for (int i = 0; i < k; i++) { b[i] = (char)(a * 7 + i * 3 + N); d.push_back(b[i]); }
  w->bus.push_back({N, false, a, d});
  return k;
}
template <int N>
int32_t BusWrite(uint64_t a, char* b, int32_t n) {
  World* w = g_w;
  int k = std::max(0, n - w->bus_short);
  w->bus.push_back({N, true, a, std::string(b, n)});
  return k;
}
using Fn = int32_t (*)(uint64_t, char*, int32_t);
Fn kReads[] = {BusRead<0>, BusRead<1>};
Fn kWrites[] = {BusWrite<0>, BusWrite<1>};

Inst* Find(World& w, int id) { for (auto& l : w.live) if (l->id == id) return l.get(); return nullptr; }
int AnyId(World& w) {
  if (!w.live.empty() && w.sim.Pick(8)) return w.live[w.sim.Pick(w.live.size())]->id;
  return w.base + (int)w.sim.Range(0, 9);
}
void Untouched(World& w, const std::vector<int>& before, int except, const char* what) {
  for (size_t i = 0; i < w.live.size(); i++)
    if (w.live[i]->id != except && w.live[i]->core)
      SIM_CHECK(w.sim, w.live[i]->core->calls == before[i], "cross-talk", "%s reached another core", what);
}
std::vector<int> Calls(World& w) { std::vector<int> v; for (auto& l : w.live) v.push_back(l->core->calls); return v; }

void Create(World& w) {
  dst::Sim& sim = w.sim;
  char type[] = "cpu";
  int nl = sim.Range(8, 40);
  int rd = (int)sim.Pick(3) - 1, wr = (int)sim.Pick(3) - 1;
  bool con = sim.Pick(2);
  int id = w.base + (int)sim.Range(0, 9);
  w.refuse = sim.Chance(1, 8);
  w.last = nullptr;
  int made = w.created;
  Inst* have = con ? Find(w, id) : nullptr;
  int got;
  bool sys = rd >= 0 || wr >= 0;
  Fn r = rd < 0 ? nullptr : kReads[rd], wf = wr < 0 ? nullptr : kWrites[wr];
  sim.Log("%s%s id +%d callbacks %d/%d%s", con ? "connect" : "construct", sys ? " with bus" : "", con ? id - w.base : -1, rd, wr, w.refuse ? " (core cannot be created)" : "");
  if (con) got = sys ? connect_with_sysbus(type, id, nl, r, wf) : connect(type, id, nl);
  else got = sys ? construct_with_sysbus(type, nl, r, wf) : construct(type, nl);
  if (have) {
    SIM_CHECK(sim, got == id && w.created == made, "connect", "connecting to a live instance returned +%d and created %d cores", got - w.base, w.created - made);
    if (have->rd < 0) have->rd = rd;
    if (have->wr < 0) have->wr = wr;
    sim.Probe("connect-to-live-instance");
    return;
  }
  if (w.refuse) {
    sim.Fault("core-creation-fails");
    SIM_CHECK(sim, got < 0, "create-status", "an instance id was returned though the core could not be created");
    return;
  }
  SIM_CHECK(sim, w.created == made + 1 && w.last, "create", "creating an instance made %d cores", w.created - made);
  SIM_CHECK(sim, got >= 0 && (!con || got == id), "create-status", "instance created with id +%d, asked for +%d", got - w.base, con ? id - w.base : -1);
  SIM_CHECK(sim, !Find(w, got), "id-reused", "id +%d was handed out while it is in use", got - w.base);
  for (auto& l : w.live) SIM_CHECK(sim, l->core->name != w.last->name, "name-reused", "two live simulators are both named %s", w.last->name.c_str());
  if (!con && sim.Pick(1) == 0) for (auto& l : w.live) if (l->id == got - 1) sim.Probe("adjacent-ids");
  auto l = std::make_unique<Inst>();
  l->id = got; l->serial = w.last->serial; l->core = w.last; l->name_len = nl; l->rd = rd; l->wr = wr;
  w.live.push_back(std::move(l));
}

void DoStep(World& w) {
  dst::Sim& sim = w.sim;
  int id = AnyId(w);
  Inst* in = Find(w, id);
  uint64_t n = sim.Pick(8) == 0 ? 0 : sim.Pick(5) == 0 ? 0x7fff'ffffull * sim.Range(1, 6) + sim.Pick(3) - 1 : sim.Range(1, 50);
  bool with_status = sim.Pick(4) != 0;
  int32_t status = 77;
  auto before = Calls(w);
  if (!in) {
    sim.Fault("unknown-id");
    uint64_t r = step(id, n, with_status ? &status : nullptr);
    SIM_CHECK(sim, r == 0 && (!with_status || status == -1), "unknown-id", "stepping an unknown id returned %lu, status %d", (unsigned long)r, status);
    Untouched(w, before, id, "a step of an unknown id");
    return;
  }
  Core& c = *in->core;
  bool exited = c.last_halt == *HR::kSemihostHaltRequest;
  c.stop_after = ~0ull;
  c.stopped = false;
  int fate = sim.Pick(6);
  uint64_t at = 0;
  bool will_stop = false;
  c.fail_when_stopped = false;
  if (fate >= 2 && fate <= 4 && n > 0) {
    at = sim.Pick(5) == 0 ? n : sim.Pick(n) + (sim.Pick(4) == 0 ? 0 : 1);
    if (at > n) at = n;
    // A stop exactly where the bridge splits a long step is not told apart.
    if (at != n && at % 0x7fff'ffffull == 0 && at) at--;
    will_stop = true;
    c.stop_after = at;
    static const uint32_t kReasons[] = {*HR::kSoftwareBreakpoint, *HR::kUserRequest, *HR::kSemihostHaltRequest, *HR::kProgramDone, *HR::kDataWatchPoint, *HR::kHardwareBreakpoint, *HR::kActionPoint, *HR::kNone, *HR::kUserSpecifiedMin};
    c.stop_reason = kReasons[sim.Pick(9)];
    c.fail_when_stopped = sim.Pick(6) == 0;
  }
  int halt_fail = sim.Chance(1, 12) ? (int)sim.Pick(3) : -1;
  c.fail_halt_in = halt_fail;
  uint64_t e0 = c.executed;
  sim.Log("step core %d by %lu, stops after %ld%s reason %x", c.serial, (unsigned long)n, (long)c.stop_after, c.fail_when_stopped ? " with an error" : "", c.stop_reason);
  uint64_t r = step(id, n, with_status ? &status : nullptr);
  uint64_t did = c.executed - e0;
  bool halt_failed = halt_fail >= 0 && c.fail_halt_in < 0;
  c.fail_halt_in = -1;
  w.stepped++;
  Untouched(w, before, id, "a step");
  SIM_CHECK(sim, r == did, "step-count", "step returned %lu, the core executed %lu", (unsigned long)r, (unsigned long)did);
  SIM_CHECK(sim, did <= n, "overstepped", "the core executed %lu of %lu", (unsigned long)did, (unsigned long)n);
  if (n > 0xffff'ffffull && did > 0xffff'ffffull) sim.Probe("more-than-2^32-steps");
  if (did > 0x7fff'ffffull) sim.Probe("several-core-steps");
  if (n == 0) { SIM_CHECK(sim, did == 0 && (!with_status || status == 0), "step-status", "a step of 0 gave status %d", status); return; }
  if (exited) { sim.Probe("step-after-exit"); SIM_CHECK(sim, did == 0, "stepped-after-exit", "the core executed %lu instructions after it exited", (unsigned long)did); if (with_status) SIM_CHECK(sim, status == -1, "step-status", "status %d after exit", status); return; }
  if (halt_failed) { sim.Fault("halt-reason-unavailable"); if (with_status) SIM_CHECK(sim, status == -1, "step-status", "status %d though the halt reason could not be read", status); return; }
  if (will_stop && c.fail_when_stopped) { sim.Fault("core-step-fails"); if (with_status) SIM_CHECK(sim, status == -1, "step-status", "status %d though the core failed", status); return; }
  bool stopped = c.stopped;
  if (!stopped) {
    SIM_CHECK(sim, did == n, "step-lost", "the core executed %lu of %lu without being stopped", (unsigned long)did, (unsigned long)n);
    if (with_status) SIM_CHECK(sim, status == 0, "step-status", "status %d for a completed step", status);
    return;
  }
  if (at < n) sim.Fault("core-stops-early");
  SIM_CHECK(sim, did == at || (did == n && at == n), "step-lost", "the core executed %lu, it was to stop after %lu", (unsigned long)did, (unsigned long)at);
  if (!with_status) return;
  uint32_t why = c.stop_reason;
  if (why == *HR::kSoftwareBreakpoint) SIM_CHECK(sim, status == 3, "step-status", "status %d at a breakpoint", status);
  else if (why == *HR::kSemihostHaltRequest || why == *HR::kProgramDone) SIM_CHECK(sim, status == -1, "step-status", "status %d when the program ended", status);
  else if (why == *HR::kDataWatchPoint) SIM_CHECK(sim, status == 0 || status == 4, "step-status", "status %d at a watchpoint", status);
  else if (why == *HR::kHardwareBreakpoint) SIM_CHECK(sim, status == 0 || status == 3, "step-status", "status %d at a hardware breakpoint", status);
  else SIM_CHECK(sim, status == 0, "step-status", "status %d, halt reason %x", status, why);
}

void Memory(World& w) {
  dst::Sim& sim = w.sim;
  int id = AnyId(w);
  Inst* in = Find(w, id);
  uint64_t a = 0x100 + sim.Pick(64);
  int n = sim.Range(1, 24);
  bool wr = sim.Pick(2);
  auto before = Calls(w);
  std::string buf(n + 8, '\x5a'), data;
  bool fail = false;
  if (in) { in->core->fail = fail = sim.Chance(1, 8); in->core->short_by = sim.Chance(1, 6) ? sim.Range(1, 5) : 0; }
  if (wr) for (int i = 0; i < n; i++) buf[i] = (char)sim.Pick(256);
  data = buf;
  std::vector<uint8_t> mem;
  if (in) mem = in->core->mem;
  uint64_t r = wr ? write_memory(id, a, buf.data(), n) : read_memory(id, a, buf.data(), n);
  sim.Log("%s %d bytes at %lx", wr ? "write" : "read", n, (unsigned long)a);
  w.called++;
  Untouched(w, before, id, "a memory access");
  if (!in) { sim.Fault("unknown-id"); SIM_CHECK(sim, r == 0 && buf == data, "unknown-id", "memory access of an unknown id returned %lu", (unsigned long)r); return; }
  Core& c = *in->core;
  uint64_t want = fail ? 0 : n > c.short_by ? n - c.short_by : 0;
  if (fail) sim.Fault("core-call-fails"); else if (c.short_by) sim.Fault("short-memory-access");
  c.short_by = 0; c.fail = false;
  SIM_CHECK(sim, r == want, "memory-count", "memory access returned %lu, the core transferred %lu", (unsigned long)r, (unsigned long)want);
  if (wr) { for (uint64_t i = 0; i < want; i++) mem[a + i] = data[i]; SIM_CHECK(sim, !c.w_bad && mem == c.mem && buf == data, "memory-data", "memory after a write differs"); }
  else for (size_t i = 0; i < buf.size(); i++) {
    uint8_t x = i < want ? mem[a + i] : 0x5a;
    SIM_CHECK(sim, (uint8_t)buf[i] == x, "memory-data", "byte %zu read is %02x, expected %02x", i, (uint8_t)buf[i], x);
  }
}

void Registers(World& w) {
  dst::Sim& sim = w.sim;
  int id = AnyId(w);
  Inst* in = Find(w, id);
  auto before = Calls(w);
  bool fail = in && sim.Chance(1, 6);
  if (in) in->core->fail = fail;
  if (fail) sim.Fault("core-call-fails");
  if (!in) sim.Fault("unknown-id");
  w.called++;
  int op = sim.Pick(7);
  bool ok = in && !fail;
  switch (op) {
    case 0: {
      uint32_t r = sim.Pick(44);
      uint64_t v = 0x1234;
      uint64_t want = ok && r <= 40 ? in->core->regs[r] : 0x1234;
      int32_t s = read_register(id, r, &v);
      SIM_CHECK(sim, (s >= 0) == (ok && r <= 40) && v == want, "register", "register read returned %d, value %lx, expected %lx", s, (unsigned long)v, (unsigned long)want);
      if (in) in->core->fail = false;
      SIM_CHECK(sim, read_register(id, r, nullptr) < 0, "register", "a read to nowhere succeeded");
      break;
    }
    case 1: {
      uint32_t r = sim.Pick(44);
      uint64_t v = sim.Bits();
      std::map<uint32_t, uint64_t> want;
      if (in) want = in->core->regs;
      if (ok && r <= 40) want[r] = v;
      int32_t s = write_register(id, r, v);
      SIM_CHECK(sim, (s >= 0) == (ok && r <= 40), "register", "register write returned %d", s);
      if (in) SIM_CHECK(sim, in->core->regs == want, "register", "registers after a write differ");
      break;
    }
    case 2: {
      int32_t s = get_reg_info_size(id);
      SIM_CHECK(sim, in ? s == 3 + in->core->serial % 5 : s < 0, "register-info", "register count is %d", s);
      break;
    }
    case 3: {
      int idx = (int)sim.Range(-1, 8);
      std::vector<char> nm(in ? in->name_len : 64, 'z');
      RenodeCpuRegister info{-5, -5, false, true};
      int32_t s = get_reg_info(id, idx, nm.data(), &info);
      bool good = ok && idx >= 0 && idx < 3 + in->core->serial % 5;
      SIM_CHECK(sim, (s >= 0) == good, "register-info", "register info returned %d", s);
      if (good) SIM_CHECK(sim, info.index == idx + in->core->serial && in->core->name_len == in->name_len, "register-info", "register info of another core, or name limit %d instead of %d", in->core->name_len, in->name_len);
      SIM_CHECK(sim, get_reg_info(id, 0, nm.data(), nullptr) < 0, "register-info", "info to nowhere succeeded");
      break;
    }
    case 4: {
      const char* n[] = {"a", "b"}; const char* v[] = {"1", "2"};
      int k = sim.Pick(3);
      int32_t s = set_config(id, n, v, k);
      SIM_CHECK(sim, (s >= 0) == ok, "config", "set_config returned %d", s);
      if (ok && k == 2) SIM_CHECK(sim, in->core->config["b"] == "2", "config", "configuration not passed on");
      break;
    }
    case 5: {
      int q = sim.Pick(5); bool v = sim.Pick(2);
      int32_t s = set_irq_value(id, q, v);
      SIM_CHECK(sim, (s >= 0) == ok, "irq", "set_irq_value returned %d", s);
      if (ok) SIM_CHECK(sim, in->core->irqs[q] == v, "irq", "interrupt line not set");
      break;
    }
    case 6: {
      int32_t st = 5;
      bool syms = sim.Pick(2);
      uint64_t e = load_elf(id, "prog.elf", syms, &st);
      SIM_CHECK(sim, (st >= 0) == ok && e == (ok ? 8 * 16 + syms : 0), "load-elf", "load_elf returned %lx, status %d", (unsigned long)e, st);
      if (in) in->core->fail = false;
      SIM_CHECK(sim, (reset(id) >= 0) == (in != nullptr), "reset", "reset of %s id", in ? "a live" : "an unknown");
      break;
    }
  }
  if (in) in->core->fail = false;
  Untouched(w, before, id, "a call");
}

void Image(World& w) {
  dst::Sim& sim = w.sim;
  int id = AnyId(w);
  Inst* in = Find(w, id);
  int k = sim.Pick(24);
  size_t n = k == 0 ? 65536 : k == 1 ? 65537 : k == 2 ? 131072 : k == 3 ? 0 : sim.Pick(3000);
  std::string data(n, 0);
  uint64_t x = sim.Bits();
  for (auto& ch : data) { ch = (char)x; x = x * 6364136223846793005ull + 1442695040888963407ull; }
  std::string path = w.scratch + "/image";
  if (sim.Chance(1, 12)) { path += ".missing"; sim.Fault("missing-file"); }
  else std::ofstream(path, std::ios::binary) << data;
  bool missing = path.back() == 'g';
  uint64_t a = sim.Pick(2) ? 0x8000 : sim.Pick(2000);
  std::vector<uint8_t> mem;
  int wf = sim.Chance(1, 8) ? (int)sim.Pick(2) : -1, sf = sim.Chance(1, 8) ? (int)sim.Pick(2) : -1;
  if (in) { mem = in->core->mem; in->core->fail_write_in = wf; in->core->short_write_in = sf; in->core->zero_write_fails = sim.Pick(2); }
  auto before = Calls(w);
  g_file = {};
  g_file.fail_at = sim.Chance(1, 6) ? (int)sim.Pick(3) : -1;
  g_file.short_reads = sim.Pick(3) == 0;
  if (g_file.short_reads) sim.Fault("short-file-read");
  g_file.on = true;
  int32_t s = load_image(id, path.c_str(), a);
  g_file.on = false;
  unlink((w.scratch + "/image").c_str());
  sim.Log("load image of %zu bytes at %lx: %d", n, (unsigned long)a, s);
  w.called++;
  Untouched(w, before, id, "an image load");
  if (!in) { sim.Fault("unknown-id"); SIM_CHECK(sim, s < 0, "unknown-id", "loading an image into an unknown id returned %d", s); return; }
  Core& c = *in->core;
  bool wrote_fail = wf >= 0 && c.fail_write_in < 0, short_w = sf >= 0 && c.short_write_in < 0 && n > 0;
  c.fail_write_in = c.short_write_in = -1; c.zero_write_fails = false;
  if (missing) { SIM_CHECK(sim, s < 0 && c.mem == mem, "image-status", "loading a missing file returned %d", s); return; }
  if (g_file.failed) { sim.Fault("file-read-fails"); SIM_CHECK(sim, s < 0, "image-status", "the file could not be read but the load returned %d", s); return; }
  if (wrote_fail && n > 0) { sim.Fault("image-write-fails"); SIM_CHECK(sim, s < 0, "image-status", "a failed write, but the load returned %d", s); return; }
  if (short_w) { sim.Fault("image-write-short"); SIM_CHECK(sim, s < 0, "image-status", "a short write, but the load returned %d", s); return; }
  SIM_CHECK(sim, s >= 0, "image-status", "loading %zu bytes failed with %d although nothing went wrong", n, s);
  if (n && a + n > mem.size()) mem.resize(a + n);
  if (n) std::memcpy(&mem[a], data.data(), n);
  SIM_CHECK(sim, !c.w_bad && mem == c.mem, "image-data", "memory after loading %zu bytes differs from the file", n);
  if (n && n % 65536 == 0) sim.Probe("image-of-whole-buffers");
}

// The core accesses memory through the bus shim it was given.
void Bus(World& w) {
  if (w.live.empty()) return;
  dst::Sim& sim = w.sim;
  Inst& in = *w.live[sim.Pick(w.live.size())];
  bool wr = sim.Pick(2);
  int n = sim.Range(1, 16);
  uint64_t a = 0x4000 + sim.Pick(64);
  w.bus_short = sim.Chance(1, 5) ? sim.Range(1, 4) : 0;
  w.bus.clear();
  DataBuffer* db = w.Buf(n);
  std::string before(n, 0);
  for (auto& ch : before) ch = (char)sim.Pick(256);
  std::memcpy(db->raw_ptr(), before.data(), n);
  sim.Log("core %d %s %d bytes at %lx on the bus (%d/%d), short by %d", in.core->serial, wr ? "stores" : "loads", n, (unsigned long)a, in.rd, in.wr, w.bus_short);
  w.called++;
  if (wr) {
    in.core->bus->Store(a, db);
    if (in.wr < 0) SIM_CHECK(sim, w.bus.empty(), "bus", "a store reached a bus it is not connected to");
    else SIM_CHECK(sim, w.bus.size() == 1 && w.bus[0].write && w.bus[0].cb == in.wr && w.bus[0].addr == a && w.bus[0].data == before, "bus", "a store reached the bus %zu times or altered", w.bus.size());
    SIM_CHECK(sim, std::memcmp(db->raw_ptr(), before.data(), n) == 0, "bus", "a store changed the source buffer");
  } else {
    int lat = sim.Pick(3) == 0 ? 0 : sim.Range(1, 4);
    db->set_latency(lat);
    auto p = std::make_unique<memw::Pending>();
    auto* q = p.get();
    q->what = "bus load";
    q->db = db;
    q->due = w.cycle + lat;
    int got = in.rd < 0 ? 0 : std::max(0, n - w.bus_short);
    for (int i = 0; i < n; i++) q->want.push_back(in.rd < 0 ? 0 : i < got ? (uint8_t)(a * 7 + i * 3 + in.rd) : (uint8_t)before[i]);
    q->client_db = true;
    bool inst = sim.Pick(4) != 0, ctx = inst && sim.Pick(2);
    if (inst) { q->inst = new memw::LoadInst(&w, a, w.state.get()); q->inst->set_semantic_function([&w, q](Instruction* i) { w.Complete(q, i); }); q->client_inst = true; }
    if (ctx) { q->ctx = new memw::LoadCtx(&w, db, nullptr); q->client_ctx = true; }
    db->IncRef();
    in.core->bus->Load(a, db, q->inst, q->ctx);
    if (in.rd < 0) SIM_CHECK(sim, w.bus.empty(), "bus", "a load reached a bus it is not connected to");
    else SIM_CHECK(sim, w.bus.size() == 1 && !w.bus[0].write && w.bus[0].cb == in.rd && w.bus[0].addr == a, "bus", "a load reached the bus %zu times", w.bus.size());
    if (w.bus_short && in.rd >= 0) sim.Fault("short-bus-transfer");
    if (w.bus_short == 0 || in.rd < 0) w.CheckData(q, "when the load returned"); else { q->want.resize(got); w.CheckData(q, "when the load returned"); }
    if (!inst) { q->done = true; w.ReleaseClient(q); }
    else if (lat == 0) { SIM_CHECK(sim, q->done, "not-completed", "bus load did not complete"); w.ReleaseClient(q); }
    else {
      SIM_CHECK(sim, !q->done, "completed-early", "bus load completed early");
      if (sim.Pick(2)) { sim.Fault("client-drops-references"); w.DropInst(q); w.DropCtx(q); if (ctx) w.DropDb(q); }
      w.pend.push_back(std::move(p));
    }
  }
  db->DecRef();
}
}  // namespace

mpact::sim::util::renode::RenodeDebugInterface* CreateMpactSim(std::string name, std::string cpu_type, MemoryInterface* m) {
  if (g_w->refuse) return nullptr;
  g_w->last = new Core(g_w, g_w->serials++, name, cpu_type, m);
  return g_w->last;
}

void RunOne(dst::Sim& sim) {
  static std::string scratch;
  if (scratch.empty()) {
    const char* tmp = getenv("TMPDIR");
    std::string t = std::string(tmp ? tmp : "/tmp") + "/c25_XXXXXX";
    scratch = mkdtemp(t.data());
  }
  World w(sim);
  g_w = &w;
  w.scratch = scratch;
  mkdir(scratch.c_str(), 0700);
  w.windows = {{0, 64}};
  // The id counter lives as long as the process; ids are taken relative to it.
  char type[] = "probe";
  w.base = construct(type, 10) + 1;
  destruct(w.base - 1);
  sim.set_max_steps(sim.Range(6, 60));
  while (sim.Step()) {
    switch (sim.Weighted({4, 2, 8, 5, 5, 1, 5, 3})) {
      case 0: if (w.live.size() < 5) Create(w); break;
      case 1: {
        int id = AnyId(w);
        int d = w.destroyed;
        Inst* in = Find(w, id);
        if (in && !w.pend.empty()) break;
        sim.Log("destruct %s", in ? "a live instance" : "an unknown id");
        auto before = Calls(w);
        Core* c = in ? in->core : nullptr;
        destruct(id);
        SIM_CHECK(sim, w.destroyed == d + (in ? 1 : 0), "destruct", "destructing %s destroyed %d cores", in ? "a live instance" : "an unknown id", w.destroyed - d);
        if (in) {
          SIM_CHECK(sim, in->core == nullptr && c, "destruct", "another core was destroyed");
          for (size_t i = 0; i < w.live.size(); i++) if (w.live[i].get() == in) { w.live.erase(w.live.begin() + i); break; }
          sim.Probe("destruct");
        }
        break;
      }
      case 2: DoStep(w); break;
      case 3: Memory(w); break;
      case 4: Registers(w); break;
      case 5: Image(w); break;
      case 6: Bus(w); break;
      case 7: w.Advance(); break;
    }
    uint64_t h = w.live.size();
    for (auto& l : w.live) h = dst::Mix(h ^ (l->id - w.base) ^ l->rd << 8 ^ l->wr << 10 ^ l->core->mem.size() << 16 ^ l->core->last_halt << 20);
    sim.State(h);
  }
  if (w.stepped >= 1 && w.called >= 1) sim.NonTrivial();
  w.Drain();
  for (auto& l : w.live) { destruct(l->id); }
  SIM_CHECK(sim, w.created == w.destroyed, "core-leaked", "%d cores created, %d destroyed", w.created, w.destroyed);
  rmdir(scratch.c_str());
  g_w = nullptr;
}
