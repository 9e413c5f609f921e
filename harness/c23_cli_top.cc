// C23: Renode and the command line share one core. Real code: RenodeCLITop and
// CLIForwarder, preemptible at every basic block. Simulated: the mutex (on the
// scheduler), the Renode, CLI and halting threads, and the core (may halt, end,
// fail or be asked to halt at any instruction).
#include <map>
#include <set>

#include "absl/status/status.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/type_helpers.h"
#include "mpact/sim/util/renode/cli_forwarder.h"
#include "mpact/sim/util/renode/renode_cli_top.h"
#include "dst_sched.h"

using namespace mpact::sim::util::renode;
using mpact::sim::generic::CoreDebugInterface;
using mpact::sim::generic::operator*;  // NOLINT
using HR = CoreDebugInterface::HaltReason;
const char* const kHarnessProperty = "C23";
const bool kHarnessChecksLeaks = true;

namespace {
enum Side { kRenode, kCli, kHalter };
struct World;
struct Core : public CoreDebugInterface {
  World& w;
  explicit Core(World& x) : w(x) {}
  // State of the simulated program.
  bool done = false;
  bool halt_requested = false;
  uint32_t halt_request_reason = 0;
  uint32_t last_halt = *HR::kNone;
  uint64_t executed = 0;
  std::map<std::string, uint64_t> regs;
  std::map<uint64_t, uint8_t> mem;
  std::set<uint64_t> bps;
  // Occupancy.
  int in_step = -1, in_op = -1;
  const char* op_name = "";
  bool fail_next[3] = {false, false, false};

  absl::Status Halt() override { return Halt(HR::kUserRequest); }
  absl::Status Halt(HR r) override { return Halt(*r); }
  absl::Status Halt(HaltReasonValueType r) override;
  absl::StatusOr<int> Step(int num) override;
  absl::Status Run() override { return absl::UnimplementedError("run"); }
  absl::Status Wait() override { return absl::OkStatus(); }
  absl::StatusOr<RunStatus> GetRunStatus() override;
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override;
  absl::StatusOr<uint64_t> ReadRegister(const std::string& n) override;
  absl::Status WriteRegister(const std::string& n, uint64_t v) override;
  absl::StatusOr<mpact::sim::generic::DataBuffer*> GetRegisterDataBuffer(const std::string&) override;
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override;
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override;
  bool HasBreakpoint(uint64_t a) override;
  absl::Status SetSwBreakpoint(uint64_t a) override;
  absl::Status ClearSwBreakpoint(uint64_t a) override;
  absl::Status ClearAllSwBreakpoints() override;
  absl::StatusOr<mpact::sim::generic::Instruction*> GetInstruction(uint64_t a) override;
  absl::StatusOr<std::string> GetDisassembly(uint64_t a) override;
  bool Fails();
};
struct Forwarder : public CLIForwarder {
  using CLIForwarder::CLIForwarder;
  absl::Status Halt() override { return CLIForwarder::Halt(); }
  absl::Status Halt(HR) { return absl::UnimplementedError(""); }
  absl::Status Halt(HaltReasonValueType) { return absl::UnimplementedError(""); }
};
// A derived interface with a command of its own that gives no result.
struct Top : public RenodeCLITop {
  using RenodeCLITop::RenodeCLITop;
  template <typename F> void Poke(F f) { DoWhenInControl<void>(std::move(f)); }
};
struct World {
  explicit World(dst::Sim& s) : sim(s), sched(s), core(*this) {}
  dst::Sim& sim;
  dst::Sched sched;
  Core core;
  std::unique_ptr<Top> top;
  std::unique_ptr<Forwarder> fwd;
  int task_side[3] = {-1, -1, -1};
  // Renode's request in progress.
  bool renode_in_step = false;
  uint64_t window = 0;          // steps the core executed in it
  int asked = 0;
  bool window_failed = false;
  // The CLI's call in progress.
  bool cli_in_run = false, cli_in_step = false;
  uint64_t cli_window = 0;
  // What the CLI was told last: nothing may move until it acts.
  bool frozen = false;
  bool connected = false;
  bool cli_quiet = false, renode_done = false;
  bool cli_step_short_ok = false;
  bool cli_halt_seen = false;   // the core halted in the CLI step in progress
  bool cli_switching = false;   // inside SetConnected
  bool cli_failed = false;      // the core failed in the CLI step in progress
  int halts = 0;                // halts of the core, and CLIHalt calls begun or ended
  int halt_calls = 0;           // CLIHalt calls in progress
  int halt_requests = 0;        // requests that reached the core
  uint32_t halt_request = 0;
  bool run_after_end = false;   // the CLI's run in progress was issued after the program ended
  bool renode_stops = false;    // Renode steps no more once it knows the program has ended
  int handed = -1;              // cli_events when a halt during Renode's step gave the CLI control
  int renode_requests = 0;      // step requests that have returned
  int halt_calls_begun = 0;
  int request_at_end = -1;      // renode_requests when the program ended in a step of the CLI's
  int cli_events = 0;           // run, step, connect and disconnect calls begun
  int runs = 0, cli_steps = 0, renode_steps = 0;
  unsigned fault_rate = 0;
  int bulk = 0;                 // instructions the core executes at a time, 0: one
  Side side() const {
    int c = sched.current();
    for (int i = 0; i < 3; i++) if (task_side[i] == c) return (Side)i;
    return kHalter;
  }
  bool Faulty() { return !sched.draining() && fault_rate && sim.Chance(1, fault_rate); }
  void SetConnected(bool c) { cli_events++; cli_switching = true; if (!c) frozen = false; top->SetConnected(c); cli_switching = false; }
  void Freeze() { if (!cli_in_run && !cli_in_step && connected) frozen = true; }
};
const char* kSides[] = {"Renode", "CLI", "halting thread"};

struct Busy {
  Core& c;
  bool step, query;
  Busy(Core& x, const char* name, bool st = false, bool q = false) : c(x), step(st), query(q) {
    World& w = c.w;
    dst::Sim& sim = w.sim;
    int me = w.side();
    w.sched.Yield();
    // A query may overlap another side's register or memory access, never a step.
    if (c.in_step >= 0 && c.in_step != me)
      sim.Violation("overlap", "%s for %s while the core is stepping for %s", name, kSides[me], kSides[c.in_step]);
    if (!query && !c.done) {
      if (c.in_op >= 0 && c.in_op != me) sim.Violation("overlap", "%s for %s during %s for %s", name, kSides[me], c.op_name, kSides[c.in_op]);
    }
    if (step) c.in_step = me;
    else if (!query) { c.in_op = me; c.op_name = name; }
    w.sched.Yield();
  }
  ~Busy() { if (step) c.in_step = -1; else if (!query) c.in_op = -1; c.w.sched.Yield(); }
};
bool Core::Fails() { int s = w.side(); bool f = fail_next[s]; fail_next[s] = false; return f; }
absl::Status Core::Halt(HaltReasonValueType r) {
  w.halt_requests++;
  w.halt_request = r;
  w.sched.Yield();
  if (in_step >= 0) { halt_requested = true; halt_request_reason = r; }
  return absl::OkStatus();
}
absl::StatusOr<int> Core::Step(int num) {
  dst::Sim& sim = w.sim;
  int me = w.side();
  SIM_CHECK(sim, num >= 0, "step-argument", "the core was asked to step %d", num);
  if (me == kRenode) SIM_CHECK(sim, !w.frozen || done, "stepped-while-halted", "Renode stepped the core while the CLI had halted it");
  Busy b(*this, "Step", true);
  if (me == kRenode) SIM_CHECK(sim, !w.frozen || done, "stepped-while-halted", "Renode stepped the core while the CLI had halted it");
  sim.Log("%s steps the core by %d", kSides[me], num);
  if (me == kCli) SIM_CHECK(sim, !w.cli_halt_seen || done || num == 0, "stepped-past-halt", "the CLI's step went on after the core had halted");
  if (!done) SIM_CHECK(sim, w.renode_in_step, "step-outside-request", "the core was stepped for %s with no Renode step request open", kSides[me]);
  if (me == kRenode && !done)
    SIM_CHECK(sim, w.handed != w.cli_events, "stepped-past-halt", "Renode stepped the core after it had halted under the CLI's run command");
  const int events = w.connected && w.cli_in_run && !w.cli_switching ? w.cli_events : -1;
  if (me == kCli) SIM_CHECK(sim, !w.cli_failed, "stepped-past-halt", "the CLI's step went on after the core had failed");
  halt_requested = false;
  if (w.Faulty()) { w.cli_failed |= me == kCli; sim.Fault("core-step-fails"); w.window_failed |= me == kRenode; w.cli_step_short_ok = true; return absl::InternalError("step"); }
  if (done) { w.halts++; last_halt = *HR::kProgramDone; return 0; }
  int n = 0;
  last_halt = *HR::kNone;
  while (n < num) {
    if (halt_requested) { last_halt = halt_request_reason; sim.Fault("halt-requested-while-stepping"); break; }
    // A fast core: many instructions between two points where it can be disturbed.
    int k = w.bulk ? static_cast<int>(std::min<int64_t>(num - n, w.sched.draining() ? 1 << 30 : w.bulk)) : 1;
    n += k;
    executed += k;
    w.window += k;
    if (me == kCli) w.cli_window += k;
    SIM_CHECK(sim, w.window <= (uint64_t)w.asked, "overstepped", "the core executed %lu steps for a request of %d", (unsigned long)w.window, w.asked);
    if (w.Faulty()) {
      int k = sim.Pick(8);
      if (k == 0) { done = true; if (me == kCli) w.request_at_end = w.renode_requests; last_halt = *HR::kProgramDone; sim.Fault("program-ends"); }
      else { static const uint32_t r[] = {*HR::kSoftwareBreakpoint, *HR::kActionPoint, *HR::kDataWatchPoint, *HR::kUserRequest}; last_halt = r[sim.Pick(4)]; sim.Fault("core-halts"); if (n == num) sim.Probe("halt-on-last-step"); }
      break;
    }
    w.sched.Yield();
  }
  if (last_halt != *HR::kNone) { w.halts++; w.cli_step_short_ok = true; if (me == kCli) w.cli_halt_seen = true; else if (me == kRenode && !done && events >= 0) w.handed = events; }
  return n;
}
absl::StatusOr<CoreDebugInterface::RunStatus> Core::GetRunStatus() { Busy b(*this, "GetRunStatus"); if (Fails()) return absl::InternalError("f"); return RunStatus::kHalted; }
absl::StatusOr<CoreDebugInterface::HaltReasonValueType> Core::GetLastHaltReason() { Busy b(*this, "GetLastHaltReason", false, true); return last_halt; }
absl::StatusOr<uint64_t> Core::ReadRegister(const std::string& n) { Busy b(*this, "ReadRegister"); if (Fails()) return absl::InternalError("f"); return regs[n]; }
absl::Status Core::WriteRegister(const std::string& n, uint64_t v) { Busy b(*this, "WriteRegister"); if (Fails()) return absl::InternalError("f"); regs[n] = v; return absl::OkStatus(); }
absl::StatusOr<mpact::sim::generic::DataBuffer*> Core::GetRegisterDataBuffer(const std::string& n) { Busy b(*this, "GetRegisterDataBuffer"); if (Fails()) return absl::InternalError("f"); return reinterpret_cast<mpact::sim::generic::DataBuffer*>(0x1000 + n.size()); }
absl::StatusOr<size_t> Core::ReadMemory(uint64_t a, void* p, size_t n) { Busy b(*this, "ReadMemory"); if (Fails()) return absl::InternalError("f"); for (size_t i = 0; i < n; i++) static_cast<uint8_t*>(p)[i] = mem[a + i]; return n; }
absl::StatusOr<size_t> Core::WriteMemory(uint64_t a, const void* p, size_t n) { Busy b(*this, "WriteMemory"); if (Fails()) return absl::InternalError("f"); for (size_t i = 0; i < n; i++) mem[a + i] = static_cast<const uint8_t*>(p)[i]; return n; }
bool Core::HasBreakpoint(uint64_t a) { Busy b(*this, "HasBreakpoint"); return bps.count(a); }
absl::Status Core::SetSwBreakpoint(uint64_t a) { Busy b(*this, "SetSwBreakpoint"); if (Fails()) return absl::InternalError("f"); bps.insert(a); return absl::OkStatus(); }
absl::Status Core::ClearSwBreakpoint(uint64_t a) { Busy b(*this, "ClearSwBreakpoint"); if (Fails()) return absl::InternalError("f"); bps.erase(a); return absl::OkStatus(); }
absl::Status Core::ClearAllSwBreakpoints() { Busy b(*this, "ClearAllSwBreakpoints"); if (Fails()) return absl::InternalError("f"); bps.clear(); return absl::OkStatus(); }
absl::StatusOr<mpact::sim::generic::Instruction*> Core::GetInstruction(uint64_t a) { Busy b(*this, "GetInstruction"); if (Fails()) return absl::InternalError("f"); return reinterpret_cast<mpact::sim::generic::Instruction*>(a * 8 + 8); }
absl::StatusOr<std::string> Core::GetDisassembly(uint64_t a) { Busy b(*this, "GetDisassembly"); if (Fails()) return absl::InternalError("f"); return "insn" + std::to_string(a); }

// A register or memory access of one side; the other side cannot interfere
// (each side has its own registers and addresses, so results are exact).
void Access(World& w, Side s) {
  dst::Sim& sim = w.sim;
  Core& c = w.core;
  bool fail = w.Faulty();
  c.fail_next[s] = fail;
  if (fail) sim.Fault("core-call-fails");
  std::string reg = std::string(s == kCli ? "c" : "r") + std::to_string(sim.Pick(3));
  uint64_t a = (s == kCli ? 0x100 : 0x200) + sim.Pick(16);
  uint64_t v = sim.Pick(0);
  Top& t = *w.top;
  bool via = sim.Pick(2) && s == kCli;
  char buf[4] = {1, 2, 3, 4};
  int op = sim.Pick(s == kCli ? 15 : 5);
  sim.Log("%s access %d%s", kSides[s], op, fail ? " (fails)" : "");
  bool ok = true;
  switch (op) {
    case 0: {
      uint64_t want = c.regs[reg];
      auto r = s == kRenode ? t.RenodeReadRegister(reg) : via ? w.fwd->ReadRegister(reg) : t.CLIReadRegister(reg);
      ok = r.ok();
      if (ok) SIM_CHECK(sim, *r == want, "wrong-result", "register read gave another value than the core's");
      break;
    }
    case 1: {
      uint64_t old = c.regs[reg];
      auto r = s == kRenode ? t.RenodeWriteRegister(reg, v) : via ? w.fwd->WriteRegister(reg, v) : t.CLIWriteRegister(reg, v);
      ok = r.ok();
      SIM_CHECK(sim, c.regs[reg] == (ok ? v : old), "wrong-result", "register write not done as reported");
      break;
    }
    case 2: {
      auto r = s == kRenode ? t.RenodeWriteMemory(a, buf, 4) : via ? w.fwd->WriteMemory(a, buf, 4) : t.CLIWriteMemory(a, buf, 4);
      ok = r.ok();
      if (ok) SIM_CHECK(sim, *r == 4 && c.mem[a] == 1 && c.mem[a + 3] == 4, "wrong-result", "memory write not done as reported");
      break;
    }
    case 3: {
      uint8_t want = c.mem[a + 1];
      auto r = s == kRenode ? t.RenodeReadMemory(a, buf, 4) : via ? w.fwd->ReadMemory(a, buf, 4) : t.CLIReadMemory(a, buf, 4);
      ok = r.ok();
      if (ok) SIM_CHECK(sim, *r == 4 && (uint8_t)buf[1] == want, "wrong-result", "memory read gave other bytes than the core's");
      break;
    }
    case 4: {
      if (s == kRenode) { auto r = t.RenodeGetLastHaltReason(); ok = !fail; SIM_CHECK(sim, r.ok(), "wrong-status", "halt reason not given"); break; }
      auto r = via ? w.fwd->SetSwBreakpoint(a) : t.CLISetSwBreakpoint(a);
      ok = r.ok();
      if (ok) SIM_CHECK(sim, c.bps.count(a), "wrong-result", "breakpoint not set");
      break;
    }
    case 5: {
      auto r = via ? w.fwd->ClearSwBreakpoint(a) : t.CLIClearSwBreakpoint(a);
      ok = r.ok();
      if (ok) SIM_CHECK(sim, !c.bps.count(a), "wrong-result", "breakpoint not cleared");
      break;
    }
    case 6: { auto r = via ? w.fwd->ClearAllSwBreakpoints() : t.CLIClearAllSwBreakpoints(); ok = r.ok(); if (ok) SIM_CHECK(sim, c.bps.empty(), "wrong-result", "breakpoints not cleared"); break; }
    case 7: { bool want = c.bps.count(a); bool r = via ? w.fwd->HasBreakpoint(a) : t.CLIHasBreakpoint(a); SIM_CHECK(sim, r == want, "wrong-result", "HasBreakpoint is wrong"); ok = !fail; break; }
    case 8: { auto r = via ? w.fwd->GetDisassembly(a) : t.CLIGetDisassembly(a); ok = r.ok(); if (ok) SIM_CHECK(sim, *r == "insn" + std::to_string(a), "wrong-result", "disassembly is wrong"); break; }
    case 9: { auto r = via ? w.fwd->GetInstruction(a) : t.CLIGetInstruction(a); ok = r.ok(); if (ok) SIM_CHECK(sim, (uint64_t)*r == a * 8 + 8, "wrong-result", "instruction is wrong"); break; }
    case 11: {
      auto r = via ? w.fwd->GetLastHaltReason() : t.CLIGetLastHaltReason();
      if (r.ok()) SIM_CHECK(sim, *r == c.last_halt || w.renode_in_step, "wrong-result", "last halt reason is wrong");
      SIM_CHECK(sim, r.ok(), "wrong-status", "halt reason not given");
      ok = !fail;
      break;
    }
    case 12: { auto r = via ? w.fwd->GetRegisterDataBuffer(reg) : t.CLIGetRegisterDataBuffer(reg); ok = r.ok(); if (ok) SIM_CHECK(sim, (uint64_t)*r == 0x1000 + reg.size(), "wrong-result", "register buffer is wrong"); break; }
    case 13: { auto r = via ? w.fwd->Wait() : t.CLIWait(); ok = !fail; SIM_CHECK(sim, r.ok(), "wrong-status", "wait failed"); break; }
    case 14: {
      int times = 0;
      bool done = false;
      t.Poke([&] { times++; done = c.WriteRegister(reg, v).ok(); });
      sim.Probe("command-without-result");
      SIM_CHECK(sim, times == 1, "wrong-result", "a command of a derived interface was carried out %d times", times);
      ok = done;
      if (ok) SIM_CHECK(sim, c.regs[reg] == v, "wrong-result", "register write not done");
      break;
    }
    case 10: { auto r = via ? w.fwd->GetRunStatus() : t.CLIGetRunStatus(); ok = r.ok(); break; }
  }
  SIM_CHECK(sim, ok == !fail, "wrong-status", "access %d reported %s, the core call %s", op, ok ? "success" : "an error", fail ? "failed" : "succeeded");
  c.fail_next[s] = false;
}

void RenodeTask(World& w) {
  dst::Sim& sim = w.sim;
  int budget = sim.Range(1, 12);
  while (true) {
    if (w.sched.draining() ? w.cli_quiet : budget-- <= 0) {
      if (w.cli_quiet) break;
      // The CLI still needs Renode's quanta to complete its requests.
    }
    if (!w.sched.draining() && sim.Pick(3) == 0) { Access(w, kRenode); continue; }
    int n = w.sched.draining() ? (w.bulk ? 1 << 30 : 5) : sim.Pick(10) == 0 ? 0 : w.bulk && sim.Pick(2) ? (1 << sim.Range(4, 30)) - sim.Pick(3) : sim.Range(1, 9);
    sim.Log("Renode asks for %d steps", n);
    w.asked = n;
    w.window = 0;
    w.window_failed = false;
    w.renode_in_step = true;
    bool was_done = w.core.done;
    auto r = w.top->RenodeStep(n);
    w.renode_in_step = false;
    w.renode_requests++;
    w.renode_steps++;
    sim.Log("Renode step returned %d", r.ok() ? *r : -1);
    if (w.core.done && w.renode_stops) {
      // As when Renode pauses the machine once the program has ended: the CLI must not depend on it any more.
      sim.Probe("renode-stops-at-end");
      w.sched.Block("stopped Renode", [&w] { return w.cli_quiet; });
      break;
    }
    if (!r.ok()) { SIM_CHECK(sim, w.window_failed, "spurious-error", "RenodeStep failed although the core did not"); continue; }
    SIM_CHECK(sim, !w.window_failed, "swallowed-error", "RenodeStep succeeded although the core failed");
    SIM_CHECK(sim, (uint64_t)*r == w.window, "step-credit", "RenodeStep returned %d, the core executed %lu for it", *r, (unsigned long)w.window);
    if (!w.core.done) SIM_CHECK(sim, *r == n, "step-lost", "RenodeStep(%d) returned %d though the program goes on", n, *r);
    else if (was_done) sim.Probe("renode-step-after-end");
    sim.AdvanceTime(*r);
  }
  w.renode_done = true;
}

void CliTask(World& w) {
  dst::Sim& sim = w.sim;
  int sessions = sim.Range(0, 3);
  // As SocketCLI does, report the missing connection first: no change.
  if (sim.Pick(2)) { w.cli_switching = true; w.top->SetConnected(false); w.cli_switching = false; }
  for (int s = 0; s < sessions && !w.sched.draining(); s++) {
    int idle = sim.Pick(20);
    for (int i = 0; i < idle && !w.sched.draining(); i++) w.sched.Yield();
    sim.Log("CLI connects");
    w.connected = true;
    w.SetConnected(true);
    w.Freeze();
    int ops = sim.Range(0, 8);
    for (int i = 0; i < ops && !w.sched.draining(); i++) {
      switch (sim.Weighted({8, 8, 6, 2, 1})) {
        case 0: {
          sim.Log("CLI run");
          bool was_done = w.core.done;
          w.frozen = false;
          w.run_after_end = was_done;
          w.cli_in_run = true;
          w.cli_events++;
          int halts = w.halt_calls > 0 ? -1 : w.halts;
          auto r = sim.Pick(2) ? w.top->CLIRun() : w.fwd->Run();
          w.cli_in_run = false;
          if (r.ok()) SIM_CHECK(sim, w.halts != halts, "run-not-run", "run returned although nothing halted the core");
          sim.Log("CLI run returned %s", r.ok() ? "ok" : "error");
          SIM_CHECK(sim, r.ok() || w.core.done, "wrong-status", "run was refused although the program goes on");
          SIM_CHECK(sim, !was_done || !r.ok(), "wrong-status", "run was accepted after the program ended");
          w.runs++;
          w.Freeze();
          break;
        }
        case 1: {
          int n = sim.Pick(8) == 0 ? 0 : w.bulk && !w.sched.draining() && sim.Pick(2) ? (1 << sim.Range(4, 30)) - sim.Pick(3) : sim.Range(1, 25);
          sim.Log("CLI step %d", n);
          bool was_done = w.core.done;
          w.frozen = false;
          w.cli_in_step = true;
          w.cli_halt_seen = false;
          w.cli_failed = false;
          w.cli_events++;
          w.cli_window = 0;
          w.cli_step_short_ok = false;
          int calls = w.halt_calls > 0 ? -1 : w.halt_calls_begun;
          auto r = sim.Pick(2) ? w.top->CLIStep(n) : w.fwd->Step(n);
          w.cli_in_step = false;
          sim.Log("CLI step returned %d", r.ok() ? *r : -1);
          SIM_CHECK(sim, !was_done || !r.ok(), "wrong-status", "a step was accepted after the program ended");
          if (r.ok()) {
            SIM_CHECK(sim, !w.cli_failed, "swallowed-error", "CLI step succeeded although the core failed");
            SIM_CHECK(sim, (uint64_t)*r == w.cli_window, "step-credit", "CLI step returned %d, the core executed %lu for it", *r, (unsigned long)w.cli_window);
            SIM_CHECK(sim, *r == n || w.core.done || w.cli_step_short_ok, "step-lost", "CLI step of %d returned %d without a halt", n, *r);
            SIM_CHECK(sim, *r <= n, "overstepped", "CLI step of %d returned %d", n, *r);
            if (*r > w.asked) sim.Probe("cli-step-over-several-quanta");
          } else SIM_CHECK(sim, w.core.done || w.cli_step_short_ok, "spurious-error", "CLI step failed although the core did not");
          w.cli_steps++;
          w.Freeze();
          if (r.ok() && !was_done && w.request_at_end >= 0 && calls == w.halt_calls_begun && sim.Pick(2)) {
            // The program ended in this step: Renode's request has to return without any further command of the CLI's.
            int req = w.request_at_end;
            sim.Probe("program-ends-in-cli-step");
            w.sched.Block("CLI that waits for Renode to return", [&w, req, calls] { return w.renode_requests != req || w.halt_calls_begun != calls; });
          }
          break;
        }
        case 2: Access(w, kCli); break;
        case 3: w.sched.Yield(); break;
        case 4: w.cli_switching = true; w.top->SetConnected(true); w.cli_switching = false; sim.Probe("connected-reported-again"); break;
      }
      if (sim.Pick(4) == 0) w.sched.Yield();
    }
    sim.Log("CLI disconnects");
    w.frozen = false;
    w.connected = false;
    w.SetConnected(false);
    if (sim.Pick(3) == 0) { sim.Fault("reconnect"); }
  }
  if (!w.sched.draining()) w.sched.Block("idle CLI", [&w] { return w.sched.draining(); });
  w.cli_quiet = true;
  while (!w.renode_done) {
    // Control left with an absent CLI is taken up by whoever connects.
    w.connected = true;
    w.SetConnected(true);
    w.connected = false;
    w.SetConnected(false);
    w.sched.Yield();
  }
}

void HalterTask(World& w) {
  dst::Sim& sim = w.sim;
  int n = sim.Pick(4);
  for (int i = 0; i < n && !w.sched.draining(); i++) {
    int idle = sim.Pick(30);
    for (int k = 0; k < idle && !w.sched.draining(); k++) w.sched.Yield();
    if (sim.Pick(2)) {
      sim.Log("halt");
      int e = w.cli_in_run || w.cli_in_step || w.cli_switching ? -1 : w.cli_events;
      int req = w.halt_requests;
      w.halts++;
      w.halt_calls++; w.halt_calls_begun++;
      auto r = sim.Pick(2) ? w.top->CLIHalt() : w.fwd->Halt();
      w.halt_calls--;
      w.halts++;
      SIM_CHECK(sim, w.halt_requests == req + 1 && w.halt_request == *HR::kUserRequest, "halt-lost", "a halt did not reach the core once");
      if (e == w.cli_events && !w.cli_in_run && !w.cli_in_step && !w.cli_switching) {
        SIM_CHECK(sim, w.core.in_step != kRenode || w.core.done, "stepped-while-halted", "halt returned while Renode is still stepping the core");
        w.frozen = true;
        sim.Probe("halt-without-cli-command");
      }
      SIM_CHECK(sim, r.ok(), "wrong-status", "halt failed");
      sim.Probe("asynchronous-halt");
    } else if (sim.Pick(2)) {
      int req = w.halt_requests;
      w.top->CLIRequestHalt(HR::kUserRequest, nullptr);
      SIM_CHECK(sim, w.halt_requests == req + 1 && w.halt_request == *HR::kUserRequest, "halt-lost", "a halt request did not reach the core once");
    } else {
      uint32_t why = sim.Pick(2) ? *HR::kActionPoint : *HR::kUserSpecifiedMin + sim.Pick(4);
      int req = w.halt_requests;
      w.top->CLIRequestHalt(why, nullptr);
      SIM_CHECK(sim, w.halt_requests == req + 1 && w.halt_request == why, "halt-lost", "a halt request did not reach the core once");
    }
  }
  // A running program has to be halted for the CLI's run command to return.
  while (!w.cli_quiet) {
    if (w.sched.draining() && w.cli_in_run && !w.run_after_end) { w.halts++; w.halt_calls++; w.halt_calls_begun++; (void)w.top->CLIHalt(); w.halt_calls--; w.halts++; }
    if (w.sched.draining()) w.sched.Yield();
    else w.sched.Block("idle halter", [&w] { return w.sched.draining(); });
  }
}
}  // namespace

void RunOne(dst::Sim& sim) {
  World w(sim);
  sim.set_max_steps(sim.Range(60, 900));
  static const unsigned kRates[] = {0, 6, 12, 30, 80};
  w.fault_rate = kRates[sim.Pick(5)];
  if (sim.Pick(4) == 0) { w.bulk = 1 << sim.Range(3, 29); sim.Probe("large-steps"); }
  bool wait = sim.Pick(2);
  w.top = std::make_unique<Top>(&w.core, wait);
  w.fwd = std::make_unique<Forwarder>(w.top.get());
  sim.Log("start, %s for the CLI", wait ? "waiting" : "not waiting");
  if (wait) { sim.Probe("wait-for-cli"); w.frozen = true; }
  w.renode_stops = sim.Pick(2);
  w.task_side[kRenode] = w.sched.Spawn("Renode", [&w] { RenodeTask(w); });
  w.task_side[kCli] = w.sched.Spawn("CLI", [&w] { CliTask(w); });
  w.task_side[kHalter] = w.sched.Spawn("halting thread", [&w] { HalterTask(w); });
  w.sched.Run();
  sim.State(dst::Mix(w.renode_steps * 64 + w.cli_steps * 8 + w.runs) ^ w.core.executed << 32 ^ w.core.last_halt);
  if (w.runs + w.cli_steps >= 1 && w.renode_steps >= 1) sim.NonTrivial();
  w.fwd.reset();
  w.top.reset();
}
