// C21 and C22: the GDB server. Real code: GdbServer and its stream buffer.
// Simulated: sockets, the debugger client, the core debug interface.
//
// The client and the server run as two tasks. Everything the server read and
// wrote and every call it made on the core is recorded; after each session a
// reference server replays what was read, and what was written and called has
// to be what it says.
#include <unistd.h>

#include <functional>
#include <map>

#include "mpact/sim/util/gdbserver/gdbserver.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/debug_info.h"
#include "dst_sched.h"
#include "dst_socket.h"

namespace gdbw {
using mpact::sim::generic::AccessType;
using mpact::sim::generic::CoreDebugInterface;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::generic::DebugInfo;
using mpact::sim::generic::Instruction;
using mpact::sim::util::gdbserver::GdbServer;
using HR = CoreDebugInterface::HaltReason;

inline std::string Show(const std::string& s, size_t max = 60) {
  std::string r;
  char b[8];
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = s[i];
    if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  if (s.size() > max) { snprintf(b, sizeof b, "..%zu", s.size()); r += b; }
  return r;
}
inline std::string Hex(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%llx", (unsigned long long)v); return b; }
inline std::string HexBytes(const std::string& s) {
  std::string r;
  char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
  return r;
}
inline std::string Le(uint64_t v, int bytes) {
  std::string r;
  for (int i = 0; i < bytes; ++i, v >>= 8) r += static_cast<char>(v);
  return r;
}
inline int HexVal(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
inline bool ParseHex(const std::string& s, uint64_t* v) {
  if (s.empty() || s.size() > 16) return false;
  *v = 0;
  for (char c : s) { if (HexVal(c) < 0) return false; *v = *v << 4 | HexVal(c); }
  return true;
}
inline bool ParseBytes(const std::string& s, std::string* out) {
  if (s.size() % 2) return false;
  out->clear();
  for (size_t i = 0; i < s.size(); i += 2) {
    if (HexVal(s[i]) < 0 || HexVal(s[i + 1]) < 0) return false;
    *out += static_cast<char>(HexVal(s[i]) << 4 | HexVal(s[i + 1]));
  }
  return true;
}
inline std::string Packet(const std::string& payload, bool escape_more, dst::Sim& sim) {
  std::string e;
  for (char c : payload) {
    if (c == '#' || c == '$' || c == '}' || c == '*' || (escape_more && (c ^ 0x20) != '#' && (c ^ 0x20) != '$' && sim.Chance(1, 8))) { e += '}'; e += static_cast<char>(c ^ 0x20); }
    else e += c;
  }
  unsigned char sum = 0;
  for (char c : e) sum += c;
  char b[4];
  snprintf(b, sizeof b, "%02x", sum);
  return "$" + e + "#" + b;
}

struct World;

struct Info : public DebugInfo {
  DebugRegisterMap map;
  int first = 0, last = 3, pc = 4, width = 64;
  std::string xml, host;
  const DebugRegisterMap& debug_register_map() const override { return map; }
  int GetFirstGpr() const override { return first; }
  int GetLastGpr() const override { return last; }
  int GetPcRegister() const override { return pc; }
  int GetGprWidth() const override { return width; }
  int GetPcWidth() const override { return width; }
  int GetRegisterByteWidth(int) const override { return width / 8; }
  std::string_view GetGdbTargetXml() const override { return xml; }
  std::string_view GetLLDBHostInfo() const override { return host; }
};

struct Call {
  std::string what;
  std::string name;
  uint64_t addr = 0;
  uint64_t num = 0;        // argument: length, steps, value
  std::string data;        // bytes written or read
  bool ok = false;
  bool unimplemented = false;
  uint64_t val = 0;        // result
  size_t written = 0;      // bytes the server had written by then
  size_t read = 0;         // and read
  // What the core changed by itself.
  bool acted = false;
  uint32_t reason = 0;
  uint64_t watch_addr = 0;
  int watch_type = 0;
  std::map<std::string, std::string> regs;
  std::map<uint64_t, char> mem;
};

struct Core : public CoreDebugInterface {
  World& w;
  bool extra = false;      // not core 0
  int fail = 0;            // chance of 64 that a call fails
  std::map<std::string, DataBuffer*> regs;
  std::map<uint64_t, char> mem;
  bool running = false;
  uint32_t reason = static_cast<uint32_t>(HR::kNone);
  uint64_t watch_addr = 0;
  AccessType watch_type = AccessType::kNone;
  std::string exe;
  explicit Core(World& x) : w(x) {}
  Call& Log(const char* what);
  bool Fails(Call& c, absl::Status* s);
  void Act(Call& c);
  absl::Status Halt() override { return Simple("Halt"); }
  absl::Status Halt(HaltReason) override { return Simple("Halt"); }
  absl::Status Halt(HaltReasonValueType) override { return Simple("Halt"); }
  absl::Status Simple(const char* what) { Call& c = Log(what); absl::Status s; if (Fails(c, &s)) return s; return absl::OkStatus(); }
  absl::StatusOr<int> Step(int num) override;
  absl::Status Run() override;
  absl::Status Wait() override;
  absl::StatusOr<RunStatus> GetRunStatus() override;
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override;
  absl::StatusOr<uint64_t> ReadRegister(const std::string& name) override;
  absl::Status WriteRegister(const std::string& name, uint64_t value) override;
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string& name) override;
  absl::StatusOr<size_t> ReadMemory(uint64_t address, void* buf, size_t length) override;
  absl::StatusOr<size_t> WriteMemory(uint64_t address, const void* buf, size_t length) override;
  bool HasBreakpoint(uint64_t) override { return false; }
  absl::Status SetSwBreakpoint(uint64_t address) override { return Break("SetSwBreakpoint", address); }
  absl::Status ClearSwBreakpoint(uint64_t address) override { return Break("ClearSwBreakpoint", address); }
  absl::Status Break(const char* what, uint64_t address);
  uint64_t GetSwBreakpointInfo() const override { return 0x1234; }
  absl::Status ClearAllSwBreakpoints() override { return Simple("ClearAllSwBreakpoints"); }
  absl::Status SetDataWatchpoint(uint64_t, size_t, AccessType) override { return Simple("SetDataWatchpoint"); }
  absl::Status ClearDataWatchpoint(uint64_t, AccessType) override { return Simple("ClearDataWatchpoint"); }
  void GetWatchpointInfo(uint64_t& address, AccessType& type) override { Log("GetWatchpointInfo").ok = true; address = watch_addr; type = watch_type; }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override { return Simple("GetInstruction"); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { return Simple("GetDisassembly"); }
  std::string GetExecutableFileName() override { return exe; }
};

struct Expect {
  std::vector<std::string> exact;
  bool error = false;      // an error reply will do
  std::function<bool(const std::string&)> pred;
  bool none = false;       // no reply at all
  bool end = false;        // the session ends after it
  bool Ok(const std::string& r) const {
    for (auto& e : exact) if (r == e) return true;
    if (error && (r.compare(0, 2, "E.") == 0 || (r.size() == 3 && r[0] == 'E' && isdigit(r[1]) && isdigit(r[2])))) return true;
    return pred && pred(r);
  }
  std::string Text() const {
    std::string t;
    for (auto& e : exact) t += (t.empty() ? "\"" : " or \"") + Show(e) + "\"";
    if (error) t += t.empty() ? "an error" : " or an error";
    if (pred) t += t.empty() ? "(see the command)" : " or as the command says";
    return t;
  }
};

struct World {
  explicit World(dst::Sim& s, bool faults) : sim(s), stream_faults(faults), sched(s), net(s, sched) {}
  dst::Sim& sim;
  bool stream_faults;
  dst::Sched sched;
  dst::SockLayer net;
  DataBufferFactory dbf;
  Info info;
  std::vector<std::unique_ptr<Core>> cores;
  std::map<int, int> bitsize;           // by register number, as in the XML
  dst::Conn* conn = nullptr;            // being served
  std::vector<Call> calls;              // of this session
  bool owner_done = false;
  int port = 3333;
  int commands = 0;                     // executed, over all sessions
  // Reference state of the core and of the server.
  std::map<std::string, std::string> regs;
  std::map<uint64_t, char> mem;
  uint32_t cached = static_cast<uint32_t>(HR::kNone);
  bool maybe_done = false;
  uint64_t watch_addr = 0;
  int watch_type = 0;
  bool thread_suffix = false;
  bool no_ack = false;

  void Sync();
  void Build();
  Expect Exec(const std::string& cmd, std::vector<Call*>& calls);
  void Verify(dst::Conn* c, bool client_ended);
  std::string Command();
  void Client();
  void Session(dst::Conn* c);
  void Owner();
  [[noreturn]] void Bad(const char* cls, const std::string& msg) { sim.Violation(cls, "%s", msg.c_str()); }
};

// ---------------------------------------------------------------- the core

inline Call& Core::Log(const char* what) {
  w.calls.emplace_back();
  Call& c = w.calls.back();
  c.what = what;
  if (w.conn == nullptr) {
    // The one that was accepted and not closed.
    for (auto& k : w.net.conns) if (k->accepted && !k->server_closed) w.conn = k.get();
  }
  if (w.conn == nullptr) w.Bad("call-without-session", std::string(what) + "() called on the core while no client is connected");
  if (extra) w.Bad("other-core-touched", std::string(what) + "() called on a core other than core 0");
  c.written = w.conn->server_written.size();
  c.read = w.conn->server_read.size();
  return c;
}
inline bool Core::Fails(Call& c, absl::Status* s) {
  if (fail == 0 || w.sched.draining() || !w.sim.Chance(fail, 64)) { c.ok = true; return false; }
  w.sim.Fault("core-call-fails");
  c.ok = false;
  static const char* const kText[] = {"it failed", "bad # thing", "100$ } gone", "**", "", "E01"};
  std::string text = kText[w.sim.Pick(6)];
  if (w.sim.Chance(1, 4)) { c.unimplemented = true; *s = absl::UnimplementedError(text); }
  else *s = absl::InternalError(text);
  w.sim.Log("core: %s fails (%s)", c.what.c_str(), text.c_str());
  return true;
}
// The core runs: it changes some of its state and halts for some reason.
inline void Core::Act(Call& c) {
  dst::Sim& sim = w.sim;
  for (auto& [n, db] : regs) {
    if (n != "pc" && !sim.Chance(1, 4)) continue;
    std::string v = Le(sim.Bits(), 8);
    auto bytes = db->Get<uint8_t>();
    std::string all;
    for (size_t i = 0; i < bytes.size(); ++i) { bytes[i] = v[i % 8]; all += v[i % 8]; }
    c.regs[n] = all;
  }
  uint64_t a = sim.Pick(64);
  mem[a] = c.mem[a] = static_cast<char>(sim.Pick(256));
  static const HR kReasons[] = {HR::kSoftwareBreakpoint, HR::kHardwareBreakpoint, HR::kUserRequest, HR::kSemihostHaltRequest, HR::kDataWatchPoint, HR::kActionPoint, HR::kProgramDone, HR::kSimulatorError, HR::kNone, HR::kUserSpecifiedMin};
  int r = sim.Weighted({6, 4, 4, 1, 6, 4, 1, 3, 3, 2});
  reason = static_cast<uint32_t>(kReasons[r]);
  watch_addr = sim.Bits();
  watch_type = static_cast<AccessType>(sim.Pick(4));
  c.acted = true;
  c.reason = reason;
  c.watch_addr = watch_addr;
  c.watch_type = static_cast<int>(watch_type);
  sim.Log("core: halts, reason %x", reason);
  running = false;
}
inline absl::StatusOr<int> Core::Step(int num) {
  Call& c = Log("Step");
  c.num = num;
  absl::Status s;
  if (Fails(c, &s)) return s;
  if (running) { c.ok = false; return absl::FailedPreconditionError("running"); }
  Act(c);
  return num;
}
inline absl::Status Core::Run() {
  Call& c = Log("Run");
  absl::Status s;
  if (Fails(c, &s)) return s;
  if (running) { c.ok = false; return absl::FailedPreconditionError("running"); }
  running = true;
  return absl::OkStatus();
}
inline absl::Status Core::Wait() {
  Call& c = Log("Wait");
  absl::Status s;
  if (Fails(c, &s)) return s;
  if (running) Act(c);
  return absl::OkStatus();
}
inline absl::StatusOr<CoreDebugInterface::RunStatus> Core::GetRunStatus() {
  Call& c = Log("GetRunStatus");
  absl::Status s;
  if (Fails(c, &s)) return s;
  c.val = running;
  return running ? RunStatus::kRunning : RunStatus::kHalted;
}
inline absl::StatusOr<CoreDebugInterface::HaltReasonValueType> Core::GetLastHaltReason() {
  Call& c = Log("GetLastHaltReason");
  absl::Status s;
  if (Fails(c, &s)) return s;
  c.val = reason;
  return reason;
}
inline absl::StatusOr<uint64_t> Core::ReadRegister(const std::string& name) {
  Call& c = Log("ReadRegister");
  c.name = name;
  absl::Status s;
  if (Fails(c, &s)) return s;
  auto it = regs.find(name);
  if (it == regs.end()) { c.ok = false; return absl::NotFoundError("no such register"); }
  uint64_t v = 0;
  auto bytes = it->second->Get<uint8_t>();
  for (size_t i = 0; i < bytes.size() && i < 8; ++i) v |= static_cast<uint64_t>(bytes[i]) << 8 * i;
  return c.val = v;
}
inline absl::Status Core::WriteRegister(const std::string& name, uint64_t value) {
  Call& c = Log("WriteRegister");
  c.name = name;
  c.num = value;
  absl::Status s;
  if (Fails(c, &s)) return s;
  auto it = regs.find(name);
  if (it == regs.end()) { c.ok = false; return absl::NotFoundError("no such register"); }
  auto bytes = it->second->Get<uint8_t>();
  for (size_t i = 0; i < bytes.size(); ++i) bytes[i] = i < 8 ? value >> 8 * i : 0;
  return absl::OkStatus();
}
inline absl::StatusOr<DataBuffer*> Core::GetRegisterDataBuffer(const std::string& name) {
  Call& c = Log("GetRegisterDataBuffer");
  c.name = name;
  absl::Status s;
  if (Fails(c, &s)) return s;
  auto it = regs.find(name);
  if (it == regs.end()) { c.ok = false; return absl::NotFoundError("no such register"); }
  return it->second;
}
inline absl::StatusOr<size_t> Core::ReadMemory(uint64_t address, void* buf, size_t length) {
  Call& c = Log("ReadMemory");
  c.addr = address;
  c.num = length;
  absl::Status s;
  if (Fails(c, &s)) return s;
  size_t n = length;
  if (n > 0 && fail > 0 && !w.sched.draining() && w.sim.Chance(fail, 64)) { n = w.sim.Pick(n); w.sim.Fault("short-memory-read"); }
  for (size_t i = 0; i < n; ++i) {
    auto it = mem.find(address + i);
    static_cast<char*>(buf)[i] = it == mem.end() ? 0 : it->second;
    c.data += static_cast<char*>(buf)[i];
  }
  return c.val = n;
}
inline absl::StatusOr<size_t> Core::WriteMemory(uint64_t address, const void* buf, size_t length) {
  Call& c = Log("WriteMemory");
  c.addr = address;
  c.num = length;
  c.data.assign(static_cast<const char*>(buf), length);
  absl::Status s;
  if (Fails(c, &s)) return s;
  size_t n = length;
  if (n > 0 && fail > 0 && !w.sched.draining() && w.sim.Chance(fail, 64)) { n = w.sim.Pick(n); w.sim.Fault("short-memory-write"); }
  for (size_t i = 0; i < n; ++i) mem[address + i] = c.data[i];
  return c.val = n;
}
inline absl::Status Core::Break(const char* what, uint64_t address) {
  Call& c = Log(what);
  c.addr = address;
  absl::Status s;
  if (Fails(c, &s)) return s;
  return absl::OkStatus();
}

// ----------------------------------------------------- reference of commands

inline void World::Sync() {
  regs.clear();
  for (auto& [n, db] : cores[0]->regs) {
    auto b = db->Get<uint8_t>();
    regs[n] = std::string(b.begin(), b.end());
  }
  mem = cores[0]->mem;
}

// What the server has to answer to the command, given the calls it made.
// Calls that change the core have to be exactly those the command asks for.
inline Expect World::Exec(const std::string& cmd, std::vector<Call*>& all) {
  Expect e;
  Core& core = *cores[0];
  (void)core;
  std::vector<Call*> acts;      // those that change the core
  for (Call* c : all)
    if (c->what == "Run" || c->what == "Step" || c->what == "Wait" || c->what == "WriteRegister" || c->what == "WriteMemory" || c->what == "ReadMemory" ||
        c->what.find("Halt") == 0 || c->what.find("reakpoint") != std::string::npos || c->what.find("atchpoint") != std::string::npos) {
      if (c->what != "GetWatchpointInfo") acts.push_back(c);
    }
  size_t used = 0;
  auto take = [&](const char* what) -> Call* {   // next such call, if it is next
    if (used < acts.size() && acts[used]->what == what) {
      Call* c = acts[used++];
      if (c->acted) { watch_addr = c->watch_addr; watch_type = c->watch_type; }
      for (auto& [n, v] : c->regs) regs[n] = v;
      for (auto& [a, v] : c->mem) mem[a] = v;
      return c;
    }
    return nullptr;
  };
  auto must = [&](const char* what) -> Call* {
    Call* c = take(what);
    if (c == nullptr) Bad("core-not-called", "command \"" + Show(cmd) + "\" made no call of " + what + "() on the core" + (used < acts.size() ? " (next was " + acts[used]->what + ")" : ""));
    return c;
  };
  auto last = [&](const char* what, const std::string& name) -> Call* {
    Call* r = nullptr;
    for (Call* c : all) if (c->what == what && c->name == name) r = c;
    return r;
  };
  auto failed = [&](const char* what, const std::string& name) {
    Call* c = last(what, name);
    return c != nullptr && !c->ok;
  };
  auto done = [&]() -> Expect& {
    if (used < acts.size()) Bad("unasked-core-call", "command \"" + Show(cmd) + "\" made a call of " + acts[used]->what + "() it does not ask for");
    return e;
  };
  auto error = [&]() -> Expect& { e.error = true; return done(); };
  auto refuse = [&]() -> Expect& { e.error = true; e.exact.push_back(""); sim.Probe("malformed-command"); return done(); };
  auto reply = [&](const std::string& s) -> Expect& { e.exact.push_back(s); return done(); };
  auto pc_text = [&] { return Hex(info.pc) + ":" + HexBytes(Le(0, 0)) + HexBytes((regs["pc"] + std::string(8, '\0')).substr(0, info.width / 8)) + ";"; };
  const uint32_t kDone = static_cast<uint32_t>(HR::kProgramDone), kSemi = static_cast<uint32_t>(HR::kSemihostHaltRequest);
  // A stop reply as '?' and 'c' give it.
  auto stop = [&]() -> Expect& {
    Call* r = last("GetLastHaltReason", "");
    if (failed("ReadRegister", "pc") || failed("GetRegisterDataBuffer", "pc") || (r != nullptr && !r->ok)) return error();
    if (r == nullptr) Bad("halt-reason-not-asked", "command \"" + Show(cmd) + "\" was answered without asking the core for its halt reason");
    cached = r->val;
    sim.Probe("stop-reply");
    std::string t;
    switch (static_cast<HR>(cached)) {
      case HR::kSoftwareBreakpoint: case HR::kHardwareBreakpoint: case HR::kDataWatchPoint: case HR::kActionPoint: t = "T02"; break;
      case HR::kSimulatorError: t = "T06"; break;
      case HR::kUserRequest: t = "T03"; break;
      case HR::kProgramDone: case HR::kSemihostHaltRequest: return reply("W00");
      default: t = "T05";
    }
    return reply(t + "thread:1;" + pc_text());
  };
  // Strips a valid thread suffix; false if there is an invalid one.
  auto suffix = [&](std::string* s) {
    size_t p = s->find(";thread:");
    if (p == std::string::npos || !thread_suffix) { if (p != std::string::npos) s->resize(p); return true; }
    std::string id = s->substr(p + 8);
    s->resize(p);
    if (!id.empty() && id.back() == ';') id.pop_back();
    uint64_t v;
    return ParseHex(id, &v) && v == 1;
  };
  if (cmd.empty()) return refuse();
  std::string a = cmd.substr(1);
  uint64_t v, n;
  std::string bytes;
  switch (cmd[0]) {
    case '?': return stop();
    case 'c': {
      if (!suffix(&a)) return refuse();
      if (!a.empty() && !ParseHex(a, &v)) { e.exact.push_back("W00"); return acts.empty() ? refuse() : done(); }
      if (cached == kDone) return reply("W00");
      if (maybe_done && acts.empty()) { e.error = failed("GetRunStatus", ""); return reply("W00"); }
      if (failed("GetRunStatus", "")) return error();
      Call* rs = last("GetRunStatus", "");
      if (rs != nullptr && rs->val != 0) {
        sim.Probe("continue-while-running");
        if (acts.empty()) return error();   // refusing is fine too
      } else {
        if (!a.empty()) {
          Call* c = take("WriteRegister");
          if (c != nullptr) {
            if (c->name != "pc" || c->num != v) Bad("wrong-core-call", "command \"" + Show(cmd) + "\" wrote " + Hex(c->num) + " to register " + c->name);
            if (!c->ok) return error();
          } else if (failed("GetRegisterDataBuffer", "pc")) return error();
          std::string& p = regs["pc"];
          p = Le(v, 8).substr(0, p.size());
        }
        if (!must("Run")->ok) return error();
      }
      if (!must("Wait")->ok) return error();
      maybe_done = false;
      return stop();
    }
    case 'D': e.end = true; return reply("OK");
    case 'k': e.none = e.end = true; return done();
    case 'g': {
      if (!suffix(&a)) return refuse();
      std::string r;
      for (int i = info.first; i <= info.last; ++i) {
        auto it = info.map.find(i);
        if (it == info.map.end()) continue;
        if (failed("GetRegisterDataBuffer", it->second) || failed("ReadRegister", it->second) || regs.count(it->second) == 0) return error();
        r += HexBytes(regs[it->second]);
      }
      return reply(r);
    }
    case 'G': {
      if (!suffix(&a)) return refuse();
      bool bad = !ParseBytes(a, &bytes) || bytes.empty();
      size_t total = 0;
      for (int i = info.first; i <= info.last; ++i) {
        auto it = info.map.find(i);
        if (it == info.map.end()) continue;
        if (failed("GetRegisterDataBuffer", it->second) || regs.count(it->second) == 0) { e.exact.push_back(""); return error(); }
        total += regs[it->second].size();
      }
      if (total == 0) { e.exact.push_back("OK"); return refuse(); }
      if (bad || bytes.size() < total) return refuse();
      sim.Probe("registers-written");
      size_t pos = 0;
      for (int i = info.first; i <= info.last; ++i) {
        auto it = info.map.find(i);
        if (it == info.map.end()) continue;
        std::string& r = regs[it->second];
        r = bytes.substr(pos, r.size());
        pos += r.size();
      }
      return reply("OK");
    }
    case 'H': {
      if (a.size() < 2) return refuse();
      std::string id = a.substr(1);
      if (id == "-1" || id == "0" || (ParseHex(id, &v) && v == 1)) { if (a[0] != 'c' && a[0] != 'g') { e.exact.push_back("OK"); return refuse(); } return reply("OK"); }
      if (ParseHex(id, &v) && v == 0) { e.exact.push_back("OK"); return refuse(); }
      return refuse();
    }
    case 'm': {
      size_t p = a.find(',');
      if (p == std::string::npos || !ParseHex(a.substr(0, p), &v) || !ParseHex(a.substr(p + 1), &n) || n > 16384) return refuse();
      if (n == 0 && acts.empty()) { e.error = true; return reply(""); }
      Call* c = must("ReadMemory");
      if (c->addr != v || c->num != n) Bad("wrong-core-call", "command \"" + Show(cmd) + "\" read " + Hex(c->num) + " bytes at " + Hex(c->addr));
      if (!c->ok) return error();
      if (n != 0 && c->val == 0) return error();
      if (c->val < n) sim.Probe("short-read-reported");
      if (n == 0) e.error = true;
      return reply(HexBytes(c->data));
    }
    case 'M': {
      size_t p = a.find(','), q = a.find(':');
      if (p == std::string::npos || q == std::string::npos || q < p || !ParseHex(a.substr(0, p), &v) || !ParseHex(a.substr(p + 1, q - p - 1), &n)) return refuse();
      if (!ParseBytes(a.substr(q + 1), &bytes) || bytes.size() != n || n > 16384) return refuse();
      if (n == 0) { take("WriteMemory"); e.exact.push_back("OK"); return refuse(); }
      Call* c = must("WriteMemory");
      if (c->addr != v || c->data != bytes) Bad("wrong-core-call", "command \"" + Show(cmd) + "\" wrote " + HexBytes(c->data) + " at " + Hex(c->addr));
      if (!c->ok) return error();
      for (size_t i = 0; i < c->val; ++i) mem[v + i] = bytes[i];
      if (c->val != n) return error();
      sim.Probe("memory-written");
      return reply("OK");
    }
    case 'p': {
      if (!suffix(&a)) return refuse();
      if (!ParseHex(a, &v)) return refuse();
      auto it = info.map.find(v);
      if (it == info.map.end()) return refuse();
      const std::string& name = it->second;
      if (failed("ReadRegister", name) || failed("GetRegisterDataBuffer", name) || regs.count(name) == 0) return error();
      std::string r = regs[name];
      size_t size = bitsize.count(v) ? bitsize[v] / 8 : 0;
      if (size != 0 && size <= 8) r.resize(size, '\0');
      else if (r.size() < size) r.resize(size, '\0');
      return reply(HexBytes(r));
    }
    case 'P': {
      if (!suffix(&a)) return refuse();
      size_t p = a.find('=');
      if (p == std::string::npos || !ParseHex(a.substr(0, p), &v) || !ParseBytes(a.substr(p + 1), &bytes) || bytes.empty()) return refuse();
      auto it = info.map.find(v);
      if (it == info.map.end()) return refuse();
      const std::string& name = it->second;
      if (failed("GetRegisterDataBuffer", name) || regs.count(name) == 0) return error();
      if (Call* c = take("WriteRegister")) if (!c->ok) return error();
      std::string& r = regs[name];
      for (size_t i = 0; i < r.size() && i < bytes.size(); ++i) r[i] = bytes[i];
      sim.Probe("register-written");
      return reply("OK");
    }
    case 'q': {
      if (a == "C") return reply("QC1");
      if (a == "fThreadInfo") return reply("m1");
      if (a == "sThreadInfo") return reply("l");
      if (a == "Attached") return reply("0");
      if (a == "ExecAndArgs") return reply(core.exe);
      if (a == "HostInfo") {
        std::string r, part;
        for (size_t i = 0; i <= info.host.size(); ++i) {
          if (i < info.host.size() && info.host[i] != ';') { part += info.host[i]; continue; }
          size_t p = part.find(':');
          if (p != std::string::npos) {
            std::string key = part.substr(0, p), val = part.substr(p + 1);
            bool enc = key == "triple" || key == "distribution_id" || key == "os_build" || key == "hostname" || key == "os_kernel";
            r += key + ":" + (enc ? HexBytes(val) : val) + ";";
          }
          part.clear();
        }
        return reply(r);
      }
      if (a.find("Supported") == 0) {
        e.pred = [](const std::string& r) {
          uint64_t size = 0;
          if (r.compare(0, 11, "PacketSize=") != 0 || !ParseHex(r.substr(11, r.find(';') - 11), &size) || size < 64 || size > 16384) return false;
          std::string s = ";" + r + ";";
          for (auto f : {";QStartNoAckMode+;", ";swbreak+;", ";qXfer:features:read+;", ";vContSupported+;"}) if (s.find(f) == std::string::npos) return false;
          return true;
        };
        return done();
      }
      const std::string kX = "Xfer:features:read:target.xml:";
      if (a.compare(0, kX.size(), kX) == 0) {
        std::string b = a.substr(kX.size());
        size_t p = b.find(',');
        if (p == std::string::npos || !ParseHex(b.substr(0, p), &v) || !ParseHex(b.substr(p + 1), &n)) return refuse();
        if (v >= info.xml.size()) return reply("l");
        std::string s = info.xml.substr(v, n);
        sim.Probe("xml-read");
        if (v + s.size() == info.xml.size()) e.exact.push_back("l" + s);
        return reply("m" + s);
      }
      if (a == "GDBServerVersion") { e.pred = [](const std::string& r) { return !r.empty() && r[0] != 'E'; }; return done(); }
      return refuse();
    }
    case 'Q':
      if (a == "ThreadSuffixSupported") { thread_suffix = true; return reply("OK"); }
      if (a == "StartNoAckMode" || a == "EnableErrorStrings" || a == "ListThreadsInStopReply") return reply("OK");
      return refuse();
    case 's': {
      if (!suffix(&a)) return refuse();
      Call* c = must("Step");
      if (c->num != 1) Bad("wrong-core-call", "a step of " + Hex(c->num) + " instructions");
      if (!c->ok) return error();
      take("Wait");
      Call* r = last("GetLastHaltReason", "");
      uint32_t now = c->reason;
      if (r != nullptr && !r->ok) { e.pred = [](const std::string& x) { return x.compare(0, 3, "T05") == 0; }; return error(); }
      if (r != nullptr) cached = r->val;
      if (now == kDone || now == kSemi) { maybe_done = true; return reply("W00"); }
      maybe_done = false;
      e.pred = [](const std::string& x) { return x.compare(0, 3, "T05") == 0; };
      return done();
    }
    case 'v': {
      if (cmd == "vMustReplyEmpty") return reply("");
      if (cmd == "vCont?") { e.pred = [](const std::string& r) { return r.compare(0, 5, "vCont") == 0 && (r + ";").find(";c;") != std::string::npos && (r + ";").find(";s;") != std::string::npos; }; return done(); }
      if (cmd.compare(0, 6, "vCont;") != 0) return refuse();
      std::string rest = cmd.substr(6) + ";", part;
      char act = 0;
      bool bad = false, zero = false;
      for (char ch : rest) {
        if (ch != ';') { part += ch; continue; }
        bool all_threads = part.size() == 1;
        if (part.empty() || (part[0] != 'c' && part[0] != 's') || (part.size() > 1 && part[1] != ':')) bad = true;
        else if (!all_threads) {
          std::string id = part.substr(2);
          if (id == "-1") all_threads = true;
          else if (ParseHex(id, &v) && v == 1) all_threads = true;
          else if (ParseHex(id, &v) && v == 0) zero = true;
          else bad = true;
        }
        if (!bad && act == 0) act = part[0];
        part.clear();
      }
      if (bad || act == 0) return refuse();
      if (zero && acts.empty()) return error();
      if (cached == kDone) return reply("W00");
      if (maybe_done && acts.empty()) { e.error = failed("GetRunStatus", ""); return reply("W00"); }
      if (failed("GetRunStatus", "")) return error();
      Call* rs = last("GetRunStatus", "");
      if (rs != nullptr && rs->val != 0) { sim.Probe("continue-while-running"); if (acts.empty()) return error(); }
      else {
        Call* c = must(act == 'c' ? "Run" : "Step");
        if (act == 's' && c->num != 1) Bad("wrong-core-call", "a step of " + Hex(c->num) + " instructions");
        if (!c->ok) return error();
        sim.Probe(act == 'c' ? "vcont-continue" : "vcont-step");
      }
      Call* wait = act == 'c' || (rs != nullptr && rs->val != 0) ? must("Wait") : take("Wait");
      if (wait != nullptr && !wait->ok) return error();
      maybe_done = false;
      Call* r = last("GetLastHaltReason", "");
      if (r == nullptr) Bad("halt-reason-not-asked", "command \"" + Show(cmd) + "\" was answered without asking the core for its halt reason");
      bool reason_failed = false;
      for (Call* x : all) if (x->what == "GetLastHaltReason" && !x->ok) reason_failed = true;
      if (reason_failed) {
        // Any call of several may have failed; the others tell.
        e.pred = [](const std::string& x) { return x.compare(0, 4, "T05t") == 0; };
        for (Call* x : all) if (x->what == "GetLastHaltReason" && x->ok) { r = x; cached = r->val; }
        if (!r->ok) return error();
        e.error = true;
      }
      cached = r->val;
      if (cached == kDone || cached == kSemi) return reply("W00");
      if (failed("ReadRegister", "pc") || failed("GetRegisterDataBuffer", "pc")) return error();
      sim.Probe("stop-reply");
      std::string t = "T05thread:1;", pc = pc_text();
      switch (static_cast<HR>(cached)) {
        case HR::kSoftwareBreakpoint: return reply(t + "swbreak:;" + pc);
        case HR::kHardwareBreakpoint: e.exact.push_back(t + "hwbreak:;"); return reply(t + "hwbreak:;" + pc);
        case HR::kDataWatchPoint: {
          const char* k = watch_type == 1 ? "rwatch:" : watch_type == 2 ? "watch:" : watch_type == 3 ? "awatch:" : nullptr;
          if (k == nullptr) return reply(t + pc);
          sim.Probe("watchpoint-reported");
          std::string addr = Hex(watch_addr);
          auto before = e.pred;
          e.pred = [t, pc, k, addr, before](const std::string& r) {   // leading zeros do not matter
            if (before && before(r)) return true;
            std::string head = t + k, tail = ";" + pc;
            if (r.size() < head.size() + tail.size() || r.compare(0, head.size(), head) != 0 || r.compare(r.size() - tail.size(), tail.size(), tail) != 0) return false;
            std::string x = r.substr(head.size(), r.size() - head.size() - tail.size());
            while (x.size() > 1 && x[0] == '0') x.erase(0, 1);
            return x == addr;
          };
          return done();
        }
        case HR::kActionPoint: case HR::kSimulatorError: return reply("T06thread:1;" + pc);
        case HR::kUserRequest: return reply("T03thread:1;" + pc);
        default: return reply(t + pc);
      }
    }
    case 'z':
    case 'Z': {
      size_t p = a.find(','), q = p == std::string::npos ? p : a.find(',', p + 1);
      if (a.empty() || p != 1 || q == std::string::npos || q + 1 >= a.size() || !ParseHex(a.substr(2, q - 2), &v) || a[0] != '0') return refuse();
      Call* c = must(cmd[0] == 'Z' ? "SetSwBreakpoint" : "ClearSwBreakpoint");
      if (c->addr != v) Bad("wrong-core-call", "command \"" + Show(cmd) + "\" used address " + Hex(c->addr));
      if (c->ok) { sim.Probe(cmd[0] == 'Z' ? "breakpoint-set" : "breakpoint-cleared"); return reply("OK"); }
      if (c->unimplemented) return reply("");
      return error();
    }
    default: return refuse();
  }
}

// --------------------------------------------------- reference of the session

inline void World::Verify(dst::Conn* c, bool) {
  const std::string &in = c->server_read, &out = c->server_written;
  size_t ip = 0, op = 0, ci = 0;
  bool noack = false, latch = false;
  thread_suffix = false;
  bool ended = false;         // the reference server has ended the session
  bool cut = false;           // output stopped short at a failed write
  const bool wfail = c->write_errors > 0;
  int number = 0;
  // Output expected to continue; true if it was cut by a failed write.
  auto starved = [&](const char* what) {
    if (op < out.size()) return false;
    if (wfail) { cut = true; return true; }
    Bad("no-response", std::string("the server wrote no ") + what + " for packet " + std::to_string(number) + " although no write failed");
  };
  // One response packet; returns false if cut.
  auto packet = [&](std::string* payload, std::string* raw) {
    if (starved("response")) return false;
    size_t p = op, end = std::string::npos;
    if (out[p] != '$') Bad("garbled-response", "expected a response packet to packet " + std::to_string(number) + ", the server wrote \"" + Show(out.substr(op)) + "\"");
    for (size_t i = p + 1; i < out.size(); ++i) {
      if (out[i] == '#') { end = i; break; }
      if (out[i] == '$' || out[i] == '*') Bad("garbled-response", "the response \"" + Show(out.substr(op)) + "\" has an unescaped '" + out[i] + "' in its payload");
    }
    if (end == std::string::npos || end + 2 >= out.size()) {
      if (wfail) { cut = true; return false; }
      Bad("garbled-response", "the response \"" + Show(out.substr(op)) + "\" is incomplete although no write failed");
    }
    unsigned char sum = 0;
    payload->clear();
    for (size_t i = p + 1; i < end; ++i) {
      sum += out[i];
      if (out[i] == '}') {
        if (i + 1 == end) Bad("garbled-response", "the response \"" + Show(out.substr(op)) + "\" ends in an escape");
        sum += out[++i];
        *payload += static_cast<char>(out[i] ^ 0x20);
      } else *payload += out[i];
    }
    int hi = HexVal(out[end + 1]), lo = HexVal(out[end + 2]);
    if (hi < 0 || lo < 0 || hi * 16 + lo != sum) Bad("garbled-response", "the response \"" + Show(out.substr(op)) + "\" has a wrong checksum");
    *raw = out.substr(op, end + 3 - op);
    op = end + 3;
    return true;
  };
  // The response to a packet with its retransmissions.
  auto respond = [&](const std::string& cmd, const Expect& e) {
    std::string payload, raw;
    if (!packet(&payload, &raw)) return;
    if (!e.Ok(payload)) Bad("wrong-reply", "reply to \"" + Show(cmd) + "\" is \"" + Show(payload) + "\", expected " + e.Text());
    if (noack) return;
    for (int sent = 1;; ++sent) {
      if (ip == in.size()) {     // no more input: it may have tried again, then has to give up
        ended = true;
        while (sent < 5 && out.compare(op, raw.size(), raw) == 0 && op < out.size()) { op += raw.size(); ++sent; }
        if (op < out.size() && wfail && raw.compare(0, out.size() - op, out.substr(op)) == 0) op = out.size();
        return;
      }
      char ack = in[ip++];
      if (ack == '+') return;
      sim.Probe("response-not-acknowledged");
      if (sent == 5) { ended = true; sim.Probe("retry-limit"); return; }
      std::string again, raw2;
      if (!packet(&again, &raw2)) return;
      if (raw2 != raw) Bad("retransmission-differs", "the response to \"" + Show(cmd) + "\" was \"" + Show(raw) + "\", its retransmission \"" + Show(raw2) + "\"");
      sim.Probe("response-retransmitted");
    }
  };
  if (!in.empty()) {
    if (in[ip++] != '+') ended = true;
  }
  std::string why = "the handshake failed";
  while (!ended && !cut && ip < in.size()) {
    if (in[ip] != '$') { ended = true; ip++; break; }
    size_t h = in.find('#', ip);
    if (h == std::string::npos || h + 2 >= in.size()) {
      if ((h == std::string::npos ? in.size() : h) - ip + 3 > 8200) { if (in.size() - ip + 3 > 16384) sim.Probe("oversize-packet"); ended = true; }   // longer than advertised
      ip = in.size();
      break;
    }
    number++;
    std::string body = in.substr(ip + 1, h - ip - 1);
    int hi = HexVal(in[h + 1]), lo = HexVal(in[h + 2]);
    bool oversize = h + 3 - ip > 16384;
    ip = h + 3;
    unsigned char sum = 0;
    for (char ch : body) sum += ch;
    size_t start = op;
    // Calls made before this packet was answered.
    std::vector<Call*> mine;
    auto collect = [&] {
      while (ci < calls.size() && calls[ci].written <= op) {
        if (calls[ci].read < ip) Bad("command-not-intact", calls[ci].what + "() was called on the core before packet " + std::to_string(number) + " had been received");
        mine.push_back(&calls[ci++]);
      }
    };
    bool good = hi >= 0 && lo >= 0 && hi * 16 + lo == sum;
    if (oversize) {
      sim.Probe("oversize-packet");
      // Rejected or the end of the session, but not executed.
      if (op == out.size() && !wfail) { ended = true; break; }
    }
    if (!good || oversize) {
      if (!good) sim.Probe("bad-checksum");
      collect();
      for (Call* k : mine) Bad("command-not-intact", k->what + "() was called on the core for a packet that was " + (good ? "too long" : "corrupted"));
      if (!noack && good && op < out.size() && out[op] == '+') op++;
      if (!noack && (!good || (op < out.size() && out[op] == '-'))) {
        if (starved("reject")) break;
        if (out[op] != '-') Bad("bad-packet-accepted", "a corrupted packet was answered \"" + Show(out.substr(op)) + "\"");
        op++;
      } else {
        Expect e;
        e.error = true;
        respond("(bad packet)", e);
      }
      continue;
    }
    if (!noack) {
      if (starved("acknowledgement")) break;
      if (out[op] != '+') Bad("good-packet-rejected", "packet \"" + Show(body) + "\" was not acknowledged but answered \"" + Show(out.substr(op)) + "\"");
      op++;
    }
    (void)start;
    collect();
    std::string cmd;
    bool broken = false;
    for (size_t i = 0; i < body.size(); ++i) {
      if (body[i] == '}') {
        if (++i == body.size()) { broken = true; break; }
        cmd += static_cast<char>(body[i] ^ 0x20);
      } else cmd += body[i];
    }
    Expect e;
    if (broken) {
      sim.Probe("incomplete-escape");
      e.error = true;
      e.exact.push_back("");
      for (Call* k : mine) if (k->what.find("Get") != 0 && k->what != "ReadRegister") Bad("command-not-intact", k->what + "() was called on the core for a command with an incomplete escape");
    } else {
      e = Exec(cmd, mine);
      commands++;
    }
    sim.Log("command \"%s\"", Show(cmd).c_str());
    if (!broken && cmd == "QStartNoAckMode") latch = true;
    if (!e.none) respond(cmd, e);
    if (latch && !noack) { noack = true; sim.Probe("no-ack-mode"); }
    if (e.end) { ended = true; sim.Probe(e.none ? "killed" : "detached"); }
    sim.NonTrivial();
  }
  // After a failed write, commands received may still have been executed.
  auto lost = [&] { Sync(); cached = static_cast<uint32_t>(HR::kNone); maybe_done = true; watch_addr = cores[0]->watch_addr; watch_type = static_cast<int>(cores[0]->watch_type); };
  if (cut) { lost(); return; }
  if (op < out.size() && !wfail) Bad("unasked-output", "after " + std::to_string(number) + " packets the server wrote \"" + Show(out.substr(op)) + "\" on top of its responses");
  if (op < out.size()) Bad("garbled-response", "after a failed write the server wrote \"" + Show(out.substr(op)) + "\"");
  if (ip < in.size()) Bad("input-after-end", "the server read \"" + Show(in.substr(ip)) + "\" after its session had ended");
  if (ci < calls.size() && !wfail) Bad("unasked-core-call", calls[ci].what + "() was called on the core after the last command had been answered");
  bool input_over = (c->client_fin && c->to_server.empty()) || c->reset || c->read_errors > 0;
  if (!ended && !input_over && !wfail) Bad("session-dropped", "the server ended the session after " + std::to_string(number) + " packets (\"" + Show(in.size() > 40 ? in.substr(in.size() - 40) : in) + "\" read last) although nothing asked for it");
  if (ci < calls.size()) { lost(); return; }
  for (auto& [n, db] : cores[0]->regs) {
    auto b = db->Get<uint8_t>();
    std::string now(b.begin(), b.end());
    if (now != regs[n]) Bad("register-altered", "register " + n + " is " + HexBytes(now) + ", the commands make it " + HexBytes(regs[n]));
  }
  if (cores[0]->mem != mem) {
    for (auto& [a, v] : cores[0]->mem) if (mem.count(a) == 0 || mem[a] != v) Bad("memory-altered", "memory at " + Hex(a) + " differs from what the commands make it");
  }
}

// ------------------------------------------------------------------ the client

inline std::string World::Command() {
  dst::Sim& sim = this->sim;
  bool odd = !stream_faults && sim.Chance(1, 6);    // malformed
  auto junk = [&] {
    static const char* const k[] = {"zz", "", "12g4", "11223344556677889", ",", "x", "-", ";", "1:", "-1"};
    return std::string(k[sim.Pick(10)]);
  };
  auto addr = [&] { return odd && sim.Chance(1, 2) ? junk() : Hex(sim.Chance(1, 6) ? sim.Bits() : sim.Pick(64)); };
  auto bytes = [&](size_t n) {
    std::string d;
    for (size_t i = 0; i < n; ++i) d += static_cast<char>(sim.Pick(256));
    std::string h = HexBytes(d);
    if (sim.Chance(1, 8)) for (char& c : h) c = toupper(c);
    if (odd && sim.Chance(1, 2)) {
      switch (sim.Pick(4)) {
        case 0: h += "1"; break;
        case 1: if (!h.empty()) h[sim.Pick(h.size())] = 'x'; break;
        case 2: h = h.substr(0, h.size() / 2); break;
        case 3: h += "00"; break;
      }
    }
    return h;
  };
  auto suffix = [&]() -> std::string {
    if (!thread_suffix) return "";
    static const char* const k[] = {"", ";thread:1;", ";thread:0001;", ";thread:1", ";thread:1;"};
    static const char* const b[] = {";thread:2;", ";thread:0;", ";thread:x;", ";thread:;", ";thread:99999999999999999999;"};
    return odd ? b[sim.Pick(5)] : k[sim.Pick(5)];
  };
  auto reg = [&] { return odd && sim.Chance(1, 2) ? junk() : Hex(sim.Chance(1, 12) ? sim.Pick(128) : sim.Range(info.first, info.pc + 2)); };
  switch (sim.Weighted({6, 6, 6, 6, 4, 4, 6, 6, 4, 8, 6, 6, 2, 3, 3, 2, 2, 4, 3, 2, 1})) {
    case 0: return "?";
    case 1: return "c" + (sim.Chance(1, 2) ? addr() : std::string()) + suffix();
    case 2: return "s" + suffix();
    case 3: {
      static const char* const k[] = {"vCont;c", "vCont;s:1", "vCont;c:1", "vCont;s:1;c", "vCont;s:1;c:-1", "vCont;c:-1", "vCont;s:-1", "vCont;c:1;s:1", "vCont;s", "vCont?"};
      static const char* const b[] = {"vCont", "vCont;", "vCont;x:1", "vCont;c:2", "vCont;c:0", "vCont;c:-2", "vCont;s:1;x:1", "vCont;s:1;c:5", "vCont;:1", "vCont;c:", "vContc", "vCont;C05:1", "v", "vCont;c:1;"};
      return odd ? b[sim.Pick(14)] : k[sim.Pick(10)];
    }
    case 4: return "g" + suffix();
    case 5: {
      size_t total = 0;
      for (int i = info.first; i <= info.last; ++i) { auto it = info.map.find(i); if (it != info.map.end() && regs.count(it->second)) total += regs[it->second].size(); }
      if (sim.Chance(1, 8)) total += sim.Range(1, 8);
      return "G" + bytes(total) + suffix();
    }
    case 6: return "p" + reg() + suffix();
    case 7: {
      std::string r = reg();
      uint64_t v = 0;
      size_t n = 8;
      if (ParseHex(r, &v) && info.map.count(v) && regs.count(info.map[v])) n = regs[info.map[v]].size();
      if (sim.Chance(1, 6)) n = sim.Range(1, 20);
      return "P" + r + (odd && sim.Chance(1, 4) ? "" : "=") + bytes(n) + suffix();
    }
    case 8: case 9: {
      size_t n = sim.Chance(1, 30) ? sim.Range(0, 17000) : sim.Range(0, 40);
      return "m" + addr() + (odd && sim.Chance(1, 4) ? "" : ",") + (odd && sim.Chance(1, 3) ? junk() : Hex(n));
    }
    case 10: case 11: {
      size_t n = sim.Chance(1, 30) ? sim.Range(100, 4000) : sim.Range(0, 12);
      return "M" + addr() + (odd && sim.Chance(1, 5) ? "" : ",") + (odd && sim.Chance(1, 4) ? junk() : Hex(n)) + (odd && sim.Chance(1, 5) ? "" : ":") + bytes(n);
    }
    case 12: {
      static const char* const k[] = {"qC", "qfThreadInfo", "qsThreadInfo", "qAttached", "qExecAndArgs", "qHostInfo", "qSupported", "qSupported:error-message+;swbreak+", "qGDBServerVersion", "qExecAndArgs"};
      static const char* const b[] = {"q", "qSymbol::", "qSearch", "qX", "qXfer:features:read:target.xml:", "qXfer:features:read:target.xml:zz,4", "qL", "qSupported:", "qXfer:features:read:target.xml:11223344556677889,1"};
      return odd ? b[sim.Pick(9)] : k[sim.Pick(10)];
    }
    case 13: return "qXfer:features:read:target.xml:" + Hex(sim.Chance(1, 3) ? 0 : sim.Pick(info.xml.size() + 4)) + "," + Hex(sim.Chance(1, 8) ? ~0ull - sim.Pick(4) : sim.Range(1, info.xml.size() + 8));
    case 14: {
      static const char* const k[] = {"Hg1", "Hc-1", "Hg0", "Hc1"};
      static const char* const b[] = {"H", "Hg", "Hg2", "Hc-2", "Hgx", "Hc7fffffff", "Hg-1x", "Hcffffffffff"};
      return odd ? b[sim.Pick(8)] : k[sim.Pick(4)];
    }
    case 15: {
      static const char* const k[] = {"QThreadSuffixSupported", "QStartNoAckMode", "QEnableErrorStrings", "QListThreadsInStopReply"};
      return odd ? (sim.Chance(1, 2) ? "Q" : "QNonStop:1") : k[sim.Pick(4)];
    }
    case 16: return sim.Chance(1, 2) ? "qExecAndArgs" : "qHostInfo";
    case 17: case 18: return std::string(sim.Chance(1, 2) ? "Z" : "z") + (sim.Chance(5, 6) ? '0' : static_cast<char>('1' + sim.Pick(5))) + "," + addr() + (odd && sim.Chance(1, 4) ? "" : ",") + (odd && sim.Chance(1, 4) ? "" : Hex(sim.Range(1, 8)));
    case 19: {
      if (sim.Chance(1, 2)) return "vMustReplyEmpty";
      std::string r;
      int n = sim.Pick(6);
      for (int i = 0; i < n; ++i) r += static_cast<char>(sim.Pick(256));
      if (!r.empty() && std::string("?cDgGHkmMpPqQsvzZ").find(r[0]) != std::string::npos) r[0] = 'j';
      return r;
    }
    default: return sim.Chance(1, 8) ? (sim.Chance(1, 2) ? "k" : "D") : "?";
  }
}

inline void World::Session(dst::Conn* c) {
  dst::Sim& sim = this->sim;
  bool noack = false;
  auto send = [&](const std::string& s) {
    for (size_t i = 0; i < s.size();) {
      size_t n = stream_faults && s.size() < 400 && sim.Chance(1, 6) ? 1 + sim.Pick(s.size() - i) : s.size() - i;
      c->to_server.insert(c->to_server.end(), s.begin() + i, s.begin() + i + n);
      i += n;
      if (i < s.size()) sched.Yield();
    }
  };
  auto leave = [&] {
    if (c->client_fin || c->reset) return;
    int k = stream_faults ? sim.Pick(3) : 0;
    if (k == 2) { c->reset = c->client_gone = true; c->to_server.clear(); sim.Fault("client-resets"); }
    else if (k == 1) { c->client_fin = c->client_gone = true; sim.Fault("client-closes"); }
    else { c->client_fin = true; sim.Fault("client-half-closes"); }
    sim.Log("client leaves (%d)", k);
  };
  auto over = [&] { return c->server_closed || sched.draining() || c->client_fin || c->reset; };
  std::string rx;
  // With stream faults nobody may be about to answer: returns false then.
  auto receive = [&] {
    if (!stream_faults && c->to_client.empty() && !over()) sched.Block("client reads", [&] { return !c->to_client.empty() || over(); });
    for (int k = 0; k < 60 && c->to_client.empty() && !over(); ++k) sched.Yield();
    bool got = !c->to_client.empty();
    rx.append(c->to_client.begin(), c->to_client.end());
    c->to_client.clear();
    return got;
  };
  send(stream_faults && sim.Chance(1, 40) ? "x" : "+");
  int n = sim.Weighted({1, 3, 6}) == 2 ? sim.Range(4, 40) : sim.Range(0, 6);
  for (int i = 0; i < n && !over(); ++i) {
    std::string cmd = Command();
    if (cmd == "QThreadSuffixSupported") thread_suffix = true;    // only steers what is sent
    bool will_noack = cmd == "QStartNoAckMode";
    std::string p = Packet(cmd, sim.Chance(1, 4), sim);
    bool whole = true;
    if (stream_faults && sim.Chance(1, 8)) {
      whole = false;
      size_t k = sim.Pick(p.size());
      switch (sim.Weighted({4, 4, 3, 3, 2, 1, 1, 1, 1})) {
        case 0: p[p.size() - 1 - sim.Pick(2)] ^= 1 << sim.Pick(4); sim.Fault("checksum-corrupted"); break;
        case 1: p[k] ^= 1 << sim.Pick(8); sim.Fault("byte-corrupted"); break;
        case 2: p.erase(k, 1); sim.Fault("byte-lost"); break;
        case 3: p.insert(k, 1, p[k]); sim.Fault("byte-duplicated"); break;
        case 4: p += p; sim.Fault("packet-duplicated"); break;
        case 5: p = p.substr(0, k); sim.Fault("packet-truncated"); send(p); leave(); return;
        case 6: {
          // A valid write of as much memory as makes the packet that long.
          size_t total = sim.Chance(1, 2) ? sim.Range(16380, 16389) : sim.Range(16370, 17200), n = (total - 4 - 8) / 2;
          std::string big = std::string((total - 4 - 8) % 2 ? "M00," : "M0,") + Hex(n) + ":" + std::string(2 * n, '6');
          p = Packet(big, false, sim); sim.Fault("oversize-packet-sent"); break; }
        case 7: p = Packet("qC", false, sim); p = p.substr(0, p.size() - 3) + "}#"; { unsigned char s = 'q' + 'C' + '}'; char b[4]; snprintf(b, sizeof b, "%02x", s); p += b; } sim.Fault("escape-cut"); break;
        case 8: p = Packet(std::string("M") + Hex(sim.Pick(64)) + ",1000:" + std::string(8192, '5'), false, sim); sim.Fault("long-packet"); break;
      }
    }
    send(p);
    if (stream_faults && sim.Chance(1, 60)) { leave(); return; }
    rx.clear();
    // Until the packet is answered.
    int naks = 0;
    while (!over()) {
      if (!receive() && !over()) {   // stuck: shake it
        static const char* const k[] = {"+", "#00", "-", "$"};
        send(k[sim.Weighted({4, 3, 2, 1})]);
        if (++naks > 6) break;
        continue;
      }
      if (!rx.empty() && rx[0] == '+') rx.erase(0, 1);
      if (!rx.empty() && rx[0] == '-') {
        rx.erase(0, 1);
        if (whole || sim.Chance(1, 2)) { whole = true; send(Packet(cmd, false, sim)); continue; }
        break;
      }
      if (!rx.empty() && rx[0] != '$') { rx.clear(); break; }
      size_t h = rx.find('#');
      if (h == std::string::npos || h + 2 >= rx.size()) continue;
      rx.erase(0, h + 3);
      if (noack) break;
      if (stream_faults && sim.Chance(1, 12)) {
        static const char kBad[] = {'-', '-', 'x', '\xff', '$', '\0'};
        char b = kBad[sim.Pick(6)];
        if (sim.Chance(1, 12)) { leave(); return; }
        sim.Fault("response-nak");
        send(std::string(sim.Chance(1, 8) ? 5 : 1, b));
        continue;
      }
      send("+");
      if (will_noack) noack = true;
      break;
    }
  }
  if (over() && !sched.draining()) return;
  if (!sched.draining() && sim.Chance(1, 3)) { send(Packet(sim.Chance(1, 2) ? "D" : "k", false, sim)); receive(); if (!c->server_closed) send("+"); if (!stream_faults) return; }
  c->client_fin = true;
}

inline void World::Client() {
  while (!owner_done) {
    sched.Block("client waits", [&] { return owner_done || net.AnyListening(); });
    if (owner_done) break;
    dst::Conn* c = net.Connect(port);
    if (c == nullptr) continue;
    c->capacity = stream_faults && sim.Chance(1, 3) ? sim.Range(1, 6) : 1 << 20;
    thread_suffix = false;
    if (!sched.draining()) Session(c);
    c->capacity = size_t{1} << 30;
    // The server has to end the session by itself from here on.
    auto gone = [&] { return owner_done || c->server_closed; };
    if (!gone() && !c->client_fin && !c->reset && !sched.draining()) sched.Block("client waits for the end", [&] { c->to_client.clear(); return gone() || sched.draining(); });
    c->client_fin = true;
    sched.Block("client gone", [&] { c->to_client.clear(); return gone(); });
  }
}

inline void World::Owner() {
  dst::Sim& sim = this->sim;
  std::vector<CoreDebugInterface*> ptrs;
  for (auto& c : cores) ptrs.push_back(c.get());
  auto* server = new GdbServer(absl::MakeSpan(ptrs), info);
  int rounds = sim.Weighted({0, 5, 2, 1});
  for (int r = 0; r < rounds; ++r) {
    net.setup_failures.clear();
    calls.clear();
    conn = nullptr;
    size_t before = net.conns.size();
    int p = stream_faults && sim.Chance(1, 24) ? -static_cast<int>(sim.Pick(2)) : port;
    sim.Log("owner: Connect(%d)", p);
    bool ok = server->Connect(p);
    sim.Log("owner: Connect returns %d", ok);
    if (ok && (p <= 0 || !net.setup_failures.empty())) Bad("setup-failure", std::string("Connect reports success although ") + (p <= 0 ? "the port is invalid" : net.setup_failures[0] + "() failed"));
    if (net.OpenCount() != 0) Bad("descriptor-leak", std::to_string(net.OpenCount()) + " descriptors still open after the session ended");
    dst::Conn* c = nullptr;
    for (size_t i = before; i < net.conns.size(); ++i) if (net.conns[i]->accepted) c = net.conns[i].get();
    if (c != nullptr) Verify(c, true);
    else if (!calls.empty()) Bad("call-without-session", "calls on the core although no client was accepted");
    sim.State(dst::Mix(commands) ^ dst::Mix(cached * 31 + net.setup_failures.size()) ^ (c ? c->write_errors * 3 + c->read_errors : 9));
    if (r > 0 && c != nullptr) sim.Probe("session-after-session");
  }
  delete server;
  if (net.OpenCount() != 0) Bad("descriptor-leak", std::to_string(net.OpenCount()) + " descriptors still open after destruction");
  owner_done = true;
}

// Registers, their description and the other core state.
inline void World::Build() {
  dst::Sim& sim = this->sim;
  info.width = sim.Chance(1, 2) ? 64 : 32;
  info.first = sim.Pick(2);
  int count = sim.Range(1, 5);
  if (sim.Chance(1, 6)) { count = sim.Range(6, 70); sim.Probe("many-registers"); }
  info.last = info.first + count - 1;
  info.pc = info.last + 1;
  static const int kSizes[] = {4, 8, 8, 1, 2, 16, 32, 64, 128};
  int n = sim.Chance(1, 3) ? sim.Range(2, 3) : 1;
  for (int i = 0; i < n; ++i) { cores.push_back(std::make_unique<Core>(*this)); cores.back()->extra = i > 0; }
  Core& core = *cores[0];
  info.xml = "<?xml version=\"1.0\"?>\n<target> <!-- # * $ } -->\n";
  for (int i = info.first; i <= info.pc + 1; ++i) {
    if (i != info.pc && sim.Chance(1, 8)) continue;   // gap
    std::string name = i == info.pc ? "pc" : i > info.pc ? "v0" : "x" + std::to_string(i);
    info.map[i] = name;
    int size = i == info.pc ? info.width / 8 : i > info.pc ? kSizes[sim.Pick(9)] : sim.Chance(3, 4) ? info.width / 8 : kSizes[sim.Pick(9)];
    if (i == info.pc || !sim.Chance(1, 20)) {   // else: not known to the core
      DataBuffer* db = dbf.Allocate<uint8_t>(size);
      core.regs[name] = db;
      for (auto& b : db->Get<uint8_t>()) b = sim.Pick(256);
    }
    int bits = sim.Chance(1, 5) ? 8 * kSizes[sim.Pick(9)] : 8 * size;
    if (i == info.pc || !sim.Chance(1, 8)) {
      bitsize[i] = bits;
      info.xml += "  <reg bitsize=\"" + std::to_string(bits) + "\" name=\"" + name + "\" regnum=\"" + std::to_string(i) + "\" />\n";
    }
  }
  info.xml += "</target>\n";
  static const char* const kHosts[] = {"", "triple:riscv64-unknown-elf;endian:little;ptrsize:8;", "hostname:a#b;os_kernel:5*;x:1", "endian:little;;vendor:unknown;distribution_id:d;os_build:}b;", "triple:a;flag;ptrsize:4"};
  info.host = kHosts[sim.Pick(5)];
  static const char* const kExes[] = {"", "/bin/prog", "/tmp/a#b.elf", "x*y}$", "\xc3\xa9.elf"};
  core.exe = kExes[sim.Pick(5)];
  for (int i = 0; i < 64; ++i) if (sim.Chance(1, 2)) core.mem[i] = static_cast<char>(sim.Pick(256));
  core.reason = static_cast<uint32_t>(HR::kNone);
  Sync();
}

inline void RunGdb(dst::Sim& sim, bool stream_faults) {
  {
    World w(sim, stream_faults);
    w.Build();
    auto& r = w.net.rates;
    if (stream_faults) {
      sim.set_max_steps(sim.Chance(1, 4) ? sim.Range(500, 6000) : sim.Range(100, 1500));
      w.net.calm = sim.Chance(2, 3);
      if (sim.Chance(1, 10)) r.setup = sim.Range(1, 16);
      if (sim.Chance(1, 8)) r.accept = sim.Range(1, 24);
      if (sim.Chance(1, 6)) r.read = 1;
      if (sim.Chance(1, 6)) r.write = 1;
      if (sim.Chance(1, 8)) r.close = 32;
      if (sim.Chance(1, 3)) r.eintr = sim.Range(1, 8);
      if (sim.Chance(1, 3)) r.shorts = 32;
    } else {
      sim.set_max_steps(2000);
      w.net.calm = true;
      w.cores[0]->fail = sim.Chance(1, 2) ? 0 : sim.Range(1, 10);
    }
    w.sched.set_on_drain([&] { w.net.calm = true; });
    w.sched.Spawn("server", [&] { w.Owner(); });
    w.sched.Spawn("client", [&] { w.Client(); });
    w.sched.Run();
    sim.AdvanceTime(w.sched.switches());
    for (auto& [n, db] : w.cores[0]->regs) db->DecRef();
  }
}
}  // namespace gdbw
