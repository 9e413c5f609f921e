// C13: action points and breakpoints. Real code: ActionPointManagerBase,
// BreakpointManager. Stub: the target memory (original or breakpoint
// instruction per address), whose writes can be made to fail.
#include <map>
#include <memory>
#include <set>
#include <vector>

#include "mpact/sim/generic/action_point_manager_base.h"
#include "mpact/sim/generic/breakpoint_manager.h"
#include "sim.h"

using namespace mpact::sim::generic;
const char* const kHarnessProperty = "C13";
const bool kHarnessChecksLeaks = true;

namespace {
struct World;
struct Memory : public ActionPointMemoryInterface {
  World* w;
  explicit Memory(World* x) : w(x) {}
  std::map<uint64_t, bool> bp;
  absl::Status Write(uint64_t a, bool b);
  absl::Status WriteOriginalInstruction(uint64_t a) override { return Write(a, false); }
  absl::Status WriteBreakpointInstruction(uint64_t a) override { return Write(a, true); }
};
enum Script { kNothing, kClearSelf, kClearOther, kSetNew, kDisableSelf, kDisableOther, kEnableOther, kClearBreak, kHitOther, kNumScripts };
struct Action {
  uint64_t addr = 0;
  int id = -1;
  bool enabled = true;
  bool exists = true;
  int runs = 0;          // in the current hit
  Script script = kNothing;
  int target = -1;
  bool is_bp = false;
};

struct World {
  dst::Sim& sim;
  Memory mem{this};
  std::unique_ptr<ActionPointManagerBase> mgr;
  std::unique_ptr<BreakpointManager> bpm;
  std::vector<std::unique_ptr<Action>> acts;
  std::map<uint64_t, Action*> bps;
  std::set<uint64_t> ever;
  std::vector<uint64_t> addrs;
  int fail_budget = 0;      // the next n memory writes fail
  std::set<uint64_t> failed_at;
  int observe_every = 1;    // looking must not be what keeps the state right
  size_t max_acts = 40;
  bool failed = false;      // a write failed during the current operation
  int halts = 0, ops = 0, hits = 0, depth = 0;
  std::map<uint64_t, int> expected_halts;
  explicit World(dst::Sim& s) : sim(s) {}

  int Active(uint64_t a) { int k = 0; for (auto& x : acts) k += x->exists && x->addr == a && x->enabled; return k; }
  int Count(uint64_t a) { int k = 0; for (auto& x : acts) k += x->exists && x->addr == a; return k; }
  void Check(const char* what, bool must = false) {
    if (!must && observe_every > 1 && sim.Pick(observe_every) != 0) return;
    for (uint64_t a : addrs) {
      bool want = Active(a) > 0;
      SIM_CHECK(sim, mem.bp[a] == want, "memory", "%s: address %lx holds the %s instruction with %d enabled actions", what, (unsigned long)a, mem.bp[a] ? "breakpoint" : "original", Active(a));
      SIM_CHECK(sim, mgr->IsActionPointActive(a) == want, "active", "%s: IsActionPointActive(%lx) is %d with %d enabled actions", what, (unsigned long)a, !want, Active(a));
      if (Count(a) > 0) SIM_CHECK(sim, mgr->HasActionPoint(a), "has", "%s: HasActionPoint(%lx) false with %d actions", what, (unsigned long)a, Count(a));
      if (!ever.count(a)) SIM_CHECK(sim, !mgr->HasActionPoint(a), "has", "%s: HasActionPoint(%lx) true but none was set", what, (unsigned long)a);
      bool bp = bps.count(a);
      SIM_CHECK(sim, bpm->HasBreakpoint(a) == bp, "breakpoint-list", "%s: HasBreakpoint(%lx) is %d", what, (unsigned long)a, !bp);
      bool on = bp && bps[a]->enabled;
      SIM_CHECK(sim, bpm->IsBreakpoint(a) == on, "breakpoint-list", "%s: IsBreakpoint(%lx) is %d", what, (unsigned long)a, !on);
    }
    for (auto& x : acts) {
      if (x->is_bp) continue;
      if (!x->exists) continue;
      SIM_CHECK(sim, mgr->IsActionEnabled(x->addr, x->id) == x->enabled, "enabled", "%s: action %d at %lx reported %s", what, x->id, (unsigned long)x->addr, x->enabled ? "disabled" : "enabled");
    }
  }
  // Compares a returned status: ok iff the operation is legal and no write failed.
  void Judge(const char* what, const absl::Status& st, bool legal) {
    bool want = legal && !failed;
    SIM_CHECK(sim, st.ok() == want, "status", "%s returned %s (legal=%d, memory write failed=%d)", what, st.ok() ? "ok" : "an error", legal, failed);
    failed = false;
  }
  void Begin(const char*) {
    ops++;
    failed = false;
    if (sim.Chance(1, 4)) fail_budget = sim.Chance(1, 4) ? 2 : 1;
  }
  void End() { fail_budget = 0; }
  void Ran(Action* a, uint64_t addr, int id) {
    SIM_CHECK(sim, a->exists && a->enabled, "ran-disabled", "an action that is not enabled ran at %lx", (unsigned long)addr);
    SIM_CHECK(sim, a->addr == addr && a->id == id, "wrong-action", "action %d at %lx was called as %d at %lx", a->id, (unsigned long)a->addr, id, (unsigned long)addr);
    a->runs++;
    sim.Note(addr * 31 + id);
    int me = a->target;      // captured before anything can go away
    Action* other = me >= 0 && me < (int)acts.size() ? acts[me].get() : nullptr;
    switch (a->script) {
      case kNothing: break;
      case kClearSelf: sim.Probe("action-clears-itself"); Clear(a); break;
      case kClearOther: if (other && !other->is_bp) { sim.Probe("action-clears-another"); Clear(other); } break;
      case kSetNew: if (acts.size() < max_acts) { sim.Probe("action-sets-action"); Set(addr, kNothing, -1); } break;
      case kDisableSelf: Disable(a); break;
      case kDisableOther: if (other && !other->is_bp) Disable(other); break;
      case kEnableOther: if (other && !other->is_bp) Enable(other); break;
      case kClearBreak: if (bps.count(addr)) { sim.Probe("action-clears-breakpoint"); ClearBp(addr); } break;
      case kHitOther: if (depth < 2 && addrs.size() > 1) { uint64_t o = addrs[me < 0 ? 0 : me % addrs.size()]; if (o != addr) Hit(o, false); } break;
      default: break;
    }
  }
  void Set(uint64_t addr, Script sc, int target) {
    auto owned = std::make_unique<Action>();
    Action* a = owned.get();
    a->addr = addr; a->script = sc; a->target = target;
    auto res = mgr->SetAction(addr, [this, a](uint64_t ad, int id) { Ran(a, ad, id); });
    Judge("SetAction", res.status(), true);
    if (!res.ok()) return;
    a->id = res.value();
    for (auto& x : acts) SIM_CHECK(sim, !(x->exists && x->addr == addr && x->id == a->id), "id-reused", "id %d at %lx was given to two live actions", a->id, (unsigned long)addr);
    ever.insert(addr);
    a->runs = 1000;     // set during a hit: whether it also runs in it is not fixed
    if (depth == 0) a->runs = 0;
    acts.push_back(std::move(owned));
  }
  void Clear(Action* a) {
    bool legal = a->exists;
    auto st = mgr->ClearAction(a->addr, a->id);
    bool ok = legal && !failed;
    Judge("ClearAction", st, legal);
    if (ok) a->exists = false;
  }
  void Enable(Action* a) {
    bool legal = a->exists;
    auto st = mgr->EnableAction(a->addr, a->id);
    bool ok = legal && !failed;
    Judge("EnableAction", st, legal);
    if (ok) { if (!a->enabled && depth) a->runs += 1000; a->enabled = true; }
  }
  void Disable(Action* a) {
    bool legal = a->exists;
    auto st = mgr->DisableAction(a->addr, a->id);
    bool ok = legal && !failed;
    Judge("DisableAction", st, legal);
    if (ok) a->enabled = false;
  }
  void SetBp(uint64_t addr) {
    bool legal = !bps.count(addr);
    auto st = bpm->SetBreakpoint(addr);
    bool ok = legal && !failed;
    Judge("SetBreakpoint", st, legal);
    if (!ok) return;
    auto owned = std::make_unique<Action>();
    owned->addr = addr; owned->is_bp = true;
    bps[addr] = owned.get();
    ever.insert(addr);
    acts.push_back(std::move(owned));
  }
  void ClearBp(uint64_t addr) {
    bool legal = bps.count(addr);
    auto st = bpm->ClearBreakpoint(addr);
    bool ok = legal && !failed;
    Judge("ClearBreakpoint", st, legal);
    if (ok) { bps[addr]->exists = false; bps.erase(addr); }
  }
  // A void operation cannot report a failed write, but what it could not clear
  // must remain known, so that it can be tried again.
  void ClearAllBps() {
    failed_at.clear();
    bpm->ClearAllBreakpoints();
    for (auto it = bps.begin(); it != bps.end();) {
      if (bpm->HasBreakpoint(it->first)) {
        SIM_CHECK(sim, failed_at.count(it->first), "not-cleared", "breakpoint %lx survives clearing them all", (unsigned long)it->first);
        sim.Probe("clear-all-retained");
        ++it;
        continue;
      }
      it->second->exists = false;
      it = bps.erase(it);
    }
  }
  void ToggleBp(uint64_t addr, bool on) {
    bool legal = bps.count(addr);
    auto st = on ? bpm->EnableBreakpoint(addr) : bpm->DisableBreakpoint(addr);
    bool ok = legal && !failed;
    Judge(on ? "EnableBreakpoint" : "DisableBreakpoint", st, legal);
    if (ok) bps[addr]->enabled = on;
  }
  void Hit(uint64_t addr, bool judge) {
    hits++;
    std::vector<Action*> due;
    for (auto& x : acts) if (x->exists && x->enabled && x->addr == addr && !x->is_bp) due.push_back(x.get());
    bool bp_due = bps.count(addr) && bps[addr]->enabled;
    std::map<Action*, int> before;
    for (auto& x : acts) before[x.get()] = x->runs;
    int h0 = halts;
    depth++;
    mgr->PerformActions(addr);
    depth--;
    if (!judge) { for (auto& x : acts) x->runs = before.count(x.get()) ? before[x.get()] : 0; return; }
    for (auto* x : due) {
      // Cleared or disabled by another action before its turn: may be skipped.
      bool sure = x->exists && x->enabled;
      bool self = x->script == kClearSelf || x->script == kDisableSelf;
      int r = x->runs % 1000;
      SIM_CHECK(sim, r <= 1, "ran-twice", "action %d at %lx ran %d times in one hit", x->id, (unsigned long)addr, r);
      if (sure) SIM_CHECK(sim, r == 1, "not-run", "enabled action %d at %lx did not run when it was hit", x->id, (unsigned long)addr);
      (void)self;
    }
    for (auto& x : acts) {
      if (x->is_bp) continue;
      if (x->addr != addr) { x->runs = 0; continue; }
      SIM_CHECK(sim, x->runs % 1000 <= 1, "ran-twice", "action %d at %lx ran %d times in one hit", x->id, (unsigned long)addr, x->runs % 1000);
      x->runs = 0;
    }
    int h = halts - h0;
    SIM_CHECK(sim, h <= 1 || nested_, "halted-twice", "%d halt requests for one hit of %lx", h, (unsigned long)addr);
    bool bp_still = bps.count(addr) && bps[addr]->enabled;
    if (bp_due && bp_still) {
      SIM_CHECK(sim, h >= 1, "no-halt", "breakpoint at %lx hit without a halt request", (unsigned long)addr);
      if (!nested_) SIM_CHECK(sim, bpm->last_breakpoint_address() == addr, "halt-address", "last breakpoint address is %lx after a hit of %lx", (unsigned long)bpm->last_breakpoint_address(), (unsigned long)addr);
    }
    if (!bp_due && !nested_) SIM_CHECK(sim, h == 0, "spurious-halt", "halt requested at %lx without an enabled breakpoint", (unsigned long)addr);
  }
  bool nested_ = false;
  Action* PickAction() {
    std::vector<Action*> v;
    for (auto& x : acts) if (!x->is_bp) v.push_back(x.get());
    return v.empty() ? nullptr : v[sim.Pick(v.size())];
  }
  void Run() {
    int na = sim.Range(1, 4);
    bool big = sim.Chance(1, 50);
    if (big) { na = sim.Chance(1, 2) ? sim.Range(20, 300) : na; max_acts = 700; sim.Probe("many"); }
    if (big || sim.Chance(1, 3)) { observe_every = 2 + sim.Pick(10); sim.Probe("rarely-observed"); }
    for (int i = 0; i < na; i++) addrs.push_back(sim.Chance(1, 8) ? ~0ull - i * 4 : sim.Chance(1, 6) ? 0x1000 + (1ull << sim.Range(31, 63)) + i * 4 : 0x1000 + i * 4);
    mgr = std::make_unique<ActionPointManagerBase>(&mem);
    bpm = std::make_unique<BreakpointManager>(mgr.get(), [this] { halts++; });
    sim.set_max_steps(sim.Range(5, 70));
    while (sim.Step()) {
      uint64_t a = addrs[sim.Pick(addrs.size())];
      Begin("");
      const char* what = "step";
      switch (sim.Weighted({6, 4, 4, 4, 5, 3, 2, 2, 7, 1, 1, 2, big ? 3u : 0u})) {
        case 12: {  // many actions at one address, or many set and cleared again
          what = "many";
          End();
          int k = sim.Range(100, 300);
          bool keep = sim.Pick(2) && acts.size() + k < max_acts;
          sim.Log("%d actions at %lx, %s", k, (unsigned long)a, keep ? "kept" : "cleared");
          for (int i = 0; i < k; i++) {
            Set(a, kNothing, -1);
            if (!keep) { Clear(acts.back().get()); acts.pop_back(); }
          }
          break;
        }
        case 0: {
          what = "SetAction";
          if (acts.size() >= max_acts) break;
          Script sc = sim.Chance(1, 2) ? kNothing : (Script)sim.Pick(kNumScripts);
          int t = (int)sim.Pick(acts.size() + 1);
          if (sc == kHitOther) nested_ = true;
          sim.Log("set action at %lx script %d target %d", (unsigned long)a, sc, t);
          Set(a, sc, t);
          break;
        }
        case 1: { what = "ClearAction"; if (Action* x = PickAction()) { if (!x->exists) sim.Probe("stale-identifier"); sim.Log("clear %d at %lx", x->id, (unsigned long)x->addr); Clear(x); } break; }
        case 2: { what = "EnableAction"; if (Action* x = PickAction()) { sim.Log("enable %d at %lx", x->id, (unsigned long)x->addr); Enable(x); } break; }
        case 3: { what = "DisableAction"; if (Action* x = PickAction()) { sim.Log("disable %d at %lx", x->id, (unsigned long)x->addr); Disable(x); } break; }
        case 4: what = "SetBreakpoint"; sim.Log("set breakpoint %lx", (unsigned long)a); SetBp(a); break;
        case 5: what = "ClearBreakpoint"; sim.Log("clear breakpoint %lx", (unsigned long)a); ClearBp(a); break;
        case 6: what = "EnableBreakpoint"; sim.Log("enable breakpoint %lx", (unsigned long)a); ToggleBp(a, true); break;
        case 7: what = "DisableBreakpoint"; sim.Log("disable breakpoint %lx", (unsigned long)a); ToggleBp(a, false); break;
        case 8: {
          what = "hit";
          if (!ever.count(a)) sim.Probe("unknown-address-hit");
          sim.Log("hit %lx", (unsigned long)a);
          Hit(a, true);
          break;
        }
        case 9: {
          what = "ClearAllBreakpoints";
          sim.Log("clear all breakpoints");
          ClearAllBps();
          break;
        }
        case 10: {
          what = "ClearAllActionPoints";
          sim.Log("clear all");
          ClearAllBps();
          if (!bps.empty()) break;  // their actions are still theirs
          failed_at.clear();
          if (sim.Chance(1, 4)) fail_budget = sim.Range(1, 2);
          mgr->ClearAllActionPoints();
          for (uint64_t a2 : addrs) {
            if (mgr->IsActionPointActive(a2)) {
              SIM_CHECK(sim, failed_at.count(a2), "not-cleared", "action points at %lx survive clearing them all", (unsigned long)a2);
              sim.Probe("clear-all-retained");
              continue;
            }
            // Identifiers may start over, so the old ones are not used again.
            for (size_t i = 0; i < acts.size();) if (acts[i]->addr == a2) acts.erase(acts.begin() + i); else i++;
            ever.erase(a2);
            if (mgr->HasActionPoint(a2)) ever.insert(a2);
          }
          break;
        }
        case 11: {
          what = "unknown-identifier";
          int id = sim.Pick(3) == 0 ? -1 : 1000000 + (int)sim.Pick(5);
          uint64_t ad = sim.Pick(2) ? a : a + 0x10000;
          sim.Log("unknown id %d at %lx", id, (unsigned long)ad);
          absl::Status st;
          switch (sim.Pick(6)) {
            case 0: st = mgr->ClearAction(ad, id); break;
            case 1: st = mgr->EnableAction(ad, id); break;
            case 2: st = mgr->DisableAction(ad, id); break;
            case 3: st = bpm->ClearBreakpoint(a + 0x10000); break;
            case 4: st = bpm->EnableBreakpoint(a + 0x10000); break;
            case 5: st = bpm->DisableBreakpoint(a + 0x10000); break;
          }
          Judge("operation on an unknown action", st, false);
          SIM_CHECK(sim, !mgr->IsActionEnabled(ad, id), "enabled", "unknown action reported enabled");
          break;
        }
      }
      End();
      Check(what);
      uint64_t h = bps.size();
      for (uint64_t x : addrs) h = dst::Mix(h ^ (Active(x) + 8 * Count(x)));
      sim.State(h);
    }
    Check("end", true);
    if (ops >= 3 && hits >= 1) sim.NonTrivial();
    if (sim.Pick(2)) {
      bpm->ClearAllBreakpoints();
      mgr->ClearAllActionPoints();
      for (uint64_t a : addrs) SIM_CHECK(sim, !mem.bp[a], "memory", "breakpoint instruction left at %lx after clearing everything", (unsigned long)a);
    }
    bpm.reset();
    mgr.reset();
  }
};
absl::Status Memory::Write(uint64_t a, bool b) {
  if (w->fail_budget > 0) {
    w->fail_budget--;
    w->failed = true;
    w->failed_at.insert(a);
    w->sim.Fault(b ? "breakpoint-write-fails" : "restore-write-fails");
    w->sim.Log("  memory write at %lx fails", (unsigned long)a);
    return absl::InternalError("write failed");
  }
  bp[a] = b;
  return absl::OkStatus();
}
}  // namespace

void RunOne(dst::Sim& sim) {
  World w(sim);
  w.Run();
}
