// C01: delay lines. Real code: DelayLine<>, FunctionDelayLine,
// DataBufferDelayLine, DataBuffer::Submit. The simulator owns time (Advance)
// and the order of adds; actions may themselves add actions.
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <vector>

#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/delay_line.h"
#include "mpact/sim/generic/function_delay_line.h"
#include "sim.h"

using namespace mpact::sim::generic;
const char* const kHarnessProperty = "C01";
const bool kHarnessChecksLeaks = true;

namespace {

struct World;
// A user-written delay record, as the header's documentation invites. It owns
// a heap token so that a record that is lost, copied wrongly or applied after
// its destruction is noticed.
struct UserRecord {
  World* w;
  std::shared_ptr<int> id;
  void Apply();
  UserRecord(World* world, std::shared_ptr<int> i) : w(world), id(std::move(i)) {}
};

struct Dest : public DataBufferDestination {
  World* w = nullptr;
  void SetDataBuffer(DataBuffer* db) override;
};

struct World {
  dst::Sim& sim;
  int kind;
  std::unique_ptr<FunctionDelayLine> fl;
  std::unique_ptr<DelayLine<UserRecord>> ul;
  std::unique_ptr<DataBufferDelayLine> dl;
  DataBufferFactory factory;
  Dest dests[3];
  uint64_t cycle = 0;
  int next_id = 0;
  int pending = 0;
  bool advancing = false;
  bool quiet = false;   // bulk: no decisions and no log per action
  bool destroyed = false;
  int nested_budget = 0;
  int max_latency = 0;
  std::map<uint64_t, std::deque<int>> due;   // cycle -> ids in order of adding
  std::weak_ptr<int> probe;                  // any record's token
  std::shared_ptr<int> token;
  std::map<int, std::weak_ptr<int>> tokens;

  explicit World(dst::Sim& s) : sim(s) {}

  void Fired(int id) {
    SIM_CHECK(sim, !destroyed, "fired-on-destroy", "action %d performed while the line was being destroyed", id);
    SIM_CHECK(sim, advancing, "fired-outside-advance", "action %d fired outside Advance", id);
    if (!quiet) sim.Log("  fire %d at cycle %lu", id, (unsigned long)cycle);
    auto it = due.find(cycle);
    SIM_CHECK(sim, it != due.end() && !it->second.empty(), "unexpected-fire",
              "action %d fired at cycle %lu where nothing (more) is due", id, (unsigned long)cycle);
    SIM_CHECK(sim, it->second.front() == id, "wrong-order",
              "action %d fired at cycle %lu, expected %d next", id, (unsigned long)cycle, it->second.front());
    it->second.pop_front();
    pending--;
    if (quiet) return;
    int n = nested_budget > 0 ? sim.Weighted({6, 3, 1}) : 0;
    for (int i = 0; i < n && nested_budget > 0; i++) {
      nested_budget--;
      sim.Probe("add-from-firing-action");
      AddOne();
    }
  }

  int Size(int lat) { return lat; }

  void AddOne(int fixed = 0) {
    int lat = fixed;
    if (!fixed) switch (sim.Weighted({6, 3, 3, 1})) {
      case 0: lat = 1 + sim.Pick(4); break;
      case 1: lat = 1 + sim.Pick(max_latency); break;
      case 2: lat = 1 << sim.Pick(sim.Chance(1, 16) ? 14 : 8); if (sim.Chance(1, 2)) lat += (int)sim.Range(-1, 1); if (lat < 1) lat = 1; break;
      default: lat = max_latency; break;
    }
    int id = next_id++;
    if (!fixed) sim.Log("%s add %d latency %d (cycle %lu)", advancing ? "  nested" : "", id, lat, (unsigned long)cycle);
    if ((lat & (lat - 1)) == 0) sim.Probe("latency-power-of-two");
    due[cycle + lat].push_back(id);
    pending++;
    int n = 0;
    bool have = true;
    if (kind == 0) {
      auto tok = std::make_shared<int>(id);
      tokens[id] = tok;
      n = fl->Add(lat, [this, tok]() { Fired(*tok); });
    } else if (kind == 1) {
      auto tok = std::make_shared<int>(id);
      tokens[id] = tok;
      n = ul->Add(lat, this, tok);
    } else {
      DataBuffer* db = factory.Allocate<int>(!fixed && sim.Chance(1, 8) ? 2000 : 1);
      db->Set<int>(0, id);
      Dest* dest = &dests[fixed ? 0 : sim.Pick(3)];
      dest_of[id] = dest;
      if (!fixed && sim.Chance(1, 2)) {
        db->set_destination(dest);
        db->set_delay_line(dl.get());
        db->set_latency(lat);
        if (sim.Chance(1, 2)) db->Submit(); else db->Submit(lat);
        have = false;
      } else {
        n = dl->Add(lat, db, static_cast<DataBufferDestination*>(dest));
      }
    }
    if (have && !advancing)
      SIM_CHECK(sim, n == pending, "bad-count", "Add returned %d with %d pending", n, pending);
  }
  std::map<int, Dest*> dest_of;

  DelayLineInterface* line() {
    if (kind == 0) return fl.get();
    if (kind == 1) return ul.get();
    return dl.get();
  }

  // Many actions at one latency.
  void AddMany(int n) {
    int lat = 1 + sim.Pick(max_latency);
    sim.Log("add %d actions from %d on, latency %d (cycle %lu)", n, next_id, lat, (unsigned long)cycle);
    sim.Probe(n > 65535 ? "more-than-65535-actions" : "many-actions");
    nested_budget = 0;
    quiet = true;
    for (int i = 0; i < n; i++) AddOne(lat);
  }

  void Advance() {
    cycle++;
    sim.AdvanceTime(1);
    advancing = true;
    int n = line()->Advance();
    advancing = false;
    auto it = due.find(cycle);
    if (it != due.end()) {
      SIM_CHECK(sim, it->second.empty(), "missed", "action %d due at cycle %lu did not fire",
                it->second.front(), (unsigned long)cycle);
      due.erase(it);
    }
    SIM_CHECK(sim, n == pending, "bad-count", "Advance returned %d with %d pending", n, pending);
    CheckEmpty();
  }
  void CheckEmpty() {
    SIM_CHECK(sim, line()->IsEmpty() == (pending == 0), "bad-empty", "IsEmpty is %d with %d pending",
              line()->IsEmpty(), pending);
    for (auto it = tokens.begin(); it != tokens.end();) {
      if (it->second.expired()) it = tokens.erase(it); else ++it;
    }
    if (kind < 2)
      SIM_CHECK(sim, (int)tokens.size() == pending, "held-after-fire",
                "%d records alive with %d pending", (int)tokens.size(), pending);
    sim.State(dst::Mix(cycle & 31) ^ dst::Mix(pending * 77 + due.size()));
  }
};

void UserRecord::Apply() { w->Fired(*id); }
void Dest::SetDataBuffer(DataBuffer* db) {
  int id = db->Get<int>(0);
  SIM_CHECK(w->sim, db->ref_count() == 1, "bad-ref", "landing buffer of %d has %d references", id, db->ref_count());
  SIM_CHECK(w->sim, w->dest_of[id] == this, "wrong-destination", "buffer %d landed at another destination", id);
  w->Fired(id);
}

}  // namespace

void RunOne(dst::Sim& sim) {
  auto w = std::make_unique<World>(sim);
  sim.set_max_steps(20 + sim.Pick(120));
  w->kind = sim.Pick(3);
  for (auto& d : w->dests) d.w = w.get();
  w->nested_budget = sim.Pick(2) ? sim.Pick(40) : 0;
  w->max_latency = sim.Chance(1, 12) ? (sim.Chance(1, 100) ? 70000 : sim.Chance(1, 8) ? 5000 : 700) : 1 + (int)sim.Pick(70);
  int bulk = sim.Chance(1, 40) ? (sim.Chance(1, 150) ? 66000 : sim.Chance(1, 10) ? 5000 : 300) : 0;
  bool far = sim.Chance(1, 3000);
  bool dflt = sim.Chance(1, 4);
  uint32_t depth = (uint32_t)sim.Pick(40);
  bool wide = sim.Chance(1, 16);   // a line that starts wide and grows late
  if (wide) { depth = sim.Pick(2) ? 1u << sim.Range(6, 11) : sim.Pick(2000); sim.Probe("wide-line"); }
  sim.Log("kind %d depth %d", w->kind, dflt ? -1 : (int)depth);
  if (w->kind == 0) w->fl.reset(dflt ? new FunctionDelayLine() : new FunctionDelayLine(depth));
  if (w->kind == 1) w->ul.reset(dflt ? new DelayLine<UserRecord>() : new DelayLine<UserRecord>(depth));
  if (w->kind == 2) w->dl.reset(dflt ? new DataBufferDelayLine() : new DataBufferDelayLine(depth));
  unsigned adv = 1 + sim.Pick(6);
  w->CheckEmpty();
  while (sim.Step()) {
    switch (sim.Weighted({5, adv, 1})) {
      case 0: w->AddOne(); w->CheckEmpty(); break;
      case 1: w->Advance(); break;
      default: {
        if (bulk && sim.Chance(1, 2)) { w->AddMany(bulk); w->CheckEmpty(); bulk = 0; break; }
        int n = 1 + sim.Pick(wide ? 2500 : 20);
        if (wide) { sim.Log("advance %d", n); w->max_latency = 1 + sim.Pick(2 + 2 * depth); }
        if (far) { n = 66000; far = false; sim.Probe("more-than-65535-cycles"); sim.Log("advance %d", n); }
        for (int i = 0; i < n; i++) w->Advance();
      }
    }
  }
  if (w->next_id >= 3 && w->cycle > 0) sim.NonTrivial();
  if (w->pending > 0 && sim.Chance(1, 3)) {
    sim.Fault("destroy-with-pending");
  } else {
    w->nested_budget = 0;
    int guard = 100000;
    while (w->pending > 0 && guard-- > 0) w->Advance();
    SIM_CHECK(sim, w->pending == 0, "not-drained", "%d actions still pending", w->pending);
  }
  w->destroyed = true;
  w->fl.reset();
  w->ul.reset();
  w->dl.reset();
  for (auto& t : w->tokens)
    SIM_CHECK(sim, t.second.expired(), "leak-on-destroy", "record %d outlives its delay line", t.first);
}
