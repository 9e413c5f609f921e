// C12: instruction trees. Real code: Instruction, ReferenceCount, ArchState and
// its function delay line (delayed execution). Stubs: operands (count deaths).
#include <map>
#include <memory>
#include <set>
#include <vector>

#include "arch_world.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/operand_interface.h"
#include "mpact/sim/generic/resource_operand_interface.h"

using namespace mpact::sim::generic;
const char* const kHarnessProperty = "C12";
const bool kHarnessChecksLeaks = true;

namespace {
struct World;
struct Owned { World* w; int id; Owned(World* x, int i); ~Owned(); };
struct Src : public SourceOperandInterface {
  Owned o;
  Src(World* w, int id) : o(w, id) {}
  bool AsBool(int) override { return o.id & 1; }
  int8_t AsInt8(int) override { return o.id; }
  uint8_t AsUint8(int) override { return o.id; }
  int16_t AsInt16(int) override { return o.id; }
  uint16_t AsUint16(int) override { return o.id; }
  int32_t AsInt32(int) override { return o.id; }
  uint32_t AsUint32(int) override { return o.id; }
  int64_t AsInt64(int) override { return o.id; }
  uint64_t AsUint64(int) override { return o.id; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return "s"; }
};
struct Dst : public DestinationOperandInterface {
  Owned o;
  Dst(World* w, int id) : o(w, id) {}
  DataBuffer* AllocateDataBuffer() override { return nullptr; }
  void InitializeDataBuffer(DataBuffer*) override {}
  DataBuffer* CopyDataBuffer() override { return nullptr; }
  int latency() const override { return o.id; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return "d"; }
};
struct Pred : public PredicateOperandInterface {
  Owned o;
  Pred(World* w, int id) : o(w, id) {}
  bool Value() override { return true; }
  std::string AsString() const override { return "p"; }
};
struct Res : public ResourceOperandInterface {
  Owned o;
  Res(World* w, int id) : o(w, id) {}
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return "r"; }
};
struct Ctx : public ReferenceCount { int id; };

struct SimInst : public Instruction {
  World* w;
  int id;
  SimInst(World* x, int i, ArchState* st) : Instruction(0x1000 + 4 * i, st), w(x), id(i) {}
  ~SimInst() override;
};
struct Node {
  SimInst* p = nullptr;
  bool alive = true;
  int ext = 1;             // references held by callers and executions in flight
  int flight = 0;          // of those, held by executions in flight
  int gen = 0;             // which semantic function is set
  int parent = -1;         // via AppendChild
  int child = -1, next = -1;
  bool linked = false;     // owned by a list
  std::vector<int> owned, src, dst, hold, acq;
  int pred = -1;
  std::vector<int> attr;
  bool has_attr = false;
};

struct World {
  dst::Sim& sim;
  std::vector<Node> n;
  std::vector<char> op_alive;
  std::unique_ptr<SimArchState> state;
  std::vector<int> run_log, want_log;
  std::vector<std::pair<int, ReferenceCount*>> ctx_log;
  std::map<uint64_t, std::vector<int>> due;
  std::set<int> executing;
  uint64_t cycle = 0;
  bool ending = false;
  int links = 0, runs = 0;
  explicit World(dst::Sim& s) : sim(s) {}

  int NewOp() { op_alive.push_back(1); return op_alive.size() - 1; }
  // Model: destroys what is no longer referenced.
  void Collect() {
    bool again = true;
    while (again) {
      again = false;
      for (auto& x : n) {
        if (!x.alive || x.ext > 0 || x.linked) continue;
        x.alive = false;
        again = true;
        if (x.child >= 0) n[x.child].linked = false;
        if (x.next >= 0) n[x.next].linked = false;
        for (size_t i = 0; i < n.size(); i++) if (n[i].parent == &x - &n[0]) n[i].parent = -1;
        for (int o : x.owned) want_dead.insert(o);
      }
    }
  }
  std::set<int> want_dead;
  std::set<int> real_alive;
  void Check(const char* what) {
    for (size_t i = 0; i < n.size(); i++) {
      Node& x = n[i];
      bool alive = real_alive.count(i);
      SIM_CHECK(sim, !x.alive || alive, "destroyed-early", "%s: instruction %zu was destroyed while still referenced", what, i);
      SIM_CHECK(sim, x.alive || !alive, "not-destroyed", "%s: instruction %zu has no reference left but still exists", what, i);
      for (int o : x.owned) {
        SIM_CHECK(sim, (bool)op_alive[o] == x.alive, "operand-lifetime", "%s: operand %d of instruction %zu (%s) is %s", what, o, i, x.alive ? "alive" : "destroyed", op_alive[o] ? "alive" : "destroyed");
      }
      if (!x.alive) continue;
      auto P = [&](int k) -> Instruction* { return k < 0 ? nullptr : n[k].p; };
      SIM_CHECK(sim, x.p->child() == P(x.child), "links", "%s: wrong child of instruction %zu", what, i);
      SIM_CHECK(sim, x.p->next() == P(x.next), "links", "%s: wrong next of instruction %zu", what, i);
      SIM_CHECK(sim, x.p->parent() == P(x.parent), "links", "%s: instruction %zu has the wrong parent (%s expected)", what, i, x.parent < 0 ? "none" : "its live parent");
      SIM_CHECK(sim, x.p->ref_count() == x.ext + x.linked, "reference-count", "%s: instruction %zu has %d references, expected %d", what, i, x.p->ref_count(), x.ext + x.linked);
      if (!executing.count(i)) SIM_CHECK(sim, x.p->context() == nullptr, "context", "%s: instruction %zu keeps a context after executing", what, i);
      SIM_CHECK(sim, x.p->SourcesSize() == (int)x.src.size() && x.p->DestinationsSize() == (int)x.dst.size(), "operands", "%s: instruction %zu has %d sources, %d destinations", what, i, x.p->SourcesSize(), x.p->DestinationsSize());
      for (size_t k = 0; k < x.src.size(); k++) SIM_CHECK(sim, x.p->Source(k)->AsInt32(0) == x.src[k], "operands", "source %zu of instruction %zu", k, i);
      for (size_t k = 0; k < x.dst.size(); k++) SIM_CHECK(sim, x.p->Destination(k)->latency() == x.dst[k], "operands", "destination %zu of instruction %zu", k, i);
      SIM_CHECK(sim, x.p->ResourceHold().size() == x.hold.size() && x.p->ResourceAcquire().size() == x.acq.size(), "operands", "resource operands of instruction %zu", i);
      SIM_CHECK(sim, (x.p->Predicate() != nullptr) == (x.pred >= 0) && (x.pred < 0 || static_cast<Pred*>(x.p->Predicate())->o.id == x.pred), "operands", "predicate of instruction %zu", i);
      for (size_t k = 0; k < x.hold.size(); k++) SIM_CHECK(sim, static_cast<Res*>(x.p->ResourceHold()[k])->o.id == x.hold[k], "operands", "held resource %zu of instruction %zu", k, i);
      for (size_t k = 0; k < x.acq.size(); k++) SIM_CHECK(sim, static_cast<Res*>(x.p->ResourceAcquire()[k])->o.id == x.acq[k], "operands", "acquired resource %zu of instruction %zu", k, i);
      SIM_CHECK(sim, x.p->address() == 0x1000 + 4 * i && x.p->opcode() == (int)i && x.p->size() == 4 && x.p->state() == state.get() && x.p->AsString() == std::to_string(i), "fields", "%s: instruction %zu lost its address, opcode, size, state or text", what, i);
      auto a = x.p->Attributes();
      SIM_CHECK(sim, a.size() == x.attr.size(), "attributes", "instruction %zu has %zu attributes, %zu were set", i, a.size(), x.attr.size());
      for (size_t k = 0; k < a.size(); k++) SIM_CHECK(sim, a[k] == x.attr[k], "attributes", "attribute %zu of instruction %zu is %d, %d was set", k, i, a[k], x.attr[k]);
    }
  }
  int Tail(int i) { while (n[i].next >= 0) i = n[i].next; return i; }
  bool Reaches(int from, int to) {
    if (from < 0) return false;
    if (from == to) return true;
    return Reaches(n[from].child, to) || Reaches(n[from].next, to);
  }
  int PickAlive() {
    std::vector<int> v;
    for (size_t i = 0; i < n.size(); i++) if (n[i].alive && n[i].ext > 0) v.push_back(i);
    return v.empty() ? -1 : v[sim.Pick(v.size())];
  }
  // Gives an instruction the gen-th of its semantic functions.
  void Semantics(SimInst* p, int i, int gen) {
    World* w = this;
    p->set_semantic_function([w, i, gen](Instruction* in) {
      w->run_log.push_back(i);
      w->ctx_log.push_back({i, in->context()});
      SIM_CHECK(w->sim, in == w->n[i].p, "wrong-instruction", "semantic function of instruction %d called for another", i);
      SIM_CHECK(w->sim, gen == w->n[i].gen, "stale-function", "instruction %d ran the %dth of its semantic functions, the %dth is set", i, gen, w->n[i].gen);
      // An issuing instruction executes its children in order.
      for (Instruction* c = in->child(); c != nullptr; c = c->next()) {
        if (in->context() != nullptr) c->Execute(in->context()); else c->Execute();
      }
    });
  }
  void Make() {
    int i = n.size();
    Node x;
    x.p = new SimInst(this, i, state.get());
    real_alive.insert(i);
    x.p->set_size(4);
    x.p->set_opcode(i);
    x.p->SetDisassemblyString(std::to_string(i));
    Semantics(x.p, i, 0);
    n.push_back(x);
    sim.Log("create %d", i);
  }
  void AddOp(int i) {
    Node& x = n[i];
    int o = NewOp();
    x.owned.push_back(o);
    switch (sim.Pick(5)) {
      case 0: x.p->AppendSource(new Src(this, o)); x.src.push_back(o); break;
      case 1: x.p->AppendDestination(new Dst(this, o)); x.dst.push_back(o); break;
      case 2: x.p->AppendResourceHold(new Res(this, o)); x.hold.push_back(o); break;
      case 3: x.p->AppendResourceAcquire(new Res(this, o)); x.acq.push_back(o); break;
      case 4: if (x.pred < 0) { x.p->SetPredicate(new Pred(this, o)); x.pred = o; } else { x.owned.pop_back(); op_alive.pop_back(); } break;
    }
  }
  void WantRun(int i) {
    want_log.push_back(i);
    for (int c = n[i].child; c >= 0; c = n[c].next) WantRun(c);
  }
  void Exec(int i, ReferenceCount* ctx) {
    run_log.clear(); want_log.clear(); ctx_log.clear();
    WantRun(i);
    runs++;
    if (ctx) n[i].p->Execute(ctx); else n[i].p->Execute();
    SIM_CHECK(sim, run_log == want_log, "execution", "executing %d ran %zu semantic functions, expected %zu", i, run_log.size(), want_log.size());
    for (auto& [k, c] : ctx_log) SIM_CHECK(sim, c == ctx, "context", "instruction %d ran with another context than given", k);
    if (ctx) SIM_CHECK(sim, ctx->ref_count() == 1, "context", "executing changed the context's reference count to %d", ctx->ref_count());
  }
  void Drop(int i) {
    n[i].ext--;
    bool gone = n[i].ext == 0 && !n[i].linked;
    if (gone && (n[i].child >= 0)) {
      sim.Probe("parent-released-first");
      int first = n[i].child;
      for (int c = n[first].next; c >= 0; c = n[c].next) if (n[c].ext > 0) sim.Probe("sibling-outlives-parent");
    }
    SimInst* p = n[i].p;
    Collect();
    p->DecRef();
  }
  void AddChild(int p, int c) {
    n[p].p->AppendChild(n[c].p);
    links++;
    n[c].parent = p;
    n[c].linked = true;
    if (n[p].child < 0) n[p].child = c; else n[Tail(n[p].child)].next = c;
  }
  void Run() {
    bool big = sim.Chance(1, 60);
    state = std::make_unique<SimArchState>("arch");
    sim.set_max_steps(sim.Range(6, 90));
    while (sim.Step()) {
      const char* what = "step";
      switch (sim.Weighted({4, 5, 4, 2, 6, 3, 3, 3, 3, 2, big ? 3u : 0u, 1})) {
        case 10: {  // a wide bundle, or a bundle whose children are held elsewhere too
          what = "bundle";
          int p = PickAlive();
          if (p < 0 || n.size() > 500) break;
          int k = sim.Range(20, 280);
          bool keep = sim.Pick(2);
          sim.Log("bundle of %d under %d", k, p);
          sim.Probe("wide-bundle");
          for (int j = 0; j < k; j++) {
            Make();
            int c = n.size() - 1;
            AddOp(c);
            AddChild(p, c);
            if (!keep) Drop(c);
          }
          break;
        }
        case 11: {
          what = "semantics";
          int i = PickAlive();
          if (i < 0) break;
          sim.Log("another semantic function for %d", i);
          Semantics(n[i].p, i, ++n[i].gen);
          sim.Probe("semantics-replaced");
          break;
        }
        case 0: what = "create"; if (n.size() < 24) Make(); break;
        case 1: {
          what = "append-child";
          int p = PickAlive(), c = PickAlive();
          if (p < 0 || c < 0) break;
          if (sim.Chance(1, 20)) { n[p].p->AppendChild(nullptr); break; }
          if (n[c].linked || Reaches(c, p) || p == c) break;
          sim.Log("append child %d to %d", c, p);
          AddChild(p, c);
          break;
        }
        case 2: {
          what = "append";
          int p = PickAlive(), c = PickAlive();
          if (p < 0 || c < 0) break;
          if (n[c].linked || Reaches(c, p) || p == c) break;
          sim.Log("append %d after %d", c, p);
          n[p].p->Append(n[c].p);
          links++;
          n[Tail(p)].next = c;
          n[c].linked = true;
          break;
        }
        case 3: { what = "hold"; int i = PickAlive(); if (i >= 0) { n[i].p->IncRef(); n[i].ext++; } break; }
        case 4: { what = "release"; int i = PickAlive(); if (i >= 0 && n[i].ext > n[i].flight) { sim.Log("release %d", i); Drop(i); } break; }
        case 5: { what = "operand"; int i = PickAlive(); if (i >= 0) AddOp(i); break; }
        case 6: {
          what = "execute";
          int i = PickAlive();
          if (i < 0) break;
          sim.Log("execute %d", i);
          if (sim.Pick(2)) { Ctx c; Exec(i, &c); } else Exec(i, nullptr);
          break;
        }
        case 7: {  // execution in flight: runs after a delay, holding its own reference
          what = "schedule";
          int i = PickAlive();
          if (i < 0) break;
          int lat = sim.Range(1, 6);
          n[i].p->IncRef();
          n[i].ext++;
          n[i].flight++;
          due[cycle + lat].push_back(i);
          SimInst* p = n[i].p;
          sim.Log("schedule %d in %d", i, lat);
          sim.Fault("execution-in-flight");
          state->function_delay_line()->Add(lat, [this, i, p] { Exec(i, nullptr); n[i].ext--; n[i].flight--; Collect(); p->DecRef(); });
          break;
        }
        case 8: {
          what = "advance";
          cycle++;
          sim.AdvanceTime(1);
          sim.Log("advance");
          due.erase(cycle);
          state->AdvanceDelayLines();
          break;
        }
        case 9: {
          what = "attributes";
          int i = PickAlive();
          if (i < 0) break;
          int k = sim.Pick(5);
          std::vector<int> v;
          for (int j = 0; j < k; j++) v.push_back((int)sim.Bits());
          sim.Log("set %d attributes on %d", k, i);
          if (n[i].has_attr) sim.Probe("attributes-replaced");
          n[i].p->SetAttributes(absl::MakeConstSpan(v));
          n[i].attr = v;
          n[i].has_attr = true;
          break;
        }
      }
      Check(what);
      uint64_t h = 0;
      for (auto& x : n) h = dst::Mix(h ^ (x.alive | x.linked << 1 | (x.ext & 7) << 2 | (x.child + 1) << 6 | (x.next + 1) << 12));
      sim.State(h);
    }
    if (links >= 1 && runs >= 1) sim.NonTrivial();
    while (!due.empty()) { cycle++; sim.AdvanceTime(1); due.erase(cycle); state->AdvanceDelayLines(); Check("drain"); }
    for (;;) { int i = PickAlive(); if (i < 0) break; Drop(i); Check("final release"); }
    for (size_t i = 0; i < n.size(); i++) SIM_CHECK(sim, !real_alive.count(i), "not-destroyed", "instruction %zu survives all its holders", i);
    state.reset();
  }
};
SimInst::~SimInst() {
  SIM_CHECK(w->sim, w->real_alive.erase(id) == 1, "destroyed-twice", "instruction %d destroyed twice", id);
}
Owned::Owned(World* x, int i) : w(x), id(i) {}
Owned::~Owned() {
  SIM_CHECK(w->sim, w->op_alive[id], "destroyed-twice", "operand %d destroyed twice", id);
  w->op_alive[id] = 0;
}
}  // namespace

void RunOne(dst::Sim& sim) {
  World w(sim);
  w.Run();
}
