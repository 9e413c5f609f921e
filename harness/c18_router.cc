// C18: memory routers. Real code: SingleInitiatorRouter, MemoryRouter,
// FlatDemandMemory behind each target, Instruction, delay line. Stubs:
// initiators, recording targets, atomic targets that may fail.
#include <optional>

#include "mem_world.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_router.h"
#include "mpact/sim/util/memory/single_initiator_router.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace mpact::sim::util;
const char* const kHarnessProperty = "C18";
const bool kHarnessChecksLeaks = true;

namespace {
enum Kind { kMem, kTag, kAtom };
struct AtomicStub : public AtomicMemoryOpInterface {
  struct Rec { uint64_t addr; Operation op; DataBuffer* db; Instruction* inst; ReferenceCount* ctx; };
  std::vector<Rec> log;
  bool fail = false;
  absl::Status PerformMemoryOp(uint64_t a, Operation op, DataBuffer* db, Instruction* i, ReferenceCount* c) override {
    log.push_back({a, op, db, i, c});
    return fail ? absl::DataLossError("atomic target failed") : absl::OkStatus();
  }
};
struct Target {
  Kind kind;
  std::string name;
  std::unique_ptr<FlatDemandMemory> fm;
  std::unique_ptr<TaggedFlatDemandMemory> tm;
  std::unique_ptr<memw::Recorder> rec;
  std::unique_ptr<AtomicStub> atom;
  size_t Log() const { return kind == kAtom ? atom->log.size() : rec->log.size(); }
};
struct Map { uint64_t base, top; int target; };
struct View {
  std::vector<Map> maps[3];
  int def[3] = {-1, -1, -1};
  SingleInitiatorRouter* router = nullptr;   // only when used directly
  MemoryInterface* mem = nullptr;
  TaggedMemoryInterface* tag = nullptr;
  AtomicMemoryOpInterface* atom = nullptr;
  std::string name;
};
constexpr int kNone = -1, kStraddle = -2;

struct RouterWorld : public memw::World {
  using World::World;
  std::vector<std::unique_ptr<Target>> targets;
  std::vector<std::unique_ptr<View>> views;
  std::unique_ptr<SingleInitiatorRouter> single;
  std::unique_ptr<MemoryRouter> multi;
  int delivered = 0, added = 0;

  void NewTarget(Kind k) {
    auto t = std::make_unique<Target>();
    t->kind = k;
    t->name = "t" + std::to_string(targets.size());
    if (k == kMem) { t->fm = std::make_unique<FlatDemandMemory>(); t->rec = std::make_unique<memw::Recorder>(static_cast<MemoryInterface*>(t->fm.get())); }
    if (k == kTag) { t->tm = std::make_unique<TaggedFlatDemandMemory>(model.granule); t->rec = std::make_unique<memw::Recorder>(static_cast<TaggedMemoryInterface*>(t->tm.get())); }
    if (k == kAtom) t->atom = std::make_unique<AtomicStub>();
    targets.push_back(std::move(t));
  }
  // Mapped owner in one map: a target, kNone (nothing mapped) or kStraddle.
  int Owner(const View& v, Kind k, uint64_t a, uint64_t n) {
    uint64_t last = a + n - 1;
    int r = kNone;
    for (auto& m : v.maps[k]) {
      if (a > m.top || last < m.base) continue;
      if (a >= m.base && last <= m.top) return m.target;
      r = kStraddle;
    }
    return r;
  }
  // Where a plain access goes.
  int Plain(const View& v, uint64_t a, uint64_t n) {
    int m = Owner(v, kMem, a, n);
    if (m >= 0) return m;
    int t = Owner(v, kTag, a, n);
    if (t >= 0) return t;
    if (m == kStraddle || t == kStraddle) { sim.Fault("straddling-access"); return kStraddle; }
    if (v.def[kMem] >= 0) return v.def[kMem];
    return v.def[kTag];
  }
  int OfKind(const View& v, Kind k, uint64_t a, uint64_t n) {
    int t = Owner(v, k, a, n);
    if (t == kStraddle) sim.Fault("straddling-access");
    return t == kNone ? v.def[k] : t;
  }
  void ClearLogs() { for (auto& t : targets) { if (t->rec) t->rec->log.clear(); if (t->atom) t->atom->log.clear(); } }
  // Exactly `want` (or nobody) received one access.
  void JudgeDelivery(const char* what, int want) {
    for (size_t i = 0; i < targets.size(); i++) {
      size_t n = targets[i]->Log();
      size_t w = (int)i == want ? 1 : 0;
      SIM_CHECK(sim, n == w, w ? (n ? "delivered-twice" : "not-delivered") : "misdelivered", "%s: target %zu received it %zu times, expected %zu", what, i, n, w);
    }
    if (want >= 0) delivered++; else sim.Fault("no-target");
  }
  void Issue(View& v) {
    memw::Access a;
    a.store = sim.Pick(2);
    int shape = sim.Pick(3);   // scalar, vector, tagged
    if (shape == 2 && !v.tag) shape = 0;
    if (shape != 2 && !v.mem) return;
    a.vector = shape == 1;
    a.tagged = shape == 2;
    // Aim at the boundaries of mapped ranges.
    if (!Shape(a)) return;
    bool tag_only = a.tagged && !a.store && sim.Pick(4) == 0 && model.granule == 8;
    a.has_data = !tag_only;
    std::string what = Describe(a);
    int want = kNone;
    bool judge = true;
    if (a.tagged) {
      want = OfKind(v, kTag, a.address, a.size);
    } else if (!a.vector) {
      want = Plain(v, a.address, a.size);
    } else {
      std::optional<int> w;
      for (auto& e : a.elems) {
        int o = Plain(v, e.addr, e.size);
        if (o < 0) { w = o; break; }
        if (w && *w != o) { sim.Fault("vector-over-two-targets"); w = kStraddle; break; }
        w = o;
      }
      if (a.elems.empty()) judge = false;
      want = w.value_or(kNone);
    }
    sim.Log("%s -> %d", what.c_str(), want);
    DataBuffer* db = tag_only ? nullptr : Buf(a.size);
    std::vector<uint8_t> bytes(a.size);
    FillRandom(bytes);
    if (db) std::memcpy(db->raw_ptr(), bytes.data(), a.size);
    DataBuffer* tg = a.tagged ? Buf(a.size / model.granule) : nullptr;
    if (tg) std::memset(tg->raw_ptr(), 1, a.size / model.granule);
    DataBuffer* ad = a.vector ? AddressBuf(a) : nullptr;
    DataBuffer* mk = a.vector ? MaskBuf(a) : nullptr;
    memw::LoadInst* inst = nullptr;
    int ran = 0;
    if (!a.store && sim.Pick(2)) {
      inst = new memw::LoadInst(this, 0, state.get());
      inst->set_semantic_function([&ran](Instruction*) { ran++; });
    }
    ClearLogs();
    if (a.vector) { if (a.store) v.mem->Store(ad, mk, a.el_size, db); else v.mem->Load(ad, mk, a.el_size, db, inst, nullptr); }
    else if (a.tagged) { if (a.store) v.tag->Store(a.address, db, tg); else v.tag->Load(a.address, db, tg, inst, nullptr); }
    else { if (a.store) v.mem->Store(a.address, db); else v.mem->Load(a.address, db, inst, nullptr); }
    if (judge) {
      JudgeDelivery(what.c_str(), want);
      if (want >= 0) {
        memw::Recorder& rec = *targets[want]->rec;
        SIM_CHECK(sim, rec.log[0].db == db && rec.log[0].inst == inst, "altered", "%s reached its target with another buffer or instruction", what.c_str());
        memw::CheckForwarded(sim, rec, a);
        if (inst) SIM_CHECK(sim, ran == 1, "not-completed", "%s was delivered but its instruction ran %d times", what.c_str(), ran);
      } else {
        SIM_CHECK(sim, ran <= 1, "completed-twice", "%s completed %d times", what.c_str(), ran);
      }
    } else {
      // No element enabled: nothing to deliver, but a load still has to complete
      // if its addresses belong to a target.
      int o = Plain(v, a.addresses[0], a.el_size);
      for (auto x : a.addresses) if (Plain(v, x, a.el_size) != o) o = kNone;
      if (inst && o >= 0) { sim.Probe("all-masked-load"); SIM_CHECK(sim, ran == 1, "not-completed", "a vector load with no element enabled never completed (ran %d)", ran); }
    }
    if (inst) inst->DecRef();
    if (db) db->DecRef();
    if (tg) tg->DecRef();
    if (ad) { ad->DecRef(); mk->DecRef(); }
  }
  void Atomic(View& v) {
    if (!v.atom) return;
    int size = 1 << sim.Pick(4);
    uint64_t addr = PickAddr(size);
    if (!Fits(addr, size)) return;
    auto op = (AtomicMemoryOpInterface::Operation)sim.Pick(12);
    int want = OfKind(v, kAtom, addr, size);
    DataBuffer* db = Buf(size);
    bool fail = sim.Chance(1, 4);
    for (auto& t : targets) if (t->atom) t->atom->fail = fail;
    ClearLogs();
    sim.Log("atomic %d at %lx size %d -> %d%s", (int)op, (unsigned long)addr, size, want, fail ? " failing" : "");
    auto st = v.atom->PerformMemoryOp(addr, op, db, nullptr, nullptr);
    JudgeDelivery("atomic operation", want);
    if (want >= 0) {
      auto& r = targets[want]->atom->log[0];
      SIM_CHECK(sim, r.addr == addr && r.op == op && r.db == db, "altered", "atomic operation at %lx was altered", (unsigned long)addr);
      if (fail) sim.Fault("atomic-target-fails");
      SIM_CHECK(sim, st.ok() == !fail, "atomic-status", "atomic operation at %lx returned %s, the target returned %s", (unsigned long)addr, st.ok() ? "ok" : "an error", fail ? "an error" : "ok");
    } else {
      SIM_CHECK(sim, !st.ok(), "atomic-status", "atomic operation at %lx without a target returned ok", (unsigned long)addr);
    }
    db->DecRef();
  }
  void AddMapping(View& v) {
    int t = sim.Pick(targets.size());
    Kind k = targets[t]->kind;
    auto& win = windows[sim.Pick(windows.size())];
    uint64_t base = win.first + sim.Pick(win.second - win.first);
    uint64_t top = base + sim.Range(1, 30);
    if (windows.size() > 1 && sim.Chance(1, 4)) top = base + (1ull << sim.Range(5, 63));
    auto& maps = v.maps[k];
    if (!maps.empty() && sim.Pick(3) == 0) {   // adjacent to an existing one
      auto& m = maps[sim.Pick(maps.size())];
      if (m.top < ~0ull - 40) { base = m.top + 1; top = base + sim.Range(1, 12); sim.Probe("adjacent-mapping"); }
    }
    if (sim.Chance(1, 12)) { std::swap(base, top); }
    bool dup_same = false, dup_other = false;
    if (!maps.empty() && sim.Chance(1, 8)) { auto& m = maps[sim.Pick(maps.size())]; base = m.base; top = m.top; }
    bool overlap = false;
    for (auto& m : maps) {
      if (base > m.top || top < m.base) continue;
      if (m.base == base && m.top == top) (m.target == t ? dup_same : dup_other) = true; else overlap = true;
    }
    bool well = base < top;
    bool ok;
    sim.Log("map [%lx, %lx] to %d in view %s", (unsigned long)base, (unsigned long)top, t, v.name.c_str());
    absl::Status st;
    if (v.router) {
      if (k == kMem) st = v.router->AddTarget<MemoryInterface>(targets[t]->rec.get(), base, top);
      else if (k == kTag) st = v.router->AddTarget<TaggedMemoryInterface>(targets[t]->rec.get(), base, top);
      else st = v.router->AddTarget<AtomicMemoryOpInterface>(targets[t]->atom.get(), base, top);
    } else {
      st = multi->AddMapping(v.name, targets[t]->name, base, top);
    }
    ok = well && !overlap && !dup_other;
    if (!ok) sim.Fault("refused-mapping");
    if (dup_other) sim.Probe("same-range-other-target");
    SIM_CHECK(sim, st.ok() == ok, "mapping-status", "mapping [%lx, %lx] to target %d was %s", (unsigned long)base, (unsigned long)top, t, st.ok() ? "accepted" : "refused");
    if (ok && !dup_same) { maps.push_back({base, top, t}); added++; }
  }
  void Default(View& v) {
    if (!v.router) return;
    int t = sim.Pick(targets.size());
    Kind k = targets[t]->kind;
    bool clear = sim.Pick(3) == 0;
    bool legal = clear || v.def[k] < 0;
    absl::Status st;
    sim.Log("default of kind %d: %d", k, clear ? -1 : t);
    if (k == kMem) st = v.router->AddDefaultTarget<MemoryInterface>(clear ? nullptr : targets[t]->rec.get());
    else if (k == kTag) st = v.router->AddDefaultTarget<TaggedMemoryInterface>(clear ? nullptr : targets[t]->rec.get());
    else st = v.router->AddDefaultTarget<AtomicMemoryOpInterface>(clear ? nullptr : targets[t]->atom.get());
    SIM_CHECK(sim, st.ok() == legal, "default-status", "default target %s", st.ok() ? "accepted twice" : "refused");
    if (legal) v.def[k] = clear ? -1 : t;
    sim.Probe("default-target");
  }
};
}  // namespace

void RunOne(dst::Sim& sim) {
  RouterWorld w(sim);
  w.model.granule = 1 << sim.Range(0, 4);
  uint64_t base = memw::PickBase(sim, 0xffff'ffff'ffff'f000ull);
  w.windows = {{base, base + 120}};
  if (base > ~0ull - 0x1000) w.windows[0] = {~0ull - 200, ~0ull - 70};
  // Addresses that differ in one high bit only, and ranges that span them.
  if (base < 1ull << 60 && sim.Chance(1, 4)) {
    for (int i = 0; i < 2; i++) { uint64_t o = base + (1ull << sim.Range(8, 63)); w.windows.push_back({o, o + 60}); }
    sim.Probe("high-address-bits");
  }
  int kinds = sim.Pick(3);   // plain only, tagged only, both
  int nt = sim.Range(1, 5);
  for (int i = 0; i < nt; i++) w.NewTarget(sim.Pick(4) == 0 ? kAtom : kinds == 0 ? kMem : kinds == 1 ? kTag : sim.Pick(2) ? kMem : kTag);
  bool direct = sim.Pick(2);
  if (direct) {
    w.single = std::make_unique<SingleInitiatorRouter>("r");
    auto v = std::make_unique<View>();
    v->router = w.single.get();
    v->mem = w.single.get(); v->tag = w.single.get(); v->atom = w.single.get();
    v->name = "r";
    w.views.push_back(std::move(v));
  } else {
    sim.Probe("memory-router");
    w.multi = std::make_unique<MemoryRouter>();
    int ni = sim.Range(1, 3);
    for (int i = 0; i < ni; i++) {
      auto v = std::make_unique<View>();
      v->name = "i" + std::to_string(i);
      if (sim.Pick(4)) v->mem = w.multi->AddMemoryInitiator(v->name);
      if (sim.Pick(2) || !v->mem) v->tag = w.multi->AddTaggedInitiator(v->name);
      if (sim.Pick(2)) v->atom = w.multi->AddAtomicInitiator(v->name);
      if (!v->mem) v->mem = v->tag;
      w.views.push_back(std::move(v));
    }
    for (auto& t : w.targets) {
      absl::Status st = t->kind == kMem ? w.multi->AddTarget(t->name, static_cast<MemoryInterface*>(t->rec.get()))
                        : t->kind == kTag ? w.multi->AddTarget(t->name, static_cast<TaggedMemoryInterface*>(t->rec.get()))
                                          : w.multi->AddTarget(t->name, static_cast<AtomicMemoryOpInterface*>(t->atom.get()));
      SIM_CHECK(sim, st.ok(), "target-status", "target refused");
    }
  }
  sim.set_max_steps(sim.Range(8, 70));
  if (base < 1ull << 60 && sim.Chance(1, 40)) {
    w.windows = {{base, base + 0x1800}};
    sim.Probe("many-mappings");
    for (int i = 0; i < 400; i++) w.AddMapping(*w.views[sim.Pick(w.views.size())]);
  }
  while (sim.Step()) {
    View& v = *w.views[sim.Pick(w.views.size())];
    switch (sim.Weighted({5, 12, 3, 1, 1})) {
      case 0: w.AddMapping(v); break;
      case 1: w.Issue(v); break;
      case 2: w.Atomic(v); break;
      case 3: w.Default(v); break;
      case 4:
        if (w.multi) {
          sim.Fault("unknown-name");
          auto s1 = w.multi->AddMapping("nobody", w.targets[0]->name, base, base + 8);
          auto s2 = w.multi->AddMapping(v.name, "nowhere", base, base + 8);
          auto s3 = w.multi->AddTarget(w.targets[0]->name, static_cast<AtomicMemoryOpInterface*>(nullptr));
          SIM_CHECK(sim, !s1.ok() && !s2.ok() && !s3.ok(), "name-status", "an unknown or duplicate name was accepted (%d %d %d)", s1.ok(), s2.ok(), s3.ok());
          // The same name gives the same initiator.
          auto* m = w.multi->AddMemoryInitiator(v.name);
          if (v.mem) SIM_CHECK(sim, m == v.mem, "initiator", "adding initiator %s again gave another object", v.name.c_str());
        }
        break;
    }
    uint64_t h = 0;
    for (auto& x : w.views) for (int k = 0; k < 3; k++) { h = dst::Mix(h ^ (x->def[k] + 2)); for (auto& m : x->maps[k]) h = dst::Mix(h ^ (m.base & 0xff) << 8 ^ (m.top & 0xff) ^ m.target << 20); }
    sim.State(h);
  }
  if (w.delivered >= 1 && w.added >= 1) sim.NonTrivial();
  SIM_CHECK(sim, w.live_inst == 0, "instruction-leaked", "%d instructions leaked", w.live_inst);
}
