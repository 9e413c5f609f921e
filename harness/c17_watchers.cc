// C17: memory watchers. Real code: MemoryWatcher, TaggedMemoryWatcher, the
// memories below, Instruction, delay line. Stubs: clients, callbacks, recorder.
#include "mem_world.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_watcher.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_memory_watcher.h"

using namespace mpact::sim::util;
const char* const kHarnessProperty = "C17";
const bool kHarnessChecksLeaks = true;

namespace {
struct Range { uint64_t lo, hi; int id; };
struct Call { int id; uint64_t addr; int size; bool operator<(const Call& o) const { return std::tie(id, addr, size) < std::tie(o.id, o.addr, o.size); } };
struct WatchWorld : public memw::World {
  using World::World;
  std::unique_ptr<memw::Recorder> rec;
  std::unique_ptr<MemoryWatcher> mw;
  std::unique_ptr<TaggedMemoryWatcher> tw;
  std::vector<Range> st, ld;
  std::multiset<Call> calls;
  bool quiet = true;
  int next_id = 1, fired = 0;
  bool Hit(const Range& r, uint64_t a, int n) { return a <= r.hi && a + n - 1 >= r.lo; }
  const memw::Access* current = nullptr;
  bool nested = false;
  unsigned nest = 0;
  void Before(const memw::Access& a) override { calls.clear(); rec->log.clear(); quiet = false; current = &a; }
  // What a byte of memory is while the callbacks of a store run: stored already.
  uint8_t Now(uint64_t addr) {
    uint8_t v = model.Get(addr);
    if (current->store)
      for (auto& e : current->elems)
        if (addr - e.addr < (uint64_t)e.size) v = current->data[e.index * (current->vector ? current->el_size : 0) + (addr - e.addr)];
    return v;
  }
  // A callback reads memory itself, through the watcher (as one that prints does).
  void ReadFromCallback(uint64_t addr, int n) {
    nested = true;
    auto saved = calls;
    auto log = rec->log;
    calls.clear();
    rec->log.clear();
    n = std::min(n, 64);
    DataBuffer* db = Buf(n);
    mem->Load(addr, db, nullptr, nullptr);
    SIM_CHECK(sim, rec->log.size() == 1, "forwarded", "a load made by a callback reached memory %zu times", rec->log.size());
    size_t want = 0;
    for (auto& r : ld) if (Hit(r, addr, n)) want++;
    SIM_CHECK(sim, calls.size() == want, "missed", "a load made by a callback invoked %zu callbacks, expected %zu", calls.size(), want);
    for (int k = 0; k < n; k++) SIM_CHECK(sim, db->Get<uint8_t>(k) == Now(addr + k), "callback-order", "a callback of %s reads %02x at %lx, expected %02x", Describe(*current).c_str(), db->Get<uint8_t>(k), (unsigned long)(addr + k), Now(addr + k));
    db->DecRef();
    calls = saved;
    rec->log = log;
    nested = false;
    sim.Probe(current->store ? "store-callback-reads-memory" : "load-callback-reads-memory");
  }
  void After(const memw::Access& a) override {
    quiet = true;
    memw::CheckForwarded(sim, *rec, a);
    std::multiset<Call> want;
    for (auto& e : a.elems) {
      int hits = 0;
      for (auto& r : a.store ? st : ld) if (Hit(r, e.addr, e.size)) { want.insert({r.id, e.addr, e.size}); hits++; }
      if (hits > 1) sim.Probe("access-spans-two-ranges");
    }
    if (!a.has_data) return;   // a tag-only load: whether it is watched is not fixed
    for (auto& c : want) SIM_CHECK(sim, calls.count(c) >= want.count(c), "missed", "%s: callback of range %d not invoked for %d bytes at %lx", Describe(a).c_str(), c.id, c.size, (unsigned long)c.addr);
    for (auto& c : calls) SIM_CHECK(sim, calls.count(c) <= want.count(c), "spurious", "%s: callback %d invoked for %d bytes at %lx", Describe(a).c_str(), c.id, c.size, (unsigned long)c.addr);
    fired += want.size();
  }
  template <typename W>
  void SetRange(W* w, bool store) {
    auto& v = store ? st : ld;
    uint64_t lo = PickAddr(1), hi = lo + sim.Pick(12);
    if (windows.size() > 1 && sim.Chance(1, 4)) hi = lo + (1ull << sim.Range(5, 63));
    if (sim.Chance(1, 10)) hi = lo;
    if (sim.Chance(1, 10)) { std::swap(lo, hi); if (lo > hi) sim.Fault("malformed-range"); }
    if (!v.empty() && sim.Chance(1, 6)) { lo = v.back().hi + 1; hi = lo + sim.Pick(4); sim.Probe("adjacent-range"); }
    if (sim.Chance(1, 30)) hi = ~0ull;
    bool legal = lo <= hi;
    for (auto& r : v) if (lo <= r.hi && hi >= r.lo) { if (legal) sim.Fault("overlapping-range"); legal = false; }
    int id = next_id++;
    sim.Log("watch %s [%lx, %lx] as %d", store ? "stores" : "loads", (unsigned long)lo, (unsigned long)hi, id);
    auto cb = [this, id](uint64_t a, int n) {
      SIM_CHECK(sim, !quiet, "spurious", "callback %d invoked with no access under way", id);
      calls.insert({id, a, n});
      if (nested) return;
      SIM_CHECK(sim, rec->log.size() == (current->store ? 1 : 0), "callback-order", "callback %d of a %s runs %s the access reaches memory", id, current->store ? "store" : "load", current->store ? "before" : "after");
      if (nest && sim.Chance(1, nest)) ReadFromCallback(a, n);
    };
    auto s = store ? w->SetStoreWatchCallback({lo, hi}, cb) : w->SetLoadWatchCallback({lo, hi}, cb);
    SIM_CHECK(sim, s.ok() == legal, "range-status", "watch range [%lx, %lx] was %s", (unsigned long)lo, (unsigned long)hi, s.ok() ? "accepted" : "refused");
    if (legal) v.push_back({lo, hi, id});
  }
  template <typename W>
  void ClearRange(W* w, bool store) {
    auto& v = store ? st : ld;
    uint64_t a = PickAddr(1);
    if (!v.empty() && sim.Pick(2)) { auto& r = v[sim.Pick(v.size())]; a = r.lo + (r.hi - r.lo ? sim.Pick(std::min<uint64_t>(r.hi - r.lo, 64) + 1) : 0); }
    size_t k = 0;
    while (k < v.size() && !(a >= v[k].lo && a <= v[k].hi)) k++;
    sim.Log("clear %s watch at %lx", store ? "store" : "load", (unsigned long)a);
    auto s = store ? w->ClearStoreWatchCallback(a) : w->ClearLoadWatchCallback(a);
    SIM_CHECK(sim, s.ok() == (k < v.size()), "clear-status", "clearing the watch at %lx %s", (unsigned long)a, s.ok() ? "succeeded with no range there" : "failed");
    if (k < v.size()) v.erase(v.begin() + k); else sim.Fault("clear-without-range");
  }
};
}  // namespace

void RunOne(dst::Sim& sim) {
  WatchWorld w(sim);
  uint64_t base = memw::PickBase(sim, 0xffff'ffff'ffff'0000ull);
  w.windows = {{base, base + 80}};
  uint64_t size = 0x1000;
  // Addresses that differ in one high bit only, and ranges that span them.
  if (base < 1ull << 62 && sim.Chance(1, 4)) {
    for (int i = 0; i < 2; i++) { uint64_t o = base + (1ull << sim.Range(8, 63)); w.windows.push_back({o, o + 80}); }
    size = ~0ull - base;
    sim.Probe("high-address-bits");
  }
  std::unique_ptr<FlatDemandMemory> fm;
  std::unique_ptr<TaggedFlatDemandMemory> tm;
  bool tagged = sim.Pick(2);
  if (tagged) {
    w.model.granule = 1 << sim.Range(0, 4);
    tm = std::make_unique<TaggedFlatDemandMemory>(size, base, 1, 0, w.model.granule);
    w.rec = std::make_unique<memw::Recorder>(static_cast<TaggedMemoryInterface*>(tm.get()));
    w.tw = std::make_unique<TaggedMemoryWatcher>(w.rec.get());
    w.mem = w.tw.get();
    w.tagged = w.tw.get();
  } else {
    fm = std::make_unique<FlatDemandMemory>(size, base, 1, 0);
    w.rec = std::make_unique<memw::Recorder>(static_cast<MemoryInterface*>(fm.get()));
    w.mw = std::make_unique<MemoryWatcher>(w.rec.get());
    w.mem = w.mw.get();
  }
  sim.set_max_steps(sim.Range(8, 80));
  if (sim.Chance(1, 3)) w.nest = sim.Range(1, 8);
  if (sim.Chance(1, 40)) {
    w.windows = {{base, base + 0x1000}};
    sim.Probe("many-ranges");
    for (int i = 0; i < 400; i++) { bool s = sim.Pick(2); if (tagged) w.SetRange(w.tw.get(), s); else w.SetRange(w.mw.get(), s); }
  }
  while (sim.Step()) {
    switch (sim.Weighted({5, 2, 4, 4, 4, 4, 3, 2, 2})) {
      case 0: { bool s = sim.Pick(2); if (tagged) w.SetRange(w.tw.get(), s); else w.SetRange(w.mw.get(), s); break; }
      case 1: { bool s = sim.Pick(2); if (tagged) w.ClearRange(w.tw.get(), s); else w.ClearRange(w.mw.get(), s); break; }
      case 2: w.Store(false, false); break;
      case 3: w.Load(false, false); break;
      case 4: w.Store(true, false); break;
      case 5: w.Load(true, false); break;
      case 6: w.Advance(); break;
      case 7: if (tagged) w.Store(false, true); break;
      case 8: if (tagged) w.Load(false, true); break;
    }
    w.calls.clear();
    uint64_t h = w.pend.size() * 64 + w.st.size() * 8 + w.ld.size();
    for (auto& r : w.st) h = dst::Mix(h ^ (r.lo - base) * 128 ^ (r.hi - base));
    sim.State(h);
  }
  if (w.fired >= 1) sim.NonTrivial();
  w.Drain();
}
