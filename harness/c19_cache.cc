// C19: cache model. Real code: Cache, Component counters, the memories below,
// Instruction, function delay line. Stubs: clients, cycle counter, recorder.
#include <optional>

#include "mem_world.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/util/memory/cache.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace mpact::sim::util;
const char* const kHarnessProperty = "C19";
const bool kHarnessChecksLeaks = true;

namespace {
const char* const kCounters[] = {"read_hit", "read_miss", "write_hit", "write_miss", "dirty_line_writeback",
                                 "read_around", "write_around", "read_non_cacheable", "write_non_cacheable"};
enum { kRH, kRM, kWH, kWM, kWB, kRA, kWA, kRN, kWN, kN };
struct Line { uint64_t block; uint64_t used; bool dirty; };
struct Ref {
  uint64_t line = 16, ways = 1, sets = 1;
  bool alloc = true;
  int range_kind = 0;   // 0 none, 1 cacheable, 2 non-cacheable
  std::vector<std::pair<uint64_t, uint64_t>> ranges;
  std::map<uint64_t, std::vector<Line>> sets_;
  uint64_t n[kN] = {};
  bool ambiguous = false, mixed = false;
  int evictions = 0, dirty_evictions = 0;
  bool In(uint64_t a) const { for (auto& r : ranges) if (a >= r.first && a <= r.second) return true; return false; }
  void Reset() { sets_.clear(); }
  void Touch(uint64_t addr, int size, bool read, uint64_t now) {
    bool nc = false;
    if (range_kind) {
      bool in = In(addr);
      for (int k = 1; k < size; k++) if (In(addr + k) != in) mixed = true;
      nc = range_kind == 1 ? !in : in;
    }
    for (uint64_t b = addr / line; b <= (addr + size - 1) / line; b++) {
      if (nc) { n[read ? kRN : kWN]++; continue; }
      auto& set = sets_[b % sets];
      size_t i = 0;
      while (i < set.size() && set[i].block != b) i++;
      if (i < set.size()) { set[i].used = now; set[i].dirty |= !read; n[read ? kRH : kWH]++; continue; }
      n[read ? kRM : kWM]++;
      if (!read && !alloc) { n[kWA]++; continue; }
      if (set.size() == ways) {
        size_t v = 0;
        for (size_t k = 1; k < set.size(); k++) if (set[k].used < set[v].used) v = k;
        for (size_t k = 0; k < set.size(); k++) if (k != v && set[k].used == set[v].used) ambiguous = true;
        if (set[v].dirty) { n[kWB]++; dirty_evictions++; }
        set.erase(set.begin() + v);
        evictions++;
      }
      set.push_back({b, now, !read});
    }
  }
};

struct CacheWorld : public memw::World {
  using World::World;
  std::unique_ptr<Cache> cache;
  std::unique_ptr<SimpleCounter<uint64_t>> clock;
  std::unique_ptr<memw::Recorder> rec;
  Ref ref;
  bool large = false;
  int counted = 0, observe_every = 1;

  // Draws accesses until one is found whose outcome is determined: no victim
  // chosen among lines used in the same cycle, no access half inside a range.
  Ref Outcome(const memw::Access& a) {
    Ref r = ref;
    r.ambiguous = r.mixed = false;
    for (auto& e : a.elems) r.Touch(e.addr, e.size, !a.store, clock->GetValue());
    return r;
  }
  void Before(const memw::Access&) override { if (rec) rec->log.clear(); }
  void After(const memw::Access& a) override {
    ref = Outcome(a);
    if (rec) memw::CheckForwarded(sim, *rec, a);
    counted++;
    if (counted % observe_every == 0) CheckCounters(Describe(a).c_str());
  }
  void CheckCounters(const char* what) {
    for (int i = 0; i < kN; i++) {
      auto* c = static_cast<SimpleCounter<uint64_t>*>(cache->GetCounter(kCounters[i]));
      SIM_CHECK(sim, c->GetValue() == ref.n[i], "counter", "after %s, %s is %lu, expected %lu", what, kCounters[i], (unsigned long)c->GetValue(), (unsigned long)ref.n[i]);
    }
  }
  // World::Load/Store draw the access themselves; ShapeOk lets this world veto.
  bool Admit(const memw::Access& a) override {
    Ref r = Outcome(a);
    return !r.ambiguous && !r.mixed;
  }
  void Configure() {
    uint64_t line = 4ull << sim.Pick(4), lines = 1ull << sim.Pick(5), ways = 1ull << sim.Pick(5);
    bool full = sim.Pick(4) == 0;
    if (large) { line = 4ull << sim.Pick(15); lines = 1ull << sim.Range(3, 14); ways = 1ull << sim.Pick(8); sim.Probe("large-cache"); }
    if (ways > lines) ways = lines;
    bool alloc = sim.Pick(2);
    uint64_t size = line * lines;
    std::string cfg;
    if (size % 1048576 == 0 && sim.Pick(2)) { cfg = std::to_string(size / 1048576) + "M"; sim.Probe("size-in-megabytes"); }
    else if (size % 1024 == 0) cfg = std::to_string(size / 1024) + "k"; else cfg = std::to_string(size);
    cfg += "," + std::to_string(line) + "," + (full ? "0" : std::to_string(ways)) + "," + (alloc ? "true" : "false");
    Ref next = ref;
    next.ranges.clear();
    next.range_kind = sim.Pick(3) ? 0 : sim.Range(1, 2);
    if (next.range_kind) {
      uint64_t lo = windows[0].first;
      int nr = sim.Range(1, 3);
      for (int i = 0; i < nr; i++) {
        lo += sim.Pick(16);
        if (large && sim.Pick(3) == 0) lo += 1ull << sim.Range(5, 63);
        uint64_t hi = lo + sim.Pick(24);
        if (large && sim.Pick(3) == 0) hi += 1ull << sim.Range(5, 63);
        if (windows.size() > 1 && sim.Chance(1, 4)) { lo = std::max(lo, windows[sim.Pick(windows.size())].first + sim.Pick(16)); hi = lo + sim.Pick(40); }
        if (hi < lo || hi > ~0ull - 64) break;
        char b[80];
        snprintf(b, sizeof b, ",%s:0x%lx:%lu", next.range_kind == 1 ? "c" : "nc", (unsigned long)lo, (unsigned long)hi);
        cfg += b;
        next.ranges.push_back({lo, hi});
        lo = hi + 1;
      }
      if (next.ranges.empty()) next.range_kind = 0;
      else sim.Probe("cacheability-ranges");
    }
    sim.Log("configure %s", cfg.c_str());
    auto st = cache->Configure(cfg, clock.get());
    SIM_CHECK(sim, st.ok(), "refused", "valid configuration '%s' was refused", cfg.c_str());
    next.line = line; next.ways = full ? lines : ways; next.sets = lines / next.ways; next.alloc = alloc;
    next.Reset();
    ref = next;
    if (full) sim.Probe("fully-associative");
    CheckCounters("configuring");
  }
  void BadConfigure() {
    static const char* const kBad[] = {"", "1k", "1k,16,1", "1k,16,1,maybe", "1000,16,1,true", "1k,17,1,true", "1k,16,3,true", "0,16,1,true",
                                       "1k,2,1,true", "16,32,1,true", "64,16,8,true", "1x,16,1,true", "1k,16x,1,true", "1k,16,1x,true",
                                       "1k,16,64,false,c:1", "1k,16,64,true,c:0x1000:0x1fff,nc:0x2000:0x2fff", "1k,16,64,true,nc:0x1000:0x1fff,c:0x2000:0x2fff",
                                       "1k,16,64,true,c:0x2000:0x1fff", "1k,16,64,false,z:1:2", "1k,16,64,true,c:0x1000x:0x1fff", "1k,16,64,true,c:0x1000:0x1fffx",
                                       "abc,16,1,true", "1k,,1,true", "1k,16,,true", "1k,16,64,true,nc::0x10", "1k,16,64,true,nc:0x10:", ",16,1,true", "1k,16,1,",
                                       "99999999999999999999999,16,1,true", "1k,16,64,true,nc:0xfffffffffffffffffff:0xfffffffffffffffffffff"};
    const char* c = kBad[sim.Pick(sizeof kBad / sizeof *kBad)];
    sim.Log("configure '%s'", c);
    auto st = cache->Configure(c, clock.get());
    SIM_CHECK(sim, !st.ok(), "accepted", "invalid configuration '%s' was accepted", c);
    sim.Fault("invalid-configuration");
  }
};
}  // namespace

void RunOne(dst::Sim& sim) {
  CacheWorld w(sim);
  w.keeps_latency = true;
  uint64_t base = memw::PickBase(sim, 0xffff'ffff'ffff'f000ull);
  std::unique_ptr<FlatDemandMemory> fm;
  std::unique_ptr<TaggedFlatDemandMemory> tm;
  w.clock = std::make_unique<SimpleCounter<uint64_t>>("cycles", 0ull);
  int kind = sim.Pick(2);
  int ctor = sim.Pick(3);
  w.model.granule = 8;
  if (kind == 0) {
    fm = std::make_unique<FlatDemandMemory>();
    w.rec = std::make_unique<memw::Recorder>(static_cast<MemoryInterface*>(fm.get()));
    MemoryInterface* m = w.rec.get();
    if (ctor == 0) w.cache = std::make_unique<Cache>("c", m);
    else if (ctor == 1) w.cache = std::make_unique<Cache>("c", static_cast<Component*>(nullptr), m);
    else { w.cache = std::make_unique<Cache>("c"); w.cache->set_memory(m); }
  } else {
    tm = std::make_unique<TaggedFlatDemandMemory>(w.model.granule);
    w.rec = std::make_unique<memw::Recorder>(static_cast<TaggedMemoryInterface*>(tm.get()));
    TaggedMemoryInterface* m = w.rec.get();
    if (ctor == 0) w.cache = std::make_unique<Cache>("c", m);
    else if (ctor == 1) w.cache = std::make_unique<Cache>("c", static_cast<Component*>(nullptr), m);
    else { w.cache = std::make_unique<Cache>("c"); w.cache->set_tagged_memory(m); }
    w.tagged = w.cache.get();
    sim.Probe("tagged-cache");
  }
  w.mem = w.cache.get();
  uint64_t span = 64 << sim.Pick(4);
  w.windows = {{base, base + span}};
  // Windows whose addresses differ in one high bit only: same set, another tag.
  if (base < 1ull << 60 && sim.Pick(2)) {
    w.large = sim.Pick(2);
    int nw = sim.Range(1, 5);
    for (int i = 0; i < nw; i++) { uint64_t o = base + (1ull << sim.Range(6, 63)); w.windows.push_back({o, o + span}); }
    sim.Probe("high-address-bits");
  }
  if (sim.Chance(1, 4)) { w.observe_every = sim.Range(2, 20); sim.Probe("rarely-observed"); }
  // A simulation that has been going for a while.
  if (sim.Pick(4) == 0) w.clock->Increment((1ull << sim.Range(8, 60)) - sim.Pick(6));
  w.Configure();
  sim.set_max_steps(sim.Range(8, 90));
  while (sim.Step()) {
    // The cycle counter is the clock the replacement policy sees.
    if (sim.Pick(40) == 0) { w.clock->Increment(1ull << sim.Range(8, 33)); sim.Probe("long-idle"); }
    if (sim.Pick(8)) w.clock->Increment(1 + sim.Pick(3)); else sim.Probe("several-accesses-in-a-cycle");
    switch (sim.Weighted({6, 8, 3, 3, 3, 2, 2, 1, 1})) {
      case 0: w.Store(false, false); break;
      case 1: w.Load(false, false); break;
      case 2: w.Store(true, false); break;
      case 3: w.Load(true, false); break;
      case 4: w.Advance(); break;
      case 5: if (w.tagged) w.Store(false, true); break;
      case 6: if (w.tagged) w.Load(false, true); break;
      case 7: if (sim.Pick(6) == 0) { w.Configure(); sim.Probe("reconfigured"); } break;
      case 8: if (sim.Pick(4) == 0) w.BadConfigure(); break;
    }
    uint64_t h = w.pend.size() ^ w.ref.ways << 8 ^ w.ref.line << 16;
    for (auto& [i, s] : w.ref.sets_) for (auto& l : s) h = dst::Mix(h ^ (l.block & 0xffff) << 1 ^ l.dirty);
    sim.State(h);
  }
  if (w.counted >= 2) sim.NonTrivial();
  if (w.ref.evictions) sim.Probe("eviction");
  if (w.ref.dirty_evictions) sim.Probe("dirty-eviction");
  w.CheckCounters("the run");
  w.Drain();
  w.rec->log.clear();
}
