// C20: memory-use profile. Real code: MemoryUseProfiler, TaggedMemoryUseProfiler,
// the memories below. Stubs: clients, recorder, output sink.
#include <sstream>

#include "mem_world.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_use_profiler.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace mpact::sim::util;
const char* const kHarnessProperty = "C20";
const bool kHarnessChecksLeaks = true;

namespace {
struct ProfWorld : public memw::World {
  using World::World;
  std::unique_ptr<memw::Recorder> rec;
  std::unique_ptr<MemoryUseProfiler> mp;
  std::unique_ptr<TaggedMemoryUseProfiler> tp;
  std::set<uint64_t> used;   // word numbers
  bool enabled = false;
  int marked = 0;
  void Before(const memw::Access&) override { rec->log.clear(); }
  void After(const memw::Access& a) override {
    memw::CheckForwarded(sim, *rec, a);
    if (!a.has_data) return;   // tags only: no data word touched
    for (auto& e : a.elems) {
      if (e.size > 8) { sim.Probe("access-over-8-bytes"); continue; }   // documented as not profiled
      if (!enabled) { sim.Probe("access-while-disabled"); continue; }
      uint64_t first = e.addr >> 2, last = (e.addr + e.size - 1) >> 2;
      if (last > first) sim.Probe("access-spans-words");
      if ((e.addr >> 17) != ((e.addr + e.size - 1) >> 17)) sim.Probe("access-spans-segments");
      for (uint64_t w = first; w <= last; w++) used.insert(w);
      marked++;
    }
  }
  void Enable(bool on) { enabled = on; if (tp) tp->set_is_enabled(on); else mp->set_is_enabled(on); sim.Log("profiling %s", on ? "on" : "off"); }
  void CheckProfile() {
    std::ostringstream os;
    if (tp) tp->WriteProfile(os); else mp->WriteProfile(os);
    std::vector<std::array<uint64_t, 3>> want, got;
    for (auto it = used.begin(); it != used.end();) {
      uint64_t s = *it, e = s;
      for (++it; it != used.end() && *it == e + 1; ++it) e = *it;
      want.push_back({s * 4, e * 4, (e - s + 1) * 4});
    }
    std::istringstream is(os.str());
    std::string line;
    while (std::getline(is, line)) {
      unsigned long long s, e, n;
      SIM_CHECK(sim, sscanf(line.c_str(), "0x%llx,0x%llx,%llu", &s, &e, &n) == 3, "format", "profile line '%s'", line.c_str());
      got.push_back({s, e, n});
    }
    for (size_t i = 0; i < std::max(want.size(), got.size()); i++) {
      SIM_CHECK(sim, i < got.size(), "missing-range", "profile has %zu ranges, expected %zu; missing [%lx, %lx]", got.size(), want.size(), (unsigned long)want[i][0], (unsigned long)want[i][1]);
      SIM_CHECK(sim, i < want.size(), "extra-range", "profile names [%lx, %lx], which was not accessed", (unsigned long)got[i][0], (unsigned long)got[i][1]);
      SIM_CHECK(sim, got[i] == want[i], "wrong-range", "profile range %zu is [%lx, %lx] of %lu bytes, expected [%lx, %lx] of %lu", i, (unsigned long)got[i][0], (unsigned long)got[i][1], (unsigned long)got[i][2], (unsigned long)want[i][0], (unsigned long)want[i][1], (unsigned long)want[i][2]);
    }
    if (!used.empty()) sim.Probe("profile-checked");
  }
};
// A profiler with no memory behind it: accesses are recorded and do nothing else.
void BareRun(dst::Sim& sim) {
  ProfWorld w(sim);
  const bool tagged = sim.Pick(2);
  if (tagged) w.tp = std::make_unique<TaggedMemoryUseProfiler>(); else w.mp = std::make_unique<MemoryUseProfiler>();
  MemoryInterface* m = tagged ? static_cast<MemoryInterface*>(w.tp.get()) : w.mp.get();
  mpact::sim::generic::DataBufferFactory dbf;
  sim.Probe("no-memory");
  w.Enable(sim.Pick(4) != 0);
  sim.set_max_steps(sim.Range(4, 60));
  auto addr = [&] { static const uint64_t kBase[] = {0, 0x20000 - 32, 0x7fff'ffe0, 0xffff'ffff'ffff'0000ull}; return kBase[sim.Pick(4)] + sim.Pick(64); };
  auto use = [&](uint64_t a, uint64_t n) { if (w.enabled && n <= 8) { w.marked++; for (uint64_t k = a >> 2; k <= (a + n - 1) >> 2; k++) w.used.insert(k); } };
  while (sim.Step()) {
    int op = sim.Weighted({4, 4, 3, 3, 2, 2, 1, 1});
    int es = 1 << sim.Pick(4);
    if (op == 6) { w.Enable(sim.Pick(2)); continue; }
    if (op == 7) { w.CheckProfile(); continue; }
    if (op >= 4 && !tagged) continue;
    int n = op == 2 || op == 3 ? sim.Range(1, 6) : 1;
    auto* db = dbf.Allocate<uint8_t>(es * n);
    std::vector<uint8_t> before(es * n);
    for (auto& b : before) b = sim.Pick(256);
    memcpy(db->raw_ptr(), before.data(), before.size());
    if (op == 2 || op == 3) {
      const bool gather = n > 1 && sim.Pick(2);
      auto* ad = dbf.Allocate<uint64_t>(gather ? n : 1);
      auto* md = dbf.Allocate<bool>(n);
      for (int i = 0; i < (gather ? n : 1); i++) ad->Set<uint64_t>(i, addr());
      for (int i = 0; i < n; i++) {
        bool on = sim.Pick(3);
        md->Set<bool>(i, on);
        if (on) use(gather || n == 1 ? ad->Get<uint64_t>(gather ? i : 0) : ad->Get<uint64_t>(0) + i * es, es);
      }
      if (op == 2) m->Load(ad, md, es, db, nullptr, nullptr); else m->Store(ad, md, es, db);
      SIM_CHECK(sim, ad->ref_count() == 1 && md->ref_count() == 1, "reference", "an address or mask buffer was kept");
      ad->DecRef();
      md->DecRef();
    } else {
      uint64_t a = addr();
      if (op < 4) use(a, es);
      auto* tags = op >= 4 ? dbf.Allocate<uint8_t>(1) : nullptr;
      // A tag access with no data buffer touches no word.
      const bool data = op < 4 || sim.Pick(2);
      if (op >= 4 && data) use(a, es);
      if (op == 0) m->Load(a, db, nullptr, nullptr);
      else if (op == 1) m->Store(a, db);
      else if (op == 4) w.tp->Load(a, data ? db : nullptr, tags, nullptr, nullptr);
      else w.tp->Store(a, db, tags);
      if (op == 5 && !data) use(a, es);
      if (tags) { SIM_CHECK(sim, tags->ref_count() == 1, "reference", "a tag buffer was kept"); tags->DecRef(); }
    }
    sim.Log("op %d, %d x %d bytes", op, n, es);
    SIM_CHECK(sim, memcmp(db->raw_ptr(), before.data(), before.size()) == 0, "wrong-data", "an access with no memory changed the data buffer");
    SIM_CHECK(sim, db->ref_count() == 1, "reference", "the data buffer was kept");
    db->DecRef();
    uint64_t h = w.enabled;
    for (auto u : w.used) h = dst::Mix(h ^ u);
    sim.State(h);
  }
  if (w.marked >= 1) sim.NonTrivial();
  w.CheckProfile();
}
}  // namespace

void RunOne(dst::Sim& sim) {
  if (sim.Chance(1, 12)) return BareRun(sim);
  ProfWorld w(sim);
  std::unique_ptr<FlatDemandMemory> fm;
  std::unique_ptr<TaggedFlatDemandMemory> tm;
  if (sim.Pick(2)) {
    w.model.granule = 1 << sim.Range(0, 4);
    tm = std::make_unique<TaggedFlatDemandMemory>(w.model.granule);
    w.rec = std::make_unique<memw::Recorder>(static_cast<TaggedMemoryInterface*>(tm.get()));
    w.tp = std::make_unique<TaggedMemoryUseProfiler>(w.rec.get());
    w.mem = w.tp.get();
    w.tagged = w.tp.get();
    sim.Probe("tagged");
  } else {
    fm = std::make_unique<FlatDemandMemory>();
    w.rec = std::make_unique<memw::Recorder>(static_cast<MemoryInterface*>(fm.get()));
    w.mp = std::make_unique<MemoryUseProfiler>(w.rec.get());
    w.mem = w.mp.get();
  }
  w.max_scalar = 12;
  // Windows at the bottom of memory, across and at the end of 128 KiB segments
  // and at the top of the address space.
  static const std::pair<uint64_t, uint64_t> kWin[] = {
      {0, 48}, {0x20000 - 40, 0x20000 + 40}, {0x40000 - 40, 0x40000}, {0x60000 - 20, 0x60000 + 20}, {0x1'0000'0000ull, 0x1'0000'0000ull + 64},
      {0x1'0000'0000ull - 32, 0x1'0000'0000ull + 4}, {0xffff'ffff'fffe'0000ull, 0xffff'ffff'fffe'0000ull + 60}, {0xffff'ffff'ffff'f000ull, 0xffff'ffff'ffff'f040ull}};
  int nw = sim.Range(1, 3);
  for (int i = 0; i < nw; i++) w.windows.push_back(kWin[sim.Pick(8)]);
  // Many segments, some of them neighbours, and addresses that differ in one high bit only.
  if (sim.Chance(1, 4)) {
    int many = sim.Pick(3) ? sim.Range(2, 8) : sim.Range(20, 120);
    for (int i = 0; i < many; i++) {
      uint64_t o = sim.Pick(2) ? (uint64_t)sim.Range(1, 200) << 17 : 1ull << sim.Range(6, 62);
      w.windows.push_back({o - sim.Pick(2) * 40, o + 40});
    }
    sim.Probe("many-segments");
  }
  w.Enable(sim.Pick(4) != 0);
  sim.set_max_steps(w.windows.size() > 12 ? sim.Range(60, 400) : sim.Range(4, 60));
  unsigned observe = sim.Pick(4) ? 2 : 0;
  while (sim.Step()) {
    switch (sim.Weighted({6, 6, 4, 4, 3, 2, 2, 2, observe})) {
      case 0: w.Store(false, false); break;
      case 1: w.Load(false, false); break;
      case 2: w.Store(true, false); break;
      case 3: w.Load(true, false); break;
      case 4: w.Advance(); break;
      case 5: if (w.tagged) w.Store(false, true); break;
      case 6: if (w.tagged) w.Load(false, true); break;
      case 7: w.Enable(sim.Pick(2)); break;
      case 8: w.CheckProfile(); break;
    }
    uint64_t h = w.enabled;
    for (auto u : w.used) h = dst::Mix(h ^ u);
    sim.State(h);
  }
  if (w.marked >= 1) sim.NonTrivial();
  w.CheckProfile();
  w.Drain();
  w.rec->log.clear();
}
