// C15: memory tags. Real code: TaggedFlatDemandMemory, FlatDemandMemory,
// TaggedMemoryWatcher, AtomicTaggedMemory stacked in any order, Instruction,
// delay line. Stubs: the clients.
#include "mem_world.h"
#include "mpact/sim/util/memory/atomic_tagged_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_memory_watcher.h"

using namespace mpact::sim::util;
const char* const kHarnessProperty = "C15";
const bool kHarnessChecksLeaks = true;

namespace {
// A tagged access that is not made of whole granules: refused as a whole.
void Malformed(memw::World& w, TaggedMemoryInterface* top) {
  dst::Sim& sim = w.sim;
  const uint64_t g = w.model.granule;
  auto& win = w.windows[sim.Pick(w.windows.size())];
  uint64_t first = (win.first + g - 1) / g, count = win.second / g - first;
  if (win.second / g < first + 4) return;
  uint64_t n = sim.Range(1, 3), address = (first + sim.Pick(count - 3)) * g, size = n * g, tags = n;
  int kind = sim.Pick(g > 1 ? 3 : 1);
  if (kind == 0) tags = sim.Pick(2) && n > 1 ? n - 1 : n + 1;
  if (kind == 1) address += sim.Range(1, g - 1);
  if (kind == 2) size += sim.Range(1, g - 1);
  bool store = sim.Pick(3) != 0;
  auto* db = w.Buf(size);
  auto* tg = w.Buf(tags);
  std::vector<uint8_t> before(size);
  w.FillRandom(before);
  std::memcpy(db->raw_ptr(), before.data(), size);
  std::memset(tg->raw_ptr(), 1, tags);
  sim.Log("malformed tagged %s of %lu bytes and %lu tags at %lx", store ? "store" : "load", (unsigned long)size, (unsigned long)tags, (unsigned long)address);
  sim.Fault("malformed-tagged-access");
  if (store) {
    top->Store(address, db, tg);
  } else {
    top->Load(address, db, tg, nullptr, nullptr);
    bool same = std::memcmp(db->raw_ptr(), before.data(), size) == 0;
    for (uint64_t i = 0; i < tags; i++) same = same && tg->Get<uint8_t>(i) == 1;
    SIM_CHECK(sim, same, "malformed-access", "a malformed tagged load changed the buffers it was given");
  }
  SIM_CHECK(sim, db->ref_count() == 1 && tg->ref_count() == 1, "references", "a malformed tagged access kept a buffer");
  db->DecRef();
  tg->DecRef();
}
}  // namespace

void RunOne(dst::Sim& sim) {
  memw::World w(sim);
  w.model.granule = 1 << sim.Range(0, 5);
  w.model.fill = sim.Pick(2) ? 0 : sim.Pick(256);
  const uint64_t g = w.model.granule;
  uint64_t pages[] = {0, 0x1000, 0x8000'0000ull, 0xffff'0000'0000ull, 0x7fff'ffe0ull, 0xffff'ffe0ull, 0x1234'5678'9000ull};
  uint64_t base = pages[sim.Pick(7)];
  uint64_t size = g * (sim.Pick(4) ? sim.Range(4, 40) : sim.Range(200, 20000));
  // The tag memory has blocks of its own: 16K tags.
  const uint64_t tag_block = (uint64_t)TaggedFlatDemandMemory::kAllocationSize * g;
  if (sim.Pick(8) == 0) { size = tag_block + g * 64; sim.Probe("tag-block-boundary"); }
  TaggedFlatDemandMemory mem(size, base, 1, w.model.fill, g);
  w.windows = {{base, base + size}};
  if (size >= tag_block + 4 * g) w.windows = {{base + tag_block - 4 * g, base + tag_block + 4 * g}};
  if (size > 8 * g) w.windows.push_back({base, base + 8 * g});
  std::vector<std::unique_ptr<TaggedMemoryInterface>> stack;
  TaggedMemoryInterface* top = &mem;
  int layers = sim.Pick(3);
  for (int i = 0; i < layers; i++) {
    if (sim.Pick(2)) {
      auto x = std::make_unique<AtomicTaggedMemory>(top);
      top = x.get();
      stack.push_back(std::move(x));
      sim.Probe("through-atomic");
    } else {
      auto x = std::make_unique<TaggedMemoryWatcher>(top);
      if (sim.Pick(2)) (void)x->SetStoreWatchCallback({base + sim.Pick(64), base + 64 + sim.Pick(64)}, [&sim](uint64_t a, int n) { sim.Note(a + n); });
      if (sim.Pick(2)) (void)x->SetLoadWatchCallback({base + sim.Pick(64), base + 64 + sim.Pick(64)}, [&sim](uint64_t a, int n) { sim.Note(a * 3 + n); });
      top = x.get();
      stack.push_back(std::move(x));
      sim.Probe("through-watcher");
    }
  }
  w.mem = top;
  w.tagged = top;
  sim.set_max_steps(sim.Range(8, 70));
  int tagged = 0, plain = 0;
  while (sim.Step()) {
    switch (sim.Weighted({10, 8, 8, 4, 14, 16, 10, 1})) {
      case 0: w.Store(false, false); plain++; break;
      case 1: w.Load(false, false); break;
      case 2: w.Store(true, false); plain++; break;
      case 3: w.Load(true, false); break;
      case 4: w.Load(false, true); break;
      case 5: w.Store(false, true); tagged++; break;
      case 6: w.Advance(); break;
      case 7: Malformed(w, top); break;
    }
    sim.State(dst::Mix(w.StateHash() ^ g));
  }
  if (tagged >= 1 && plain >= 1) sim.NonTrivial();
  w.Drain();
  // Every tag of the windows, read back.
  for (auto& win : w.windows) {
    for (uint64_t a = (win.first + g - 1) / g * g; a + g <= win.second && a - win.first < 64 * g; a += g) {
      auto* db = w.Buf(g);
      auto* tg = w.Buf(1);
      top->Load(a, db, tg, nullptr, nullptr);
      uint8_t got = tg->Get<uint8_t>(0), want = w.model.Tag(a / g);
      SIM_CHECK(sim, got == want, "wrong-tag", "final tag of granule %lx is %d, expected %d", (unsigned long)a, got, want);
      for (uint64_t k = 0; k < g; k++) SIM_CHECK(sim, db->Get<uint8_t>(k) == w.model.Get(a + k), "wrong-data", "final byte %lx", (unsigned long)(a + k));
      db->DecRef();
      tg->DecRef();
    }
  }
}
