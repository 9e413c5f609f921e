// C14: the memory models. Real code: FlatMemory, FlatDemandMemory,
// TaggedFlatDemandMemory (untagged accesses), TaggedToUntaggedMemoryTransactor,
// Instruction, the function delay line, DataBuffer. Stubs: the clients.
#include "mem_world.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/flat_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_to_untagged_memory_transactor.h"

using namespace mpact::sim::util;
const char* const kHarnessProperty = "C14";
const bool kHarnessChecksLeaks = true;

void RunOne(dst::Sim& sim) {
  memw::World w(sim);
  std::unique_ptr<MemoryInterface> own, own2;
  FlatDemandMemory* demand = nullptr;
  int kind = sim.Pick(6);
  uint64_t base = 0, size = 0;
  uint64_t pages[] = {0, 0x1000, 0x10000, 0x8000'0000ull, 0xffff'0000'0000ull, 0xffff'ffff'fff0'0000ull, 0x7fff'ffe0ull, 0xffff'ffe0ull, 0x1234'5678'9000ull};
  base = pages[sim.Pick(9)];
  w.unit = sim.Pick(3) ? 1 : 1 << sim.Range(1, 3);
  if (base > 1ull << 56) w.unit = 1;
  w.model.fill = sim.Pick(2) ? 0 : sim.Pick(256);
  const uint64_t kBlock = FlatDemandMemory::kAllocationSize;
  switch (kind) {
    case 0: {
      size = sim.Pick(4) ? sim.Range(1, 200) : sim.Range(1000, 50000);
      own = std::make_unique<FlatMemory>(size, base, w.unit, w.model.fill);
      w.pow2_el = true;
      w.windows = {{base, base + size}};
      if (size > 80) { w.windows.push_back({base, base + 40}); w.windows.push_back({base + size - 40, base + size}); }
      break;
    }
    case 1: case 2: {
      size = sim.Pick(4) ? sim.Range(1, 200) : sim.Range(1000, 70000);
      own = std::make_unique<FlatDemandMemory>(size, base, w.unit, w.model.fill);
      demand = static_cast<FlatDemandMemory*>(own.get());
      w.windows = {{base, base + size}};
      if (size > kBlock + 40) { w.windows.push_back({base + kBlock - 20, base + kBlock + 20}); w.windows.push_back({base + kBlock - 3, base + kBlock + 4}); w.windows.push_back({base + size - 30, base + size}); }
      else if (size > 60) w.windows.push_back({base, base + 40});
      break;
    }
    case 3: {
      // The whole address space from the base on.
      w.unit = 1; w.model.fill = 0;
      own = sim.Pick(2) ? std::make_unique<FlatDemandMemory>(base) : std::make_unique<FlatDemandMemory>();
      demand = static_cast<FlatDemandMemory*>(own.get());
      w.windows = {{base, base + 60}, {base + kBlock - 5, base + kBlock + 5}, {base + 0x7000'0000ull > base ? base + 0x70000 : base, base + 0x70040}};
      w.windows.push_back({0xffff'ffff'ffff'ffc0ull, 0xffff'ffff'ffff'ffffull});
      // Addresses that differ in one high bit only.
      if (sim.Pick(2)) {
        for (int i = 0; i < 3; i++) { uint64_t o = base + (1ull << sim.Range(15, 62)); if (o > base) w.windows.push_back({o, o + 60}); }
        sim.Probe("high-address-bits");
      }
      sim.Probe("whole-address-space");
      break;
    }
    case 4: {
      w.unit = 1;
      w.model.granule = 1 << sim.Range(0, 5);
      size = (uint64_t)w.model.granule * sim.Range(1, 3000);
      own = std::make_unique<TaggedFlatDemandMemory>(size, base, 1, w.model.fill, w.model.granule);
      w.windows = {{base, base + size}};
      if (size > 60) w.windows.push_back({base, base + 40});
      break;
    }
    case 5: {
      size = sim.Range(40, 40000);
      own2 = std::make_unique<FlatDemandMemory>(size, base, w.unit, w.model.fill);
      auto t = std::make_unique<TaggedToUntaggedMemoryTransactor>(own2.get());
      w.model.granule = 8;
      if (w.unit == 1) w.tagged = t.get();
      w.zero_tags = true;
      own = std::move(t);
      w.windows = {{base, base + size}, {base, base + 40}};
      break;
    }
  }
  w.mem = own.get();
  sim.set_max_steps(sim.Range(8, 70));
  while (sim.Step()) {
    switch (sim.Weighted({6, 6, 4, 4, 8, 2, 2, 1})) {
      case 0: w.Store(false, false); break;
      case 1: w.Load(false, false); break;
      case 2: w.Store(true, false); break;
      case 3: w.Load(true, false); break;
      case 4: w.Advance(); break;
      case 5: if (w.tagged) w.Load(false, true); break;
      case 6: if (w.tagged) w.Store(false, true); break;
      case 7:
        if (demand && sim.Pick(4) == 0) { sim.Log("clear"); sim.Probe("clear"); demand->Clear(); w.model.bytes.clear(); }
        break;
    }
    sim.State(dst::Mix(w.StateHash() ^ kind));
  }
  if (w.loads >= 1 && w.stores >= 1) sim.NonTrivial();
  w.Drain();
  w.Audit();
}
