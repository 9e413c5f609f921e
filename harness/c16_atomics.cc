// C16: load-linked/store-conditional and atomic operations. Real code:
// AtomicMemory, AtomicTaggedMemory, the memories below, Instruction, delay line.
// Stubs: the harts, interleaved by the simulator.
#include "mem_world.h"
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/atomic_tagged_memory.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace mpact::sim::util;
using Op = AtomicMemoryOpInterface::Operation;
const char* const kHarnessProperty = "C16";
const bool kHarnessChecksLeaks = true;

namespace {
struct AtomicWorld : public memw::World {
  using World::World;
  AtomicMemoryOpInterface* atomic = nullptr;
  // granule -> 1: surely linked, 2: perhaps (a masked-off element named it).
  std::map<uint64_t, int> linked;
  int scs = 0, amos = 0, lls = 0;
  bool many = false;
  void LinkMany() {
    int n = sim.Range(20, 300);
    sim.Log("link %d locations", n);
    for (int i = 0; i < n; i++) {
      uint64_t addr = PickAddr(8) / 8 * 8;
      DataBuffer* db = Buf(8);
      SIM_CHECK(sim, atomic->PerformMemoryOp(addr, Op::kLoadLinked, db, nullptr, nullptr).ok(), "refused", "load-linked at %lx was refused", (unsigned long)addr);
      linked[addr >> 3] = 1;
      db->DecRef();
    }
  }
  void Break(uint64_t addr, int size) {
    for (uint64_t g = addr >> 3; g <= (addr + size - 1) >> 3; g++) {
      if (linked.count(g)) sim.Probe("store-breaks-link");
      if (linked.count(g) && g != addr >> 3) sim.Probe("link-broken-beyond-first-granule");
      linked.erase(g);
    }
  }
  void After(const memw::Access& a) override {
    if (!a.store) return;
    for (auto& e : a.elems) Break(e.addr, e.size);
    for (size_t i = 0; i < a.mask.size(); i++) {
      if (a.mask[i]) continue;
      uint64_t ad = a.addresses.size() > 1 ? a.addresses[i] : a.addresses[0] + i * a.el_size;
      for (uint64_t g = ad >> 3; g <= (ad + a.el_size - 1) >> 3; g++) if (linked.count(g)) linked[g] = 2;
    }
  }
  uint64_t Val(const std::vector<uint8_t>& v) { uint64_t x = 0; std::memcpy(&x, v.data(), std::min<size_t>(8, v.size())); return x; }
  static int64_t Sx(uint64_t v, int n) { return n == 8 ? (int64_t)v : (int64_t)(v << (64 - 8 * n)) >> (64 - 8 * n); }
  void Atomic() {
    int size = 1 << sim.Pick(4);
    bool bad = sim.Chance(1, 16);
    if (bad) size = (int[]){3, 5, 6, 7, 12, 16}[sim.Pick(6)];
    uint64_t addr = PickAddr(bad ? 16 : size);
    bool odd = !bad && sim.Pick(4) == 0;   // not naturally aligned
    if (!bad && !odd) addr = addr / size * size;
    // Prefer linked locations.
    if (!linked.empty() && sim.Pick(2)) {
      auto it = linked.begin();
      std::advance(it, sim.Pick(linked.size()));
      addr = it->first * 8 + (bad ? 0 : odd ? sim.Pick(8) : sim.Pick(8) / size * size);
      if (odd && sim.Pick(2) && addr >= windows[0].first + 8) addr -= sim.Pick(8);
    }
    if (!Fits(addr, bad ? 16 : size)) return;
    int kind = sim.Weighted({5, 5, 8});
    Op op = kind == 0 ? Op::kLoadLinked : kind == 1 ? Op::kStoreConditional : (Op)((int)Op::kAtomicSwap + sim.Pick(10));
    if (bad && op == Op::kLoadLinked) op = Op::kStoreConditional;
    std::vector<uint8_t> arg(size);
    FillRandom(arg);
    if (!bad && sim.Pick(3) == 0) { for (int k = 0; k < size; k++) arg[k] = model.Get(addr + k); if (sim.Pick(2)) arg[size - 1] ^= 0x80; }
    std::vector<uint8_t> old(size);
    for (int k = 0; k < size; k++) old[k] = model.Get(addr + k);
    DataBuffer* db = Buf(size);
    std::memcpy(db->raw_ptr(), arg.data(), size);
    int given = sim.Pick(4);
    db->set_latency(given);
    auto owned = std::make_unique<memw::Pending>();
    memw::Pending* q = owned.get();
    char name[96];
    snprintf(name, sizeof name, "atomic operation %d of %d bytes at %lx", (int)op, size, (unsigned long)addr);
    q->what = name;
    q->db = db;
    bool with_inst = sim.Pick(3) != 0;
    uint64_t g = addr >> 3;
    std::vector<uint8_t> mem_after = old;
    // All of the location has to be linked; 2: perhaps.
    uint64_t glast = (addr + size - 1) >> 3;
    int sc_state = 1;
    for (uint64_t k = g; k <= glast && !bad; k++) { int l = linked.count(k) ? linked[k] : 0; if (l == 0) sc_state = 0; else if (l == 2 && sc_state) sc_state = 2; }
    if (g != glast && !bad) sim.Probe("atomic-spans-granules");
    uint64_t b = Val(arg), m = Val(old), r = 0;
    // What the caller must find in its buffer.
    std::vector<uint8_t> want = old;
    switch (op) {
      case Op::kLoadLinked: lls++; break;
      case Op::kStoreConditional: scs++; break;
      case Op::kAtomicSwap: r = b; break;
      case Op::kAtomicAdd: r = m + b; break;
      case Op::kAtomicSub: r = m - b; break;
      case Op::kAtomicAnd: r = m & b; break;
      case Op::kAtomicOr: r = m | b; break;
      case Op::kAtomicXor: r = m ^ b; break;
      case Op::kAtomicMax: r = size <= 8 && Sx(m, size) > Sx(b, size) ? m : b; break;
      case Op::kAtomicMaxu: r = m > b ? m : b; break;
      case Op::kAtomicMin: r = size <= 8 && Sx(m, size) < Sx(b, size) ? m : b; break;
      case Op::kAtomicMinu: r = m < b ? m : b; break;
    }
    bool amo = op != Op::kLoadLinked && op != Op::kStoreConditional;
    if (!bad && amo) { amos++; std::memcpy(mem_after.data(), &r, size); }
    q->due = cycle;
    bool completed = false;
    if (with_inst) {
      q->inst = new memw::LoadInst(this, addr, state.get());
      q->client_inst = true;
      // Data is judged after the call: for a store-conditional it depends on the outcome.
      q->inst->set_semantic_function([this, q, &completed](Instruction* in) {
        SIM_CHECK(sim, !completed, "completed-twice", "%s completed twice", q->what.c_str());
        SIM_CHECK(sim, in->context() == q->ctx, "wrong-context", "%s completed with another context", q->what.c_str());
        completed = true;
        std::memcpy(q->want.data(), q->db->raw_ptr(), q->want.size());
      });
      if (sim.Pick(2)) { q->ctx = new memw::LoadCtx(this, db, nullptr); q->client_ctx = true; }
    }
    q->want.assign(size, 0xcc);
    q->client_db = true;
    sim.Log("%s", name);
    auto st = atomic->PerformMemoryOp(addr, op, db, q->inst, q->ctx);
    const uint8_t* d = static_cast<const uint8_t*>(db->raw_ptr());
    if (bad) {
      sim.Fault("unsupported-size");
      SIM_CHECK(sim, !st.ok(), "not-refused", "%s was accepted", name);
      SIM_CHECK(sim, !completed, "refused-but-completed", "%s was refused but completed its instruction", name);
      CheckMemory(addr, old, name);
      ReleaseClient(q);
      return;
    }
    SIM_CHECK(sim, st.ok(), "refused", "%s was refused", name);
    if (with_inst) SIM_CHECK(sim, completed, "not-completed", "%s did not complete its instruction", name);
    if (op == Op::kStoreConditional) {
      uint64_t res = 0;
      std::memcpy(&res, d, size);
      SIM_CHECK(sim, res <= 1, "sc-result", "store-conditional at %lx returned %lx", (unsigned long)addr, (unsigned long)res);
      if (res == 0) {
        SIM_CHECK(sim, sc_state != 0, "sc-succeeded-wrongly", "store-conditional at %lx succeeded although its location was %s since load-linked", (unsigned long)addr, "not linked, or written,");
        mem_after = arg;
        sim.Probe("sc-succeeds");
      } else {
        SIM_CHECK(sim, sc_state != 1, "sc-failed-wrongly", "store-conditional at %lx failed although nothing wrote its location since load-linked", (unsigned long)addr);
        sim.Probe("sc-fails");
      }
      want.assign(size, 0);
      want[0] = res;
      if (res == 0) { for (int k = 0; k < size; k++) model.Put(addr + k, arg[k]); Break(addr, size); }
    } else if (amo) {
      if (linked.count(g)) sim.Probe("atomic-breaks-link");
      for (int k = 0; k < size; k++) model.Put(addr + k, mem_after[k]);
      Break(addr, size);
    } else {
      for (uint64_t k = g; k <= glast; k++) linked[k] = 1;
    }
    SIM_CHECK(sim, std::memcmp(d, want.data(), size) == 0, "wrong-result", "%s returned %02x.., expected %02x..", name, d[0], want[0]);
    if (with_inst) SIM_CHECK(sim, std::memcmp(q->want.data(), want.data(), size) == 0, "wrong-result", "%s completed with %02x.., expected %02x..", name, q->want[0], want[0]);
    CheckMemory(addr, mem_after, name);
    ReleaseClient(q);
  }
  void CheckMemory(uint64_t addr, const std::vector<uint8_t>& want, const char* what) {
    DataBuffer* db = Buf(want.size());
    mem->Load(addr, db, nullptr, nullptr);
    for (size_t k = 0; k < want.size(); k++)
      SIM_CHECK(sim, db->Get<uint8_t>(k) == want[k], "wrong-memory", "after %s byte %lx is %02x, expected %02x", what, (unsigned long)(addr + k), db->Get<uint8_t>(k), want[k]);
    db->DecRef();
  }
};
}  // namespace

void RunOne(dst::Sim& sim) {
  AtomicWorld w(sim);
  w.max_scalar = 32;
  uint64_t base = memw::PickBase(sim, 0x8000'0000ull);
  std::unique_ptr<MemoryInterface> lower, upper;
  std::unique_ptr<TaggedMemoryInterface> tlower, tupper;
  w.model.granule = 1 << sim.Range(0, 5);
  if (sim.Pick(2)) {
    lower = std::make_unique<FlatDemandMemory>(0x20'0000'0000ull, base, 1, 0);
    auto a = std::make_unique<AtomicMemory>(lower.get());
    w.mem = a.get();
    w.atomic = a.get();
    upper = std::move(a);
  } else {
    tlower = std::make_unique<TaggedFlatDemandMemory>(0x20'0000'0000ull, base, 1, 0, w.model.granule);
    auto a = std::make_unique<AtomicTaggedMemory>(tlower.get());
    w.mem = a.get();
    w.tagged = a.get();
    w.atomic = a.get();
    tupper = std::move(a);
  }
  w.windows = {{base, base + 64}};
  if (sim.Pick(3) == 0) w.windows.push_back({base + 0x800, base + 0x840});
  // Locations that differ in one address bit only.
  if (sim.Pick(4) == 0) { uint64_t o = base + (1ull << sim.Range(7, 36)); w.windows.push_back({o, o + 32}); sim.Probe("high-address-bits"); }
  // More locations linked at once than fit in a small table.
  if (sim.Chance(1, 30)) { w.windows = {{base, base + 0x1000}}; w.many = true; sim.Probe("many-links"); }
  sim.set_max_steps(sim.Range(8, 80));
  while (sim.Step()) {
    switch (sim.Weighted({12, 3, 2, 2, 1, 2, 2, 2, w.many ? 3u : 0u})) {
      case 8: w.LinkMany(); break;
      case 0: w.Atomic(); break;
      case 1: w.Store(false, false); break;
      case 2: w.Store(true, false); break;
      case 3: w.Load(false, false); break;
      case 4: w.Load(true, false); break;
      case 5: w.Advance(); break;
      case 6: if (w.tagged) w.Store(false, true); break;
      case 7: if (w.tagged) w.Load(false, true); break;
    }
    uint64_t h = w.pend.size();
    for (auto& [g, s] : w.linked) h = dst::Mix(h ^ (g - (base >> 3)) * 4 ^ s);
    sim.State(h);
  }
  if (w.lls >= 1 && w.scs >= 1) sim.NonTrivial();
  w.Drain();
  w.Audit();
}
