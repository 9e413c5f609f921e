// Simulated world shared by the memory harnesses: a byte-and-tag reference
// model, clients issuing scalar, unit-stride and scattered accesses with
// latencies, and the bookkeeping that checks that each load completes exactly
// once, on time, with the right data, whatever references the client drops.
#ifndef VERIF_HARNESS_MEM_WORLD_H_
#define VERIF_HARNESS_MEM_WORLD_H_
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "arch_world.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "mpact/sim/util/memory/tagged_memory_interface.h"

namespace memw {
using namespace mpact::sim::generic;
using mpact::sim::util::MemoryInterface;
using mpact::sim::util::TaggedMemoryInterface;

// The lowest address a run uses: low ones, and ones just below or at the
// limits of the narrower types an address could be held in.
inline uint64_t PickBase(dst::Sim& sim, uint64_t top) {
  switch (sim.Pick(12)) {
    case 0: case 1: case 2: return top;
    case 3: return 0x7fff'ffe0ull;
    case 4: return 0x8000'0000ull;
    case 5: return 0xffff'ffe0ull;
    case 6: return 0x1'0000'0000ull;
    case 7: return 0x1234'5678'9000ull;
    case 8: return 0x7fff'ffff'ffff'ffe0ull;
    default: return 0x1000;
  }
}

struct Model {
  std::map<uint64_t, uint8_t> bytes;
  std::map<uint64_t, uint8_t> tags;   // granule number -> tag byte
  uint8_t fill = 0;
  int granule = 16;
  uint8_t Get(uint64_t a) const { auto it = bytes.find(a); return it == bytes.end() ? fill : it->second; }
  uint8_t Tag(uint64_t g) const { auto it = tags.find(g); return it == tags.end() ? 0 : it->second; }
  void Put(uint64_t a, uint8_t v) { bytes[a] = v; tags.erase(a / granule); }
};

struct World;
struct LoadInst : public Instruction {
  World* w;
  LoadInst(World* x, uint64_t a, ArchState* s);
  ~LoadInst() override;
};
struct LoadCtx : public ReferenceCount {
  World* w;
  DataBuffer* db;
  DataBuffer* tags;
  LoadCtx(World* x, DataBuffer* d, DataBuffer* t);
  void OnRefCountIsZero() override;
  ~LoadCtx() override;
};
struct Pending {
  LoadInst* inst = nullptr;
  LoadCtx* ctx = nullptr;
  DataBuffer* db = nullptr;
  DataBuffer* tags = nullptr;
  std::vector<uint8_t> want, want_tags;
  uint64_t due = 0;
  int latency = 0, tag_latency = 0;
  bool done = false;
  bool client_db = false;    // the client keeps db/tags itself
  bool client_inst = false;  // the client still holds inst
  bool client_ctx = false;
  std::string what;
};
struct Elem { uint64_t addr; int size; int index; };   // addr in addressable units

struct Access {
  bool store = false, vector = false, tagged = false;
  bool has_data = true;
  int el_size = 0;
  std::vector<Elem> elems;   // enabled elements only
  std::vector<uint64_t> addresses;
  std::vector<char> mask;
  uint64_t address = 0;
  int size = 0;
  std::vector<uint8_t> data, tags;
};

struct World {
  dst::Sim& sim;
  Model model;
  std::unique_ptr<SimArchState> state;
  DataBufferFactory factory;
  MemoryInterface* mem = nullptr;
  TaggedMemoryInterface* tagged = nullptr;   // same object, if tagged
  bool zero_tags = false;                    // tags always read as zero
  bool pow2_el = false;                      // element sizes 1, 2, 4, 8 only
  int unit = 1;                              // bytes per addressable unit
  int max_scalar = 40;
  std::vector<std::pair<uint64_t, uint64_t>> windows;   // unit addresses [lo, hi)
  std::vector<std::unique_ptr<Pending>> pend;
  int live_inst = 0, live_ctx = 0;
  uint64_t cycle = 0;
  int loads = 0, stores = 0;
  bool allow_latency = true;
  bool keeps_latency = false;                // see CheckLatency
  explicit World(dst::Sim& s) : sim(s), state(std::make_unique<SimArchState>("arch")) {}
  virtual ~World() {}

  // Called before an access is issued / after it returned.
  virtual void Before(const Access&) {}
  virtual void After(const Access&) {}
  // False: the access is not issued after all.
  virtual bool Admit(const Access&) { return true; }

  uint64_t PickAddr(int bytes) {
    auto& win = windows[sim.Pick(windows.size())];
    uint64_t units = (bytes + unit - 1) / unit;
    uint64_t span = win.second - win.first;
    if (span < units) { return win.first; }
    return win.first + sim.Pick(span - units + 1);
  }
  bool Fits(uint64_t addr, int bytes) {
    uint64_t units = (bytes + unit - 1) / unit;
    for (auto& w : windows) if (addr >= w.first && addr < w.second && w.second - addr >= units) return true;
    return false;
  }
  DataBuffer* Buf(int bytes) { DataBuffer* db = factory.Allocate(bytes); db->set_latency(0); return db; }
  int PickSize() {
    int s;
    switch (sim.Pick(6)) {
      case 0: s = 1 << sim.Pick(4); break;
      case 1: s = sim.Range(1, max_scalar); break;
      case 2: s = sim.Range(1, 8); break;
      default: s = 1 << sim.Pick(4); break;
    }
    s = (s + unit - 1) / unit * unit;
    return s;
  }
  int PickEl() {
    int s = pow2_el ? 1 << sim.Pick(4) : (sim.Chance(1, 4) ? sim.Range(1, 12) : 1 << sim.Pick(4));
    return (s + unit - 1) / unit * unit;
  }
  void FillRandom(std::vector<uint8_t>& v) {
    uint64_t r = sim.Bits();
    for (auto& b : v) { b = r; r = dst::Mix(r); }
  }
  // Draws the shape of an access (no data yet). False: no room for it.
  virtual bool Shape(Access& a) {
    if (a.vector) {
      a.el_size = PickEl();
      int n = sim.Range(1, 8);
      if (sim.Chance(1, 40)) { n = sim.Range(9, 300); sim.Probe("long-vector"); }
      bool scatter = sim.Pick(2) || n == 1;
      a.mask.resize(n);
      int mk = sim.Pick(4);
      for (auto& m : a.mask) m = mk == 0 ? 1 : mk == 1 ? 0 : sim.Pick(2);
      if (scatter) {
        for (int i = 0; i < n; i++) a.addresses.push_back(PickAddr(a.el_size));
        if (n > 1 && sim.Pick(3) == 0) { a.addresses[n - 1] = a.addresses[0]; }
      } else {
        uint64_t base = PickAddr(a.el_size * n);
        if (!Fits(base, a.el_size * n)) return false;
        a.addresses.push_back(base);
        sim.Probe("unit-stride");
      }
      for (int i = 0; i < n; i++) {
        if (!a.mask[i]) continue;
        uint64_t ad = a.addresses.size() > 1 ? a.addresses[i] : a.addresses[0] + (uint64_t)i * (a.el_size / unit);
        if (!Fits(ad, a.el_size)) return false;
        a.elems.push_back({ad, a.el_size, i});
      }
      a.size = a.el_size * n;
      if (mk == 1) sim.Probe("all-masked");
    } else {
      if (a.tagged) {
        int g = model.granule;
        int n = sim.Range(1, 4);
        a.size = n * g;
        a.address = PickAddr(a.size) / g * g;
        if (!Fits(a.address, a.size)) return false;
      } else {
        a.size = sim.Chance(1, 60) ? (int)sim.Range(1, 40) * 1000 / unit * unit : PickSize();
        a.address = PickAddr(a.size);
        if (!Fits(a.address, a.size)) { a.size = unit; if (!Fits(a.address, a.size)) return false; }
        if (a.size > 20000) sim.Probe("long-access");
      }
      a.elems.push_back({a.address, a.size, 0});
    }
    return true;
  }
  std::string Describe(const Access& a) {
    char b[200];
    if (a.vector) snprintf(b, sizeof b, "%s vector of %zu x %d bytes at %s%lx", a.store ? "store" : "load", a.mask.size(), a.el_size, a.addresses.size() > 1 ? "scattered " : "", (unsigned long)a.addresses[0]);
    else snprintf(b, sizeof b, "%s%s %d bytes at %lx", a.tagged ? "tagged " : "", a.store ? "store" : "load", a.size, (unsigned long)a.address);
    return b;
  }
  DataBuffer* AddressBuf(const Access& a) {
    DataBuffer* db = factory.Allocate<uint64_t>(a.addresses.size());
    for (size_t i = 0; i < a.addresses.size(); i++) db->Set<uint64_t>(i, a.addresses[i]);
    return db;
  }
  DataBuffer* MaskBuf(const Access& a) {
    DataBuffer* db = factory.Allocate<bool>(a.mask.size());
    for (size_t i = 0; i < a.mask.size(); i++) db->Set<bool>(i, a.mask[i]);
    return db;
  }
  void ApplyStore(const Access& a) {
    for (auto& e : a.elems)
      for (int k = 0; k < e.size; k++) model.Put(e.addr * unit + k, a.data[e.index * (a.vector ? a.el_size : 0) + k]);
    if (a.tagged)
      for (size_t g = 0; g < a.tags.size(); g++) model.tags[a.address / model.granule + g] = a.tags[g];
  }
  virtual void Store(bool vector, bool with_tags) {
    Access a;
    a.store = true; a.vector = vector; a.tagged = with_tags;
    if (!Shape(a) || !Admit(a)) return;
    a.data.resize(a.size);
    FillRandom(a.data);
    if (with_tags) { a.tags.resize(a.size / model.granule); for (auto& t : a.tags) t = sim.Pick(2); }
    sim.Log("%s", Describe(a).c_str());
    stores++;
    DataBuffer* db = Buf(a.size);
    std::memcpy(db->raw_ptr(), a.data.data(), a.size);
    Before(a);
    if (vector) {
      DataBuffer *ad = AddressBuf(a), *mk = MaskBuf(a);
      mem->Store(ad, mk, a.el_size, db);
      SIM_CHECK(sim, ad->ref_count() == 1 && mk->ref_count() == 1, "references", "%s kept the address or mask buffer", Describe(a).c_str());
      ad->DecRef(); mk->DecRef();
    } else if (with_tags) {
      DataBuffer* tg = Buf(a.tags.size());
      std::memcpy(tg->raw_ptr(), a.tags.data(), a.tags.size());
      tagged->Store(a.address, db, tg);
      SIM_CHECK(sim, std::memcmp(tg->raw_ptr(), a.tags.data(), a.tags.size()) == 0, "source-changed", "%s changed the caller's tags", Describe(a).c_str());
      SIM_CHECK(sim, tg->ref_count() == 1, "references", "%s kept the tag buffer", Describe(a).c_str());
      tg->DecRef();
    } else {
      mem->Store(a.address, db);
    }
    SIM_CHECK(sim, std::memcmp(db->raw_ptr(), a.data.data(), a.size) == 0, "source-changed", "%s changed the caller's buffer", Describe(a).c_str());
    SIM_CHECK(sim, db->ref_count() == 1, "references", "%s kept the data buffer", Describe(a).c_str());
    db->DecRef();
    if (zero_tags && a.tagged) a.tagged = false;
    ApplyStore(a);
    After(a);
  }
  // What a load of `a` must put into a buffer that held `before`.
  virtual std::vector<uint8_t> Expect(const Access& a, const std::vector<uint8_t>& before) {
    std::vector<uint8_t> v = before;
    for (auto& e : a.elems)
      for (int k = 0; k < e.size; k++) v[e.index * (a.vector ? a.el_size : 0) + k] = model.Get(e.addr * unit + k);
    return v;
  }
  virtual void Load(bool vector, bool with_tags) {
    Access a;
    a.vector = vector; a.tagged = with_tags;
    if (!Shape(a) || !Admit(a)) return;
    bool tag_only = with_tags && sim.Pick(4) == 0;
    a.has_data = !tag_only;
    loads++;
    auto p = std::make_unique<Pending>();
    Pending* q = p.get();
    q->what = Describe(a);
    DataBuffer* db = nullptr;
    DataBuffer* tg = nullptr;
    std::vector<uint8_t> before(a.size);
    int lat = !allow_latency || sim.Pick(3) == 0 ? 0 : sim.Pick(6) == 0 ? sim.Range(1, sim.Chance(1, 8) ? 400 : 40) : sim.Range(1, 5);
    if (!tag_only) {
      FillRandom(before);
      db = Buf(a.size);
      db->set_latency(lat);
      std::memcpy(db->raw_ptr(), before.data(), a.size);
      q->want = Expect(a, before);
    }
    if (with_tags) {
      int n = a.size / model.granule;
      tg = Buf(n);
      std::memset(tg->raw_ptr(), 0xee, n);
      // The latency of a load with data is that of the data buffer.
      tg->set_latency(tag_only ? lat : (int)sim.Pick(6));
      for (int i = 0; i < n; i++) q->want_tags.push_back(zero_tags ? 0 : model.Tag(a.address / model.granule + i));
    }
    if (tag_only) sim.Probe("tag-only-load");
    q->db = db; q->tags = tg;
    bool with_inst = sim.Pick(4) != 0;
    bool with_ctx = with_inst && sim.Pick(4) != 0;
    q->due = cycle + lat;
    q->latency = lat;
    q->tag_latency = tg ? tg->latency() : 0;
    sim.Log("%s latency %d%s%s%s", q->what.c_str(), lat, with_inst ? " inst" : "", with_ctx ? " ctx" : "", tag_only ? " tags only" : "");
    if (with_inst) {
      q->inst = new LoadInst(this, a.elems.empty() ? 0 : a.elems[0].addr, state.get());
      q->inst->set_semantic_function([this, q](Instruction* in) { Complete(q, in); });
      q->client_inst = true;
    }
    if (with_ctx) { q->ctx = new LoadCtx(this, db, tg); q->client_ctx = true; }
    q->client_db = true;
    Before(a);
    if (vector) {
      DataBuffer *ad = AddressBuf(a), *mk = MaskBuf(a);
      mem->Load(ad, mk, a.el_size, db, q->inst, q->ctx);
      ad->DecRef(); mk->DecRef();
    } else if (with_tags) {
      tagged->Load(a.address, db, tg, q->inst, q->ctx);
    } else {
      mem->Load(a.address, db, q->inst, q->ctx);
    }
    After(a);
    CheckData(q, "when the load returned");
    CheckLatency(q, "after the load");
    if (!with_inst) { q->done = true; ReleaseClient(q); return; }
    if (lat == 0) {
      SIM_CHECK(sim, q->done, "not-completed", "%s with latency 0 did not complete its instruction", q->what.c_str());
      ReleaseClient(q);
      return;
    }
    SIM_CHECK(sim, !q->done, "completed-early", "%s with latency %d completed at once", q->what.c_str(), lat);
    // The client lets go of its references while the load is in flight.
    switch (sim.Pick(4)) {
      case 0: break;
      case 1: sim.Fault("client-drops-references"); DropInst(q); DropCtx(q); if (with_ctx) DropDb(q); break;
      case 2: sim.Fault("client-drops-references"); DropInst(q); break;
      case 3: sim.Fault("client-drops-references"); DropCtx(q); break;
    }
    pend.push_back(std::move(p));
  }
  void DropInst(Pending* q) { if (q->client_inst) { q->client_inst = false; q->inst->DecRef(); } }
  void DropCtx(Pending* q) { if (q->client_ctx) { q->client_ctx = false; q->ctx->DecRef(); } }
  void DropDb(Pending* q) {
    if (!q->client_db) return;
    q->client_db = false;
    if (q->db) q->db->DecRef();
    if (q->tags) q->tags->DecRef();
  }
  void ReleaseClient(Pending* q) { DropInst(q); DropCtx(q); DropDb(q); }
  // A layer that may not change the timing leaves the latencies of the buffers
  // it was given as they were.
  void CheckLatency(Pending* q, const char* when) {
    if (!keeps_latency) return;
    if (q->db) SIM_CHECK(sim, q->db->latency() == q->latency, "latency-changed", "%s: the data buffer has latency %d %s, was given %d", q->what.c_str(), q->db->latency(), when, q->latency);
    else if (q->tags) SIM_CHECK(sim, q->tags->latency() == q->tag_latency, "latency-changed", "%s: the tag buffer has latency %d %s, was given %d", q->what.c_str(), q->tags->latency(), when, q->tag_latency);
  }
  void CheckData(Pending* q, const char* when) {
    if (q->db) {
      const uint8_t* d = static_cast<const uint8_t*>(q->db->raw_ptr());
      for (size_t i = 0; i < q->want.size(); i++)
        SIM_CHECK(sim, d[i] == q->want[i], "wrong-data", "%s: byte %zu is %02x %s, expected %02x", q->what.c_str(), i, d[i], when, q->want[i]);
    }
    if (q->tags) {
      const uint8_t* d = static_cast<const uint8_t*>(q->tags->raw_ptr());
      for (size_t i = 0; i < q->want_tags.size(); i++)
        SIM_CHECK(sim, d[i] == q->want_tags[i], "wrong-tag", "%s: tag %zu is %02x %s, expected %02x", q->what.c_str(), i, d[i], when, q->want_tags[i]);
    }
  }
  virtual void Complete(Pending* q, Instruction* in) {
    SIM_CHECK(sim, !q->done, "completed-twice", "%s completed twice", q->what.c_str());
    SIM_CHECK(sim, in == q->inst, "wrong-instruction", "%s completed another instruction", q->what.c_str());
    SIM_CHECK(sim, cycle == q->due, "completed-at-wrong-time", "%s completed at cycle %lu, due at %lu", q->what.c_str(), (unsigned long)cycle, (unsigned long)q->due);
    SIM_CHECK(sim, in->context() == q->ctx, "wrong-context", "%s completed with another context than given", q->what.c_str());
    CheckData(q, "at completion");
    CheckLatency(q, "at completion");
    q->done = true;
    sim.Note(cycle);
  }
  void Advance() {
    cycle++;
    sim.AdvanceTime(1);
    state->AdvanceDelayLines();
    for (size_t i = 0; i < pend.size();) {
      Pending* q = pend[i].get();
      if (cycle >= q->due) {
        SIM_CHECK(sim, q->done, "not-completed", "%s due at cycle %lu never completed", q->what.c_str(), (unsigned long)q->due);
        ReleaseClient(q);
        pend.erase(pend.begin() + i);
      } else {
        SIM_CHECK(sim, !q->done, "completed-early", "%s completed before cycle %lu", q->what.c_str(), (unsigned long)q->due);
        i++;
      }
    }
  }
  void Drain() {
    while (!pend.empty()) Advance();
    SIM_CHECK(sim, live_inst == 0, "instruction-leaked", "%d load instructions are still referenced after every load completed", live_inst);
    SIM_CHECK(sim, live_ctx == 0, "context-leaked", "%d load contexts are still referenced after every load completed", live_ctx);
  }
  // Reads everything back through the interface.
  void Audit() {
    for (auto& w : windows) {
      for (uint64_t a = w.first; a < w.second && a - w.first < 96;) {
        int n = std::min<uint64_t>(8 * unit, (w.second - a) * unit);
        DataBuffer* db = Buf(n);
        mem->Load(a, db, nullptr, nullptr);
        const uint8_t* d = static_cast<const uint8_t*>(db->raw_ptr());
        for (int k = 0; k < n; k++)
          SIM_CHECK(sim, d[k] == model.Get(a * unit + k), "wrong-data", "final read of byte %lx gives %02x, expected %02x", (unsigned long)(a * unit + k), d[k], model.Get(a * unit + k));
        db->DecRef();
        a += n / unit;
      }
    }
  }
  uint64_t StateHash() {
    uint64_t h = pend.size();
    for (auto& q : pend) h = dst::Mix(h ^ (q->due - cycle) ^ (q->client_inst << 8) ^ (q->client_ctx << 9));
    return dst::Mix(h ^ model.bytes.size() / 4 << 8 ^ model.tags.size());
  }
};
inline LoadInst::LoadInst(World* x, uint64_t a, ArchState* s) : Instruction(a, s), w(x) { w->live_inst++; }
inline LoadInst::~LoadInst() { w->live_inst--; }
inline LoadCtx::LoadCtx(World* x, DataBuffer* d, DataBuffer* t) : w(x), db(d), tags(t) {
  w->live_ctx++;
  if (db) db->IncRef();
  if (tags) tags->IncRef();
}
inline void LoadCtx::OnRefCountIsZero() {
  if (db) db->DecRef();
  if (tags) tags->DecRef();
  ReferenceCount::OnRefCountIsZero();
}
inline LoadCtx::~LoadCtx() { w->live_ctx--; }

// Stands in front of a memory and records what reaches it.
struct Recorded {
  bool store, vector, with_tags;
  uint64_t address;
  int size, el_size;
  std::vector<uint64_t> addresses;
  std::vector<char> mask;
  const void* db;
  const void* inst;
  const void* ctx;
};
struct Recorder : public TaggedMemoryInterface {
  MemoryInterface* target;
  TaggedMemoryInterface* tagged;
  std::vector<Recorded> log;
  explicit Recorder(MemoryInterface* m) : target(m), tagged(nullptr) {}
  explicit Recorder(TaggedMemoryInterface* m) : target(m), tagged(m) {}
  void Vec(bool store, DataBuffer* a, DataBuffer* m, int el, DataBuffer* db, Instruction* i, ReferenceCount* c) {
    Recorded r{store, true, false, 0, db->size<uint8_t>(), el, {}, {}, db, i, c};
    for (auto x : a->Get<uint64_t>()) r.addresses.push_back(x);
    for (auto x : m->Get<bool>()) r.mask.push_back(x);
    log.push_back(r);
  }
  void Load(uint64_t a, DataBuffer* db, Instruction* i, ReferenceCount* c) override {
    log.push_back({false, false, false, a, db->size<uint8_t>(), 0, {}, {}, db, i, c});
    target->Load(a, db, i, c);
  }
  void Load(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db, Instruction* i, ReferenceCount* c) override {
    Vec(false, a, m, el, db, i, c);
    target->Load(a, m, el, db, i, c);
  }
  void Store(uint64_t a, DataBuffer* db) override {
    log.push_back({true, false, false, a, db->size<uint8_t>(), 0, {}, {}, db, nullptr, nullptr});
    target->Store(a, db);
  }
  void Store(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db) override {
    Vec(true, a, m, el, db, nullptr, nullptr);
    target->Store(a, m, el, db);
  }
  void Load(uint64_t a, DataBuffer* db, DataBuffer* t, Instruction* i, ReferenceCount* c) override {
    log.push_back({false, false, true, a, db ? db->size<uint8_t>() : 0, 0, {}, {}, db, i, c});
    tagged->Load(a, db, t, i, c);
  }
  void Store(uint64_t a, DataBuffer* db, DataBuffer* t) override {
    log.push_back({true, false, true, a, db->size<uint8_t>(), 0, {}, {}, db, nullptr, nullptr});
    tagged->Store(a, db, t);
  }
};
// Checks that exactly the access `a` was forwarded.
inline void CheckForwarded(dst::Sim& sim, Recorder& rec, const Access& a) {
  SIM_CHECK(sim, rec.log.size() == 1, "forwarded", "one access reached memory as %zu accesses", rec.log.size());
  const Recorded& r = rec.log[0];
  SIM_CHECK(sim, r.store == a.store && r.vector == a.vector && r.with_tags == a.tagged, "forwarded", "the access reached memory as another kind of access");
  if (a.vector) {
    SIM_CHECK(sim, r.addresses == a.addresses && r.mask == a.mask && r.el_size == a.el_size && r.size == a.size, "forwarded", "a vector access was altered on its way to memory");
  } else {
    SIM_CHECK(sim, r.address == a.address && (!a.has_data || r.size == a.size), "forwarded", "an access was altered on its way to memory");
  }
  rec.log.clear();
}
}  // namespace memw
#endif
