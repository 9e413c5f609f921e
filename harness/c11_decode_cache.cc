// C11: decode cache. Real code: DecodeCache, Instruction, ReferenceCount. Stub:
// the decoder, which decodes a simulated program memory that can be rewritten
// (self-modifying code) and can refuse to decode.
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <vector>

#include "arch_world.h"
#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/decoder_interface.h"
#include "mpact/sim/generic/instruction.h"

using namespace mpact::sim::generic;
const char* const kHarnessProperty = "C11";
const bool kHarnessChecksLeaks = true;

namespace {
struct World;
struct SimInst : public Instruction {
  SimInst(World* w, uint64_t a, uint64_t v, int id);
  ~SimInst() override;
  World* w;
  uint64_t version;
  int id;
};
struct Decoder : public DecoderInterface {
  World* w;
  explicit Decoder(World* x) : w(x) {}
  Instruction* DecodeInstruction(uint64_t a) override;
  int GetNumOpcodes() const override { return 1; }
  const char* GetOpcodeName(int) const override { return "op"; }
};
struct Entry { uint64_t addr; SimInst* inst; uint64_t version; };
struct Hold { SimInst* inst; uint64_t addr, version; };

struct World {
  dst::Sim& sim;
  std::map<uint64_t, uint64_t> version;
  std::set<SimInst*> alive;
  std::map<uint64_t, Entry> slots;   // model: index -> entry
  std::vector<Hold> holds;
  uint64_t entries = 1, inc = 1;
  int decodes = 0, next_id = 0, executed = 0;
  struct Asked { uint64_t addr; int times; bool refuse; };
  std::vector<Asked> asked;          // fetches in progress
  std::function<void(int)> during;   // what the decoder's fetch from memory sets off
  unsigned reenter = 0;
  DecodeCache* dc = nullptr;
  explicit World(dst::Sim& s) : sim(s) {}
  uint64_t Index(uint64_t a) { return (a / inc) % entries; }

  void ModelDrop(std::map<uint64_t, Entry>::iterator it) { slots.erase(it); }
  void CheckAlive(const char* what) {
    // Exactly the cached and the held instructions exist.
    std::set<SimInst*> want;
    for (auto& [k, e] : slots) want.insert(e.inst);
    for (auto& h : holds) want.insert(h.inst);
    for (auto* i : want) SIM_CHECK(sim, alive.count(i), "released-early", "%s: an instruction that is cached or held was destroyed", what);
    for (auto* i : alive) SIM_CHECK(sim, want.count(i), "not-released", "%s: instruction %d at %lx is neither cached nor held but still exists", what, i->id, (unsigned long)i->address());
    for (auto& h : holds)
      SIM_CHECK(sim, h.inst->address() == h.addr && h.inst->version == h.version, "held-instruction", "%s: held instruction changed", what);
    for (auto* i : want) {
      int refs = 0;
      for (auto& [k, e] : slots) refs += e.inst == i;
      for (auto& h : holds) refs += h.inst == i;
      SIM_CHECK(sim, i->ref_count() == refs, "reference-count", "%s: instruction %d has %d references, expected %d", what, i->id, i->ref_count(), refs);
    }
  }
  void Fetch(uint64_t a) {
    uint64_t ix = Index(a);
    auto it = slots.find(ix);
    bool hit = it != slots.end() && it->second.addr == a;
    bool refuse = !hit && sim.Chance(1, 20);
    asked.push_back({a, 0, refuse});
    Instruction* r = dc->GetDecodedInstruction(a);
    int times = asked.back().times;
    asked.pop_back();
    it = hit ? it : slots.find(ix);   // the decoder may have changed the cache
    sim.Log("fetch %lx %s", (unsigned long)a, hit ? "hit" : refuse ? "miss, decoder refuses" : "miss");
    if (hit) {
      SIM_CHECK(sim, times == 0, "needless-decode", "fetch of cached %lx asked the decoder", (unsigned long)a);
      SIM_CHECK(sim, r == it->second.inst, "wrong-instruction", "fetch of %lx returned another instruction than the cached one", (unsigned long)a);
    } else {
      SIM_CHECK(sim, times == 1, "stale-instruction", "fetch of %lx (%s) asked the decoder %d times", (unsigned long)a,
                it == slots.end() ? "not cached" : "slot holds another address", times);
      if (refuse) {
        sim.Fault("decoder-refuses");
        SIM_CHECK(sim, r == nullptr, "wrong-instruction", "the decoder refused %lx but an instruction was returned", (unsigned long)a);
        return;
      }
      if (it != slots.end()) sim.Probe("conflict-eviction");
      SIM_CHECK(sim, r != nullptr, "wrong-instruction", "fetch of %lx returned nothing", (unsigned long)a);
      slots[ix] = {a, static_cast<SimInst*>(r), version[a]};
    }
    auto* s = static_cast<SimInst*>(r);
    SIM_CHECK(sim, alive.count(s) && s->address() == a && s->version == slots[ix].version, "wrong-instruction", "fetch of %lx returned the instruction of %lx version %lu", (unsigned long)a, (unsigned long)s->address(), (unsigned long)s->version);
    if (sim.Chance(1, 3)) { s->IncRef(); holds.push_back({s, a, s->version}); }
    if (sim.Chance(1, 4)) { s->IncRef(); s->Execute(nullptr); s->DecRef(); }
  }
  void Run() {
    DecodeCacheProperties props;
    // A configuration that is not valid must be refused, not crash.
    if (sim.Chance(1, 6)) {
      Decoder d(this);
      props.num_entries = sim.Pick(70);
      const uint32_t bad[] = {0, 3, 5, 6, 12, 100, 0xffffffffu, 0x80000001u};
      props.minimum_pc_increment = bad[sim.Pick(8)];
      DecodeCache* c = DecodeCache::Create(props, &d);
      sim.Fault("invalid-configuration");
      SIM_CHECK(sim, c == nullptr, "invalid-accepted", "minimum pc increment %u was accepted", props.minimum_pc_increment);
    }
    Decoder dec(this);
    props.num_entries = sim.Chance(1, 4) ? sim.Range(0, 3) : sim.Range(1, sim.Chance(1, 6) ? 300 : 20);
    props.minimum_pc_increment = 1u << sim.Pick(sim.Chance(1, 8) ? 12 : 4);
    if (sim.Chance(1, 40)) {
      props.num_entries = (1u << sim.Range(8, 17)) - sim.Pick(3) + 1;
      props.minimum_pc_increment = 1u << sim.Range(0, 30);
      sim.Probe("large-cache");
    }
    dc = DecodeCache::Create(props, &dec);
    SIM_CHECK(sim, dc != nullptr, "valid-refused", "configuration refused: %u entries, increment %u", props.num_entries, props.minimum_pc_increment);
    entries = 1;
    while (entries < props.num_entries) entries *= 2;
    inc = props.minimum_pc_increment;
    SIM_CHECK(sim, (uint64_t)dc->num_entries() == entries && (uint64_t)dc->address_inc() == inc, "geometry", "%d entries of increment %d for %u, %u", dc->num_entries(), dc->address_inc(), props.num_entries, props.minimum_pc_increment);
    sim.Log("cache of %lu entries, increment %lu", (unsigned long)entries, (unsigned long)inc);
    uint64_t base;
    switch (sim.Pick(4)) {
      case 0: base = 0; break;
      case 1: base = 0x1000; break;
      case 2: base = ~0ull - (entries * 3 * inc) + 1; base -= base % inc; break;   // the top of the address space
      default: base = sim.Bits() & ~(inc - 1); if (base > ~0ull - entries * 4 * inc) base -= entries * 4 * inc; break;
    }
    uint64_t span = entries * 3;
    if (sim.Chance(1, 2) && span > 12) span = 12;
    // Addresses that agree in everything but one high bit, too.
    unsigned high = sim.Chance(1, 3) ? 1 + sim.Pick(6) : 0;
    auto addr = [&]() {
      uint64_t a = base + sim.Pick(span) * inc;
      if (high && sim.Chance(1, 4)) { a ^= 1ull << (63 - (high - 1) * 7); sim.Probe("differs-in-one-high-bit"); }
      return a;
    };
    bool odd = sim.Chance(1, 3);  // fetches inside a minimum increment, too
    sim.set_max_steps(sim.Range(5, 120));
    int inval = 0;
    auto invalidate = [&]() {  // program modifies itself, then invalidates that address
                uint64_t a = addr();
      if (odd && sim.Chance(1, 4)) a += sim.Pick(inc);
      version[a]++;
      sim.Log("write and invalidate %lx", (unsigned long)a);
      dc->Invalidate(a);
      inval++;
      auto it = slots.find(Index(a));
      if (it != slots.end() && it->second.addr == a) slots.erase(it);
    };
    auto invalidate_range = [&]() {  // range, any alignment, possibly to the top of the address space
      uint64_t a = addr(), b = addr();
      if (sim.Chance(1, 8)) b = ~0ull;
      if (sim.Chance(1, 8)) a = 0;
      if (sim.Chance(1, 2)) a += sim.Pick(inc);
      if (sim.Chance(1, 2)) b += sim.Pick(inc);
      // Mostly ranges as large as a program may be, now and then one that
      // spans most of the address space.
      if (b > a && (b - a) / inc > 0xffffffffu && sim.Chance(1, 2)) sim.Probe("huge-range");
      else if (b > a && (b - a) / inc > 3000) { if (sim.Pick(2)) a = b - 2000 * inc; else b = a + 2000 * inc; }
      if (a % inc) sim.Probe("unaligned-range");
      if (b > ~0ull - inc) sim.Probe("range-at-top-of-memory");
      for (auto& [x, v] : version) if (x >= a && x < b) v++;
      sim.Log("write and invalidate [%lx,%lx)", (unsigned long)a, (unsigned long)b);
      dc->InvalidateRange(a, b);
      inval++;
      for (auto it = slots.begin(); it != slots.end();) it = (it->second.addr >= a && it->second.addr < b) ? slots.erase(it) : std::next(it);
    };
    auto invalidate_all = [&]() {
      for (auto& [x, v] : version) v++;
      sim.Log("invalidate all");
      dc->InvalidateAll();
      inval++;
      slots.clear();
    };
    during = [&](int depth) {
      switch (sim.Weighted({4, 2, 1, 3})) {
        case 0: invalidate(); break;
        case 1: invalidate_range(); break;
        case 2: invalidate_all(); break;
        case 3: {   // e.g. the decoder looks at the next instruction
          uint64_t a = addr();
          for (auto& x : asked) if (x.addr == a) return;
          Fetch(a);
          sim.Probe("fetch-while-decoding");
          return;
        }
      }
      sim.Fault("invalidate-while-decoding");
    };
    if (sim.Chance(1, 3)) reenter = sim.Range(2, 12);
    while (sim.Step()) {
      const char* what = "step";
      switch (sim.Weighted({12, 3, 3, 1, 2, 2, 2})) {
        case 0: { what = "fetch"; uint64_t a = addr(); if (odd && sim.Chance(1, 4)) a += sim.Pick(inc); Fetch(a); break; }
        case 1: what = "invalidate"; invalidate(); break;
        case 2: what = "invalidate-range"; invalidate_range(); break;
        case 3: what = "invalidate-all"; invalidate_all(); break;
        case 4:
        case 5: {
          what = "release";
          if (holds.empty()) break;
          size_t k = sim.Pick(holds.size());
          SimInst* i = holds[k].inst;
          if (sim.Pick(2)) i->Execute(nullptr);  // still usable after eviction
          holds.erase(holds.begin() + k);
          i->DecRef();
          break;
        }
        case 6: {  // modify without invalidating: the cached one stays
          uint64_t a = addr();
          version[a]++;
          break;
        }
      }
      CheckAlive(what);
      uint64_t h = dst::Mix(entries * 64 + inc);
      sim.State(h ^ (slots.size() << 20) ^ (holds.size() << 8));
    }
    if (decodes >= 2 && inval >= 1) sim.NonTrivial();
    sim.Log("destroy cache with %zu cached and %zu held", slots.size(), holds.size());
    delete dc;
    dc = nullptr;
    slots.clear();
    CheckAlive("destroy");
    while (!holds.empty()) { SimInst* i = holds.back().inst; holds.pop_back(); i->DecRef(); CheckAlive("release"); }
  }
};
SimInst::SimInst(World* x, uint64_t a, uint64_t v, int i) : Instruction(a, nullptr), w(x), version(v), id(i) {
  w->alive.insert(this);
  set_semantic_function([this](Instruction* in) {
    w->executed++;
    SIM_CHECK(w->sim, in == this, "wrong-instruction", "semantic function ran on another instruction");
  });
}
SimInst::~SimInst() {
  SIM_CHECK(w->sim, w->alive.erase(this) == 1, "released-twice", "instruction %d destroyed twice", id);
}
Instruction* Decoder::DecodeInstruction(uint64_t a) {
  w->decodes++;
  SIM_CHECK(w->sim, !w->asked.empty() && a == w->asked.back().addr, "decode-address", "decoder asked for %lx in a fetch of %lx", (unsigned long)a, w->asked.empty() ? 0ul : (unsigned long)w->asked.back().addr);
  w->asked.back().times++;
  bool refuse = w->asked.back().refuse;
  // Reading the instruction can have effects of its own (a watched fetch, a fault).
  if (w->reenter && w->asked.size() < 3 && w->sim.Chance(1, w->reenter)) w->during(w->asked.size());
  if (refuse) return nullptr;
  w->version.emplace(a, 0);
  return new SimInst(w, a, w->version[a], w->next_id++);
}
}  // namespace

void RunOne(dst::Sim& sim) {
  World w(sim);
  w.Run();
}
