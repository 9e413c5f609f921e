// C30: a whole simulated core, put together from the library's parts the way a
// user does: program memory behind a random stack of memory layers, a decode
// cache, instructions with register, FIFO and resource operands, delay lines,
// breakpoints and action points. Stub: the instruction set (fetch, decode,
// semantic functions, the issue loop), the devices at the other end of the
// FIFOs and the debugger. The reference executes one instruction at a time and
// predicts the cycle in which each one can issue.
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "arch_world.h"
#include "mpact/sim/generic/action_point_manager_base.h"
#include "mpact/sim/generic/breakpoint_manager.h"
#include "mpact/sim/generic/complex_resource.h"
#include "mpact/sim/generic/complex_resource_operand.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/decoder_interface.h"
#include "mpact/sim/generic/devnull_operand.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/instruction_helpers.h"
#include "mpact/sim/generic/literal_operand.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/simple_resource_operand.h"
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/cache.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_router.h"
#include "mpact/sim/util/memory/memory_use_profiler.h"
#include "mpact/sim/util/memory/memory_watcher.h"
#include "mpact/sim/util/memory/single_initiator_router.h"

using namespace mpact::sim::generic;
using namespace mpact::sim::util;
using mpact::sim::generic::Instruction;
const char* const kHarnessProperty = "C30";
const bool kHarnessChecksLeaks = true;

namespace {
constexpr int kRegs = 12, kVRegs = 4, kLanes = 4;
using Vec = std::array<uint32_t, kLanes>;
enum Op : uint8_t { kNop, kLi, kAdd, kSub, kXor, kMul, kLd, kSt, kAmoAdd, kAmoSwap, kAmoMaxu, kBeq, kBne, kJmp, kSend, kRecv, kPatch, kMac, kLl, kSc, kVset, kVadd, kVmadd, kVneg, kVsum, kVld, kVst, kNarrow, kVnarrow, kNumOps, kEbreak = 0xeb };
const char* const kNames[] = {"nop", "li", "add", "sub", "xor", "mul", "ld", "st", "amoadd", "amoswap", "amomaxu", "beq", "bne", "jmp", "send", "recv", "patch", "mac", "ll", "sc", "vset", "vadd", "vmadd", "vneg", "vsum", "vld", "vst", "narrow", "vnarrow"};
struct Word {
  uint8_t op = 0, rd = 0, rs1 = 0, rs2 = 0, size = 3;   // size: log2 of the bytes of a memory access
  uint8_t imm = 0;
  uint64_t Enc() const { return op | (uint64_t)rd << 8 | (uint64_t)rs1 << 16 | (uint64_t)rs2 << 24 | (uint64_t)size << 32 | (uint64_t)imm << 40; }
  static Word Dec(uint64_t v) {
    Word w;
    w.op = v; w.rd = v >> 8; w.rs1 = v >> 16; w.rs2 = v >> 24; w.size = v >> 32; w.imm = v >> 40;
    return w;
  }
};
// What a source read as the k-th type gives, as 64 bits; `wide` has the 128-bit ones.
constexpr int kTypes = 13;
const char* const kTypeNames[kTypes] = {"bool", "uint8", "int8", "uint16", "int16", "half", "uint32", "int32", "float", "uint64", "int64", "double", "128-bit"};
template <typename T, typename... I>
uint64_t ReadBits(const Instruction* i, I... at) {
  auto v = GetInstructionSource<T>(i, at...);
  uint64_t bits = 0;
  if constexpr (std::is_integral_v<T>) bits = static_cast<uint64_t>(v);
  else memcpy(&bits, &v, sizeof(v));
  return bits;
}
template <typename... I>
uint64_t ReadAs(int type, const Instruction* i, I... at) {
  switch (type) {
    case 0: return ReadBits<bool>(i, at...);
    case 1: return ReadBits<uint8_t>(i, at...);
    case 2: return ReadBits<int8_t>(i, at...);
    case 3: return ReadBits<uint16_t>(i, at...);
    case 4: return ReadBits<int16_t>(i, at...);
    case 5: return ReadBits<HalfFP>(i, at...);
    case 6: return ReadBits<uint32_t>(i, at...);
    case 7: return ReadBits<int32_t>(i, at...);
    case 8: return ReadBits<float>(i, at...);
    case 9: return ReadBits<uint64_t>(i, at...);
    case 10: return ReadBits<int64_t>(i, at...);
    case 11: return ReadBits<double>(i, at...);
    default: {
      auto s = GetInstructionSource<absl::int128>(i, at...);
      auto u = GetInstructionSource<absl::uint128>(i, at...);
      return absl::Uint128Low64(u) ^ 3 * absl::Int128Low64(s) ^ 5 * static_cast<uint64_t>(absl::Int128High64(s)) ^ 7 * absl::Uint128High64(u);
    }
  }
}
// The same of a register that holds v, as an unsigned number of `bits` bits.
uint64_t ModelAs(int type, uint64_t v, int bits) {
  uint64_t sx = bits == 32 ? (uint64_t)(int64_t)(int32_t)v : v;
  switch (type) {
    case 0: return v != 0;
    case 1: return (uint8_t)v;
    case 2: return (uint64_t)(int64_t)(int8_t)v;
    case 3: case 5: return (uint16_t)v;
    case 4: return (uint64_t)(int64_t)(int16_t)v;
    case 6: case 8: return (uint32_t)v;
    case 7: return (uint64_t)(int64_t)(int32_t)v;
    case 10: return sx;
    case 9: case 11: return v;
    default: return v ^ 3 * sx ^ 5 * (sx >> 63 ? ~0ull : 0);
  }
}
struct World;
struct Ctx : public ReferenceCount {
  explicit Ctx(DataBuffer* d) : db(d) {}
  ~Ctx() override { db->DecRef(); }
  DataBuffer* db;
};
// Acquires a resource that the register itself releases when it is written.
struct ReserveOperand : public ResourceOperandInterface {
  explicit ReserveOperand(SimpleResource* x) : r(x) {}
  SimpleResource* r;
  bool IsFree() override { return r->IsFree(); }
  void Acquire() override { r->Acquire(); }
  std::string AsString() const override { return r->name(); }
};
// Holds an instruction until its FIFO has a value or space.
struct FifoHold : public ResourceOperandInterface {
  FifoHold(FifoBase* x, bool s) : f(x), send(s) {}
  FifoBase* f;
  bool send;
  bool IsFree() override { return send ? !f->IsFull() : f->Available() > 0; }
  void Acquire() override {}
  std::string AsString() const override { return f->name(); }
};
struct Decoder : public DecoderInterface {
  explicit Decoder(World* x) : w(x) {}
  World* w;
  Instruction* DecodeInstruction(uint64_t a) override;
  int GetNumOpcodes() const override { return kNumOps; }
  const char* GetOpcodeName(int i) const override { return kNames[i]; }
};
struct PointMemory : public ActionPointMemoryInterface {
  explicit PointMemory(World* x) : w(x) {}
  World* w;
  std::map<uint64_t, uint64_t> original;
  absl::Status WriteOriginalInstruction(uint64_t a) override;
  absl::Status WriteBreakpointInstruction(uint64_t a) override;
};
struct Fired { uint64_t addr; int id; };

struct World {
  dst::Sim& sim;
  SimArchState state{"core"};
  // Fixed for a run.
  uint64_t code = 0, data = 0;
  unsigned code_len = 0, data_len = 0;
  unsigned patch_from = 0;                     // instructions from here on may be rewritten, and hold no action point
  int latency[kNumOps] = {}, load_latency = 0, resource_extra = 0;
  bool uses_unit[kNumOps] = {};
  std::vector<uint64_t> unit_mask[kNumOps];
  int depth = 0, width = 1, out_latency = 0, in_latency = 0;
  bool reserved[kRegs] = {}, vreserved[kVRegs] = {};
  bool zero = false;                           // r0 is hardwired to zero
  // Real parts.
  SimpleResourcePool pool{"pool", kRegs + kVRegs};
  SimpleResourceDelayLine* release_line = nullptr;
  std::unique_ptr<ComplexResource> unit;
  RegisterBase *regs[kRegs], *vregs[kVRegs];
  std::function<SourceOperandInterface*(int)> src;
  std::function<DestinationOperandInterface*(int, int)> dst_op;
  Fifo<uint64_t>*in = nullptr, *out = nullptr;
  std::unique_ptr<FlatDemandMemory> mem, mem2;
  std::vector<std::unique_ptr<MemoryInterface>> layers;
  std::vector<MemoryWatcher*> watchers;
  SimpleCounter<uint64_t> clock{"clock", 0};
  MemoryInterface* bottom = nullptr;
  std::unique_ptr<AtomicMemory> top;
  std::unique_ptr<DecodeCache> dc;
  Decoder dec{this};
  PointMemory points{this};
  std::unique_ptr<ActionPointManagerBase> apm;
  std::unique_ptr<BreakpointManager> bpm;
  // State of the simulated core.
  uint64_t pc = 0, next_pc = 0;
  bool ebreak = false, halt_requested = false, stepping_past = false;
  std::vector<Fired> fired;
  struct Seen { uint64_t a = 0, b = 0, v = 0; std::vector<Vec> vec; int runs = 0; } seen;
  // Reference.
  std::map<uint64_t, uint8_t> bytes;
  uint64_t val[kRegs] = {}, visible[kRegs] = {};
  struct Pending { uint64_t at; int r; uint64_t v; };
  std::vector<Pending> pending;
  Vec vval[kVRegs] = {}, vvisible[kVRegs] = {};
  struct VPending { uint64_t at; int r; Vec v; };
  std::vector<VPending> vpending;
  std::set<uint64_t> links;                    // 8-byte granules linked by load-linked
  uint64_t ready[kRegs + kVRegs] = {};         // first cycle in which the register is free
  std::set<uint64_t> unit_busy;
  std::vector<uint64_t> image;                 // original instructions
  struct Landing { uint64_t at; uint64_t v; };
  std::deque<Landing> in_model, out_model;
  std::map<uint64_t, std::map<int, std::pair<bool, uint64_t>>> actions;   // addr -> id -> (enabled, runs)
  std::map<uint64_t, bool> bps;
  struct Watch { uint64_t lo, hi; uint64_t want = 0, got = 0; bool load; };
  std::vector<std::unique_ptr<Watch>> watches;
  uint64_t issued = 0, stalls = 0, fired_total = 0, next_value = 1;
  int hits = 0;
  explicit World(dst::Sim& s) : sim(s) {}

  uint64_t now() { return state.cycle(); }
  bool Active(uint64_t a) {
    auto b = bps.find(a);
    if (b != bps.end() && b->second) return true;
    auto it = actions.find(a);
    if (it != actions.end()) for (auto& [id, x] : it->second) if (x.first) return true;
    return false;
  }
  uint64_t Peek(uint64_t a, int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; i++) { auto it = bytes.find(a + i); v |= (uint64_t)(it == bytes.end() ? 0 : it->second) << (8 * i); }
    return v;
  }
  void Poke(uint64_t a, int n, uint64_t v) { for (int i = 0; i < n; i++) bytes[a + i] = v >> (8 * i); }
  void Touched(bool load, uint64_t a, int n) {
    for (auto& w : watches) if (w->load == load && a <= w->hi && a + n - 1 >= w->lo) w->want++;
  }
  uint64_t Addr(const Word& w, uint64_t base) {
    uint64_t n = 1ull << w.size;
    uint64_t a = data + (base + w.imm) % (data_len - 8);
    if (Amo(w.op)) a &= ~(n - 1);
    return a;
  }
  // The addresses of the lanes of a vector access, and which of them take part.
  // With the top bit of imm the access is unit stride and gives its first
  // address only.
  int ElSize(const Word& w) { return 1 << std::min<int>(w.size, 2); }
  bool UnitStride(const Word& w) { return w.imm & 0x80; }
  uint64_t LaneAddr(const Word& w, const Vec& x, int i) {
    uint64_t span = data_len - 4 * kLanes + 1;
    if (UnitStride(w)) return data + ((uint64_t)x[0] + w.imm) % span + (uint64_t)i * ElSize(w);
    return data + ((uint64_t)x[i] + w.imm) % span;
  }
  bool LaneOn(const Word& w, int i) { return w.imm >> i & 1; }
  void Wrote(uint64_t a, int n) { for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) links.erase(g); }
  static bool Amo(int op) { return op == kAmoAdd || op == kAmoSwap || op == kAmoMaxu || op == kLl || op == kSc; }
  static bool Writes(int op) { return op == kLi || (op >= kAdd && op <= kLd) || Amo(op) || op == kRecv || op == kMac || op == kVsum || op == kNarrow || op == kVnarrow; }
  static int Sources(int op) {
    switch (op) {
      case kAdd: case kSub: case kXor: case kMul: case kSt: case kBeq: case kBne: case kMac: return 2;
      case kAmoAdd: case kAmoSwap: case kAmoMaxu: case kSc: return 2;
      case kLl: case kVset: case kLd: case kSend: case kPatch: case kNarrow: return 1;
      default: return 0;
    }
  }
  // The same for vector registers.
  static bool VWrites(int op) { return op >= kVset && op <= kVld && op != kVsum; }
  static int VSources(int op) {
    switch (op) {
      case kVadd: case kVmadd: case kVst: return 2;
      case kVneg: case kVsum: case kVld: case kVnarrow: return 1;
      default: return 0;
    }
  }
  // Cycles from issue to the write of the destination register.
  int Total(int op) { return latency[op] + (op == kLd || op == kVld ? load_latency : 0); }
  // ---- real memory, from the debugger's or the decoder's side
  uint64_t Read(MemoryInterface* m, uint64_t a, int n) {
    auto* db = state.db_factory()->Allocate<uint8_t>(n);
    db->set_latency(0);
    m->Load(a, db, nullptr, nullptr);
    uint64_t v = 0;
    memcpy(&v, db->raw_ptr(), n);
    db->DecRef();
    return v;
  }
  void Write(MemoryInterface* m, uint64_t a, int n, uint64_t v) {
    auto* db = state.db_factory()->Allocate<uint8_t>(n);
    memcpy(db->raw_ptr(), &v, n);
    m->Store(a, db);
    db->DecRef();
  }
  uint64_t At(unsigned i) { return code + 8ull * i; }
  Word RandomWord(bool allow_control) {
    Word w;
    static const unsigned weights[kNumOps] = {1, 4, 5, 3, 3, 4, 6, 5, 1, 1, 1, 2, 2, 1, 2, 2, 1, 3, 2, 2, 2, 2, 2, 1, 1, 2, 2, 2, 1};
    do {
      unsigned total = 0, k;
      for (unsigned x : weights) total += x;
      unsigned p = sim.Pick(total);
      for (k = 0; p >= weights[k]; k++) p -= weights[k];
      w.op = k;
    } while (!allow_control && w.op >= kBeq && w.op < kMac);
    // Few registers make many hazards.
    unsigned span = hazard;
    w.rd = sim.Pick(span); w.rs1 = sim.Pick(span); w.rs2 = sim.Pick(span);
    w.size = sim.Pick(4);
    w.imm = (w.op == kBeq || w.op == kBne || w.op == kJmp) ? sim.Pick(code_len) : sim.Pick(256);
    return w;
  }
  unsigned hazard = kRegs;

  // ---- the machine
  void Build() {
    code = sim.Pick(2) ? 0x1000 : 0xffff'ffff'0000'0000ull;
    code_len = sim.Range(4, 24);
    patch_from = code_len - (sim.Chance(1, 2) ? std::min<unsigned>(code_len - 2, 3) : 0);
    data = sim.Pick(2) ? code + 0x400 : 0x8000'0000ull + 16384 - 8 * sim.Pick(8);
    data_len = sim.Range(16, 96);
    if (data < code + 0x400 && data + data_len > code) data = 0x8000'0000ull;
    hazard = sim.Range(2, kRegs);
    width = sim.Chance(1, 3) ? sim.Range(2, 4) : 1;
    for (int i = 0; i < kNumOps; i++) latency[i] = sim.Chance(1, 4) ? 0 : sim.Chance(1, 10) ? sim.Range(8, 70) : sim.Range(1, 6);
    load_latency = sim.Chance(1, 3) ? 0 : sim.Range(1, sim.Chance(1, 6) ? 40 : 9);
    for (int i = 0; i < kRegs; i++) {
      std::string name = "r" + std::to_string(i);
      auto* res = pool.GetOrAddResource(name);
      reserved[i] = sim.Chance(1, 4);
      if (reserved[i]) regs[i] = state.AddRegister<ReservedRegister<uint64_t>>(name, res);
      else regs[i] = state.AddRegister<Register<uint64_t>>(name);
    }
    zero = sim.Chance(1, 3);
    if (zero) sim.Probe("hardwired-zero");
    src = [this](int r) -> SourceOperandInterface* {
      if (Zero(r)) return new IntLiteralOperand<0>({1});
      if (reserved[r]) return static_cast<ReservedRegister<uint64_t>*>(regs[r])->CreateSourceOperand();
      return static_cast<Register<uint64_t>*>(regs[r])->CreateSourceOperand();
    };
    dst_op = [this](int r, int lat) -> DestinationOperandInterface* {
      if (Zero(r)) return new DevNullOperand<uint64_t>(&state, {1});
      if (reserved[r]) return static_cast<ReservedRegister<uint64_t>*>(regs[r])->CreateDestinationOperand(lat);
      return static_cast<Register<uint64_t>*>(regs[r])->CreateDestinationOperand(lat);
    };
    for (int i = 0; i < kVRegs; i++) {
      std::string name = "v" + std::to_string(i);
      auto* res = pool.GetOrAddResource(name);
      vreserved[i] = sim.Chance(1, 4);
      if (vreserved[i]) vregs[i] = state.AddRegister<ReservedVectorRegister<uint32_t, kLanes>>(name, res);
      else vregs[i] = state.AddRegister<VectorRegister<uint32_t, kLanes>>(name);
    }
    release_line = state.CreateAndAddDelayLine<SimpleResourceDelayLine>(sim.Range(2, 10));
    depth = sim.Range(1, 64);
    unit = std::make_unique<ComplexResource>(&state, "unit", depth);
    for (int i : {kMul, kMac, kLd, kVmadd, kVld}) {
      uses_unit[i] = sim.Chance(2, 3);
      uint64_t m = 0;
      int begin = sim.Pick(depth), end = sim.Range(begin, std::min(depth - 1, begin + 4));
      for (int k = begin; k <= end; k++) m |= 1ull << k;
      if (i == kMac && sim.Chance(1, 2)) m |= 1ull << sim.Pick(depth);
      unit_mask[i] = {m};
    }
    in = state.AddFifo<Fifo<uint64_t>>("in", (int)sim.Range(1, 4));
    out = state.AddFifo<Fifo<uint64_t>>("out", (int)sim.Range(1, 4));
    out_latency = sim.Pick(5);
    in_latency = sim.Pick(5);
    // Memory: one or two memories, then a random stack of layers.
    mem = std::make_unique<FlatDemandMemory>(0);
    bottom = mem.get();
    if (sim.Chance(1, 2)) {
      sim.Probe("routed-memory");
      mem2 = std::make_unique<FlatDemandMemory>(0);
      auto r = std::make_unique<SingleInitiatorRouter>("router");
      auto st = r->AddTarget<MemoryInterface>(mem.get(), code, code + 8ull * code_len - 1);
      SIM_CHECK(sim, st.ok(), "set-up", "code range refused");
      if (sim.Pick(2)) st = r->AddTarget<MemoryInterface>(mem2.get(), data, data + data_len - 1);
      else st = r->AddDefaultTarget<MemoryInterface>(mem2.get());
      SIM_CHECK(sim, st.ok(), "set-up", "data range refused");
      bottom = r.get();
      layers.push_back(std::move(r));
    }
    MemoryInterface* m = bottom;
    int n = sim.Pick(4);
    for (int i = 0; i < n; i++) {
      switch (sim.Pick(3)) {
        case 0: {
          auto w = std::make_unique<MemoryWatcher>(m);
          uint64_t lo = data;
          for (int k = sim.Range(1, 3); k > 0; k--) {
            lo += sim.Pick(24);
            uint64_t hi = lo + sim.Pick(16);
            if (hi >= data + data_len) break;
            for (bool load : {true, false}) {
              if (sim.Chance(1, 4)) continue;
              watches.push_back(std::make_unique<Watch>(Watch{lo, hi, 0, 0, load}));
              Watch* x = watches.back().get();
              MemoryWatcher::Callback cb = [this, x](uint64_t a, int sz) {
                SIM_CHECK(sim, a <= x->hi && a + sz - 1 >= x->lo, "watch", "the watch of [%lx, %lx] was called for %d bytes at %lx", (unsigned long)x->lo, (unsigned long)x->hi, sz, (unsigned long)a);
                x->got++;
              };
              auto st = load ? w->SetLoadWatchCallback(MemoryWatcher::AddressRange(lo, hi), std::move(cb)) : w->SetStoreWatchCallback(MemoryWatcher::AddressRange(lo, hi), std::move(cb));
              SIM_CHECK(sim, st.ok(), "set-up", "watch refused");
            }
            lo = hi + 1;
          }
          m = w.get();
          layers.push_back(std::move(w));
          sim.Probe("through-watcher");
          break;
        }
        case 1: {
          auto p = std::make_unique<MemoryUseProfiler>(m);
          p->set_is_enabled(true);
          m = p.get();
          layers.push_back(std::move(p));
          sim.Probe("through-profiler");
          break;
        }
        default: {
          auto c = std::make_unique<Cache>("cache" + std::to_string(i), m);
          auto st = c->Configure(sim.Pick(2) ? "256,16,2,true" : "64,8,0,false", &clock);
          SIM_CHECK(sim, st.ok(), "set-up", "cache configuration refused");
          m = c.get();
          layers.push_back(std::move(c));
          sim.Probe("through-cache");
        }
      }
    }
    top = std::make_unique<AtomicMemory>(m);
    DecodeCacheProperties props;
    props.num_entries = sim.Pick(2) ? sim.Range(1, 8) : 64;
    props.minimum_pc_increment = 8;
    dc.reset(DecodeCache::Create(props, &dec));
    apm = std::make_unique<ActionPointManagerBase>(&points);
    bpm = std::make_unique<BreakpointManager>(apm.get(), [this]() { halt_requested = true; });
    // Program and data.
    for (unsigned i = 0; i < code_len; i++) {
      Word w = i + 1 == code_len ? Word{kJmp, 0, 0, 0, 0, 0} : RandomWord(true);
      if (i > 0 && i + 1 < code_len && sim.Chance(1, 3)) {
        // The other half of a load-linked.
        Word l = Word::Dec(image.back());
        if (l.op == kLl) { w = l; w.op = kSc; w.rd = sim.Pick(hazard); w.rs2 = sim.Pick(hazard); }
      }
      image.push_back(w.Enc());
      Write(mem.get(), At(i), 8, w.Enc());
      sim.Log("  %u: %s r%d, r%d, r%d size %d imm %d", i, kNames[w.op], w.rd, w.rs1, w.rs2, 1 << w.size, w.imm);
    }
    for (unsigned i = 0; i < data_len; i++) { uint8_t v = sim.Pick(256); bytes[data + i] = v; Write(bottom, data + i, 1, v); }
    pc = code;
    sim.Log("core: width %d, %d-deep unit, load latency %d, %u instructions, %zu memory layers", width, depth, load_latency, code_len, layers.size());
  }
  // ---- decoding and semantics
  SourceOperandInterface* VSrc(int r) {
    if (vreserved[r]) return static_cast<ReservedVectorRegister<uint32_t, kLanes>*>(vregs[r])->CreateSourceOperand();
    return static_cast<VectorRegister<uint32_t, kLanes>*>(vregs[r])->CreateSourceOperand();
  }
  DestinationOperandInterface* VDst(int r, int lat) {
    if (vreserved[r]) return static_cast<ReservedVectorRegister<uint32_t, kLanes>*>(vregs[r])->CreateDestinationOperand(lat);
    return static_cast<VectorRegister<uint32_t, kLanes>*>(vregs[r])->CreateDestinationOperand(lat);
  }
  static int V(int r) { return r % kVRegs; }
  bool Zero(int r) { return zero && r == 0; }
  Instruction* Decode(uint64_t a) {
    // The decoder fetches through the memory or, like a debugger, around it.
    Word w = Word::Dec(Read(fetch_through_top ? static_cast<MemoryInterface*>(top.get()) : bottom, a, 8));
    auto* inst = new Instruction(a, &state);
    inst->set_size(8);
    inst->set_opcode(w.op);
    if (w.op == kEbreak) {
      inst->set_semantic_function([this](Instruction*) { seen.runs++; ebreak = true; });
      return inst;
    }
    SIM_CHECK(sim, w.op < kNumOps, "fetch", "the instruction fetched from %lx is %lx, which nobody wrote", (unsigned long)a, (unsigned long)w.Enc());
    int ns = Sources(w.op), nv = VSources(w.op);
    if (ns > 0) inst->AppendSource(src(w.rs1));
    if (ns > 1) inst->AppendSource(src(w.rs2));
    if (nv > 0) inst->AppendSource(VSrc(V(w.rs1)));
    if (nv > 1) inst->AppendSource(VSrc(V(w.rs2)));
    if (w.op == kVmadd) inst->AppendSource(VSrc(V(w.rd)));
    if (w.op == kMac) inst->AppendSource(src(w.rd));
    if (w.op == kRecv) inst->AppendSource(in->CreateSourceOperand());
    inst->AppendSource(new ImmediateOperand<uint64_t>(w.imm));
    // What has to be free: everything read and written.
    auto* hold = pool.CreateResourceSet();
    if (ns > 0 && !Zero(w.rs1)) (void)hold->AddResource(pool.GetResource(w.rs1));
    if (ns > 1 && !Zero(w.rs2)) (void)hold->AddResource(pool.GetResource(w.rs2));
    if (nv > 0) (void)hold->AddResource(pool.GetResource(kRegs + V(w.rs1)));
    if (nv > 1) (void)hold->AddResource("v" + std::to_string(V(w.rs2)));
    if (Writes(w.op) && !Zero(w.rd)) (void)hold->AddResource("r" + std::to_string(w.rd));
    if (VWrites(w.op)) (void)hold->AddResource(pool.GetResource(kRegs + V(w.rd)));
    inst->AppendResourceHold(new SimpleResourceOperand(hold, 0));
    if (w.op == kSend) inst->AppendResourceHold(new FifoHold(out, true));
    if (w.op == kRecv) inst->AppendResourceHold(new FifoHold(in, false));
    if (uses_unit[w.op]) {
      for (bool acquire : {false, true}) {
        auto* op = new ComplexResourceOperand(unit.get());
        auto st = op->SetCycleMask(absl::MakeConstSpan(unit_mask[w.op]));
        SIM_CHECK(sim, st.ok(), "set-up", "cycle mask refused");
        if (acquire) inst->AppendResourceAcquire(op); else inst->AppendResourceHold(op);
      }
    }
    if ((Writes(w.op) && !Zero(w.rd)) || VWrites(w.op)) {
      auto* res = pool.GetResource(VWrites(w.op) ? kRegs + V(w.rd) : w.rd);
      if (VWrites(w.op) ? vreserved[V(w.rd)] : reserved[w.rd]) inst->AppendResourceAcquire(new ReserveOperand(res));
      else {
        auto* set = pool.CreateResourceSet();
        (void)set->AddResource(res);
        inst->AppendResourceAcquire(new SimpleResourceOperand(set, Total(w.op), release_line));
      }
    }
    Instruction* writer = inst;
    if (w.op == kLd || Amo(w.op)) {
      writer = new Instruction(a, &state);
      inst->AppendChild(writer);
      writer->DecRef();
      writer->set_semantic_function([this](Instruction* i) {
        auto* db = static_cast<Ctx*>(i->context())->db;
        uint64_t v = 0;
        memcpy(&v, db->raw_ptr(), db->size<uint8_t>());
        WriteDest(i, v);
      });
    }
    if (w.op == kVld) {
      writer = new Instruction(a, &state);
      inst->AppendChild(writer);
      writer->DecRef();
      writer->set_semantic_function([this, w](Instruction* i) {
        // Lanes that are masked off keep their value.
        auto* db = static_cast<Ctx*>(i->context())->db;
        auto* to = i->Destination(0)->CopyDataBuffer();
        for (int k = 0; k < kLanes; k++) {
          if (!LaneOn(w, k)) continue;
          uint32_t v = 0;
          memcpy(&v, static_cast<const char*>(db->raw_ptr()) + k * ElSize(w), ElSize(w));
          to->Set<uint32_t>(k, v);
        }
        to->Submit();
      });
    }
    if (VWrites(w.op)) writer->AppendDestination(VDst(V(w.rd), latency[w.op]));
    if (Writes(w.op)) writer->AppendDestination(dst_op(w.rd, latency[w.op]));
    if (w.op == kSend) inst->AppendDestination(out->CreateDestinationOperand(out_latency));
    inst->set_semantic_function([this, w, a](Instruction* i) { Semantics(w, a, i); });
    return inst;
  }
  bool fetch_through_top = false;
  void WriteDest(Instruction* i, uint64_t v) {
    auto* db = i->Destination(0)->AllocateDataBuffer();
    db->Set<uint64_t>(0, v);
    db->Submit();
  }
  void Semantics(const Word& w, uint64_t a, Instruction* i) {
    seen.runs++;
    int ns = Sources(w.op);
    uint64_t x = seen.a = ns > 0 ? GetInstructionSource<uint64_t>(i, 0) : 0;
    uint64_t y = seen.b = ns > 1 ? GetInstructionSource<uint64_t>(i, 1) : 0;
    uint64_t imm = GetInstructionSource<uint64_t>(i, i->SourcesSize() - 1);
    switch (w.op) {
      case kLi: WriteDest(i, imm); break;
      case kAdd: BinaryOp<uint64_t>(i, [](uint64_t p, uint64_t q) { return p + q; }); break;
      case kSub:
        // One of the helpers for operands of one type, of two and of three.
        if (imm % 3 == 0) BinaryOp<uint64_t>(i, [](uint64_t p, uint64_t q) { return p - q; });
        else if (imm % 3 == 1) BinaryOp<uint64_t, int64_t>(i, [](int64_t p, int64_t q) { return (uint64_t)p - (uint64_t)q; });
        else BinaryOp<uint64_t, uint32_t, int8_t>(i, [](uint32_t p, int8_t q) { return (uint64_t)p - (uint64_t)(int64_t)q; });
        break;
      case kXor: WriteDest(i, x ^ y ^ imm); break;
      case kMul: WriteDest(i, x * (y | 1) + imm); break;
      case kMac: {
        // Only updates the low half.
        auto* db = i->Destination(0)->CopyDataBuffer();
        db->Set<uint32_t>(0, db->Get<uint32_t>(0) + (uint32_t)(x * y));
        db->Submit();
        break;
      }
      case kLd: {
        auto* db = state.db_factory()->Allocate<uint8_t>(1 << w.size);
        db->set_latency(load_latency);
        auto* ctx = new Ctx(db);
        top->Load(Addr(w, x), db, i->child(), ctx);
        ctx->DecRef();
        break;
      }
      case kSt: {
        auto* db = state.db_factory()->Allocate<uint8_t>(1 << w.size);
        memcpy(db->raw_ptr(), &y, 1 << w.size);
        top->Store(Addr(w, x), db);
        db->DecRef();
        break;
      }
      case kVset: {
        auto* db = i->Destination(0)->AllocateDataBuffer();
        for (int k = 0; k < kLanes; k++) db->Set<uint32_t>(k, (uint32_t)(x * (2 * k + 1) + imm));
        db->Submit();
        break;
      }
      case kVadd:
        if (imm % 3 == 0) BinaryVectorOp<uint32_t>(i, [](uint32_t p, uint32_t q) { return p + q; });
        else if (imm % 3 == 1) BinaryVectorOp<uint32_t, int32_t>(i, [](int32_t p, int32_t q) { return (uint32_t)p + (uint32_t)q; });
        else BinaryVectorOp<uint32_t, uint8_t, int16_t>(i, [](uint8_t p, int16_t q) { return (uint32_t)p + (uint32_t)(int32_t)q; });
        break;
      case kVmadd:
        if (imm % 3 == 0) TernaryVectorOp<uint32_t>(i, [](uint32_t p, uint32_t q, uint32_t r) { return p * q + r; });
        else if (imm % 3 == 1) TernaryVectorOp<uint32_t, int32_t>(i, [](int32_t p, int32_t q, int32_t r) { return (uint32_t)p * (uint32_t)q + (uint32_t)r; });
        else TernaryVectorOp<uint32_t, uint8_t, int16_t, uint32_t>(i, [](uint8_t p, int16_t q, uint32_t r) { return (uint32_t)p * (uint32_t)(int32_t)q + r; });
        break;
      case kVneg:
        if (imm % 2 == 0) UnaryVectorOp<uint32_t>(i, [](uint32_t p) { return -p; });
        else UnaryVectorOp<uint32_t, int16_t>(i, [](int16_t p) { return -(uint32_t)(int32_t)p; });
        break;
      case kVsum: {
        uint64_t sum = 0;
        for (int k = 0; k < kLanes; k++) sum += GetInstructionSource<uint32_t>(i, 0, k);
        WriteDest(i, sum + imm);
        break;
      }
      case kNarrow:
        if (imm >= 8 * kTypes && imm < 12 * kTypes) {
          if (imm % 2) UnaryOp<uint64_t>(i, [imm](uint64_t p) { return ~p + imm; });
          else UnaryOp<uint64_t, int16_t>(i, [imm](int16_t p) { return (uint64_t)(int64_t)p + imm; });
          break;
        }
        WriteDest(i, (seen.v = ReadAs(imm % kTypes, i, 0)) + imm); break;
      case kVnarrow: WriteDest(i, (seen.v = ReadAs(imm % kTypes, i, 0, (int)(imm / kTypes % kLanes))) + imm); break;
      case kVld: case kVst: {
        Vec base, from{};
        for (int k = 0; k < kLanes; k++) {
          base[k] = GetInstructionSource<uint32_t>(i, 0, k);
          if (w.op == kVst) from[k] = GetInstructionSource<uint32_t>(i, 1, k);
        }
        auto* addr = state.db_factory()->Allocate<uint64_t>(UnitStride(w) ? 1 : kLanes);
        auto* mask = state.db_factory()->Allocate<bool>(kLanes);
        for (int k = 0; k < (UnitStride(w) ? 1 : kLanes); k++) addr->Set<uint64_t>(k, LaneAddr(w, base, k));
        for (int k = 0; k < kLanes; k++) mask->Set<bool>(k, LaneOn(w, k));
        auto* db = state.db_factory()->Allocate<uint8_t>(ElSize(w) * kLanes);
        memset(db->raw_ptr(), 0, db->size<uint8_t>());
        if (w.op == kVld) {
          db->set_latency(load_latency);
          auto* ctx = new Ctx(db);
          top->Load(addr, mask, ElSize(w), db, i->child(), ctx);
          ctx->DecRef();
        } else {
          for (int k = 0; k < kLanes; k++) memcpy(static_cast<char*>(db->raw_ptr()) + k * ElSize(w), &from[k], ElSize(w));
          top->Store(addr, mask, ElSize(w), db);
          db->DecRef();
        }
        addr->DecRef();
        mask->DecRef();
        break;
      }
      case kAmoAdd: case kAmoSwap: case kAmoMaxu: case kLl: case kSc: {
        auto* db = state.db_factory()->Allocate<uint8_t>(1 << w.size);
        memcpy(db->raw_ptr(), &y, 1 << w.size);
        auto* ctx = new Ctx(db);
        auto op = w.op == kAmoAdd ? AtomicMemoryOpInterface::Operation::kAtomicAdd : w.op == kAmoSwap ? AtomicMemoryOpInterface::Operation::kAtomicSwap : w.op == kAmoMaxu ? AtomicMemoryOpInterface::Operation::kAtomicMaxu
                  : w.op == kLl ? AtomicMemoryOpInterface::Operation::kLoadLinked : AtomicMemoryOpInterface::Operation::kStoreConditional;
        auto st = top->PerformMemoryOp(Addr(w, x), op, db, i->child(), ctx);
        SIM_CHECK(sim, st.ok(), "atomic", "atomic operation refused");
        ctx->DecRef();
        break;
      }
      case kBeq: if (x == y) next_pc = At(imm % code_len); break;
      case kBne: if (x != y) next_pc = At(imm % code_len); break;
      case kJmp: next_pc = At(imm % code_len); break;
      case kSend: {
        out->Reserve(1);
        auto* db = i->Destination(0)->AllocateDataBuffer();
        db->Set<uint64_t>(0, x + imm);
        db->Submit();
        break;
      }
      case kRecv:
        seen.v = GetInstructionSource<uint64_t>(i, 0);
        in->Pop();
        WriteDest(i, seen.v);
        break;
      case kPatch: if (patch_from < code_len) {
        // Self-modifying code: rewrites an instruction and flushes its decoding.
        uint64_t slot = At(patch_from + imm % (code_len - patch_from));
        Write(top.get(), slot, 8, PatchWord(x, imm).Enc());
        dc->Invalidate(slot);
        break;
      }
      default: break;
    }
  }
  Word PatchWord(uint64_t x, uint64_t imm) {
    // The last instruction always leads back to the start.
    if (patch_from + imm % (code_len - patch_from) + 1 == code_len) return Word{kJmp, 0, 0, 0, 0, (uint8_t)(x % 2)};
    return Word{(uint8_t)(x & 1 ? kLi : kXor), (uint8_t)(x % hazard), (uint8_t)(imm % hazard), (uint8_t)(x / 3 % hazard), 3, (uint8_t)(x * 7 + imm)};
  }
  // ---- reference
  void Settle() {
    for (size_t i = 0; i < pending.size();) {
      if (pending[i].at <= now()) { visible[pending[i].r] = pending[i].v; pending.erase(pending.begin() + i); } else i++;
    }
    for (size_t i = 0; i < vpending.size();) {
      if (vpending[i].at <= now()) { vvisible[vpending[i].r] = vpending[i].v; vpending.erase(vpending.begin() + i); } else i++;
    }
  }
  void ModelWrite(int r, uint64_t v, int lat) {
    if (Zero(r)) return;
    val[r] = v;
    ready[r] = now() + lat;
    if (lat == 0) visible[r] = v; else pending.push_back({now() + lat, r, v});
  }
  void ModelVWrite(int r, const Vec& v, int lat) {
    vval[r] = v;
    ready[kRegs + r] = now() + lat;
    if (lat == 0) vvisible[r] = v; else vpending.push_back({now() + lat, r, v});
  }
  bool ModelFree(const Word& w) {
    int ns = Sources(w.op), nv = VSources(w.op);
    if (nv > 0 && ready[kRegs + V(w.rs1)] > now()) return false;
    if (nv > 1 && ready[kRegs + V(w.rs2)] > now()) return false;
    if (VWrites(w.op) && ready[kRegs + V(w.rd)] > now()) return false;
    if (ns > 0 && ready[w.rs1] > now()) return false;
    if (ns > 1 && ready[w.rs2] > now()) return false;
    if (Writes(w.op) && ready[w.rd] > now()) return false;
    if (uses_unit[w.op]) for (int k = 0; k < 64; k++) if ((unit_mask[w.op][0] >> k & 1) && unit_busy.count(now() + k)) return false;
    if (w.op == kSend && out_model.size() >= out->Capacity()) return false;
    if (w.op == kRecv && (in_model.empty() || in_model.front().at > now())) return false;
    return true;
  }
  uint64_t ModelExecute(const Word& w) {
    uint64_t x = Sources(w.op) > 0 ? val[w.rs1] : 0, y = Sources(w.op) > 1 ? val[w.rs2] : 0, next = pc + 8;
    SIM_CHECK(sim, seen.runs == 1, "executed", "the instruction at %lx ran %d times when it issued once", (unsigned long)pc, seen.runs);
    SIM_CHECK(sim, seen.a == x && seen.b == y, "operand", "cycle %lu: %s at %lx read %lx and %lx, one instruction at a time gives %lx and %lx", (unsigned long)now(), kNames[w.op], (unsigned long)pc,
              (unsigned long)seen.a, (unsigned long)seen.b, (unsigned long)x, (unsigned long)y);
    int t = Total(w.op), n = 1 << w.size;
    if (uses_unit[w.op]) for (int k = 0; k < 64; k++) if (unit_mask[w.op][0] >> k & 1) unit_busy.insert(now() + k);
    switch (w.op) {
      case kLi: ModelWrite(w.rd, w.imm, t); break;
      case kAdd: ModelWrite(w.rd, x + y, t); break;
      case kSub: ModelWrite(w.rd, w.imm % 3 < 2 ? x - y : (uint64_t)(uint32_t)x - (uint64_t)(int64_t)(int8_t)y, t); break;
      case kXor: ModelWrite(w.rd, x ^ y ^ w.imm, t); break;
      case kMul: ModelWrite(w.rd, x * (y | 1) + w.imm, t); break;
      case kMac: ModelWrite(w.rd, (val[w.rd] & ~0xffffffffull) | (uint32_t)(val[w.rd] + x * y), t); break;
      case kLd: { uint64_t a = Addr(w, x); Touched(true, a, n); ModelWrite(w.rd, Peek(a, n), t); break; }
      case kSt: { uint64_t a = Addr(w, x); Touched(false, a, n); Poke(a, n, y); Wrote(a, n); break; }
      case kAmoAdd: case kAmoSwap: case kAmoMaxu: {
        uint64_t a = Addr(w, x), old = Peek(a, n), mask = n == 8 ? ~0ull : (1ull << (8 * n)) - 1;
        Touched(true, a, n);
        Touched(false, a, n);
        Wrote(a, n);
        Poke(a, n, w.op == kAmoAdd ? old + y : w.op == kAmoSwap ? y : std::max(old, y & mask));
        ModelWrite(w.rd, old, t);
        break;
      }
      case kLl: {
        uint64_t a = Addr(w, x);
        Touched(true, a, n);
        links.insert(a >> 3);
        ModelWrite(w.rd, Peek(a, n), t);
        break;
      }
      case kSc: {
        uint64_t a = Addr(w, x);
        bool ok = links.count(a >> 3);
        if (ok) { Touched(false, a, n); Poke(a, n, y); Wrote(a, n); sim.Probe("store-conditional-succeeds"); } else sim.Probe("store-conditional-fails");
        ModelWrite(w.rd, ok ? 0 : 1, t);
        break;
      }
      case kVset: { Vec v; for (int k = 0; k < kLanes; k++) v[k] = (uint32_t)(x * (2 * k + 1) + w.imm); ModelVWrite(V(w.rd), v, t); break; }
      case kVadd: { Vec v; for (int k = 0; k < kLanes; k++) { uint32_t p = vval[V(w.rs1)][k], q = vval[V(w.rs2)][k]; v[k] = w.imm % 3 < 2 ? p + q : (uint8_t)p + (uint32_t)(int32_t)(int16_t)q; } ModelVWrite(V(w.rd), v, t); break; }
      case kVmadd: { Vec v; for (int k = 0; k < kLanes; k++) { uint32_t p = vval[V(w.rs1)][k], q = vval[V(w.rs2)][k]; v[k] = (w.imm % 3 < 2 ? p * q : (uint8_t)p * (uint32_t)(int32_t)(int16_t)q) + vval[V(w.rd)][k]; } ModelVWrite(V(w.rd), v, t); break; }
      case kVneg: { Vec v; for (int k = 0; k < kLanes; k++) { uint32_t p = vval[V(w.rs1)][k]; v[k] = w.imm % 2 == 0 ? -p : -(uint32_t)(int32_t)(int16_t)p; } ModelVWrite(V(w.rd), v, t); break; }
      case kVsum: { uint64_t v = w.imm; for (int k = 0; k < kLanes; k++) v += vval[V(w.rs1)][k]; ModelWrite(w.rd, v, t); break; }
      case kNarrow: case kVnarrow: {
        if (w.op == kNarrow && w.imm >= 8 * kTypes && w.imm < 12 * kTypes) {
          ModelWrite(w.rd, (w.imm % 2 ? ~x : (uint64_t)(int64_t)(int16_t)x) + w.imm, t);
          break;
        }
        int type = w.imm % kTypes, lane = w.imm / kTypes % kLanes;
        uint64_t held = w.op == kNarrow ? x : vval[V(w.rs1)][lane];
        uint64_t v = ModelAs(type, held, w.op == kNarrow ? 64 : 32);
        SIM_CHECK(sim, seen.v == v, "operand", "cycle %lu: a register that holds %lx read as %s gave %lx, not %lx", (unsigned long)now(), (unsigned long)held, kTypeNames[type], (unsigned long)seen.v, (unsigned long)v);
        ModelWrite(w.rd, v + w.imm, t);
        if (v != held) sim.Probe("read-as-another-type");
        break;
      }
      case kVld: {
        Vec base = vval[V(w.rs1)], v = vval[V(w.rd)];
        for (int k = 0; k < kLanes; k++) if (LaneOn(w, k)) { uint64_t a = LaneAddr(w, base, k); Touched(true, a, ElSize(w)); v[k] = Peek(a, ElSize(w)); }
        ModelVWrite(V(w.rd), v, t);
        sim.Probe("vector-access");
        break;
      }
      case kVst: {
        Vec base = vval[V(w.rs1)], v = vval[V(w.rs2)];
        for (int k = 0; k < kLanes; k++) if (LaneOn(w, k)) { uint64_t a = LaneAddr(w, base, k); Touched(false, a, ElSize(w)); Poke(a, ElSize(w), v[k]); Wrote(a, ElSize(w)); }
        break;
      }
      case kBeq: if (x == y) next = At(w.imm % code_len); break;
      case kBne: if (x != y) next = At(w.imm % code_len); break;
      case kJmp: next = At(w.imm % code_len); break;
      case kSend: out_model.push_back({now() + out_latency, x + w.imm}); break;
      case kRecv:
        SIM_CHECK(sim, seen.v == in_model.front().v, "received", "received %lx, the device sent %lx", (unsigned long)seen.v, (unsigned long)in_model.front().v);
        ModelWrite(w.rd, in_model.front().v, t);
        in_model.pop_front();
        break;
      case kPatch: if (patch_from < code_len) {
        image[patch_from + w.imm % (code_len - patch_from)] = PatchWord(x, w.imm).Enc();
        sim.Probe("self-modification");
        break;
      }
      default: break;
    }
    return next;
  }
  // Tries to issue the instruction at pc. False: it must wait.
  bool Issue() {
    Instruction* inst = dc->GetDecodedInstruction(pc);
    SIM_CHECK(sim, inst != nullptr, "fetch", "no instruction at %lx", (unsigned long)pc);
    bool trap = Active(pc) && !stepping_past;
    Word w = Word::Dec(image[(pc - code) / 8]);
    bool is_trap = inst->opcode() == kEbreak;
    SIM_CHECK(sim, is_trap == trap && (trap || inst->opcode() == w.op), "fetch", "the instruction fetched at %lx is %s, expected %s", (unsigned long)pc,
              is_trap ? "a breakpoint" : kNames[inst->opcode()], trap ? "a breakpoint" : kNames[w.op]);
    inst->IncRef();
    bool free = true;
    for (auto* r : inst->ResourceHold()) free = free && r->IsFree();
    if (!trap) {
      bool want = ModelFree(w);
      SIM_CHECK(sim, free == want, "issue-cycle", "cycle %lu: %s at %lx is %s by its resources, expected %s", (unsigned long)now(), kNames[w.op], (unsigned long)pc, free ? "free" : "held", want ? "free" : "held");
      if (!free) { inst->DecRef(); stalls++; return false; }
    }
    for (auto* r : inst->ResourceAcquire()) r->Acquire();
    seen = Seen();
    next_pc = pc + 8;
    ebreak = false;
    inst->Execute(nullptr);
    inst->DecRef();
    if (ebreak) {
      SIM_CHECK(sim, seen.runs == 1, "executed", "the breakpoint at %lx ran %d times", (unsigned long)pc, seen.runs);
      Trap();
      return false;
    }
    uint64_t at = pc, next = ModelExecute(w);
    SIM_CHECK(sim, next == next_pc, "next-instruction", "%s at %lx goes on at %lx, expected %lx", kNames[w.op], (unsigned long)pc, (unsigned long)next_pc, (unsigned long)next);
    sim.Note(pc ^ dst::Mix(now()));
    sim.Log("cycle %lu: %s at %u", (unsigned long)now(), kNames[w.op], (unsigned)((pc - code) / 8));
    pc = next;
    issued++;
    if (stepping_past) {
      stepping_past = false;
      if (apm->IsActionPointActive(at)) (void)points.WriteBreakpointInstruction(at);
    }
    return true;
  }
  // A breakpoint instruction executed: run the actions, then step past it.
  void Trap() {
    fired.clear();
    halt_requested = false;
    apm->PerformActions(pc);
    std::map<int, int> got;
    for (auto& f : fired) { SIM_CHECK(sim, f.addr == pc, "action", "an action of %lx ran at %lx", (unsigned long)f.addr, (unsigned long)pc); got[f.id]++; }
    size_t want = 0;
    for (auto& [id, x] : actions[pc]) {
      if (!x.first) continue;
      want++;
      SIM_CHECK(sim, got[id] == 1, "action", "enabled action %d at %lx ran %d times when its address was reached", id, (unsigned long)pc, got[id]);
    }
    SIM_CHECK(sim, fired.size() == want, "action", "%zu actions ran at %lx, %zu are enabled", fired.size(), (unsigned long)pc, want);
    bool bp = bps.count(pc) && bps[pc];
    SIM_CHECK(sim, halt_requested == bp, "breakpoint", "reaching %lx %s a halt", (unsigned long)pc, halt_requested ? "requested" : "did not request");
    if (bp) { sim.Probe("breakpoint-halt"); SIM_CHECK(sim, bpm->last_breakpoint_address() == pc, "breakpoint", "the last breakpoint is %lx, it was %lx", (unsigned long)bpm->last_breakpoint_address(), (unsigned long)pc); }
    fired_total += want;
    hits++;
    // Halted or not, the debugger resumes by stepping over the original.
    auto st = points.WriteOriginalInstruction(pc);
    SIM_CHECK(sim, st.ok(), "set-up", "no original instruction");
    stepping_past = true;
    if (bp && sim.Chance(1, 2)) { for (int i = sim.Pick(8); i > 0; i--) Tick(); }
  }
  void Tick() {
    state.AdvanceDelayLines();
    clock.Increment(1);
    sim.AdvanceTime(1);
    Settle();
  }
  // ---- devices and debugger
  void Devices(bool eager) {
    if ((eager || sim.Chance(1, 2)) && !in->IsFull()) {
      uint64_t v = eager ? next_value++ * 0x9e3779b97f4a7c15ull : sim.Bits();
      SIM_CHECK(sim, in_model.size() < in->Capacity(), "fifo-space", "the FIFO has space with %zu values in it or under way, its capacity is %u", in_model.size(), in->Capacity());
      in->Reserve(1);
      auto* op = in->CreateDestinationOperand(in_latency);
      auto* db = op->AllocateDataBuffer();
      db->Set<uint64_t>(0, v);
      db->Submit();
      delete op;
      in_model.push_back({now() + in_latency, v});
    }
    size_t there = 0;
    for (auto& x : out_model) there += x.at <= now();
    SIM_CHECK(sim, out->Available() == there, "sent", "the core's FIFO holds %u values, %zu have arrived", out->Available(), there);
    if ((eager || sim.Chance(1, 2)) && there > 0) {
      uint64_t v = out->Front()->Get<uint64_t>(0);
      SIM_CHECK(sim, v == out_model.front().v, "sent", "the device received %lx, the core sent %lx", (unsigned long)v, (unsigned long)out_model.front().v);
      out->Pop();
      out_model.pop_front();
    }
  }
  void Debugger() {
    uint64_t a = At(sim.Pick(patch_from));
    switch (sim.Pick(9)) {
      case 0: if (!bps.count(a)) {
        sim.Log("set breakpoint %lx", (unsigned long)a);
        SIM_CHECK(sim, bpm->SetBreakpoint(a).ok(), "breakpoint", "setting a breakpoint failed");
        bps[a] = true;
        break;
      }
      [[fallthrough]];
      case 1: if (bps.count(a)) {
        sim.Log("clear breakpoint %lx", (unsigned long)a);
        SIM_CHECK(sim, bpm->ClearBreakpoint(a).ok(), "breakpoint", "clearing a breakpoint failed");
        bps.erase(a);
        break;
      }
      [[fallthrough]];
      case 2: case 3: {
        auto& m = actions[a];
        if (m.size() < 3 && sim.Pick(2)) {
          auto slot = std::make_shared<int>(-1);
          auto res = apm->SetAction(a, [this, slot](uint64_t addr, int id) { SIM_CHECK(sim, id == *slot, "action", "action %d was called as %d", *slot, id); fired.push_back({addr, id}); });
          SIM_CHECK(sim, res.ok(), "action", "setting an action failed");
          *slot = res.value();
          SIM_CHECK(sim, !m.count(res.value()), "action", "the id of another action was given again");
          m[res.value()] = {true, 0};
          sim.Log("set action %d at %lx", res.value(), (unsigned long)a);
        } else if (!m.empty()) {
          auto it = std::next(m.begin(), sim.Pick(m.size()));
          int id = it->first;
          sim.Log("change action %d at %lx", id, (unsigned long)a);
          switch (sim.Pick(3)) {
            case 0: SIM_CHECK(sim, apm->ClearAction(a, id).ok(), "action", "clearing an action failed"); m.erase(it); break;
            case 1: SIM_CHECK(sim, apm->DisableAction(a, id).ok(), "action", "disabling an action failed"); it->second.first = false; break;
            default: SIM_CHECK(sim, apm->EnableAction(a, id).ok(), "action", "enabling an action failed"); it->second.first = true;
          }
        }
        break;
      }
      case 4: {
        uint64_t d = data + sim.Pick(data_len - 8);
        int n = 1 << sim.Pick(4);
        uint64_t v = Read(top.get(), d, n);
        Touched(true, d, n);
        SIM_CHECK(sim, v == Peek(d, n), "memory", "%d bytes at %lx read %lx, expected %lx", n, (unsigned long)d, (unsigned long)v, (unsigned long)Peek(d, n));
        break;
      }
      case 5: {
        uint64_t d = data + sim.Pick(data_len - 8), v = sim.Bits();
        int n = 1 << sim.Pick(4);
        sim.Fault("memory-changed-by-debugger");
        Write(top.get(), d, n, v);
        Touched(false, d, n);
        Poke(d, n, v);
        Wrote(d, n);
        break;
      }
      case 6: {
        // Flushing decodings at any time changes nothing.
        sim.Fault("decodings-flushed");
        if (sim.Pick(2)) dc->InvalidateAll();
        else dc->InvalidateRange(At(sim.Pick(code_len)), At(code_len));
        break;
      }
      case 7: {
        uint64_t want = Active(a) ? (uint64_t)kEbreak : image[(a - code) / 8];
        uint64_t v = Read(bottom, a, 8);
        SIM_CHECK(sim, (v & 0xff) == (want & 0xff) && (Active(a) || v == want), "code", "instruction memory at %lx holds %lx, expected %s", (unsigned long)a, (unsigned long)v, Active(a) ? "a breakpoint" : "the original");
        break;
      }
      default: bpm->IsBreakpoint(a); break;
    }
  }
  void CheckRegs(const char* what) {
    for (int r = 0; r < kRegs; r++) {
      auto it = state.registers()->find("r" + std::to_string(r));
      uint64_t v = it->second->data_buffer()->Get<uint64_t>(0);
      SIM_CHECK(sim, v == visible[r], "register", "%s, cycle %lu: r%d is %lx, expected %lx", what, (unsigned long)now(), r, (unsigned long)v, (unsigned long)visible[r]);
    }
    for (int r = 0; r < kVRegs; r++) for (int k = 0; k < kLanes; k++) {
      uint32_t v = vregs[r]->data_buffer()->Get<uint32_t>(k);
      SIM_CHECK(sim, v == vvisible[r][k], "register", "%s, cycle %lu: lane %d of v%d is %x, expected %x", what, (unsigned long)now(), k, r, v, vvisible[r][k]);
    }
  }
  void Run() {
    Build();
    fetch_through_top = sim.Pick(2);
    // Fetches do not touch watched data, so the counts below stay exact.
    int stall = sim.Pick(3) ? 0 : sim.Range(2, 12);
    int debug = sim.Pick(4) ? sim.Range(2, 30) : 0;
    if (sim.Chance(1, 20)) { state.set_cycle(0xffff'ffffull - sim.Pick(40)); for (auto& r : ready) r = 0; sim.Probe("past-32-bits"); }
    sim.set_max_steps(sim.Range(20, 160));
    while (sim.Step()) {
      Tick();
      Devices(false);
      if (debug && !stepping_past && sim.Chance(1, debug)) Debugger();
      if (stall && sim.Chance(1, stall)) { sim.Fault("core-stalled"); if (sim.Pick(2)) CheckRegs("while stalled"); continue; }
      for (int i = 0; i < width; i++) if (!Issue()) break;
      CheckRegs("after the cycle");
      while (!unit_busy.empty() && *unit_busy.begin() < now()) unit_busy.erase(unit_busy.begin());
      uint64_t h = (pc - code) / 8;
      for (int r = 0; r < kRegs + kVRegs; r++) h = dst::Mix(h ^ (ready[r] > now() ? ready[r] - now() : 0));
      sim.State(h ^ in_model.size() << 4 ^ out_model.size());
    }
    // Once nothing disturbs it, the core goes on within the longest wait.
    uint64_t before = issued;
    for (int i = 0; i < 400 && issued == before; i++) { Tick(); Devices(true); Issue(); }
    SIM_CHECK(sim, issued > before, "stuck", "no instruction issued in 400 quiet cycles (at %lx)", (unsigned long)pc);
    // Let everything land, then compare the whole state.
    for (int i = 0; i < 130; i++) Tick();
    SIM_CHECK(sim, pending.empty() && vpending.empty(), "engine", "writes still pending");
    for (int r = 0; r < kRegs; r++) {
      SIM_CHECK(sim, visible[r] == val[r], "register", "final r%d", r);
      SIM_CHECK(sim, pool.GetResource(r)->IsFree(), "issue-cycle", "r%d is still held when nothing is in flight", r);
    }
    for (int r = 0; r < kVRegs; r++) {
      SIM_CHECK(sim, vvisible[r] == vval[r], "register", "final v%d", r);
      SIM_CHECK(sim, pool.GetResource(kRegs + r)->IsFree(), "issue-cycle", "v%d is still held when nothing is in flight", r);
    }
    CheckRegs("at the end");
    for (unsigned i = 0; i < data_len; i++) {
      uint64_t v = Read(bottom, data + i, 1);
      SIM_CHECK(sim, v == Peek(data + i, 1), "memory", "at the end the byte at %lx is %lx, expected %lx", (unsigned long)(data + i), (unsigned long)v, (unsigned long)Peek(data + i, 1));
    }
    for (auto& w : watches)
      SIM_CHECK(sim, w->got == w->want, "watch", "the %s watch of [%lx, %lx] was called %lu times for %lu accesses", w->load ? "load" : "store", (unsigned long)w->lo, (unsigned long)w->hi, (unsigned long)w->got, (unsigned long)w->want);
    if (stalls) sim.Probe("waits-for-resources");
    if (hits > 1) sim.Probe("several-action-point-hits");
    if (width > 1) sim.Probe("several-issues-per-cycle");
    if (issued >= 10 && stalls) sim.NonTrivial();
    sim.Log("%lu instructions issued, %lu waits, %d action point hits", (unsigned long)issued, (unsigned long)stalls, hits);
    // Sometimes the machine is taken down with writes in flight.
    if (sim.Chance(1, 2)) { Issue(); for (int i = 0; i < 60 && load_latency > 0; i++) state.function_delay_line()->Advance(); sim.Probe("teardown-with-writes-in-flight"); }
    if (sim.Pick(2)) bpm->ClearAllBreakpoints();
    bpm.reset();
    apm.reset();
    dc.reset();
  }
};
Instruction* Decoder::DecodeInstruction(uint64_t a) { return w->Decode(a); }
absl::Status PointMemory::WriteOriginalInstruction(uint64_t a) {
  auto it = original.find(a);
  if (it == original.end()) return absl::NotFoundError("no action point");
  w->Write(w->bottom, a, 8, it->second);
  w->dc->Invalidate(a);
  return absl::OkStatus();
}
absl::Status PointMemory::WriteBreakpointInstruction(uint64_t a) {
  if (!original.count(a)) original[a] = w->Read(w->bottom, a, 8);
  w->Write(w->bottom, a, 8, kEbreak);
  w->dc->Invalidate(a);
  return absl::OkStatus();
}
}  // namespace

void RunOne(dst::Sim& sim) {
  World w(sim);
  w.Run();
}
