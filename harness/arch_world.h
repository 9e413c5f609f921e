// Concrete architecture state used by several harnesses.
#ifndef VERIF_HARNESS_ARCH_WORLD_H_
#define VERIF_HARNESS_ARCH_WORLD_H_
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/register.h"
#include "sim.h"

class SimArchState : public mpact::sim::generic::ArchState {
 public:
  explicit SimArchState(const char* id) : ArchState(id) {}
  void set_cycle(uint64_t v) { ArchState::set_cycle(v); }
};
#endif
