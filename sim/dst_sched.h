// Deterministic cooperative scheduler. Tasks are fibers on one kernel thread;
// which runnable task goes next, and where a task is preempted, is decided by
// the run's seed. Threads created by the code under test become tasks
// (pthread_create is interposed), its mutexes and condition variables block in
// the scheduler, and code built with -fsanitize-coverage=trace-pc-guard can be
// preempted at every basic block.
#ifndef VERIF_SIM_SCHED_H_
#define VERIF_SIM_SCHED_H_

#include <ucontext.h>

#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "sim.h"

namespace dst {

class Sched {
 public:
  struct Task;
  explicit Sched(Sim& sim);
  ~Sched();
  // Adds a task; returns its number.
  int Spawn(const std::string& name, std::function<void()> fn);
  // Scheduling point of the running task.
  void Yield();
  // Blocks the running task until ready() holds.
  void Block(const char* what, std::function<bool()> ready);
  // Runs until every task has finished. Once the run's steps are used up (or
  // the harness says so) the scheduler drains: fair, no further faults.
  void Run();
  void StartDrain() { if (!draining_) { draining_ = true; if (on_drain_) on_drain_(); } }
  bool draining() const { return draining_; }
  void set_on_drain(std::function<void()> f) { on_drain_ = std::move(f); }
  // Called when nothing can run; returns whether it changed something.
  void set_on_idle(std::function<bool()> f) { on_idle_ = std::move(f); }
  void set_drain_limit(int n) { drain_limit_ = n; }
  bool in_task() const { return current_ != nullptr; }
  int current() const { return current_ ? current_->id : -1; }
  const char* current_name() const { return current_ ? current_->name.c_str() : "main"; }
  bool finished(int id) const { return tasks_[id]->done; }
  uint64_t switches() const { return switches_; }
  // Called at every instrumented basic block.
  void Edge();
  // Called before every instrumented memory access (points in half the runs).
  void Access() { if (fine_) Edge(); }
  static Sched* active;
  // While one exists, the task is switched only where it blocks or yields.
  struct Atomic {
    Atomic() : t(active ? active->current_ : nullptr) { if (t) t->atomic++; }
    ~Atomic() { if (t) t->atomic--; }
    struct Task* t;
  };

 public:
  struct Task {
    int id;
    std::string name;
    std::function<void()> fn;
    bool done = false;
    const char* what = "";
    std::function<bool()> ready;
    ucontext_t ctx;
    char* stack = nullptr;
    void* fake = nullptr;
    int atomic = 0;   // > 0: not preempted at basic blocks
  };
 private:
  static void Entry();
  void SwitchTo(Task* t);
  void SwitchBack();
  void NewBudget();
  Sim& sim_;
  std::vector<std::unique_ptr<Task>> tasks_;
  Task* current_ = nullptr;
  Task* last_ = nullptr;
  ucontext_t main_ctx_;
  void* main_fake_ = nullptr;
  const void* main_bottom_ = nullptr;
  size_t main_size_ = 0;
  bool draining_ = false;
  int policy_ = 0;
  int density_ = 0;
  int fine_ = 0;
  int prefer_ = 0;
  uint64_t budget_ = 0;
  uint64_t edges_ = 0;
  uint64_t switches_ = 0;
  int drain_limit_ = 20000;
  std::function<void()> on_drain_;
  std::function<bool()> on_idle_;
};

}  // namespace dst

#endif  // VERIF_SIM_SCHED_H_
