#include "dst_sched.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>

#include <map>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#endif

namespace dst {

Sched* Sched::active = nullptr;
static const size_t kStack = 256 * 1024;
static std::vector<char*>* g_stacks = nullptr;

static char* GetStack() {
  if (g_stacks == nullptr) { g_stacks = new std::vector<char*>; g_stacks->reserve(64); }
  if (!g_stacks->empty()) {
    char* s = g_stacks->back();
    g_stacks->pop_back();
    return s;
  }
  char* p = static_cast<char*>(mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(p, 4096, PROT_NONE);
  return p + 4096;
}

Sched::Sched(Sim& sim) : sim_(sim) {
  active = this;
  policy_ = sim.Pick(3);
  density_ = sim.Pick(4);
  fine_ = sim.Pick(2);
}

Sched::~Sched() {
  for (auto& t : tasks_)
    if (t->stack) {
#ifdef VERIF_ASAN
      __asan_unpoison_memory_region(t->stack, kStack);
#endif
      g_stacks->push_back(t->stack);
    }
  active = nullptr;
}

int Sched::Spawn(const std::string& name, std::function<void()> fn) {
  auto t = std::make_unique<Task>();
  t->id = tasks_.size();
  t->name = name;
  t->fn = std::move(fn);
  t->stack = GetStack();
  getcontext(&t->ctx);
  t->ctx.uc_stack.ss_sp = t->stack;
  t->ctx.uc_stack.ss_size = kStack;
  t->ctx.uc_link = nullptr;
  makecontext(&t->ctx, &Sched::Entry, 0);
  tasks_.push_back(std::move(t));
  return tasks_.back()->id;
}

void Sched::Entry() {
  Sched* s = active;
#ifdef VERIF_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &s->main_bottom_, &s->main_size_);
#endif
  Task* t = s->current_;
  t->fn();
  t->fn = nullptr;
  t->ready = nullptr;
  t->done = true;
#ifdef VERIF_ASAN
  __sanitizer_start_switch_fiber(nullptr, s->main_bottom_, s->main_size_);
#endif
  s->current_ = nullptr;
  setcontext(&s->main_ctx_);
}

void Sched::SwitchTo(Task* t) {
  current_ = t;
  last_ = t;
  ++switches_;
#ifdef VERIF_ASAN
  __sanitizer_start_switch_fiber(&main_fake_, t->stack, kStack);
#endif
  swapcontext(&main_ctx_, &t->ctx);
#ifdef VERIF_ASAN
  __sanitizer_finish_switch_fiber(main_fake_, nullptr, nullptr);
#endif
}

void Sched::SwitchBack() {
  Task* t = current_;
  current_ = nullptr;
#ifdef VERIF_ASAN
  __sanitizer_start_switch_fiber(&t->fake, main_bottom_, main_size_);
#endif
  swapcontext(&t->ctx, &main_ctx_);
#ifdef VERIF_ASAN
  __sanitizer_finish_switch_fiber(t->fake, &main_bottom_, &main_size_);
#endif
}

void Sched::Yield() {
  if (current_ == nullptr) return;
  SwitchBack();
}

void Sched::Block(const char* what, std::function<bool()> ready) {
  if (current_ == nullptr) {
    if (!ready()) sim_.EngineError("the main context would block: %s", what);
    return;
  }
  Task* t = current_;
  t->what = what;
  t->ready = std::move(ready);
  SwitchBack();
  t->ready = nullptr;
  t->what = "";
}

void Sched::NewBudget() {
  edges_ = 0;
  if (draining_) { budget_ = 200; return; }
  switch (density_) {
    case 0: budget_ = ~0ull; break;                       // only at blocking points
    case 1: budget_ = 1 + sim_.Pick(6); break;            // nearly everywhere
    case 2: budget_ = 1 + sim_.Pick(40); break;
    case 3: budget_ = 1 + sim_.Pick(300); break;
  }
}

void Sched::Edge() {
  if (current_ == nullptr || current_->atomic > 0) return;
  if (++edges_ >= budget_) { SwitchBack(); return; }
  if (edges_ > 2000000)
    sim_.Violation("no-progress", "task %s has been spinning without reaching a scheduling point", current_->name.c_str());
}

void Sched::Run() {
  int drained = 0;
  std::vector<Task*> can;
  while (true) {
    can.clear();
    bool alive = false;
    size_t first = last_ ? last_->id : 0;
    for (size_t k = 0; k < tasks_.size(); ++k) {
      Task* t = tasks_[(first + k) % tasks_.size()].get();
      if (t->done) continue;
      alive = true;
      if (!t->ready || t->ready()) can.push_back(t);
    }
    if (!alive) return;
    if (can.empty()) {
      if (on_idle_ && on_idle_()) continue;
      if (!draining_) { StartDrain(); continue; }   // whatever waits for the end of the run goes on
      std::string s;
      for (auto& t : tasks_)
        if (!t->done) s += (s.empty() ? "" : ", ") + t->name + " in " + t->what;
      sim_.Violation("deadlock", "no task can go on: %s", s.c_str());
    }
    if (!draining_ && !sim_.Step()) {
      StartDrain();
      continue;
    }
    Task* t;
    if (draining_) {
      if (++drained > drain_limit_) {
        std::string s;
        for (auto& x : tasks_)
          if (!x->done) s += (s.empty() ? "" : ", ") + x->name + (x->ready ? std::string(" in ") + x->what : " running");
        sim_.Violation("no-progress", "after the last fault %d fair scheduling steps were not enough: %s", drain_limit_, s.c_str());
      }
      // Round robin: the one after the last.
      t = can[0];
      if (t == last_ && can.size() > 1) t = can[1];
    } else if (can.size() == 1) {
      t = can[0];
    } else if (policy_ == 0) {
      t = can[sim_.Pick(can.size())];
    } else if (policy_ == 1) {
      // Mostly stay with the running task.
      t = sim_.Pick(8) == 7 ? can[sim_.Pick(can.size())] : can[0];
    } else {
      // Mostly prefer one task over the others, changing rarely.
      if (sim_.Pick(12) == 11) prefer_ = sim_.Pick(8);
      t = can[0];
      for (Task* x : can) if ((x->id ^ prefer_) < (t->id ^ prefer_)) t = x;
    }
    NewBudget();
    SwitchTo(t);
  }
}

}  // namespace dst

// ---- seams -------------------------------------------------------------
// Instrumented basic blocks.
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) {
  dst::Sched* s = dst::Sched::active;
  if (s != nullptr && s->in_task()) s->Edge();
}
// Instrumented memory accesses (-fsanitize-coverage=trace-loads,trace-stores): the task can be preempted before each.
#define VERIF_ACCESS(kind, n, T) extern "C" void __sanitizer_cov_##kind##n(T*) { dst::Sched* s = dst::Sched::active; if (s != nullptr && s->in_task()) s->Access(); }
VERIF_ACCESS(load, 1, uint8_t) VERIF_ACCESS(load, 2, uint16_t) VERIF_ACCESS(load, 4, uint32_t) VERIF_ACCESS(load, 8, uint64_t) VERIF_ACCESS(load, 16, __int128)
VERIF_ACCESS(store, 1, uint8_t) VERIF_ACCESS(store, 2, uint16_t) VERIF_ACCESS(store, 4, uint32_t) VERIF_ACCESS(store, 8, uint64_t) VERIF_ACCESS(store, 16, __int128)

namespace {
struct Joinable { int task; };
std::map<pthread_t, Joinable>& Threads() { static auto* m = new std::map<pthread_t, Joinable>; return *m; }
template <typename F>
F Real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
bool Simulated() { return dst::Sched::active != nullptr && dst::g_sim != nullptr; }
pthread_t g_next_thread = 0x7000000;
}  // namespace

namespace dst { int g_threads_unjoined = 0; }

extern "C" int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!Simulated()) {
    static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    return real(th, attr, fn, arg);
  }
  int id = dst::Sched::active->Spawn("thread", [fn, arg] { fn(arg); });
  *th = ++g_next_thread;
  Threads()[*th] = {id};
  dst::g_threads_unjoined++;
  dst::Sched::active->Yield();
  return 0;
}
extern "C" int pthread_join(pthread_t th, void** ret) {
  auto it = Threads().find(th);
  if (it == Threads().end()) {
    static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
    return real(th, ret);
  }
  int id = it->second.task;
  Threads().erase(it);
  dst::Sched::active->Block("join", [id] { return dst::Sched::active->finished(id); });
  dst::g_threads_unjoined--;
  if (ret) *ret = nullptr;
  return 0;
}
extern "C" int pthread_detach(pthread_t th) {
  auto it = Threads().find(th);
  if (it == Threads().end()) {
    static auto real = Real<int (*)(pthread_t)>("pthread_detach");
    return real(th);
  }
  Threads().erase(it);
  dst::g_threads_unjoined--;
  return 0;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!Simulated() || !dst::Sched::active->in_task()) return real(m);
  while (true) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    dst::Sched::active->Yield();
  }
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!Simulated() || !dst::Sched::active->in_task()) return real(c, m);
  pthread_mutex_unlock(m);  // wakes spuriously, which is allowed
  dst::Sched::active->Yield();
  return pthread_mutex_lock(m);
}
