// /verif: absl::Mutex and friends on the simulator's scheduler. Included ahead of
// the code under test (-include), after the absl headers that need the real ones.
#ifndef VERIF_SHIM_SYNC_MUTEX_H_
#define VERIF_SHIM_SYNC_MUTEX_H_
#include <functional>
#include "absl/base/thread_annotations.h"
#include "absl/container/flat_hash_map.h"
#include "absl/flags/flag.h"
#include "absl/functional/any_invocable.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "absl/synchronization/mutex.h"
#include "absl/synchronization/notification.h"
#include "absl/time/time.h"
#if __has_include("mpact/sim/proto/component_data.pb.h")
#include "mpact/sim/proto/component_data.pb.h"
#endif
#include "dst_sched.h"
#pragma clang attribute push(__attribute__((no_sanitize("coverage"))), apply_to = function)
namespace absl {
namespace verif_sync {
class Condition {
 public:
  Condition(bool (*f)(void*), void* a) : f_([f, a] { return f(a); }) {}
  template <typename T>
  Condition(bool (*f)(T*), T* a) : f_([f, a] { return f(a); }) {}
  template <typename T>
  Condition(T* o, bool (T::*m)()) : f_([o, m] { return (o->*m)(); }) {}
  template <typename T>
  Condition(const T* o, bool (T::*m)() const) : f_([o, m] { return (o->*m)(); }) {}
  explicit Condition(const bool* b) : f_([b] { return *b; }) {}
  template <typename T, typename E = decltype(static_cast<bool (T::*)() const>(&T::operator()))>
  explicit Condition(const T* o) : f_([o] { return (*o)(); }) {}
  bool Eval() const { return f_(); }
  std::function<bool()> f_;
};
class Mutex {
 public:
  Mutex() = default;
  Mutex(const Mutex&) = delete;
  ~Mutex() { if (held_ || readers_) dst::g_sim->Violation("mutex", "a mutex was destroyed while held"); }
  void Lock() { dst::Sched::Atomic at; Point(); Take([this] { return !held_ && !readers_; }, "Mutex::Lock"); held_ = true; owner_ = Me(); }
  void Unlock() {
    dst::Sched::Atomic at;
    if (!held_ || owner_ != Me()) dst::g_sim->Violation("mutex", "a mutex was released by a task that does not hold it");
    held_ = false;
    Point();
  }
  bool TryLock() { dst::Sched::Atomic at; Point(); if (held_ || readers_) return false; held_ = true; owner_ = Me(); return true; }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
  void ReaderLock() { dst::Sched::Atomic at; Point(); Take([this] { return !held_; }, "Mutex::ReaderLock"); readers_++; }
  void ReaderUnlock() { readers_--; Point(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void LockWhen(const Condition& c) { dst::Sched::Atomic at; Point(); Take([this, &c] { return !held_ && !readers_ && c.Eval(); }, "Mutex::LockWhen"); held_ = true; owner_ = Me(); }
  void WriterLockWhen(const Condition& c) { LockWhen(c); }
  void Await(const Condition& c) {
    dst::Sched::Atomic at;
    if (c.Eval()) return;   // as in absl: the lock is kept if the condition holds
    held_ = false;
    Take([this, &c] { return !held_ && !readers_ && c.Eval(); }, "Mutex::Await");
    held_ = true;
    owner_ = Me();
  }
  // Time does not pass by itself: a timed wait may end by timeout at any point.
  bool AwaitWithTimeout(const Condition& c, absl::Duration) { return Timed(c); }
  bool AwaitWithDeadline(const Condition& c, absl::Time) { return Timed(c); }
  bool LockWhenWithTimeout(const Condition& c, absl::Duration) { Lock(); return Timed(c); }
  bool LockWhenWithDeadline(const Condition& c, absl::Time) { Lock(); return Timed(c); }
  bool held() const { return held_; }
 private:
  static int Me() { return dst::Sched::active ? dst::Sched::active->current() : -1; }
  static void Point() { if (dst::Sched::active) dst::Sched::active->Yield(); }
  bool Timed(const Condition& c) {
    dst::Sched::Atomic at;
    for (int i = 0; i < 3 && !c.Eval(); i++) {
      held_ = false;
      Point();
      Take([this] { return !held_ && !readers_; }, "Mutex::timed wait");
      held_ = true;
      owner_ = Me();
    }
    return c.Eval();
  }
  void Take(std::function<bool()> ready, const char* what) {
    if (ready()) return;
    if (!dst::Sched::active) dst::g_sim->EngineError("mutex would block outside the scheduler");
    dst::Sched::active->Block(what, std::move(ready));
  }
  bool held_ = false;
  int owner_ = -1;
  int readers_ = 0;
};
class CondVar {
 public:
  void Wait(Mutex* m) { int g = gen_; m->Unlock(); Wake(g); m->Lock(); }
  bool WaitWithTimeout(Mutex* m, absl::Duration) { m->Unlock(); m->Lock(); return true; }
  bool WaitWithDeadline(Mutex* m, absl::Time) { m->Unlock(); m->Lock(); return true; }
  void Signal() { gen_++; }
  void SignalAll() { gen_++; }
 private:
  void Wake(int g) { dst::Sched::active->Block("CondVar::Wait", [this, g] { return gen_ != g; }); }
  int gen_ = 0;
};
class MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex& m) : MutexLock(&m) {}
  MutexLock(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); }
  MutexLock(const MutexLock&) = delete;
  ~MutexLock() { m_->Unlock(); }
 private:
  Mutex* m_;
};
using WriterMutexLock = MutexLock;
class ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* m) : m_(m) { m_->ReaderLock(); }
  ~ReaderMutexLock() { m_->ReaderUnlock(); }
 private:
  Mutex* m_;
};
class ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  ~ReleasableMutexLock() { if (m_) m_->Unlock(); }
  void Release() { m_->Unlock(); m_ = nullptr; }
 private:
  Mutex* m_;
};
}  // namespace verif_sync
}  // namespace absl
#pragma clang attribute pop
// absl::X in the code under test now names the simulated one.
#define Condition verif_sync::Condition
#define CondVar verif_sync::CondVar
#define MutexLock verif_sync::MutexLock
#define WriterMutexLock verif_sync::WriterMutexLock
#define ReaderMutexLock verif_sync::ReaderMutexLock
#define ReleasableMutexLock verif_sync::ReleasableMutexLock
#define Mutex verif_sync::Mutex
#endif
