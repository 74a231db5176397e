// Interrupts code after chosen numbers of instructions: the code is executed
// step by step (trap flag) and the signal handler runs something else.
#pragma once
#include <cstdint>
#include <functional>
#include <signal.h>
#include <ucontext.h>

namespace stepper {
inline volatile bool active = false;
inline volatile uint64_t count = 0, next = 0, hits = 0;
inline std::function<uint64_t()>* body = nullptr;  // returns the number of instructions to the next interruption, 0: none
#if defined(__has_feature)
#if __has_feature(thread_sanitizer) || __has_feature(address_sanitizer)
#define STEPPER_NONE 1
#endif
#endif
#if defined(__SANITIZE_THREAD__) || defined(__SANITIZE_ADDRESS__) || !defined(__x86_64__) || !defined(__linux__)
#define STEPPER_NONE 1
#endif
#ifndef STEPPER_NONE
// The program's own code, as opposed to the C and C++ libraries (which may not
// be interrupted while they hold a lock on the heap).
extern "C" char __executable_start, etext;
inline void handler(int, siginfo_t*, void* u) {
  auto& flags = ((ucontext_t*)u)->uc_mcontext.gregs[REG_EFL];
  if (!active) { flags &= ~0x100ll; return; }
  count = count + 1;
  if (count < next) return;
  char* pc = (char*)((ucontext_t*)u)->uc_mcontext.gregs[REG_RIP];
  if (pc < &__executable_start || pc >= &etext) return;  // later, once back in the program
  active = false;
  hits = hits + 1;
  uint64_t n = (*body)();
  if (n) { next = count + n; active = true; } else flags &= ~0x100ll;
}
inline __attribute__((always_inline)) void on() { if (active) __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() | 0x100); }
inline __attribute__((always_inline)) void off() { __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() & ~0x100ull); }
inline bool install() {
  struct sigaction a;
  sigemptyset(&a.sa_mask);
  a.sa_flags = SA_SIGINFO;
  a.sa_sigaction = handler;
  return sigaction(SIGTRAP, &a, nullptr) == 0;
}
#else
inline void on() {}
inline void off() {}
inline bool install() { return false; }
#endif
// code under observation calls on() and off() around what may be interrupted
template <class F> inline bool run(std::function<uint64_t()> b, uint64_t first, F code) {
  if (!install()) { code(); return false; }
  body = &b; count = 0; hits = 0; next = first; active = first > 0;
  struct End { ~End() { active = false; off(); body = nullptr; } } end;
  code();
  return true;
}
// does single-stepping work here?
inline bool works() {
  static const bool w = [] {
    volatile int x = 0;
    bool r = run([] { return (uint64_t)0; }, 3, [&] { on(); for (int i = 0; i < 20; ++i) x = x + i; off(); });
    return r && hits == 1;
  }();
  return w;
}
}  // namespace stepper
