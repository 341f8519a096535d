// Threads of a checked program, one running at a time: the explorer decides at
// which scheduling point (allocation, entry to or exit from a library function)
// the running thread is preempted and which one runs next.
#pragma once
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#define MC_NOPROF __attribute__((no_instrument_function))
namespace mc {
struct Fibers {
  enum { N = 2 };
  struct T { Fibers* f; int i; sem_t go; std::function<void()> body; bool done = true; std::exception_ptr err; long points = 0, limit = 0; struct { bool enumerate; long budget; std::uint64_t stream, ctr; } e; } t[N + 1];
  sem_t back; pid_t owner = 0; int cur = -1;
  MC_NOPROF static Fibers& self() { static Fibers* f = nullptr; if (!f || f->owner != getpid()) { f = new Fibers; f->owner = getpid(); sem_init(&f->back, 0, 0); for (int i = 0; i < N; ++i) { f->t[i].f = f; f->t[i].i = i; sem_init(&f->t[i].go, 0, 0); pthread_t p; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); if (pthread_create(&p, &a, &loop, &f->t[i])) std::abort(); } } return *f; }
  MC_NOPROF static void wait(sem_t* s) { while (sem_wait(s) != 0) {} }
  MC_NOPROF static void* loop(void* v) { T& t = *(T*)v; for (;;) { wait(&t.go); try { t.body(); } catch (...) { yield_hook = nullptr; t.err = std::current_exception(); } yield_hook = nullptr; t.done = true; sem_post(&t.f->back); } }
  MC_NOPROF void save(int i) { Env& v = env(); t[i].e = {v.enumerate, v.budget, v.stream, v.ctr}; }
  MC_NOPROF void load(int i) { Env& v = env(); v.enumerate = t[i].e.enumerate; v.budget = t[i].e.budget; v.stream = t[i].e.stream; v.ctr = t[i].e.ctr; }
  MC_NOPROF static void point() { Fibers& f = self0(); T& t = f.t[f.cur]; if (t.points++ == t.limit) { yield_hook = nullptr; sem_post(&f.back); wait(&t.go); } }
  MC_NOPROF static Fibers& self0() { return *last(); }
  MC_NOPROF static Fibers*& last() { static Fibers* f = nullptr; return f; }
  void start(std::function<void()> a, std::function<void()> b) { last() = this; env().recording = false; t[0].body = a; t[1].body = b; for (int i = 0; i < N; ++i) { t[i].done = false; t[i].err = nullptr; t[i].points = 0; t[i].e = {false, 0, 1, 0}; } }
  // runs thread i until it has passed n more scheduling points or has ended
  MC_NOPROF void run(int i, long n = LONG_MAX / 2) { if (t[i].done) return; t[i].limit = t[i].points + n; save(N); load(i); cur = i; yield_hook = &point; sem_post(&t[i].go); wait(&back); yield_hook = nullptr; save(i); load(N); }
  void finish() { for (int i = 0; i < N; ++i) run(i); for (int i = 0; i < N; ++i) if (t[i].err) { auto x = t[i].err; t[i].err = nullptr; std::rethrow_exception(x); } }
};
}
extern "C" { MC_NOPROF void __cyg_profile_func_enter(void*, void*) { if (mc::yield_hook) mc::yield_hook(); } MC_NOPROF void __cyg_profile_func_exit(void*, void*) { if (mc::yield_hook) mc::yield_hook(); } }
