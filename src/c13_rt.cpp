// Compiled without instrumentation. Implements the interface the compiler's thread-sanitizer instrumentation calls.
#include "c13_rt.hpp"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

namespace
{
enum Mode { OFF, SOLO, SCHED };
struct Block { uintptr_t p, e; };
struct Thread {
  uintptr_t stack_lo = 0, stack_hi = 0, tls_lo = 0, tls_hi = 0;
  Mode mode = OFF;
  int id = 0;
  Block own[256];
  int nown = 0;
  bool lib = false; // library code is running
};
__attribute__((tls_model("initial-exec"))) thread_local Thread me;

rt::Log *the_log = nullptr;
const std::vector<std::pair<uintptr_t, uintptr_t>> *relevant = nullptr;
std::vector<long> plan;
size_t next_switch = 0;
std::atomic<uint64_t> progress{0};
std::atomic<bool> freerun{false};
std::atomic<bool> done[2];
long steps[2];
uint64_t npoints;
bool stalled;
sem_t sem[2];

void init_thread()
{
  if (me.stack_hi) return;
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void *lo; size_t sz;
  pthread_attr_getstack(&at, &lo, &sz);
  pthread_attr_destroy(&at);
  me.stack_lo = (uintptr_t)lo; me.stack_hi = me.stack_lo + sz;
  const uintptr_t tp = (uintptr_t)__builtin_thread_pointer();
  me.tls_lo = tp - 65536; me.tls_hi = tp + 8192;
}

// wait for the token; if the other side makes no progress it is blocked by the code under test: then both run freely
void wait_token(int self)
{
  for (;;) {
    if (freerun) return;
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_nsec += 30 * 1000000;
    if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
    const uint64_t before = progress;
    if (sem_timedwait(&sem[self], &ts) == 0) return;
    if (progress == before) { freerun = true; stalled = true; sem_post(&sem[1 - self]); return; }
  }
}
void switch_away()
{
  const int self = me.id, other = 1 - self;
  if (done[other] || freerun) return;
  progress++;
  sem_post(&sem[other]);
  wait_token(self);
}

inline bool is_private(uintptr_t a)
{
  if (a >= me.stack_lo && a < me.stack_hi) return true;
  if (a >= me.tls_lo && a < me.tls_hi) return true;
  for (int i = me.nown - 1; i >= 0; i--) if (a >= me.own[i].p && a < me.own[i].e) return true;
  return false;
}

void access(uintptr_t a, size_t n, bool write)
{
  if (!me.lib || is_private(a)) return;
  if (me.mode == SOLO) { the_log->push_back({a, (uint16_t)std::min<size_t>(n, 65535), write}); return; }
  if (me.mode != SCHED) return;
  if (relevant) {
    bool hit = false;
    for (auto &r : *relevant) if (a < r.second && a + n > r.first) { hit = true; break; }
    if (!hit) return;
  }
  // the preemption takes place before the access
  progress.fetch_add(1, std::memory_order_relaxed);
  const long k = steps[me.id]++;
  npoints++;
  if (next_switch < plan.size() && (int)(next_switch & 1) == me.id && k == plan[next_switch]) {
    next_switch++;
    switch_away();
  }
}

// the second thread lives as long as the process
const std::function<void()> *job;
sem_t go, finished;
bool started;
void run_in(int id, const std::function<void()> &f)
{
  me.id = id; me.nown = 0; me.mode = SCHED;
  wait_token(id);
  f();
  me.mode = OFF;
  done[id] = true;
  progress++;
  sem_post(&sem[1 - id]);
}
void *worker(void *)
{
  init_thread();
  for (;;) {
    while (sem_wait(&go)) {}
    run_in(1, *job);
    sem_post(&finished);
  }
}
void start()
{
  if (started) return;
  started = true;
  init_thread();
  sem_init(&sem[0], 0, 0); sem_init(&sem[1], 0, 0); sem_init(&go, 0, 0); sem_init(&finished, 0, 0);
  pthread_t t;
  pthread_create(&t, nullptr, worker, nullptr);
}
}

namespace pure
{
void on() { me.lib = true; }
void off() { me.lib = false; }
}

namespace rt
{
void solo(const std::function<void()> &f, Log &log)
{
  init_thread();
  the_log = &log;
  me.nown = 0; me.mode = SOLO; me.lib = false;
  f();
  me.mode = OFF; me.lib = false;
}
Result pair(const std::function<void()> &a, const std::function<void()> &b, const std::vector<long> &where, const std::vector<std::pair<uintptr_t, uintptr_t>> *only)
{
  start();
  Result r;
  while (sem_trywait(&sem[0]) == 0) {}
  while (sem_trywait(&sem[1]) == 0) {}
  plan = where; next_switch = 0; relevant = only; steps[0] = steps[1] = 0; npoints = 0; freerun = false; stalled = false;
  done[0] = done[1] = false;
  job = &b;
  sem_post(&sem[0]); // the first task holds the token
  sem_post(&go);
  run_in(0, a);
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  ts.tv_sec += 60;
  if (sem_timedwait(&finished, &ts) != 0) r.deadlock = true;
  r.stalled = stalled; r.points = npoints;
  return r;
}
}

// memory that a task allocates itself is private to it until it is freed or the task ends
static void *alloc(size_t n)
{
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  if (me.lib && me.nown < 256) me.own[me.nown++] = {(uintptr_t)p, (uintptr_t)p + n};
  return p;
}
static void release(void *p)
{
  if (!p) return;
  for (int i = me.nown - 1; i >= 0; i--)
    if (me.own[i].p == (uintptr_t)p) { me.own[i] = me.own[--me.nown]; break; }
  free(p);
}
void *operator new(size_t n) { return alloc(n); }
void *operator new[](size_t n) { return alloc(n); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define A(n) \
  void __tsan_read##n(void *p) { access((uintptr_t)p, n, false); } \
  void __tsan_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false); } \
  void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false); } \
  void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access((uintptr_t)p, n, false); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_read_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read_write##n(void *p) { access((uintptr_t)p, n, true); }
A(1) A(2) A(4) A(8) A(16)
#undef A
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, false); }
void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, true); }
void __tsan_vptr_update(void **p, void *) { access((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
  if (n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
  if (n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
  if (n) access((uintptr_t)d, n, true);
  return memset(d, c, n);
}
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long long a64;
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T *a, int) { access((uintptr_t)a, n / 8, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T *a, T v, int) { access((uintptr_t)a, n / 8, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { access((uintptr_t)a, n / 8, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { access((uintptr_t)a, n / 8, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { access((uintptr_t)a, n / 8, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { access((uintptr_t)a, n / 8, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { access((uintptr_t)a, n / 8, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { access((uintptr_t)a, n / 8, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { access((uintptr_t)a, n / 8, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((uintptr_t)a, n / 8, true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((uintptr_t)a, n / 8, true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((uintptr_t)a, n / 8, true); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
#undef AT
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
