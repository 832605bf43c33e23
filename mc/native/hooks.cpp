// Controlled scheduler for native code.  The extension module is compiled with
// -fsanitize=thread, which makes the compiler call the functions below before
// every memory access, and linked with this file instead of the run time of
// ThreadSanitizer.  Accesses made while the thread does not hold the GIL are
// the scheduling points: exactly one registered thread runs at a time, and it
// is preempted at the points that the explorer asked for.
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <mutex>
#include <vector>
#include <chrono>

extern "C" int PyGILState_Check(void);

namespace {
struct Access { uintptr_t addr; uint32_t size; uint32_t write; };
struct Switch { int tid; long at; int to; };
std::mutex mtx;
std::condition_variable cv;
bool enabled = false, record = false, freerun = false;
int active = 0;
const int MAXT = 4;
long cnt[MAXT];
bool finished[MAXT];
std::vector<Access> log_[MAXT];
std::vector<Switch> plan;
size_t pos = 0;
long progress = 0;
long infeasible = 0;
thread_local int self = -1;
thread_local bool inside = false;

// Waits until this thread is scheduled.  A thread that is scheduled but does not
// get anywhere (it waits for a lock held by a preempted thread) is skipped.
void wait_turn(std::unique_lock<std::mutex>& l)
{
  long seen = progress;
  while (active != self && !freerun) {
    if (cv.wait_for(l, std::chrono::milliseconds(300)) == std::cv_status::timeout) {
      if (seen == progress) {
        freerun = true;
        ++infeasible;
        cv.notify_all();
        return;
      }
      seen = progress;
    }
  }
}

void point(void* addr, unsigned size, unsigned write)
{
  if (!enabled || self < 0 || inside || PyGILState_Check()) {
    return;
  }
  inside = true;
  {
    std::unique_lock<std::mutex> l{mtx};
    if (enabled) {
      wait_turn(l);
      ++progress;
      auto at = ++cnt[self];
      if (pos < plan.size() && plan[pos].tid == self && plan[pos].at == at) {
        auto to = plan[pos++].to;
        if (!finished[to]) {
          active = to;
          cv.notify_all();
          wait_turn(l);
        }
      }
      if (record) {
        log_[self].push_back({(uintptr_t)addr, size, write});
      }
    }
  }
  inside = false;
}
}

extern "C" {
// ---- control, called through ctypes (without the GIL)
void mc_begin(int first, int rec, const long* switches, int n)
{
  std::unique_lock<std::mutex> l{mtx};
  plan.clear();
  for (int i = 0; i < n; ++i) {
    plan.push_back({(int)switches[3 * i], switches[3 * i + 1], (int)switches[3 * i + 2]});
  }
  for (int i = 0; i < MAXT; ++i) {
    cnt[i] = 0; finished[i] = false; log_[i].clear();
  }
  pos = 0; progress = 0; infeasible = 0;
  active = first; record = rec; freerun = false; enabled = true;
}
void mc_thread(int id) { self = id; }
void mc_wait(void)  // start of a thread's work
{
  std::unique_lock<std::mutex> l{mtx};
  wait_turn(l);
}
void mc_done(int id, int n)
{
  std::unique_lock<std::mutex> l{mtx};
  finished[id] = true;
  ++progress;
  if (active == id) {
    for (int i = 0; i < n; ++i) {
      if (!finished[i]) { active = i; break; }
    }
  }
  cv.notify_all();
  self = -1;
}
void mc_end(void)
{
  std::unique_lock<std::mutex> l{mtx};
  enabled = false;
}
long mc_count(int id) { return cnt[id]; }
long mc_switched(void) { return (long)pos; }
long mc_infeasible(void) { return infeasible; }
// Pairs of conflicting accesses of two threads; the first point of thread a
// that takes part in a conflict.
long mc_conflicts(int a, int b, long* first)
{
  long r = 0;
  for (size_t i = 0; i < log_[a].size(); ++i) {
    auto& x = log_[a][i];
    for (auto& y : log_[b]) {
      if ((x.write || y.write) && x.addr < y.addr + y.size && y.addr < x.addr + x.size) {
        if (!r++) *first = (long)i + 1;
      }
    }
  }
  return r;
}

// ---- what the compiler calls
#define RW(n) \
  void __tsan_read##n(void* p) { point(p, n, 0); } \
  void __tsan_write##n(void* p) { point(p, n, 1); } \
  void __tsan_unaligned_read##n(void* p) { point(p, n, 0); } \
  void __tsan_unaligned_write##n(void* p) { point(p, n, 1); } \
  void __tsan_volatile_read##n(void* p) { point(p, n, 0); } \
  void __tsan_volatile_write##n(void* p) { point(p, n, 1); } \
  void __tsan_read_write##n(void* p) { point(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{ if (n) { point((void*)s, n, 0); point(d, n, 1); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n)
{ if (n) { point((void*)s, n, 0); point(d, n, 1); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n)
{ if (n) { point(d, n, 1); } return __real_memset(d, c, n); }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void* p, unsigned long n) { point(p, n, 0); }
void __tsan_write_range(void* p, unsigned long n) { point(p, n, 1); }
#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(T const volatile* a, int) { return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(T volatile* a, T v, int) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(T volatile* a, T v, int) { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(T volatile* a, T v, int) { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(T volatile* a, T v, int) { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(T volatile* a, T v, int) { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(T volatile* a, T v, int) { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(T volatile* a, T v, int) { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(T volatile* a, T v, int) { return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(T volatile* a, T* c, T v, int, int) \
  { return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(T volatile* a, T* c, T v, int, int) \
  { return __atomic_compare_exchange_n(a, c, v, 1, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
