// Thread flavour: the code under test is compiled with -fsanitize=thread, but the
// instrumentation calls land here.  Every access is a scheduling point of the
// simulated threads and is checked by a vector-clock happens-before detector.
#include "sim.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <locale.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <algorithm>
#include <iostream>
#include <map>
#include <set>

using sim::g; using sim::in_sim;
namespace sim {
bool race_available = true;
static const int MAXT = 4;
typedef std::array<uint32_t, MAXT> VC;
struct Cell { uintptr_t key; uint32_t gen; uint32_t w[MAXT], r[MAXT]; uint8_t wm[MAXT], rm[MAXT]; void* wp[MAXT]; void* rp[MAXT]; };
static Cell* tab; static const size_t TN = 1u << 19; static uint32_t gen_ = 0; static size_t used;
static VC vc[MAXT]; static int nt; static long acc, lost; static bool on;
struct Maps { std::map<uintptr_t, VC> sync; std::map<void*, int> owner; std::map<void*, int> guard; std::vector<std::string> reports; std::set<std::pair<void*, void*>> seen; std::vector<long> hot; std::vector<void*> stack[MAXT]; };
static Maps* M;
extern char *tls_lo, *tls_hi; 
char* stack_lo(int proc); 
static bool busy;

void race_reset(int n) {
  if (!tab) tab = (Cell*)calloc(TN, sizeof(Cell));
  delete M; M = new Maps; nt = n; acc = lost = 0; used = 0; if (!++gen_) { memset(tab, 0, TN * sizeof(Cell)); gen_ = 1; }
  for (int i = 0; i < MAXT; i++) { vc[i].fill(0); vc[i][i] = 1; }
  on = true;
}
void race_stop() { on = false; }
std::vector<std::string> race_reports() { return M ? M->reports : std::vector<std::string>(); }
std::vector<long> race_hot() { return M ? M->hot : std::vector<long>(); }
long race_accesses() { return acc; }
static Cell* cell(uintptr_t k, bool make) {
  size_t i = (k * 0x9E3779B97F4A7C15ull) >> 45;
  for (;; i = (i + 1) & (TN - 1)) {
    Cell& c = tab[i];
    if (c.gen == gen_ && c.key == k) return &c;
    if (c.gen != gen_) { if (!make) return nullptr; if (used > TN / 2) { lost++; return nullptr; } used++; memset(&c, 0, sizeof c); c.gen = gen_; c.key = k; return &c; }
  }
}
static std::string where(void* pc) {
  Dl_info d; if (!pc || !dladdr(pc, &d) || !d.dli_sname) return "?";
  int st = 0; char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); std::string s = st == 0 && n ? n : d.dli_sname; free(n);
  return s.size() > 150 ? s.substr(0, 150) : s;
}
static std::string caller(int t, void* pc) { std::string s = where(pc); auto& k = M->stack[t]; for (size_t i = k.size(), n = 0; i-- > 0 && n < 3;) { std::string w = where(k[i]); if (w != "?" && s.find(w) == std::string::npos) { s += " < " + w; n++; } } return s; }
static inline bool live() { return on && in_sim && g && g->cfg.threads && g->cur >= 0 && !busy; }
static bool ignored(char* a, int t) {
  char* lo = stack_lo(t); if (lo && a >= lo && a < lo + (1 << 20)) return true;
  if (a >= tls_lo && a < tls_hi) return true;
  auto within = [&](void* o, size_t n) { return a >= (char*)o && a < (char*)o + n; };
  return within(&std::cout, sizeof std::cout) || within(&std::cerr, sizeof std::cerr) || within(&std::clog, sizeof std::clog) || within(&std::cin, sizeof std::cin);
}
static void touch(uintptr_t a, size_t n, bool write, void* pc, int t) {
  while (n) {
    uintptr_t k = a >> 3; unsigned off = a & 7, len = (unsigned)std::min<size_t>(n, 8 - off); uint8_t m = (uint8_t)(((1u << len) - 1) << off);
    Cell* c = cell(k, true); if (!c) return;
    bool shared = false;
    for (int u = 0; u < nt; u++) if (u != t) {
      if (c->w[u] || c->r[u]) shared = true;
      bool rw = c->w[u] && (c->wm[u] & m) && c->w[u] > vc[t][u], rr = write && c->r[u] && (c->rm[u] & m) && c->r[u] > vc[t][u];
      if (rw || rr) {
        void* op = rw ? c->wp[u] : c->rp[u]; auto key = std::minmax(pc, op);
        if (M->seen.insert({key.first, key.second}).second && M->reports.size() < 20) {
          busy = true; bool sv = in_sim; in_sim = false;
          M->reports.push_back(std::string(write ? "write" : "read") + " of thread " + std::to_string(t) + " in " + caller(t, pc) + " and " + (rw ? "write" : "read") + " of thread " + std::to_string(u) + " in " + where(op));
          in_sim = sv; busy = false;
        }
      }
    }
    if (shared && M->hot.size() < 20000) { busy = true; bool sv = in_sim; in_sim = false; if (M->hot.empty() || M->hot.back() != g->step) M->hot.push_back(g->step); in_sim = sv; busy = false; }
    uint32_t now = vc[t][t];
    if (write) { if (c->w[t] != now) c->wm[t] = 0; c->w[t] = now; c->wm[t] |= m; c->wp[t] = pc; }
    else { if (c->r[t] != now) c->rm[t] = 0; c->r[t] = now; c->rm[t] |= m; c->rp[t] = pc; }
    a += len; n -= len;
  }
}
static void access(void* p, size_t n, bool write, void* pc) {
  if (!live()) return;
  int t = g->cur; if (t >= nt) return;
  if (ignored((char*)p, t)) return;
  acc++;
  g->yield();
  touch((uintptr_t)p, n, write, pc, t);
}
static void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }
static void acquire(void* p) { if (!live()) return; busy = true; auto i = M->sync.find((uintptr_t)p); if (i != M->sync.end()) join(vc[g->cur], i->second); busy = false; }
static void release(void* p) { if (!live()) return; busy = true; { bool sv = in_sim; in_sim = false; VC& v = M->sync[(uintptr_t)p]; join(v, vc[g->cur]); vc[g->cur][g->cur]++; in_sim = sv; } busy = false; }
// blocks until pred() is false; other threads run meanwhile
template <class F> static void wait_while(F blocked, const char* what) {
  for (int spin = 0; blocked(); spin++) {
    int n = (int)g->procs.size(), to = -1;
    for (int k = 1; k < n && to < 0; k++) { int c = (g->cur + k + spin) % n; if (c != g->cur && !g->procs[c]->finished) to = c; }
    if (to < 0 || spin > 1000000) { in_sim = false; M->reports.push_back(std::string("deadlock: thread ") + std::to_string(g->cur) + " waits forever for " + what); g->crash_current(); }
    g->force(to);
  }
}
static void fresh(void* p, size_t n) {
  if (!on || !g || !g->cfg.threads || !used) return;
  uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
  for (; a < e; a++) if (Cell* c = cell(a, false)) { memset(c->w, 0, sizeof c->w); memset(c->r, 0, sizeof c->r); memset(c->wm, 0, sizeof c->wm); memset(c->rm, 0, sizeof c->rm); }
}
}
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (live() && g->cur < nt) { auto& s = M->stack[g->cur]; busy = true; bool sv = in_sim; in_sim = false; s.push_back(pc); in_sim = sv; busy = false; } }
void __tsan_func_exit() { if (live() && g->cur < nt) { auto& s = M->stack[g->cur]; if (!s.empty()) s.pop_back(); } }
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int mo) { if (live()) { g->yield(); if (mo != __ATOMIC_RELAXED) acquire((void*)a); } return *a; } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { if (live()) { g->yield(); if (mo != __ATOMIC_RELAXED) release((void*)a); } *a = v; } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { if (live()) { g->yield(); if (mo != __ATOMIC_RELAXED) { acquire((void*)a); release((void*)a); } } T o = *a; *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { if (live()) { g->yield(); if (mo != __ATOMIC_RELAXED) { acquire((void*)a); release((void*)a); } } T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) { if (live()) { g->yield(); if (mo != __ATOMIC_RELAXED) { acquire((void*)a); release((void*)a); } } T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) { if (live()) { g->yield(); acquire((void*)a); release((void*)a); } T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) { if (live()) { g->yield(); acquire((void*)a); release((void*)a); } T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) { if (live()) { g->yield(); acquire((void*)a); release((void*)a); } T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { if (live()) { g->yield(); if (mo != __ATOMIC_RELAXED) { acquire((void*)a); release((void*)a); } } if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, mo, f); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int mo, int f) { __tsan_atomic##n##_compare_exchange_strong(a, &c, v, mo, f); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- library routines that read or write memory of the code under test (renamed in its object files)
void* race_memcpy(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
void* race_memmove(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
void* race_memset(void* d, int c, size_t n) { if (n) access(d, n, true, PC); return memset(d, c, n); }
int race_memcmp(const void* a, const void* b, size_t n) { if (n) { access((void*)a, n, false, PC); access((void*)b, n, false, PC); } return memcmp(a, b, n); }
size_t race_strlen(const char* s) { size_t n = strlen(s); access((void*)s, n + 1, false, PC); return n; }
int race_strcmp(const char* a, const char* b) { access((void*)a, strlen(a) + 1, false, PC); access((void*)b, strlen(b) + 1, false, PC); return strcmp(a, b); }
char* race_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; access((void*)s, n, false, PC); access(d, n, true, PC); return strcpy(d, s); }
char* race_strcat(char* d, const char* s) { size_t n = strlen(s) + 1, m = strlen(d); access((void*)s, n, false, PC); access(d, m + 1, false, PC); access(d + m, n, true, PC); return strcat(d, s); }
char* race_strncpy(char* d, const char* s, size_t n) { access((void*)s, std::min(strlen(s) + 1, n), false, PC); access(d, n, true, PC); return strncpy(d, s, n); }
int race_vsnprintf(char* d, size_t n, const char* f, va_list a) { int k = vsnprintf(d, n, f, a); if (n) access(d, std::min<size_t>(k + 1, n), true, PC); return k; }
int race_sprintf(char* d, const char* f, ...) { va_list a; va_start(a, f); int k = vsprintf(d, f, a); va_end(a); access(d, k + 1, true, PC); return k; }
int race_snprintf(char* d, size_t n, const char* f, ...) { va_list a; va_start(a, f); int k = vsnprintf(d, n, f, a); va_end(a); if (n) access(d, std::min<size_t>(k + 1, n), true, PC); return k; }
size_t race_strftime(char* d, size_t n, const char* f, const struct tm* t) { access((void*)t, sizeof *t, false, PC); size_t k = strftime(d, n, f, t); access(d, k + 1, true, PC); return k; }
double race_strtod(const char* s, char** e) { access((void*)s, strlen(s) + 1, false, PC); return strtod(s, e); }
// ---- routines with one hidden static result
struct tm* race_localtime(const time_t* t) { static struct tm r; access(&r, sizeof r, true, PC); gmtime_r(t, &r); return &r; }
struct tm* race_gmtime(const time_t* t) { return race_localtime(t); }
struct tm* race_localtime_r(const time_t* t, struct tm* r) { access(r, sizeof *r, true, PC); return gmtime_r(t, r); }
char* race_asctime(const struct tm* t) { static char b[64]; access(b, 26, true, PC); return asctime_r(t, b); }
char* race_ctime(const time_t* t) { static char b[64]; access(b, 26, true, PC); return ctime_r(t, b); }
char* race_strtok(char* s, const char* d) { static char* keep; access(&keep, 8, true, PC); char* r = strtok_r(s, d, &keep); if (r) access(r, strlen(r) + 1, true, PC); return r; }
char* race_setlocale(int c, const char* l) { static long k; access(&k, 8, l != nullptr, PC); return setlocale(c, l); }
int race_setenv(const char* n, const char* v, int o) { static long k; access(&k, 8, true, PC); return setenv(n, v, o); }
char* race_getenv(const char* n) { return getenv(n); }

// ---- memory from the heap has no history
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p && on) fresh(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (p && on) fresh(p, a * b); return p; }
void* __wrap_realloc(void* q, size_t n) { void* p = __real_realloc(q, n); if (p && on) fresh(p, n); return p; }

// ---- locks
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!live()) return __real_pthread_mutex_lock(m);
  g->yield(); int t = g->cur;
  bool rec = m->__data.__kind == PTHREAD_MUTEX_RECURSIVE;
  if (!(rec && M->owner.count(m) && M->owner[m] % 100 == t)) wait_while([&] { auto i = M->owner.find(m); return i != M->owner.end(); }, "a mutex");
  busy = true; { bool sv = in_sim; in_sim = false; auto i = M->owner.find(m); if (i == M->owner.end()) M->owner[m] = t + 100; else i->second += 100; in_sim = sv; } busy = false;
  acquire(m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!live()) return __real_pthread_mutex_trylock(m);
  g->yield(); if (M->owner.count(m)) return EBUSY;
  return __wrap_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!live()) return __real_pthread_mutex_unlock(m);
  release(m); busy = true; { auto i = M->owner.find(m); if (i != M->owner.end() && (i->second -= 100) < 100) M->owner.erase(i); } busy = false;
  g->yield(); return 0;
}
int __real___cxa_guard_acquire(long long*); void __real___cxa_guard_release(long long*); void __real___cxa_guard_abort(long long*);
int __wrap___cxa_guard_acquire(long long* gd) {
  if (!live()) return __real___cxa_guard_acquire(gd);
  g->yield();
  if (*(char*)gd) { acquire(gd); return 0; }
  wait_while([&] { return M->guard.count(gd) > 0; }, "the initialisation of a local static");
  if (*(char*)gd) { acquire(gd); return 0; }
  busy = true; { bool sv = in_sim; in_sim = false; M->guard[gd] = g->cur; in_sim = sv; } busy = false;
  return 1;
}
void __wrap___cxa_guard_release(long long* gd) {
  if (!live()) { __real___cxa_guard_release(gd); return; }
  *(char*)gd = 1; release(gd); busy = true; M->guard.erase(gd); busy = false;
}
void __wrap___cxa_guard_abort(long long* gd) {
  if (!live()) { __real___cxa_guard_abort(gd); return; }
  busy = true; M->guard.erase(gd); busy = false;
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!live()) return __real_pthread_once(o, f);
  g->yield();
  wait_while([&] { return M->guard.count(o) > 0; }, "a once-routine");
  if (*(int*)o == 2) { acquire(o); return 0; }
  { bool sv = in_sim; in_sim = false; M->guard[o] = g->cur; in_sim = sv; }
  try { f(); } catch (...) { M->guard.erase(o); throw; }
  *(int*)o = 2; release(o); M->guard.erase(o); return 0;
}
}
