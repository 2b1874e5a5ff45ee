#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <sys/mman.h>
#include <link.h>
#include <ucontext.h>
#include <algorithm>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif

namespace sim {
Sim* g = nullptr;
bool in_sim = false;
int in_kernel = 0;
const char* op_names[OP_N] = {"open_r", "open_w", "read", "write", "close", "seek", "stat", "rename", "unlink", "other"};

uint64_t fnv(const std::string& s, uint64_t h) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0xBF58476D1CE4E5B9ull + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static const size_t STACK = 1u << 20;
struct Fiber { ucontext_t ctx; void* stack; };
static ucontext_t main_ctx;
static int g_start = -1;

#if defined(__SANITIZE_ADDRESS__)
static const void* main_bottom = nullptr; static size_t main_size = 0;
static void* main_fake = nullptr;
static void asan_to(Fiber* f, void** save) { __sanitizer_start_switch_fiber(save, f->stack, STACK); }
static void asan_to_main(void** save) { __sanitizer_start_switch_fiber(save, main_bottom, main_size); }
#endif

// ------------------------------------------------ globals of the code under test
extern "C" {
extern char __start_sut_data[] __attribute__((weak)); extern char __stop_sut_data[] __attribute__((weak));
extern char __start_sut_bss[] __attribute__((weak)); extern char __stop_sut_bss[] __attribute__((weak));
}
struct Area { char* p; size_t n; };
static std::vector<Area> areas() {
  std::vector<Area> v;
  if (__start_sut_data && __stop_sut_data > __start_sut_data) v.push_back({__start_sut_data, (size_t)(__stop_sut_data - __start_sut_data)});
  if (__start_sut_bss && __stop_sut_bss > __start_sut_bss) v.push_back({__start_sut_bss, (size_t)(__stop_sut_bss - __start_sut_bss)});
  return v;
}
static std::string save_areas() { std::string s; for (auto& a : areas()) s.append(a.p, a.n); return s; }
static void load_areas(const std::string& s) { size_t o = 0; for (auto& a : areas()) { memcpy(a.p, s.data() + o, a.n); o += a.n; } }
static std::string g_pristine; static bool g_have = false;
static void capture_pristine() { if (!g_have) { g_have = true; g_pristine = save_areas(); } }
void pristine_globals() { capture_pristine(); load_areas(g_pristine); }
// thread-local block of the executable: private to every fiber
struct Tls { char* p = nullptr; size_t n = 0; std::string init; };
static int tls_cb(struct dl_phdr_info* i, size_t, void* d) {
  Tls* t = (Tls*)d;
  if (i->dlpi_name && *i->dlpi_name) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
    t->p = (char*)i->dlpi_tls_data; t->n = i->dlpi_phdr[k].p_memsz;
    t->init.assign((const char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_phdr[k].p_filesz); t->init.resize(t->n, 0);
  }
  return 1;
}
static Tls& tls() { static Tls* t = nullptr; if (!t) { t = new Tls; dl_iterate_phdr(tls_cb, t); } return *t; }

char *tls_lo = nullptr, *tls_hi = nullptr;
char* stack_lo(int proc) { Fiber* f = g && proc < (int)g->procs.size() ? (Fiber*)g->procs[proc]->fiber : nullptr; return f ? (char*)f->stack : nullptr; }
#ifndef SIM_RACE
bool race_available = false; void race_reset(int) {} void race_stop() {} std::vector<std::string> race_reports() { return {}; } std::vector<long> race_hot() { return {}; } long race_accesses() { return 0; }
#endif

Sim::Sim(const Config& c) : cfg(c), clock_rng(c.clock_seed + 77), chunk_rng(c.chunk_seed + 5) {
  dirs.insert("/sim"); dirs.insert("/sim/w");
  g = this;
}
Sim::~Sim() {
  for (auto& p : procs)
    if (p->fiber) {
      Fiber* f = (Fiber*)p->fiber;
      munmap(f->stack, STACK); delete f;
    }
  if (g == this) g = nullptr;
}
void Sim::put(const std::string& path, const std::string& data) {
  auto i = std::make_shared<Inode>(); i->data = data; dir[path] = i;
}
bool Sim::exists(const std::string& path) const { return dir.count(path) > 0; }
std::string Sim::get(const std::string& path) const {
  auto it = dir.find(path); return it == dir.end() ? std::string() : it->second->data;
}
std::vector<std::string> Sim::list() const {
  std::vector<std::string> v; for (auto& k : dir) v.push_back(k.first); for (auto& k : made) v.push_back(k + "/"); return v;
}

int Sim::spawn(const std::string& name, std::function<int()> body) {
  std::unique_ptr<Proc> p(new Proc);
  p->id = (int)procs.size(); p->name = name; p->body = body;
  p->entropy = Rng(mix(cfg.seed, 1000 + p->id));
  procs.push_back(std::move(p));
  return (int)procs.size() - 1;
}

static void fiber_main() {
  Sim* s = g; Proc* p = s->procs[s->cur].get();
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
  in_sim = true;
  try { p->exit_code = p->body(); }
  catch (const std::exception& e) { p->threw = true; p->what = e.what(); }
  catch (...) { p->threw = true; p->what = "non-standard exception"; }
  in_sim = false;
  p->finished = true;
#if defined(__SANITIZE_ADDRESS__)
  asan_to_main(nullptr);
#endif
  setcontext(&main_ctx);
  abort();
}

void Sim::switch_to_main() {
  Fiber* f = (Fiber*)procs[cur]->fiber;
  bool save = in_sim; in_sim = false;
  int k = in_kernel; in_kernel = 0;
  int me_ = cur;
  int saved_errno = errno;
#if defined(__SANITIZE_ADDRESS__)
  void* fake = nullptr; asan_to_main(&fake);
#endif
  swapcontext(&f->ctx, &main_ctx);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(fake, &main_bottom, &main_size);
#endif
  cur = me_; errno = saved_errno;
  in_sim = save; in_kernel = k;
}
void Sim::crash_current() {
  Proc* p = procs[cur].get();
  p->crashed = true; p->finished = true;
  fault_count["crash"]++;
  for (auto& f : fds) if (f && f->proc == p->id) f.reset();
  switch_to_main();
  abort();
}
void Sim::exit_current(int code) {
  Proc* p = procs[cur].get();
  p->exit_code = code; p->finished = true;
  switch_to_main();
  abort();
}

void Sim::yield(bool) {
  // called by a running process at a scheduling point: consult the schedule
  step++;
  if (procs.size() < 2) return;
  while (next_sched < cfg.sched.size() && cfg.sched[next_sched].first < step) next_sched++;
  if (next_sched < cfg.sched.size() && cfg.sched[next_sched].first == step) {
    int want = cfg.sched[next_sched].second; next_sched++;
    if (want != cur && want >= 0 && want < (int)procs.size() && !procs[want]->finished) {
      switches++;
      trace_hash = mix(trace_hash, (uint64_t)step * 131 + want);
      g_start = want;
      switch_to_main();
    }
  }
}

void Sim::force(int want) {
  step++; switches++; trace_hash = mix(trace_hash, (uint64_t)step * 137 + want);
  g_start = want; switch_to_main();
}

void Sim::run() {
  g_start = -1;
  while (true) {
    int n = -1;
    if (g_start >= 0 && !procs[g_start]->finished) n = g_start;
    else if (cur >= 0 && cur < (int)procs.size() && !procs[cur]->finished) n = cur;
    else for (size_t i = 0; i < procs.size(); i++) if (!procs[i]->finished) { n = (int)i; break; }
    g_start = -1;
    if (n < 0) break;
    cur = n;
    Proc* p = procs[n].get();
    Fiber* f = (Fiber*)p->fiber;
    if (!f) {
      f = new Fiber;
      f->stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (cfg.junk >= 0) memset((char*)f->stack + STACK - 128 * 1024, cfg.junk, 128 * 1024);
      p->fiber = f; p->started = true;
      getcontext(&f->ctx);
      f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STACK; f->ctx.uc_link = nullptr;
      makecontext(&f->ctx, fiber_main, 0);
    }
    capture_pristine();
#if defined(__SANITIZE_ADDRESS__)
    asan_to(f, &main_fake);
    swapcontext(&main_ctx, &f->ctx);
#else
    if (!cfg.threads) load_areas(p->imaged ? p->image : g_pristine);
    Tls& t = tls(); tls_lo = t.p; tls_hi = t.p + t.n; std::string mine(t.p ? t.p : "", t.n);
    if (t.n) { if (p->tls.empty()) p->tls = t.init; memcpy(t.p, p->tls.data(), t.n); }
    swapcontext(&main_ctx, &f->ctx);
    if (t.n) { p->tls.assign(t.p, t.n); memcpy(t.p, mine.data(), t.n); }
    if (!cfg.threads) { p->image = save_areas(); p->imaged = true; }
#endif
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
    in_sim = false;
  }
  cur = -1;
}

// ------------------------------------------------------------------ paths
std::string Sim::resolve(const std::string& p, int depth) const {
  std::string s = p.empty() ? "" : (p[0] == '/' ? p : cwd + "/" + p);
  std::vector<std::string> parts; std::string cur_;
  for (size_t i = 0; i <= s.size(); i++) {
    if (i == s.size() || s[i] == '/') {
      if (cur_ == "..") { if (!parts.empty()) parts.pop_back(); }
      else if (!cur_.empty() && cur_ != ".") parts.push_back(cur_);
      cur_.clear();
    } else cur_ += s[i];
  }
  std::string r; for (auto& x : parts) r += "/" + x;
  auto it = links.find(r);
  if (it != links.end() && depth < 8) {
    std::string t = it->second;
    if (t.empty() || t[0] != '/') { size_t k = r.rfind('/'); t = r.substr(0, k) + "/" + t; }
    return resolve(t, depth + 1);
  }
  return r;
}
static std::string dirname_of(const std::string& r) { size_t k = r.rfind('/'); return k == 0 || k == std::string::npos ? "/" : r.substr(0, k); }
// path of the entry itself (final symlink not followed)
static std::string entry(const Sim& s, const std::string& p) {
  std::string q = p; std::string base;
  size_t k = q.rfind('/');
  if (k == std::string::npos) { base = q; q = "."; } else { base = q.substr(k + 1); q = q.substr(0, k); if (q.empty()) q = "/"; }
  if (base == "." || base == "..") return s.resolve(p);
  std::string d = s.resolve(q);
  return d + "/" + base;
}

// ------------------------------------------------------------------ op frame
const Fault* Sim::begin(Op op, const std::string& path, long len, OpRec& r) {
  yield();
  Proc* p = procs[cur].get();
  p->ops++;
  r.proc = p->id; r.n = p->ops; r.op = op; r.path = path; r.len = len; r.ret = 0; r.err = 0;
  sim_elapsed_us += 20; cpu_us += 5; wall_us += 20;
  if (p->ops > cfg.max_ops) { hang = true; crash_current(); }
  const Fault* hit = nullptr;
  for (const Fault& f : cfg.faults)
    if (f.proc == p->id && f.op == p->ops) {
      if (f.kind == "jump") { cpu_us += std::max(0l, f.arg); wall_us += f.arg; sim_elapsed_us += std::labs(f.arg); fault_count["clock_jump"]++; continue; }
      if (f.kind == "crash_before") { crash_current(); }
      hit = &f;
    } else if (f.proc == p->id && f.op <= p->ops && !hit) {      // faults that last until the end of the run
      if ((f.kind == "wfail" && op == OP_WRITE) || (f.kind == "rfail" && op == OP_READ)) hit = &f;
    }
  return hit;
}
void Sim::end(OpRec& r, const Fault* f) {
  trace_hash = mix(trace_hash, fnv(r.path, (uint64_t)r.op * 7919 + r.proc) ^ (uint64_t)(r.ret * 31 + r.err));
  if (keep_log) log.push_back(r);
  bool mut = r.op == OP_OPEN_W || r.op == OP_WRITE || r.op == OP_RENAME || r.op == OP_UNLINK || r.op == OP_OTHER;
  if (mut && after_op) { Outside o; after_op(r); }
  if (f && (f->kind == "crash_after" || f->kind == "crash_mid")) crash_current();
  errno = r.err ? r.err : errno;
}
static int err_of(const std::string& k) {
  if (k == "eio") return EIO;
  if (k == "enospc" || k == "wfail") return ENOSPC;
  if (k == "rfail") return EIO;
  if (k == "eacces") return EACCES;
  if (k == "enoent") return ENOENT;
  if (k == "emfile") return EMFILE;
  if (k == "exdev") return EXDEV;
  if (k == "erofs") return EROFS;
  if (k == "ebusy") return EBUSY;
  return 0;
}

OpenFile* Sim::file(int fd) {
  int i = fd - FD_BASE;
  if (i < 0 || i >= (int)fds.size()) return nullptr;
  return fds[i].get();
}

int Sim::sys_open(const std::string& path, int flags) {
  bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  OpRec r; const Fault* f = begin(wr ? OP_OPEN_W : OP_OPEN_R, path, 0, r);
  std::string p = resolve(path);
  int e = 0;
  if (f && (e = err_of(f->kind))) fault_count["open_" + f->kind]++;
  InodeP ino;
  if (!e) {
    auto it = dir.find(p);
    if (dirs.count(p)) { if (wr) e = EISDIR; else ino = std::make_shared<Inode>(); }
    else if (it == dir.end()) {
      if (!(flags & O_CREAT)) e = ENOENT;
      else if (!dirs.count(dirname_of(p))) e = ENOENT;
      else if (cfg.read_only_dir) e = EACCES;
      else { ino = std::make_shared<Inode>(); dir[p] = ino; }
    } else {
      ino = it->second;
      if ((flags & O_CREAT) && (flags & O_EXCL)) e = EEXIST;
      else if (wr && ino->readonly) e = EACCES;
      else if (flags & O_TRUNC) {
        if (cfg.disk_free >= 0) cfg.disk_free += (long)ino->data.size();
        ino->data.clear(); ino->ver++;
      }
    }
  }
  int fd = -1;
  if (!e) {
    std::unique_ptr<OpenFile> of(new OpenFile);
    of->ino = ino; of->path = p; of->proc = cur;
    int acc = flags & O_ACCMODE;
    of->rd = acc == O_RDONLY || acc == O_RDWR; of->wr = acc != O_RDONLY; of->append = (flags & O_APPEND) != 0;
    fds.push_back(std::move(of));
    fd = FD_BASE + (int)fds.size() - 1;
  }
  r.ret = fd; r.err = e; end(r, f);
  return fd;
}
long Sim::sys_read(int fd, void* buf, size_t n) {
  OpenFile* of = file(fd);
  OpRec r; const Fault* f = begin(OP_READ, of ? of->path : "?", (long)n, r);
  of = file(fd);
  if (!of || !of->rd) { r.ret = -1; r.err = EBADF; end(r, f); return -1; }
  int e = 0; long want = (long)n;
  if (f) {
    if (f->kind == "eintr") { e = EINTR; fault_count["eintr"]++; }
    else if ((e = err_of(f->kind))) fault_count["read_" + f->kind]++;
    else if (f->kind == "short") { want = std::min(want, std::max(1l, f->arg)); fault_count["short_read"]++; }
  }
  if (!e && cfg.eintr_every > 0 && r.n % cfg.eintr_every == 0) { e = EINTR; fault_count["eintr"]++; }
  if (dirs.count(of->path)) e = EISDIR;
  if (!e && cfg.read_chunk > 0 && want > 1) {
    long c = cfg.chunk_seed ? 1 + (long)chunk_rng.below(cfg.read_chunk) : cfg.read_chunk;
    if (c < want) { want = c; fault_count["short_read"]++; }
  }
  if (e) { r.ret = -1; r.err = e; end(r, f); errno = e; return -1; }
  long avail = (long)of->ino->data.size() - of->off;
  long k = std::max(0l, std::min(want, avail));
  if (k > 0) memcpy(buf, of->ino->data.data() + of->off, k);
  of->off += k; r.ret = k; end(r, f);
  return k;
}
long Sim::sys_write(int fd, const void* buf, size_t n) {
  OpenFile* of = file(fd);
  OpRec r; const Fault* f = begin(OP_WRITE, of ? of->path : "?", (long)n, r);
  of = file(fd);
  if (!of || !of->wr) { r.ret = -1; r.err = EBADF; end(r, f); errno = EBADF; return -1; }
  int e = 0; long want = (long)n;
  if (f) {
    if (f->kind == "eintr") { e = EINTR; fault_count["eintr"]++; }
    else if ((e = err_of(f->kind))) fault_count["write_" + f->kind]++;
    else if (f->kind == "short" || f->kind == "crash_mid") { want = std::min(want, std::max(f->kind == "short" ? 1l : 0l, f->arg)); fault_count[f->kind == "short" ? "short_write" : "torn_write_at_crash"]++; }
  }
  if (!e && cfg.eintr_every > 0 && r.n % cfg.eintr_every == 0) { e = EINTR; fault_count["eintr"]++; }
  if (!e && cfg.write_chunk > 0 && want > 1) {
    long c = cfg.chunk_seed ? 1 + (long)chunk_rng.below(cfg.write_chunk) : cfg.write_chunk;
    if (c < want) { want = c; fault_count["short_write"]++; }
  }
  if (of->append) of->off = (long)of->ino->data.size();
  if (!e && cfg.disk_free >= 0 && want > 0) {
    long grow = std::max(0l, of->off + want - (long)of->ino->data.size());
    if (grow > cfg.disk_free) {
      fault_count["disk_full"]++;
      long fit = want - (grow - cfg.disk_free);
      if (fit <= 0) e = ENOSPC; else want = fit;
    }
  }
  if (e) { r.ret = -1; r.err = e; end(r, f); errno = e; return -1; }
  std::string& d = of->ino->data;
  if ((long)d.size() < of->off + want) { if (cfg.disk_free >= 0) cfg.disk_free -= of->off + want - (long)d.size(); d.resize(of->off + want, 0); }
  memcpy(&d[0] + of->off, buf, want);
  of->ino->ver++;
  of->off += want; r.ret = want; end(r, f);
  return want;
}
long Sim::sys_lseek(int fd, long off, int whence) {
  OpenFile* of = file(fd);
  OpRec r; const Fault* f = begin(OP_SEEK, of ? of->path : "?", off, r);
  of = file(fd);
  if (!of) { r.ret = -1; r.err = EBADF; end(r, f); return -1; }
  long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? of->off : (long)of->ino->data.size();
  if (base + off < 0) { r.ret = -1; r.err = EINVAL; end(r, f); return -1; }
  of->off = base + off; r.ret = of->off; end(r, f);
  return r.ret;
}
int Sim::sys_close(int fd) {
  OpenFile* of = file(fd);
  OpRec r; const Fault* f = begin(OP_CLOSE, of ? of->path : "?", 0, r);
  of = file(fd);
  if (!of) { r.ret = -1; r.err = EBADF; end(r, f); return -1; }
  int e = 0;
  if (f && (e = err_of(f->kind))) {
    fault_count["close_" + f->kind]++;
    // delayed-allocation failure: the tail of the data never reaches the disk
    if (of->wr && f->arg > 0) { std::string& d = of->ino->data; d.resize(d.size() > (size_t)f->arg ? d.size() - f->arg : 0); of->ino->ver++; r.op = OP_OTHER; }
  }
  fds[fd - FD_BASE].reset();
  r.ret = e ? -1 : 0; r.err = e; end(r, f);
  if (e) errno = e;
  return (int)r.ret;
}
int Sim::sys_rename(const std::string& a, const std::string& b) {
  OpRec r; const Fault* f = begin(OP_RENAME, a + " -> " + b, 0, r);
  int e = 0;
  if (f && (e = err_of(f->kind))) fault_count["rename_" + f->kind]++;
  std::string pa = entry(*this, a), pb = entry(*this, b);
  if (!e) {
    bool la = links.count(pa) > 0;
    if (cfg.read_only_dir) e = EACCES;
    else if (!la && !dir.count(pa)) e = ENOENT;
    else if (!dirs.count(dirname_of(pb))) e = ENOENT;
    else if (pa != pb) {
      links.erase(pb);
      if (la) { links[pb] = links[pa]; links.erase(pa); dir.erase(pb); }
      else { if (dir.count(pb) && dir[pb] == dir[pa]) { /* same inode: no effect */ } else { dir[pb] = dir[pa]; dir.erase(pa); } }
    }
  }
  r.ret = e ? -1 : 0; r.err = e; end(r, f);
  if (e) errno = e;
  return (int)r.ret;
}
int Sim::sys_unlink(const std::string& a) {
  OpRec r; const Fault* f = begin(OP_UNLINK, a, 0, r);
  int e = 0;
  if (f && (e = err_of(f->kind))) fault_count["unlink_" + f->kind]++;
  std::string p = entry(*this, a);
  if (!e) {
    if (cfg.read_only_dir) e = EACCES;
    else if (links.count(p)) links.erase(p);
    else if (!dir.count(p)) e = ENOENT;
    else { if (cfg.disk_free >= 0 && dir[p].use_count() == 1) cfg.disk_free += (long)dir[p]->data.size(); dir.erase(p); }
  }
  r.ret = e ? -1 : 0; r.err = e; end(r, f);
  if (e) errno = e;
  return (int)r.ret;
}
int Sim::sys_exists(const std::string& a, long* size) {
  OpRec r; const Fault* f = begin(OP_STAT, a, 0, r);
  std::string p = resolve(a);
  int ret = -1;
  if (dirs.count(p)) { ret = 2; if (size) *size = 4096; }
  else { auto it = dir.find(p); if (it != dir.end()) { ret = 1; if (size) *size = (long)it->second->data.size(); } }
  r.ret = ret; r.err = ret < 0 ? ENOENT : 0; end(r, f);
  if (ret < 0) errno = ENOENT;
  return ret;
}
int Sim::sys_truncate(int fd, long n) {
  OpenFile* of = file(fd);
  OpRec r; const Fault* f = begin(OP_OTHER, of ? of->path : "?", n, r);
  of = file(fd);
  if (!of) { r.ret = -1; r.err = EBADF; end(r, f); return -1; }
  of->ino->data.resize(n, 0); of->ino->ver++;
  end(r, f); return 0;
}
int Sim::sys_dir(const std::string& a, bool make) {
  OpRec r; const Fault* f = begin(OP_OTHER, a, 0, r); std::string p = entry(*this, a); int e = 0;
  if (f && (e = err_of(f->kind))) fault_count["other_" + f->kind]++;
  if (!e && cfg.read_only_dir) e = EACCES;
  if (!e && make) { if (dirs.count(p) || dir.count(p) || links.count(p)) e = EEXIST; else if (!dirs.count(dirname_of(p))) e = ENOENT; else { dirs.insert(p); made.insert(p); } }
  else if (!e) {
    if (!dirs.count(p)) e = dir.count(p) ? ENOTDIR : ENOENT;
    else { std::string q = p + "/"; for (auto& k : dir) if (k.first.compare(0, q.size(), q) == 0) e = ENOTEMPTY; for (auto& k : links) if (k.first.compare(0, q.size(), q) == 0) e = ENOTEMPTY; for (auto& k : dirs) if (k.compare(0, q.size(), q) == 0) e = ENOTEMPTY; if (!e) { dirs.erase(p); made.erase(p); } }
  }
  r.ret = e ? -1 : 0; r.err = e; end(r, f); if (e) errno = e;
  return (int)r.ret;
}
long Sim::sys_pio(int fd, void* rd, const void* wr, size_t n, long at) {
  OpenFile* of = file(fd); if (!of) { errno = EBADF; return -1; }
  long keep = of->off; of->off = at; long k = rd ? sys_read(fd, rd, n) : sys_write(fd, wr, n); int e = errno;
  of = file(fd); if (of) of->off = keep; errno = e; return k;
}
int Sim::sys_link(const std::string& a, const std::string& b, bool symbolic) {
  OpRec r; const Fault* f = begin(OP_OTHER, a + " => " + b, 0, r);
  std::string pb = entry(*this, b); int e = 0;
  if (dir.count(pb) || links.count(pb)) e = EEXIST;
  else if (symbolic) links[pb] = a;
  else { auto it = dir.find(resolve(a)); if (it == dir.end()) e = ENOENT; else dir[pb] = it->second; }
  r.ret = e ? -1 : 0; r.err = e; end(r, f); if (e) errno = e;
  return (int)r.ret;
}

long long Sim::clock_us() {
  long long d = cfg.clock_tick_us;
  if (cfg.clock_mode == 1) {
    uint64_t k = clock_rng.below(10);
    d = k == 0 ? 3000000 + (long long)clock_rng.below(100000000) : k < 4 ? 0 : (long long)clock_rng.below(200000);
    if (k == 0) fault_count["clock_stall"]++;
  } else if (cfg.clock_mode == 2) d = 0;
  else if (cfg.clock_mode == 3) { d = 30000000; fault_count["clock_stall"]++; }
  cpu_us += d; sim_elapsed_us += d; wall_us += d;
  return cpu_us;
}
long long Sim::wall() {
  long long d = 1000;
  if (cfg.clock_mode == 1) {
    uint64_t k = clock_rng.below(8);
    if (k == 0) { d = -(long long)clock_rng.below(86400ull * 1000000); fault_count["clock_backward"]++; }
    else if (k == 1) { d = (long long)clock_rng.below(86400ull * 1000000); fault_count["clock_jump"]++; }
  }
  wall_us += d; sim_elapsed_us += d > 0 ? d : 0;
  if (wall_us < 0) wall_us = 1000000;
  return wall_us;
}
void Sim::allocated(size_t) {
  if (cur < 0) return;
  Proc* p = procs[cur].get();
  p->allocs++;
}
}
