// Campaign driver: seeds -> plans -> isolated runs; first violation is gated
// (same plan twice, same hash), minimised and written as a replay file.
#include "scen.h"
#include "plan.h"
#include "sut.h"
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_set>
using std::string; using std::vector;

const vector<Kind>& kinds() {
  static vector<Kind> v;
  if (v.empty()) {
#define ADD(a) { extern const Kind a##_kinds[]; extern const int n_##a##_kinds; for (int i = 0; i < n_##a##_kinds; i++) v.push_back(a##_kinds[i]); }
    ADD(weld) ADD(fault) ADD(cli) ADD(straight) ADD(bytes) ADD(threads) ADD(pos) ADD(parse) ADD(log) ADD(report)
    extern const Kind py_kinds[] __attribute__((weak)); extern const int n_py_kinds __attribute__((weak)); if (&n_py_kinds) for (int i = 0; i < n_py_kinds; i++) v.push_back(py_kinds[i]);      // only in the flavours with Python
  }
  return v;
}
static const Kind* kind(const string& n) { for (auto& k : kinds()) if (n == k.name) return &k; return nullptr; }
static const PropDef* prop(const string& n) { for (auto& k : props()) if (n == k.id) return &k; return nullptr; }
void py_boot() __attribute__((weak));
static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
static int cpu_limit = 20;

// ------------------------------------------------------------------ isolated run
static Plan make_plan(const PropDef& d, uint64_t seed, int tier) {
  sim::Rng r(seed ^ 0xABCDEFull); int tot = 0; for (auto& k : d.kinds) tot += k.second; int x = (int)r.below(tot); const char* kn = d.kinds[0].first;
  for (auto& k : d.kinds) { if (x < k.second) { kn = k.first; break; } x -= k.second; }
  const Kind* k = kind(kn); if (!k) { fprintf(stderr, "unknown kind %s\n", kn); exit(2); }
  sim::pristine_globals();
  name_files(seed); Plan p = k->gen(d.id, seed, tier); p.prop = d.id; p.kind = kn; p.seed = seed;
  return p;
}
static void exec_plan(const Plan& p, Report& R) {
  const Kind* k = kind(p.kind); if (!k) { R.fail(p.prop, "internal", "unknown kind %s", p.kind.c_str()); return; }
  sim::pristine_globals();
  k->run(p, R);
}
struct Res { bool died = false; Report rep; string plan; string death; };
static void child_limits() { struct rlimit l = {(rlim_t)cpu_limit, (rlim_t)cpu_limit + 2}; setrlimit(RLIMIT_CPU, &l); l.rlim_cur = l.rlim_max = 0; setrlimit(RLIMIT_CORE, &l); }
// runs f in a child; the child's output goes through a pipe
template <class F> static string in_child(F f, int* status) {
  int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
  pid_t c = fork();
  if (c == 0) {
    close(fd[0]); child_limits();
    int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); if (!getenv("AWSIM_STDERR")) dup2(nul, 2);
    f(fd[1]); close(fd[1]); _exit(0);
  }
  close(fd[1]); string out; char buf[65536]; double t0 = now();
  while (true) {
    struct pollfd pf = {fd[0], POLLIN, 0}; int k = poll(&pf, 1, 5000);
    if (k == 0) { if (now() - t0 > cpu_limit * 6) { kill(c, SIGKILL); break; } continue; }
    if (k < 0) { if (errno == EINTR) continue; break; }
    ssize_t n = read(fd[0], buf, sizeof buf); if (n > 0) out.append(buf, n); else break;
  }
  close(fd[0]); int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  *status = st; return out;
}
static void put(int fd, const string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } }
static string death_of(int st) {
  if (WIFSIGNALED(st)) { int g = WTERMSIG(st); if (g == SIGXCPU || g == SIGKILL) return "hang"; return strf("signal %d", g); }
  if (WIFEXITED(st) && WEXITSTATUS(st) != 0) return strf("status %d", WEXITSTATUS(st));
  return "";
}
static Res run_plan(const Plan& p) {
  Res r; int st;
  string out = in_child([&](int fd) { Report R; exec_plan(p, R); put(fd, R.text()); }, &st);
  r.death = death_of(st);
  if (!r.death.empty() || out.size() < 5 || out.substr(out.size() - 5) != "done\n") {
    r.died = true; if (r.death.empty()) r.death = "early exit";
    r.rep.fail(p.prop, r.death == "hang" ? "hang" : "crash", r.death == "hang" ? "the program does not terminate (%s)" : "the program is killed (%s)", r.death.c_str());
  } else r.rep.parse(out);
  return r;
}
static Res run_seed(const PropDef& d, uint64_t seed, int tier) {
  Res r; int st;
  string out = in_child([&](int fd) {
    Plan p = make_plan(d, seed, tier); put(fd, "P\n"); Report R; exec_plan(p, R);
    bool v = false; for (auto& x : R.viol) if (x.prop == d.id) v = true;
    if (v || (getenv("AWSIM_OTHERS") && !R.viol.empty())) put(fd, strf("plan %zu\n", p.text().size()) + p.text());
    put(fd, R.text()); }, &st);
  r.death = death_of(st); bool gen_ok = out.size() >= 2 && out.compare(0, 2, "P\n") == 0;
  if (!r.death.empty() || out.size() < 5 || out.substr(out.size() - 5) != "done\n") {
    r.died = true; if (r.death.empty()) r.death = "early exit";
    Plan p;
    if (gen_ok) { int s2; string t = in_child([&](int fd) { put(fd, make_plan(d, seed, tier).text()); }, &s2); p.parse(t); }
    else { p.prop = d.id; p.seed = seed; p.set("regen", (long)tier + 1); p.kind = "regen"; }
    r.plan = p.text();
    r.rep.fail(d.id, r.death == "hang" ? "hang" : "crash", r.death == "hang" ? "the program does not terminate (%s)" : "the program is killed (%s)", r.death.c_str());
    return r;
  }
  out.erase(0, 2);
  if (out.compare(0, 5, "plan ") == 0) { size_t e = out.find('\n'); size_t n = strtoul(out.c_str() + 5, nullptr, 10); r.plan = out.substr(e + 1, n); out.erase(0, e + 1 + n); }
  r.rep.parse(out);
  return r;
}
static Res run_text(const string& t, Plan* po = nullptr) {
  Plan p; p.parse(t); if (po) *po = p;
  name_files(p.seed);
  if (p.kind == "regen") { const PropDef* d = prop(p.prop); return run_seed(*d, p.seed, (int)p.num("regen") - 1); }
  return run_plan(p);
}
static const Viol* find(const Report& r, const string& pr, const string& cat = "") { for (auto& v : r.viol) if (v.prop == pr && (cat.empty() || v.cat == cat)) return &v; return nullptr; }

// ------------------------------------------------------------------ minimiser
struct Min {
  string pr, cat; double deadline; long tests = 0;
  bool ok(const Plan& p) { tests++; if (now() > deadline) return false; Res r = run_plan(p); return find(r.rep, pr, cat) != nullptr; }
  template <class V, class F> void dd(V full, F apply) {     // apply(subset) must keep failing
    size_t n = 2; V cur = full;
    while (cur.size() >= 1 && now() < deadline) {
      size_t chunk = std::max<size_t>(1, (cur.size() + n - 1) / n); bool red = false;
      for (size_t a = 0; a < cur.size() && now() < deadline; a += chunk) {
        V t(cur.begin(), cur.begin() + a); t.insert(t.end(), cur.begin() + std::min(cur.size(), a + chunk), cur.end());
        if (apply(t)) { cur = t; red = true; break; }
      }
      if (red) n = std::max<size_t>(2, n - 1); else if (chunk == 1) break; else n = std::min(cur.size(), n * 2);
    }
  }
  Plan run(Plan p) {
    if (p.kind == "regen") return p;
    dd(p.faults, [&](const vector<PFault>& f) { Plan q = p; q.faults = f; if (ok(q)) { p = q; return true; } return false; });
    for (size_t i = p.files.size(); i-- > 1;) { Plan q = p; if (q.files[i].path[0] != '/') continue; q.files.erase(q.files.begin() + i); if (ok(q)) p = q; }
    auto files = [&]() { for (size_t i = 0; i < p.files.size(); i++) {
      if (p.files[i].raw) dd(p.files[i].bytes, [&](const string& b) { Plan q = p; q.files[i].bytes = b; if (ok(q)) { p = q; return true; } return false; });
      else dd(p.files[i].lines, [&](const vector<string>& b) { Plan q = p; q.files[i].lines = b; if (ok(q)) { p = q; return true; } return false; });
    } };
    files();
    for (const char* k : {"read_chunk", "write_chunk", "chunk_seed", "eintr_every", "junk", "clock_mode", "clock_seed", "disk_free", "ro_dir"}) if (p.kv.count(k)) { Plan q = p; q.kv.erase(k); if (ok(q)) p = q; }
    model::Settings def;
    for (auto& kv : std::map<string, string>(p.kv)) { size_t d = kv.first.find("s."); if (d == string::npos) continue; Plan t; put_settings(t, def, kv.first.substr(0, d + 2)); auto it = t.kv.find(kv.first); if (it != t.kv.end() && it->second != kv.second) { Plan q = p; q.kv[kv.first] = it->second; if (ok(q)) p = q; } }
    dd(p.sched, [&](const vector<std::pair<long, int>>& f) { Plan q = p; q.sched = f; if (ok(q)) { p = q; return true; } return false; });
    files();
    return p;
  }
};

// ------------------------------------------------------------------ campaign
struct Shared { volatile long long stop_at; volatile long done; };
struct Agg {
  long runs = 0, nontrivial = 0, selftests = 0, selffail = 0, other = 0; std::map<string, double> count; std::map<string, long> faults; std::unordered_set<uint64_t> states, hashes; std::map<string, long> kinds, others;
  vector<std::pair<long, string>> viol;   // index, prop/cat/what\nplan
};
static string jesc(const string& s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c >= 127) o += strf("\\u%04x", c); else o += (char)c; } return o; }
static void save_agg(const Agg& a, const string& path) {
  FILE* f = fopen(path.c_str(), "wb"); if (!f) return;
  fprintf(f, "n %ld %ld %ld %ld %ld\n", a.runs, a.nontrivial, a.selftests, a.selffail, a.other);
  for (auto& c : a.count) fprintf(f, "c %.17g %s\n", c.second, c.first.c_str());
  for (auto& c : a.faults) fprintf(f, "f %ld %s\n", c.second, c.first.c_str());
  for (auto& c : a.kinds) fprintf(f, "k %ld %s\n", c.second, c.first.c_str());
  for (auto& c : a.others) fprintf(f, "o %ld %s\n", c.second, c.first.c_str());
  for (auto& v : a.viol) { fprintf(f, "v %ld %zu\n", v.first, v.second.size()); fwrite(v.second.data(), 1, v.second.size(), f); fputc('\n', f); }
  for (auto s : a.states) fprintf(f, "s %llx\n", (unsigned long long)s);
  for (auto s : a.hashes) fprintf(f, "h %llx\n", (unsigned long long)s);
  fclose(f);
}
static void load_agg(Agg& a, const string& path) {
  FILE* f = fopen(path.c_str(), "rb"); if (!f) return; char b[4096];
  while (fgets(b, sizeof b, f)) {
    string l(b); if (!l.empty() && l.back() == '\n') l.pop_back();
    if (l[0] == 'n') { long x[5] = {0}; sscanf(l.c_str() + 2, "%ld %ld %ld %ld %ld", x, x + 1, x + 2, x + 3, x + 4); a.runs += x[0]; a.nontrivial += x[1]; a.selftests += x[2]; a.selffail += x[3]; a.other += x[4]; }
    else if (strchr("cfko", l[0])) { size_t q = l.find(' ', 2); string k = l.substr(q + 1); double v = strtod(l.c_str() + 2, nullptr); if (l[0] == 'c') a.count[k] += v; else if (l[0] == 'f') a.faults[k] += (long)v; else if (l[0] == 'k') a.kinds[k] += (long)v; else a.others[k] += (long)v; }
    else if (l[0] == 's') a.states.insert(strtoull(l.c_str() + 2, nullptr, 16));
    else if (l[0] == 'h') a.hashes.insert(strtoull(l.c_str() + 2, nullptr, 16));
    else if (l[0] == 'v') { long i; size_t n; sscanf(l.c_str() + 2, "%ld %zu", &i, &n); string t(n, 0); if (fread(&t[0], 1, n, f) != n) break; fgetc(f); a.viol.push_back({i, t}); }
  }
  fclose(f);
}
static uint64_t seed_of(uint64_t base, const string& pr, long i) { return sim::mix(sim::mix(base, sim::fnv(pr)), (uint64_t)i + 1) >> 1; }

static int campaign(const string& pid, uint64_t base, long runs, double cap, int jobs, const string& out, const string& rdir, int tier, long offset) {
  const PropDef* d = prop(pid); if (!d) { fprintf(stderr, "unknown property %s\n", pid.c_str()); return 2; }
  double t0 = now(); Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->stop_at = 1ll << 60; sh->done = 0;
  string tmp = out + ".w"; vector<pid_t> pids;
  for (int w = 0; w < jobs; w++) {
    pid_t c = fork();
    if (c == 0) {
      Agg a;
      for (long i = w; i < runs; i += jobs) {
        if (now() - t0 > cap || i > sh->stop_at) break;
        uint64_t sd = seed_of(base, pid, i + offset); Res r = run_seed(*d, sd, tier); a.runs++;
        a.nontrivial += r.rep.nontrivial; for (auto& x : r.rep.count) a.count[x.first] += x.second; for (auto& x : r.rep.faults) a.faults[x.first] += x.second;
        if (a.states.size() < 400000) for (auto x : r.rep.states) a.states.insert(x); if (r.rep.nontrivial && a.hashes.size() < 400000) a.hashes.insert(r.rep.hash);
        for (auto& v : r.rep.viol) if (v.prop != pid) { a.other++; a.others[v.prop + "/" + v.cat]++; if (const char* od = getenv("AWSIM_OTHERS")) { string fn = string(od) + "/" + v.prop + "-" + std::to_string(sd) + ".plan"; if (FILE* fo = fopen(fn.c_str(), "w")) { fprintf(fo, "# %s %s\n%s", v.cat.c_str(), v.what.c_str(), r.plan.c_str()); fclose(fo); } } }
        if (i % 97 == 5 && !r.died) { a.selftests++; Res q = run_seed(*d, sd, tier); if (q.rep.hash != r.rep.hash) { a.selffail++; if (a.others["seed " + std::to_string(sd)]++) {} } }
        if (const Viol* v = find(r.rep, pid)) {
          a.viol.push_back({i, v->cat + "\t" + v->what + "\n" + r.plan});
          if (i < sh->stop_at) sh->stop_at = i;
        }
      }
      save_agg(a, tmp + std::to_string(w)); _exit(0);
    }
    pids.push_back(c);
  }
  for (pid_t c : pids) { int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} }
  Agg a; for (int w = 0; w < jobs; w++) { string f = tmp + std::to_string(w); load_agg(a, f); unlink(f.c_str()); }
  double wall = now() - t0; std::sort(a.viol.begin(), a.viol.end());
  string vj, replay; int unrep = 0;
  for (auto& v : a.viol) {
    size_t e = v.second.find('\n'), tb = v.second.find('\t'); string cat = v.second.substr(0, tb), what = v.second.substr(tb + 1, e - tb - 1), plan = v.second.substr(e + 1);
    // gate: the serialised plan must fail again, twice, with the same hash
    Plan p; Res r1 = run_text(plan, &p), r2 = run_text(plan);
    const Viol* v1 = find(r1.rep, pid, cat); const Viol* v2 = find(r2.rep, pid, cat);
    if (!v1 || !v2 || r1.rep.hash != r2.rep.hash) {
      unrep++; fprintf(stderr, "not reproducible: run %ld %s: %s\n", v.first, cat.c_str(), what.c_str());
      mkdir(rdir.c_str(), 0755); FILE* f = fopen((rdir + "/unreproduced-" + pid + ".plan").c_str(), "wb"); if (f) { fwrite(plan.data(), 1, plan.size(), f); fclose(f); }
      if (!v1 && !v2) continue;
    }
    Min m; m.pr = pid; m.cat = cat; m.deadline = now() + (tier ? 60 : 35); int keep = cpu_limit; if (cat == "hang") cpu_limit = 5;
    Plan q = m.run(p); cpu_limit = keep;
    Res rf = run_text(q.text()); const Viol* vf = find(rf.rep, pid, cat); if (!vf) { q = p; rf = r1; vf = v1 ? v1 : v2; }
    if (vf) what = vf->what;
    mkdir(rdir.c_str(), 0755); replay = rdir + "/" + pid + "-" + strf("%016llx", (unsigned long long)p.seed) + ".plan";
    FILE* f = fopen(replay.c_str(), "wb"); string t = "# " + pid + " " + cat + ": " + what + "\n" + q.text(); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); }
    vj = strf("{\"category\": \"%s\", \"seed\": %llu, \"run\": %ld, \"minimiser_runs\": %ld, \"faults\": %zu, \"what\": \"%s\", \"replay\": \"%s\"}", cat.c_str(), (unsigned long long)p.seed, v.first, m.tests, q.faults.size(), jesc(what).c_str(), jesc(replay).c_str());
    break;
  }
  string s = strf("{\"property\": \"%s\", \"runs\": %ld, \"requested\": %ld, \"nontrivial\": %ld, \"wall_s\": %.2f, \"selftests\": %ld, \"selftest_failures\": %ld, \"states\": %zu, \"distinct_executions\": %zu, \"other_property_reports\": %ld, \"unreproducible\": %d,\n", pid.c_str(), a.runs, runs, a.nontrivial, wall, a.selftests, a.selffail, a.states.size(), a.hashes.size(), a.other, unrep);
  auto dump = [&](const char* n, auto& m) { s += strf("\"%s\": {", n); bool f = true; for (auto& x : m) { s += strf("%s\"%s\": %.10g", f ? "" : ", ", jesc(x.first).c_str(), (double)x.second); f = false; } s += "},\n"; };
  dump("counts", a.count); dump("faults", a.faults); dump("others", a.others);
  s += "\"samples\": [";
  for (int i = 0; i < 4; i++) { int st; string t = in_child([&](int fd) { Plan p = make_plan(*d, seed_of(base, pid, i + offset), tier); string x = "kind " + p.kind + strf(" seed %llu:", (unsigned long long)p.seed); for (auto& k : p.kv) if (k.first.find("s.") == string::npos) x += " " + k.first + "=" + k.second; for (auto& f : p.faults) x += strf(" fault[run %d op %d %s %ld]", f.step, f.f.op, f.f.kind.c_str(), f.f.arg); if (!p.sched.empty()) x += strf(" schedule of %zu switches", p.sched.size()); for (auto& f : p.files) x += strf(" file %s (%zu bytes)", f.path.c_str(), f.data().size()); put(fd, x); }, &st);
    s += (i ? ", \"" : "\"") + jesc(t) + "\""; }
  s += "],\n\"violation\": " + (vj.empty() ? string("null") : vj) + "}\n";
  FILE* f = fopen(out.c_str(), "wb"); if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); }
  return vj.empty() ? 0 : 1;
}

int main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("AWSIM_NOASLR")) { setenv("AWSIM_NOASLR", "1", 1); if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  signal(SIGPIPE, SIG_IGN);
  sut_init(); if (py_boot) py_boot(); sim::pristine_globals();
  string cmd = argc > 1 ? argv[1] : ""; std::map<string, string> o; vector<string> pos;
  for (int i = 2; i < argc; i++) { string a = argv[i]; if (a.rfind("--", 0) == 0 && i + 1 < argc) { o[a.substr(2)] = argv[++i]; } else pos.push_back(a); }
  auto num = [&](const char* k, double dflt) { return o.count(k) ? atof(o[k].c_str()) : dflt; };
  if (o.count("cpu")) cpu_limit = (int)num("cpu", 20);
  int tier = o["tier"] == "thorough";
  if (cmd == "list") { for (auto& d : props()) { printf("%s %d %d %s", d.id, d.quick, d.thorough, d.flavour); for (auto& k : d.kinds) printf(" %s:%d", k.first, k.second); printf("\n"); } return 0; }
  if (cmd == "campaign" && pos.size() == 1) { const PropDef* d = prop(pos[0]); if (!d) return 2; return campaign(pos[0], (uint64_t)num("seed", 1), (long)num("runs", tier ? d->thorough : d->quick), num("cap", 60), (int)num("jobs", 8), o.count("out") ? o["out"] : "/dev/stdout", o.count("replays") ? o["replays"] : "/tmp", tier, (long)num("offset", 0)); }
  if (cmd == "replay" && pos.size() == 1) {
    FILE* f = fopen(pos[0].c_str(), "rb"); if (!f) { perror(pos[0].c_str()); return 2; } string t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
    Plan p; Res r = run_text(t, &p); printf("hash %llu\n", (unsigned long long)r.rep.hash);
    for (auto& v : r.rep.viol) printf("%s %s [%s] %s\n", v.prop == p.prop ? "VIOLATION" : "also", v.prop.c_str(), v.cat.c_str(), v.what.c_str());
    return find(r.rep, p.prop) ? 1 : 0;
  }
  if (cmd == "gen" && pos.size() == 2) { const PropDef* d = prop(pos[0]); if (!d) return 2; fputs(make_plan(*d, strtoull(pos[1].c_str(), nullptr, 10), tier).text().c_str(), stdout); return 0; }
  if (cmd == "one" && pos.size() == 2) { const PropDef* d = prop(pos[0]); if (!d) return 2; Res r = run_seed(*d, strtoull(pos[1].c_str(), nullptr, 10), tier); fputs(r.rep.text().c_str(), stdout); return 0; }
  fprintf(stderr, "usage: awsim list | campaign PROP [--seed S --runs N --cap SEC --jobs J --out F --replays DIR --tier quick|thorough] | replay FILE | gen PROP SEED | one PROP SEED\n");
  return 2;
}
