// Scenario threads: several conversions as threads of one simulated process.
// Globals are shared; in the race flavour every memory access is a scheduling point.
#include "scen.h"
#include <algorithm>
using std::string; using std::vector;
using sim::Rng; using namespace model;

struct T { Names nm; Job j; string data, C; Outcome ref; bool interp; };
static vector<T> threads_of(const Plan& p, Report* R) {
  int n = (int)p.num("n", 2); vector<T> v(n);
  for (int k = 0; k < n; k++) {
    string pre = strf("t%d.", k); T& t = v[k]; int fi = p.num(pre + "file", k); PFile const& f = p.files[std::min<size_t>(fi, p.files.size() - 1)];
    string mode = p.get(pre + "mode", "sep"); t.nm = names(mode, "lib", fi + 1); if (mode == "sep") t.nm.tgt = t.nm.ptgt = strf("/sim/w/o%d.gcode", k);
    t.j = job_of(p, t.nm, pre); t.interp = t.j.entry == "interp"; t.data = f.data(); bool ok = true;
    if (R) { t.C = convert(p, t.j, t.data, &t.ref, &ok); if (!ok) R->fail(p.prop, "failed", "conversion of a healthy file fails"); }
  }
  return v;
}
static void setup(sim::Sim& s, const Plan& p, vector<T>& v, vector<Outcome>& o, void* shared) {
  for (size_t k = 0; k < v.size(); k++) { place(s, "sep", v[k].nm, v[k].data); v[k].j.shared_logger = shared; }
  for (size_t k = 0; k < v.size(); k++) start(s, v[k].j, &o[k]);
}
static sim::Config conf(const Plan& p) { sim::Config c = cfg_of(p); c.threads = true; c.read_chunk = std::max(0, c.read_chunk); return c; }
static Plan gen_threads(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); int n = r.chance(0.8) ? 2 : 3; p.set("n", (long)n); bool same = r.chance(0.2); int fw = r.chance(0.15) ? r.range(0, 4) : -1;      // all of them straighten for one firmware
  for (int k = 0; k < n; k++) {
    string pre = strf("t%d.", k); Settings s = gen::settings(r); bool it = (fw >= 0 || r.chance(0.3)) && !same; s.log_level = r.chance(0.3) ? r.range(0, 6) : 3; put_settings(p, s, pre + "s.");
    PFile f; f.path = strf("in%d", k);
    if (it) { f.lines = gen::arc_program(r, r.range(4, 25), true, false); p.set(pre + "entry", "interp"); 
      static const vector<string> V[] = {{"1.1.9.1"}, {"2.0.9.1", "2.0.9.2"}, {"1.0.4", "1.0.5"}, {"3.10.0", "3.11.0"}, {"2021-06-19"}}; int k = fw >= 0 ? fw : r.range(0, 4);
      p.set(pre + "args", strf("%d\x1f%s\x1f%d\x1f%.2f", k, r.chance(0.5) ? r.pick(V[k]).c_str() : "LATEST_RELEASE", r.pick(vector<int>{1, 4, 25}), r.pick(vector<double>{0.1, 0.3, 1})));  }
    else { gen::Profile pr; pr.lines = r.range(4, 50); f.lines = gen::program(r, s, pr); p.set(pre + "entry", "lib"); if (r.chance(0.15)) p.set(pre + "cancel_at", (long)r.range(0, 2)); }
    p.set(pre + "mode", !same && r.chance(0.4) ? "inplace" : "sep"); if (it) p.set(pre + "mode", "sep");
    if (same) p.set(pre + "file", 0L);
    gen::wild(r, f.lines, 0.4);
    if (!same || k == 0) p.files.push_back(f);
  }
  p.set("shared_logger", (long)r.chance(0.4)); gen_env(p, r, 0.3);
  long total = 0; vector<long> hot;
  { sim::pristine_globals(); sim::Sim d(conf(p)); d.keep_log = false; vector<T> v = threads_of(p, nullptr); vector<Outcome> o(n); void* lg = p.num("shared_logger") ? make_logger(3) : nullptr; sim::race_reset(n); setup(d, p, v, o, lg); d.run(); sim::race_stop(); total = d.step; hot = sim::race_hot(); free_logger(lg); }
  std::set<long> at; int ns = r.range(1, 30); for (int i = 0; i < ns; i++) at.insert(1 + (long)r.below(total + 1));
  // close to accesses of memory that several threads use
  if (!hot.empty()) { int m = r.range(1, 20); for (int i = 0; i < m; i++) at.insert(r.pick(hot) + r.range(0, 3)); }
  if (r.chance(0.2)) { long a = 1 + (long)r.below(total + 1); for (int i = 0; i < 60; i++) at.insert(a + i * r.range(1, 5)); }
  for (long a : at) p.sched.push_back({a, (int)r.below(n)});
  return p;
}
static void run_threads(const Plan& p, Report& R) {
  int n = (int)p.num("n", 2); vector<T> v = threads_of(p, &R); if (!R.viol.empty()) return;
  sim::pristine_globals(); sim::Sim s(conf(p)); vector<Outcome> o(n); void* lg = p.num("shared_logger") ? make_logger((int)p.num("t0.s.log_level", 3)) : nullptr; sim::race_reset(n); std::set<string> init;
  setup(s, p, v, o, lg); for (auto& f : s.list()) init.insert(f);
  s.run(); sim::race_stop(); for (int k = 0; k < n; k++) collect(s, k, v[k].j, o[k]);
  R.absorb(s); if (s.switches > 0) R.nontrivial = true; R.count["memory_accesses"] += (double)sim::race_accesses(); R.count["thread_switches"] += (double)s.switches; R.count["threads"] += n;
  if (lg) R.count["shared_logger"] += 1;
  { string es; for (auto& t : v) es += t.j.entry + strf("%zu", t.j.args.size()); uint64_t h = tag(es); for (auto& x : s.log) h = sim::mix(h, x.proc * 16 + x.op); R.states.push_back(h); R.states.push_back(sim::mix(s.trace_hash, s.switches)); }
  auto rep = sim::race_reports(); if (!rep.empty()) R.fail("P08", "race", "unsynchronised access by two threads: %s", rep[0].c_str());
  for (int k = 0; k < n; k++) {
    string tgt = s.get(v[k].nm.ptgt); T& t = v[k];
    if (o[k].crashed || o[k].threw) { R.fail("P08", "died", "thread %d dies: %s", k, o[k].what.c_str()); continue; }
    if (t.j.cancel_at >= 0) { if (o[k].cancelled) { R.count["cancelled"] += 1; if (t.nm.alias ? tgt != t.data : t.C.compare(0, tgt.size(), tgt) != 0) R.fail("P08", "result", "a stopped conversion in thread %d leaves something else than alone", k); continue; } }
    if (!o[k].ok) { R.fail("P08", "failed", "thread %d fails: %s", k, o[k].w.message.c_str()); continue; }
    if (tgt != t.C) { vector<string> a = split_lines(t.C), b = split_lines(tgt); size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; R.fail("P08", "result", "thread %d writes '%s' as line %zu, alone it writes '%s'", k, i < b.size() ? b[i].c_str() : "(end)", i + 1, i < a.size() ? a[i].c_str() : "(end)"); continue; }
    if (!t.interp) { const Prog &a = o[k].w.fin, &b = t.ref.w.fin; if (a.points != b.points || a.arcs != b.arcs || a.gcodes != b.gcodes || a.lines != b.lines || a.src_size != b.src_size || a.tgt_size != b.tgt_size) R.fail("P08", "result", "the statistics of thread %d differ from those of the conversion alone", k); }
    if (!t.nm.alias && s.get(t.nm.psrc) != t.data) R.fail("P08", "result", "the source of thread %d was changed", k);
  }
  for (auto& f : s.list()) { bool mine = init.count(f) > 0; for (auto& t : v) if (f == t.nm.ptgt) mine = true; if (!mine) R.fail("P08", "stray", "file %s is left behind", f.c_str()); }
  free_logger(lg);
}
extern const Kind threads_kinds[]; const Kind threads_kinds[] = {{"threads", gen_threads, run_threads}};
extern const int n_threads_kinds; const int n_threads_kinds = 1;
