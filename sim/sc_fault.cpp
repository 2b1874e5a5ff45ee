// Scenarios: fault (disk errors, short and torn writes, full or read-only disk,
// process crashes at arbitrary operations, restarts) and procs (several
// processes sharing a directory under a seeded schedule).
#include "scen.h"
#include <math.h>
#include <string.h>
#include <algorithm>
using std::string; using std::vector;
using sim::Rng; using namespace model;

static const char* BYST[] = {"/sim/w/notes.txt", "/sim/w/in.gcode.tmp", "/sim/w/in.gcode.bak", "/sim/w/in.tmp", "/sim/w/temp", "/sim/w/in.gcode~", "/sim/w/out.gcode.tmp", "/sim/w/tmp", "/sim/w/in", "/sim/w/.gcode"};
static string dirname_(const string& p) { return p.substr(0, p.rfind('/')); }
bool hard_fault(const string& k) { return k.rfind("open_", 0) == 0 || k.rfind("read_", 0) == 0 || k.rfind("write_", 0) == 0 || k.rfind("close_", 0) == 0 || k.rfind("rename_", 0) == 0 || k.rfind("unlink_", 0) == 0 || k == "disk_full" || k == "alloc_failure"; }

static void place_bystanders(sim::Sim& s, const Plan& p) { for (auto& f : p.files) if (f.path[0] == '/') s.put(f.path, f.data()); }

// ---------------------------------------------------------------- fault
sim::Fault pick_fault(Rng& r, const vector<sim::OpRec>& log, int proc, int crashiness /*0 never,1 sometimes,2 always*/) {
  vector<const sim::OpRec*> l; for (auto& o : log) if (o.proc == proc) l.push_back(&o);
  sim::Fault f; f.proc = proc; if (l.empty()) { f.kind = "crash_before"; f.op = 1; return f; }
  bool crash = crashiness == 2 || (crashiness == 1 && r.chance(0.4));
  // choose a class of operation first so that the rare ones are hit as often as the frequent ones
  std::map<int, vector<const sim::OpRec*>> by; for (auto* o : l) by[o->op].push_back(o);
  vector<int> ks; for (auto& k : by) ks.push_back(k.first);
  const sim::OpRec* o;
  if (r.chance(0.7)) { auto& v = by[r.pick(ks)]; o = r.chance(0.3) ? v.back() : r.chance(0.2) ? v.front() : v[r.below(v.size())]; }
  else { int tail = std::min((int)l.size(), 12); o = r.chance(0.5) ? l[l.size() - 1 - r.below(tail)] : l[r.below(l.size())]; }
  f.op = o->n;
  if (crash) { static const vector<string> c = {"crash_before", "crash_after", "crash_mid"}; f.kind = o->op == sim::OP_WRITE ? r.pick(c) : r.chance(0.5) ? "crash_before" : "crash_after"; f.arg = (long)r.below(std::max(1l, o->len)); return f; }
  switch (o->op) {
    case sim::OP_OPEN_R: case sim::OP_OPEN_W: { static const vector<string> e = {"eacces", "emfile", "enospc", "eio", "erofs"}; f.kind = r.pick(e); break; }
    case sim::OP_READ: { static const vector<string> e = {"eio", "eio", "rfail", "eintr", "short"}; f.kind = r.pick(e); f.arg = 1 + (long)r.below(50); break; }
    case sim::OP_WRITE: { static const vector<string> e = {"eio", "enospc", "wfail", "wfail", "eintr", "short"}; f.kind = r.pick(e); f.arg = 1 + (long)r.below(50); break; }
    case sim::OP_CLOSE: { static const vector<string> e = {"eio", "enospc"}; f.kind = r.pick(e); f.arg = r.chance(0.6) ? 1 + (long)r.below(400) : 0; break; }
    case sim::OP_RENAME: { static const vector<string> e = {"eacces", "exdev", "eio", "enospc", "erofs", "ebusy"}; f.kind = r.pick(e); break; }
    case sim::OP_UNLINK: { static const vector<string> e = {"eacces", "eio", "erofs"}; f.kind = r.pick(e); break; }
    default: f.kind = "eintr";
  }
  return f;
}
static Plan gen_fault_as(const string& prop, uint64_t seed, bool straight) {
  Plan p; Rng r(seed); Settings s = gen::settings(r); put_settings(p, s);
  PFile f; f.path = "in";
  if (straight) { f.lines = gen::arc_program(r, r.range(8, 300), true, false); p.set("entry", "straight"); static const vector<string> fw = {"MARLIN_1", "MARLIN_2", "PRUSA", "REPETIER", "SMOOTHIEWARE"}; p.set("args", "-f=" + r.pick(fw) + "\x1f-l=" + (r.chance(0.7) ? "INFO" : "DEBUG")); }
  else { gen::Profile pr; pr.lines = r.chance(0.1) ? r.range(900, 1500) : r.range(6, 300); f.lines = gen::program(r, s, pr); p.set("entry", prop == "P11" ? "cli" : r.chance(0.5) ? "cli" : "lib"); }
  gen::wild(r, f.lines); f.nl = !r.chance(0.1); p.files.push_back(f);
  string mode = MODES[r.below(N_MODES)];
  if (prop == "P01" && r.chance(0.7)) mode = "inplace"; else if (prop == "P01") { do mode = MODES[r.below(N_MODES)]; while (mode == "sep" || mode == "sepdir" || mode == "existing"); }
  if (prop == "P04" && r.chance(0.6)) mode = MODES[r.below(3)];
  if (prop == "P21") mode = MODES[r.below(3)];
  if ((prop == "P06" || prop == "P05" || prop == "P02") && r.chance(0.4)) mode = "inplace";
  p.set("mode", mode);
  int nb = r.range(0, 3); for (int i = 0; i < nb; i++) { PFile b; b.path = BYST[r.below(10)]; bool dup = false; for (auto& q : p.files) dup |= q.path == b.path; if (dup) continue; b.lines = {strf("bystander %d", (int)r.below(1000)), "G1 X1"}; p.files.push_back(b); }
  gen_env(p, r, 0.7);
  if (r.chance(0.3) && p.num("clock_mode") == 0) p.set("clock_mode", 3L);
  // dry run to learn the operations of this execution
  Names n = names(mode, p.get("entry")); Job j = job_of(p, n);
  sim::Sim d(cfg_of(p)); place(d, mode, n, f.data()); place_bystanders(d, p); Outcome o = run_one(d, j);
  int crashiness = prop == "P01" || prop == "P06" ? 2 : prop == "P02" || prop == "P11" ? 0 : 1;
  if (prop == "P06") p.set("restarts", (long)r.range(1, 3)); else if (r.chance(0.4)) p.set("restarts", 1L); else p.set("restarts", 0L);
  int nf = r.chance(0.6) ? 1 : r.range(1, 3);
  long C = (long)d.get(d.resolve(n.ptgt)).size();
  if (prop != "P01" && prop != "P06" && r.chance(0.22)) { p.set("disk_free", r.chance(0.2) ? 0 : (long)r.below(C + 50)); nf = r.range(0, 1); }
  else if (prop != "P01" && prop != "P06" && prop != "P21" && r.chance(0.06)) { p.set("ro_dir", 1L); nf = 0; }
  for (int i = 0; i < nf; i++) p.faults.push_back({0, pick_fault(r, d.log, 0, i == 0 ? crashiness : std::min(crashiness, 1))});
  if (p.num("restarts") > 1 || (p.num("restarts") == 1 && r.chance(0.5))) for (int k = 1; k < p.num("restarts") + (prop == "P06" ? 0 : 0); k++) p.faults.push_back({k, pick_fault(r, d.log, 0, 1)});
  return p;
}
static Plan gen_fault(const string& prop, uint64_t seed, int) { return gen_fault_as(prop, seed, prop == "P10"); }
static Plan gen_fault_straight(const string& prop, uint64_t seed, int) { return gen_fault_as(prop, seed, true); }
static Plan gen_alloc(const string& prop, uint64_t seed, int) {
  Plan p = gen_fault_as(prop == "P10" ? "P10" : "P02", seed, prop == "P10"); Rng r(seed ^ 0x5151); p.faults.clear(); p.kv.erase("disk_free"); p.kv.erase("ro_dir"); p.kv.erase("read_chunk"); p.kv.erase("write_chunk");
  Names n = names(p.get("mode"), p.get("entry")); Job j = job_of(p, n); sim::Sim d(cfg_of(p)); place(d, p.get("mode"), n, p.files[0].data()); run_one(d, j);
  long a = d.procs[0]->allocs; p.set("alloc_fail", r.chance(0.3) ? 1 + (long)r.below(std::min(a, 300l)) : 1 + (long)r.below(a)); p.set("restarts", 1L); (void)prop;
  return p;
}

static void run_fault(const Plan& p, Report& R) {
  string mode = p.get("mode", "sep"), entry = p.get("entry", "lib"); bool st = entry == "straight"; string me = st ? "P10" : "";
  auto pid = [&](const char* q) { return st ? string("P10") : string(q); };
  Names n = names(mode, entry); Job j = job_of(p, n);
  string O = p.files[0].data();
  std::map<string, sim::InodeP> disk; std::map<string, string> links; std::set<string> dirs, made; bool first = true;
  std::set<string> initial; int crashes = 0; int restarts = (int)p.num("restarts"); std::set<string> left;
  for (int step = 0; step <= restarts; step++) {
    sim::Config c = cfg_of(p, step); if (step > 0 && step == restarts) c.faults.clear();
    sim::Sim s(c);
    if (first) { place(s, mode, n, O); place_bystanders(s, p); first = false; for (auto& f : s.list()) initial.insert(f); }
    else { s.dir = disk; s.links = links; s.dirs = dirs; s.made = made; }
    string base = s.get(s.resolve(n.src)); string old = s.exists(s.resolve(n.ptgt)) ? s.get(s.resolve(n.ptgt)) : "";
    bool refok = false; string C;
    { sim::Sim* keep = sim::g; Plan q = p; C = convert(q, j, base, nullptr, &refok); sim::g = keep; }
    if (!refok) { R.fail(p.prop, "failed", "conversion of a healthy file fails"); return; }
    bool torn = false;
    s.after_op = [&](const sim::OpRec& r) {
      if (torn) return; string sp = s.resolve(n.src);
      bool there = s.exists(sp); string cur = s.get(sp);
      string when = strf("after operation %d (%s %s)", r.n, sim::op_names[r.op], r.path.c_str());
      if (!there) { torn = true; R.fail(pid(n.alias ? "P01" : "P04"), "torn", "%s the source file does not exist", when.c_str()); }
      else if (n.alias ? cur != base && cur != C : cur != base) { torn = true; R.fail(pid(n.alias ? "P01" : "P04"), "torn", "%s the source holds %zu bytes, %s", when.c_str(), cur.size(), n.alias ? "neither the original nor the complete conversion" : "which are not the original ones"); }
      for (size_t k = 1; k < p.files.size(); k++) if (p.files[k].path[0] == '/' && s.resolve(n.ptgt) != p.files[k].path && (!s.exists(p.files[k].path) || s.get(p.files[k].path) != p.files[k].data())) { torn = true; R.fail(pid("P05"), "other", "%s the unrelated file %s is changed or gone", when.c_str(), p.files[k].path.c_str()); }
    };
    Outcome o = run_one(s, j); R.absorb(s); s.after_op = nullptr;
    bool anyhard = c.read_only_dir, unl = false, roundtripped = false; for (auto& f : s.fault_count) { if (f.second && hard_fault(f.first)) anyhard = true; if (f.first.rfind("unlink_", 0) == 0) unl = true; } (void)roundtripped;
    if (c.read_only_dir) R.faults["read_only_directory"]++;
    if (anyhard || o.crashed || o.threw) R.nontrivial = true;
    string src = s.get(s.resolve(n.src)), tgt = s.get(s.resolve(n.ptgt)); bool tgt_there = s.exists(s.resolve(n.ptgt));
    bool died = o.crashed || o.threw;
    string fs; for (auto& f : s.fault_count) if (f.second) fs += " " + f.first; if (c.read_only_dir) fs += " read_only_directory";
    string how = strf("(%s, mode %s, step %d, faults:%s)", entry.c_str(), mode.c_str(), step, fs.c_str());
    if (o.threw && s.fault_count["alloc_failure"] == 0) R.fail(pid("P22"), "threw", "the program dies with an exception '%s' %s", o.what.c_str(), how.c_str());
    if (!died) {
      if (o.ok && (!tgt_there || tgt != C)) R.fail(pid("P02"), "false-success", "success is reported but the target %s %s", tgt_there ? strf("holds %zu bytes instead of the %zu of the complete conversion", tgt.size(), C.size()).c_str() : "does not exist", how.c_str());
      if (o.ok && entry == "cli" && tgt != C) R.fail("P11", "exit", "exit status 0 although the target is not the complete conversion %s", how.c_str());
      if (!o.ok && entry == "cli" && !anyhard) R.fail("P11", "exit", "exit status %d although nothing failed %s", o.code, how.c_str());
      if (!o.ok && n.alias && src != base) R.fail(pid("P02"), "source-lost", "failure is reported but the source was replaced %s", how.c_str());
      if (!n.alias && src != base) R.fail(pid("P04"), "source", "the source was changed %s", how.c_str());
      if (!o.ok && !anyhard) R.fail(pid("P02"), "false-failure", "failure is reported although nothing failed: %s %s", o.w.message.c_str(), how.c_str());
      if (!o.ok && entry == "lib" && o.w.message.empty()) R.fail("P02", "message", "failure is reported without a message %s", how.c_str());
      if (o.ok && !anyhard && fs.empty() == false && tgt != C) R.fail("P09", "env", "output differs under short or interrupted I/O %s", how.c_str());
    } else { crashes++; R.count["interrupted"] += 1; }
    // partial output
    bool sticky = s.fault_count["disk_full"] > 0; int hardk = 0; for (auto& f : s.fault_count) if (f.second && hard_fault(f.first)) hardk++;
    if (!n.alias && tgt_there && tgt != old && ((o.crashed && hardk == 0) || (sticky && hardk == 1))) {
      if (C.compare(0, tgt.size(), tgt) != 0) R.fail(pid("P21"), "prefix", "the interrupted output of %zu bytes is not a prefix of the complete conversion %s", tgt.size(), how.c_str());
      R.count["partial_outputs"] += 1;
    }
    // files left behind
    for (auto& f : s.list()) if (!initial.count(f) && f != s.resolve(n.ptgt) && f != n.ptgt && !left.count(f)) {
      bool ours = dirname_(f) == dirname_(n.ptgt);
      if (!ours) R.fail(pid("P05"), "stray", "file %s was created outside the target's directory %s", f.c_str(), how.c_str());
      if (!died && !unl) R.fail(pid("P05"), "stray", "file %s was left behind %s", f.c_str(), how.c_str());
      left.insert(f);
    }
    crashes += unl;
    if ((int)left.size() > crashes) R.fail(pid("P06"), "stray", "%zu temporary files after %d crashes %s", left.size(), crashes, how.c_str());
    for (auto& f : initial) if (!s.exists(f)) R.fail(pid("P05"), "lost", "file %s has disappeared %s", f.c_str(), how.c_str());
    for (size_t k = 1; k < p.files.size(); k++) if (p.files[k].path[0] == '/' && p.files[k].path != n.ptgt && s.get(p.files[k].path) != p.files[k].data()) R.fail(pid("P05"), "other", "the unrelated file %s was changed %s", p.files[k].path.c_str(), how.c_str());
    if (step > 0 && step == restarts && !died) {
      R.count["recoveries"] += 1;
      if (!o.ok || tgt != C) R.fail(pid("P06"), "rerun", "after %d interrupted runs a plain run ends with %s and a target of %zu bytes, a clean one has %zu (%s)", crashes, o.where().c_str(), tgt.size(), C.size(), mode.c_str());
    }
    R.states.push_back(sim::mix(tag(entry + mode + fs + o.where()), (uint64_t)step * 8 + left.size()));
    if (died && !s.log.empty()) R.states.push_back(sim::mix(tag(entry + mode), (uint64_t)s.log.back().op * 4096 + std::min((size_t)4000, s.log.size())));
    disk = s.dir; links = s.links; dirs = s.dirs; made = s.made;
  }
}

// ---------------------------------------------------------------- procs
static Plan gen_procs(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); int n = r.range(2, 3);
  p.set("n", (long)n); bool same = r.chance(0.25); p.set("same", (long)same);
  for (int k = 0; k < n; k++) {
    string pre = strf("p%d.", k); Settings s = gen::settings(r); put_settings(p, s, pre + "s.");
    PFile f; f.path = strf("in%d", k);
    bool st = r.chance(0.2);
    if (st) { f.lines = gen::arc_program(r, r.range(8, 60), true, false); p.set(pre + "entry", "straight"); p.set(pre + "args", "-f=MARLIN_2\x1f-l=ERROR"); }
    else { gen::Profile pr; pr.lines = r.range(5, 80); f.lines = gen::program(r, s, pr); p.set(pre + "entry", r.chance(0.5) ? "cli" : "lib"); }
    gen::wild(r, f.lines); if (!same || k == 0) p.files.push_back(f);
    p.set(pre + "mode", r.chance(0.7) ? "inplace" : MODES[r.below(3)]);
    if (same) { p.set(pre + "mode", k == 0 || r.chance(0.6) ? "inplace" : "sep"); if (k) { p.set(pre + "entry", p.get("p0.entry")); p.set(pre + "args", p.get("p0.args")); put_settings(p, get_settings(p, "p0.s."), pre + "s."); } }
  }
  gen_env(p, r, 0.6);
  // schedule: switches at random steps, biased to bursts around the end (temporary file, rename)
  long total = 0; { Plan q = p; sim::Sim d(cfg_of(q)); vector<Outcome> o(n); for (int k = 0; k < n; k++) { string pre = strf("p%d.", k); string m = q.get(pre + "mode"); Names nm = names(m, q.get(pre + "entry"), same ? 1 : k + 1); if (same) { nm.ptgt = m == "sep" ? strf("/sim/w/o%d.gcode", k) : nm.ptgt; if (m == "sep") nm.tgt = nm.ptgt; }
      if (!same || k == 0) place(d, m == "sep" && same ? "sep" : m, nm, q.files[same ? 0 : k].data()); Job j = job_of(q, nm, pre); start(d, j, &o[k]); }
    d.run(); total = d.step; }
  int ns = r.range(2, 40); std::set<long> at; for (int i = 0; i < ns; i++) at.insert(1 + (long)r.below(total + 1));
  if (r.chance(0.3)) for (long a = 1 + (long)r.below(total), i = 0; i < 30; i++) at.insert(a + i);
  for (long a : at) p.sched.push_back({a, (int)r.below(n)});
  if (r.chance(0.35)) { sim::Fault f; f.proc = (int)r.below(n); f.op = 1 + (int)r.below(std::max(2l, total / n)); static const vector<string> k = {"crash_before", "crash_after", "eio", "enospc"}; f.kind = r.pick(k); p.faults.push_back({0, f}); }
  return p;
}
static void run_procs(const Plan& p, Report& R) {
  int n = (int)p.num("n", 2); bool same = p.num("same") != 0;
  struct P { Names nm; Job j; string O, C, C2; string mode; }; vector<P> v(n);
  for (int k = 0; k < n; k++) {
    string pre = strf("p%d.", k); P& q = v[k]; q.mode = p.get(pre + "mode", "sep"); q.nm = names(q.mode, p.get(pre + "entry", "lib"), same ? 1 : k + 1);
    if (same && q.mode == "sep") { q.nm.ptgt = q.nm.tgt = strf("/sim/w/o%d.gcode", k); }
    q.j = job_of(p, q.nm, pre); q.O = p.files[same ? 0 : std::min((size_t)k, p.files.size() - 1)].data();
  }
  for (auto& q : v) { bool ok; q.C = convert(p, q.j, q.O, nullptr, &ok); if (!ok) { R.fail(p.prop, "failed", "conversion of a healthy file fails"); return; } q.C2 = same ? convert(p, q.j, q.C) : q.C; }
  vector<string> chain; if (same) { chain.push_back(v[0].O); for (int k = 0; k < n; k++) chain.push_back(convert(p, v[0].j, chain.back())); }
  sim::Sim s(cfg_of(p)); vector<Outcome> o(n); std::set<string> init;
  for (int k = 0; k < n; k++) if (!same || k == 0) place(s, v[k].mode, v[k].nm, v[k].O);
  for (auto& f : s.list()) init.insert(f);
  bool bad = false;
  s.after_op = [&](const sim::OpRec& r) {
    if (bad) return;
    for (int k = 0; k < n; k++) {
      string cur = s.get(s.resolve(v[k].nm.src));
      bool ok = same ? std::find(chain.begin(), chain.end(), cur) != chain.end() : cur == v[k].O || (v[k].nm.alias && cur == v[k].C);
      if (!ok) { bad = true; R.fail("P07", "torn", "after %s of %s by process %d the file of process %d holds %zu bytes that are neither the original nor a complete conversion", sim::op_names[r.op], r.path.c_str(), r.proc, k, cur.size()); }
    }
  };
  vector<int> id(n); for (int k = 0; k < n; k++) id[k] = start(s, v[k].j, &o[k]);
  s.run(); s.after_op = nullptr; for (int k = 0; k < n; k++) collect(s, id[k], v[k].j, o[k]);
  R.absorb(s); if (s.switches > 1) R.nontrivial = true;
  std::set<int> hit; for (auto& f : p.faults) hit.insert(f.f.proc);
  int crashes = 0; for (auto& x : o) crashes += x.crashed || x.threw;
  for (int k = 0; k < n; k++) {
    string tgt = s.get(s.resolve(v[k].nm.ptgt));
    auto good = [&](const string& t) { return same ? std::find(chain.begin() + 1, chain.end(), t) != chain.end() : t == v[k].C; };
    if (!hit.count(k)) {
      if (!o[k].ok) R.fail("P07", "failed", "process %d (%s, %s) fails because another process runs: %s%s", k, v[k].j.entry.c_str(), v[k].mode.c_str(), o[k].what.c_str(), o[k].w.message.c_str());
      else if (!good(tgt)) R.fail("P07", "mixed", "process %d (%s, %s) produces %zu bytes that differ from its own conversion (%zu bytes) because another process runs", k, v[k].j.entry.c_str(), v[k].mode.c_str(), tgt.size(), v[k].C.size());
    } else if (o[k].ok && !good(tgt)) R.fail("P07", "mixed", "process %d reports success but its target is not its conversion", k);
  }
  int extra = 0; for (auto& f : s.list()) { bool mine = init.count(f) > 0; for (auto& q : v) if (f == q.nm.ptgt) mine = true; if (!mine) extra++; }
  if (extra > crashes && p.faults.empty()) R.fail("P07", "stray", "%d files are left behind by %d processes", extra, n);
  uint64_t il = 7; int last = -1; for (auto& l : s.log) { if (l.proc != last) il = sim::mix(il, l.proc * 1000 + l.n); last = l.proc; } R.states.push_back(il);
}
extern const Kind fault_kinds[]; const Kind fault_kinds[] = {{"fault", gen_fault, run_fault}, {"fault_straight", gen_fault_straight, run_fault}, {"alloc", gen_alloc, run_fault}, {"procs", gen_procs, run_procs}};
extern const int n_fault_kinds; const int n_fault_kinds = 4;
