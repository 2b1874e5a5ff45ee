#include "scen.h"
#include <math.h>
#include <string.h>
#include <algorithm>
using std::string; using std::vector;
using sim::Rng;

const char* MODES[] = {"sep", "sepdir", "existing", "inplace", "dot", "abs", "symsrc", "symtgt", "hard", "symboth"};
const int N_MODES = 10;
uint64_t tag(const string& s) { return sim::fnv(s); }

// the names of the files: part of the seed, like the rest of the environment
struct NameStyle { string in, out, iext, oext; };
static NameStyle style = {"in", "out", ".gcode", ".gcode"};
void name_files(uint64_t seed) {
  style = {"in", "out", ".gcode", ".gcode"}; Rng r(sim::mix(seed, 0x6e616d65)); if (!r.chance(0.3)) return;
  static const vector<NameStyle> v = {{"in file", "out file", ".gcode", ".gcode"}, {"part.v1.2", "part.v1.2.aw", ".gcode", ".gcode"}, {"IN", "OUT", ".GCODE", ".GCODE"}, {"\xc3\xaf n", "\xc3\xbc", ".gcode", ".gco"}, {"100%s_%d", "50%n", ".gcode", ".gcode"}, {"in\\x", "out\\y", ".gcode", ".gcode"},
    {"it's \"in\"", "$(out)", ".gcode", ".gcode"}, {"in;1", "out;2", ".g", ".g"}, {"#in", "~out", "", ""}, {"part", "part", ".gcode", ".gcode.gcode"}, {"part", "part", ".gcode", ""}, {"part", "part", "", ".gcode"}, {".in", ".out", ".gcode", ".gcode"}, {"x", "y", "", ""}, {"in", "out", ".gcode.orig", ".gcode.old"}, {"1", "2", ".nc", ".nc"}, {"in", "out", ".", "."}};
  if (r.chance(0.15)) { style.in = string(r.range(60, 200), 'i'); style.out = string(r.range(60, 200), 'o'); return; }
  style = r.pick(v);
}
Names names(const string& mode, const string& entry, int k) {
  Names n; const NameStyle& y = style; string b = y.in + (k ? strf("%d", k) : "") + y.iext, o = y.out + (k ? strf("%d", k) : "") + y.oext;
  n.psrc = "/sim/w/" + b; n.ptgt = "/sim/w/" + o; n.src = n.psrc; n.tgt = n.ptgt;
  if (mode == "sepdir") { n.ptgt = n.tgt = "/sim/out/" + o; }
  else if (mode == "inplace") { n.ptgt = n.psrc; n.tgt = n.src; n.alias = true; if (entry != "lib") n.tgt = ""; }
  else if (mode == "dot") { n.src = b; n.tgt = "./" + b; n.ptgt = n.psrc; n.alias = true; }
  else if (mode == "abs") { n.src = b; n.tgt = n.psrc; n.ptgt = n.psrc; n.alias = true; }
  else if (mode == "symsrc") { n.src = "/sim/w/l_" + b; n.tgt = n.psrc; n.ptgt = n.psrc; n.alias = true; }
  else if (mode == "symtgt") { n.tgt = n.ptgt = "/sim/w/l_" + b; n.alias = true; }
  else if (mode == "hard") { n.tgt = n.ptgt = "/sim/w/h_" + b; n.alias = true; }
  else if (mode == "symboth") { n.src = n.tgt = n.psrc = n.ptgt = "/sim/w/l_" + b; n.alias = true; if (entry != "lib") n.tgt = ""; }
  return n;
}
void place(sim::Sim& s, const string& mode, const Names& n, const string& data) {
  if (mode == "sepdir") s.dirs.insert("/sim/out");
  if (mode == "symboth") { string real = n.psrc; real.replace(real.rfind("l_"), 2, "r_"); s.put(real, data); s.links[n.psrc] = real; return; }
  s.put(n.psrc, data);
  if (mode == "existing") s.put(n.ptgt, "; an older file\nG1 X1\n");
  if (mode == "symsrc") s.links[n.src] = n.psrc;
  if (mode == "symtgt") s.links[n.tgt] = n.psrc;
  if (mode == "hard") s.dir[n.ptgt] = s.dir[n.psrc];
}
sim::Config cfg_of(const Plan& p, int step) {
  sim::Config c; c.seed = sim::mix(p.seed, 11 + step);
  c.read_chunk = (int)p.num("read_chunk"); c.write_chunk = (int)p.num("write_chunk"); c.chunk_seed = (uint64_t)p.num("chunk_seed");
  c.eintr_every = (int)p.num("eintr_every"); c.junk = (int)p.num("junk", -1);
  c.clock_mode = (int)p.num("clock_mode"); c.clock_seed = (uint64_t)p.num("clock_seed"); c.clock_tick_us = p.num("clock_tick", 50);
  if (step == 0) { c.disk_free = p.num("disk_free", -1); c.read_only_dir = p.num("ro_dir") != 0; c.alloc_fail_at = p.num("alloc_fail", -1); }
  for (auto& f : p.faults) if (f.step == step) c.faults.push_back(f.f);
  if (step == 0) c.sched = p.sched;
  return c;
}
void gen_env(Plan& p, Rng& r, double k) {
  if (r.chance(0.5 * k)) { static const vector<int> c = {1, 2, 7, 64, 100, 512, 1000, 4096, 8190}; p.set("read_chunk", (long)r.pick(c)); p.set("chunk_seed", r.chance(0.6) ? (long)(1 + r.below(100000)) : 0); }
  if (r.chance(0.4 * k)) { static const vector<int> c = {1, 3, 50, 333, 1024, 4000, 8191}; p.set("write_chunk", (long)r.pick(c)); p.set("chunk_seed", (long)(1 + r.below(100000))); }
  if (p.num("read_chunk") == 1 && r.chance(0.8)) p.set("read_chunk", 17L);
  if (p.num("write_chunk") == 1 && r.chance(0.8)) p.set("write_chunk", 29L);
  if (r.chance(0.4 * k)) { static const vector<int> c = {2, 3, 5, 9}; p.set("eintr_every", (long)r.pick(c)); }
  if (r.chance(0.6 * k)) { static const vector<int> c = {0, 0xff, 0xa5, 0x7f, 0x01}; p.set("junk", (long)r.pick(c)); }
  if (r.chance(0.6 * k)) { p.set("clock_mode", (long)r.range(1, 3)); p.set("clock_seed", (long)(1 + r.below(1000000))); }
}
vector<string> split_args(const string& s) {
  vector<string> v; string c; for (char ch : s) { if (ch == '\x1f') { v.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) v.push_back(c); return v;
}
vector<string> straight_args(Rng& r, string* fwo) {
  vector<string> a;
  static const char* fw[][3] = {{"MARLIN_1", "1.1.9.1", ""}, {"MARLIN_2", "2.0.9.1", "2.0.9.2"}, {"PRUSA", "3.10.0", "3.11.0"}, {"REPETIER", "1.0.4", "1.0.5"}, {"SMOOTHIEWARE", "2021-06-19", ""}};
  int k = r.range(0, 4); if (fwo) *fwo = fw[k][0];
  a.push_back(string("-f=") + fw[k][0]);
  return a;
}
Job job_of(const Plan& p, const Names& n, const string& pre) {
  Job j; j.entry = p.get(pre + "entry", "lib"); j.s = get_settings(p, pre + "s."); j.src = n.src; j.tgt = n.tgt;
  j.args = split_args(p.get(pre + "args")); j.cancel_at = (int)p.num(pre + "cancel_at", -1); j.callback = p.num(pre + "callback", 1) != 0;
  return j;
}
int start(sim::Sim& s, const Job& j, Outcome* o) {
  Job* q = new Job(j);    // lives as long as the process image
  return s.spawn(j.entry, [q, o]() -> int {
    if (q->entry == "lib") {
      WeldReq w; { sim::Outside x; w.s = q->s; w.src = q->src; w.tgt = q->tgt; w.cancel_at = q->cancel_at; w.callback = q->callback; w.watch = q->watch; w.shared_logger = q->shared_logger; }
      run_weld(w, o->w);
      return o->w.success ? 0 : 1;
    }
    if (q->entry == "interp") return run_interp(q->args, q->src, q->tgt) ? 0 : 1;
    vector<string> a;
    { sim::Outside x;
      if (q->entry == "cli") { a = cli_args(q->s, q->src, q->tgt, "", ""); a.insert(a.begin(), q->args.begin(), q->args.end()); }
      else { a = q->args; a.push_back(q->src); if (!q->tgt.empty()) a.push_back(q->tgt); } }
    return q->entry == "cli" ? cli_weld(a) : cli_straighten(a);
  });
}
void collect(sim::Sim& s, int id, const Job& j, Outcome& o) {
  sim::Proc& p = *s.procs[id];
  o.crashed = p.crashed; o.threw = p.threw; o.what = p.what; o.code = p.exit_code; o.out = p.out;
  if (o.crashed || o.threw) { o.ok = false; return; }
  if (j.entry == "lib") { o.ok = o.w.done && o.w.success; o.cancelled = o.w.cancelled; } else o.ok = o.code == 0;
}
Outcome run_one(sim::Sim& s, const Job& j) {
  Outcome o; int id = start(s, j, &o); s.run(); collect(s, id, j, o); return o;
}
string convert(const Plan& p, const Job& j0, const string& data, Outcome* o, bool* ok) {
  Job j = j0; sim::Config c; c.seed = p.seed; j.cancel_at = -1; j.callback = false; j.watch = ""; j.shared_logger = nullptr;
  sim::Sim s(c); s.keep_log = false;
  s.put("/sim/w/ref_in.gcode", data);
  j.src = "/sim/w/ref_in.gcode"; j.tgt = "/sim/w/ref_out.gcode";
  Outcome x = run_one(s, j);
  if (o) *o = x; if (ok) *ok = x.ok;
  return s.get(j.tgt);
}
