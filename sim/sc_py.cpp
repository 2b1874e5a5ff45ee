// Scenario py: the Python module as OctoPrint's plugin uses it, on a real
// interpreter: argument dictionaries of all kinds, callbacks that stop, raise or
// start another conversion, disk and memory faults, repeated calls.
#include "scen.h"
#include "py.h"
#include <math.h>
#include <string.h>
#include <algorithm>
using std::string; using std::vector;
using sim::Rng; using namespace model;

static const vector<string> REQUIRED = {"guid", "source_path", "target_path", "on_progress_received"};
static string fv(double v) { return strf("f:%.17g", v); }
static bool numeric(const string& v) { return v.size() > 1 && (v[0] == 'i' || v[0] == 'f'); }
static double numv(const string& v) { return strtod(v.c_str() + 2, nullptr); }
static bool truth(const string& v) { return v[0] == 'b' ? v == "b:1" : numv(v) > 0; }

// ---- what the arguments stand for (independent description)
static Settings meaning(const std::map<string, string>& a) {
  Settings s; s.notification = 0; auto has = [&](const char* k) { return a.count(k) != 0; }; auto at = [&](const char* k) { return a.find(k)->second; };
  if (has("resolution_mm")) { s.resolution = numv(at("resolution_mm")); if (s.resolution <= 0) s.resolution = 0.05; }
  if (has("path_tolerance_percent")) { s.path_tolerance = numv(at("path_tolerance_percent")); if (s.path_tolerance < 0) s.path_tolerance = 0.05; }
  if (has("max_radius_mm")) s.max_radius = std::min(9999.0, numv(at("max_radius_mm")));
  if (has("mm_per_arc_segment")) s.mm_per_arc_segment = std::max(0.0, numv(at("mm_per_arc_segment")));
  if (has("min_arc_segments")) s.min_arc_segments = std::max(0, (int)numv(at("min_arc_segments")));
  if (has("max_gcode_length")) s.max_gcode_length = std::max(0, (int)numv(at("max_gcode_length")));
  if (has("extrusion_rate_variance_percent")) { s.rate_variance = numv(at("extrusion_rate_variance_percent")); if (s.rate_variance < 0) s.rate_variance = 0.05; }
  auto prec = [&](const char* k, int d) { return has(k) ? (int)std::max(3.0, std::min(6.0, floor(numv(at(k))))) : d; };
  s.xyz_precision = prec("default_xyz_precision", 3); s.e_precision = prec("default_e_precision", 5);
  auto flag = [&](const char* k) { return has(k) && truth(at(k)); };
  s.g90e = flag("g90_g91_influences_extruder"); s.arcs3d = flag("allow_3d_arcs"); s.travel = flag("allow_travel_arcs"); s.dynamic = flag("allow_dynamic_precision");
  return s;
}
// ---- generator
static Plan gen_py(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); p.set("entry", "lib");
  if (r.chance(0.05)) { p.set("what", "progress"); return p; }
  Settings s = gen::settings(r); std::map<string, string> a;
  auto num = [&](double v) { return v == floor(v) && r.chance(0.5) ? strf("i:%d", (int)v) : fv(v); };
  auto opt = [&](const char* k, const string& v) { if (r.chance(0.85)) a[k] = v; };
  auto flag = [&](bool b) { return r.chance(0.7) ? string(b ? "b:1" : "b:0") : strf("i:%d", b ? r.range(1, 3) : -r.range(0, 2)); };
  a["guid"] = "s:" + string(r.chance(0.5) ? "guid-7" : "5f3c\xc3\xa9");
  a["on_progress_received"] = "cb";
  opt("resolution_mm", r.chance(0.1) ? r.pick(vector<string>{"f:0", "f:-1", "i:0", "i:-2"}) : num(s.resolution));
  opt("path_tolerance_percent", r.chance(0.1) ? "f:-0.5" : num(s.path_tolerance));
  opt("max_radius_mm", num(s.max_radius));
  opt("mm_per_arc_segment", r.chance(0.1) ? "f:-1.5" : num(s.mm_per_arc_segment));
  opt("min_arc_segments", r.chance(0.1) ? "i:-3" : strf("i:%d", s.min_arc_segments));
  opt("max_gcode_length", r.chance(0.1) ? "i:-60" : strf("i:%d", s.max_gcode_length));
  opt("extrusion_rate_variance_percent", r.chance(0.1) ? "f:-0.25" : num(s.rate_variance));
  static const vector<string> odd = {"i:2", "i:0", "i:-1", "i:7", "i:255", "i:256", "i:259", "i:-250", "f:2.9", "f:3.7", "f:6.5", "f:-1.5", "i:1000", "f:4.0"};
  opt("default_xyz_precision", r.chance(0.25) ? r.pick(odd) : num(s.xyz_precision));
  opt("default_e_precision", r.chance(0.25) ? r.pick(odd) : num(s.e_precision));
  opt("g90_g91_influences_extruder", flag(s.g90e)); opt("allow_3d_arcs", flag(s.arcs3d)); opt("allow_travel_arcs", flag(s.travel)); opt("allow_dynamic_precision", flag(s.dynamic));
  opt("log_level", strf("i:%d", r.pick(vector<int>{0, 5, 10, 20, 20, 30, 40, 50, 7, -1})));
  if (r.chance(0.1)) a["some_other_key"] = "L:";
  bool large = r.chance(0.3); PFile f; f.path = "in"; Settings e = meaning(a); gen::Profile pr; pr.lines = large ? r.range(900, 2600) : r.range(6, 200);
  f.lines = gen::program(r, e, pr); gen::wild(r, f.lines, 0.15); p.files.push_back(f);
  string mode = r.chance(0.5) ? "sep" : MODES[r.below(N_MODES)]; p.set("mode", mode);
  gen_env(p, r, 0.6); if (large) { p.set("clock_mode", r.chance(0.8) ? 3L : 1L); p.set("clock_seed", 1 + (long)r.below(1 << 30)); if (p.num("read_chunk") > 0) p.set("read_chunk", 512L); if (p.num("write_chunk") > 0) p.set("write_chunk", 512L); }
  string ans; int na = r.range(0, 5); for (int i = 0; i < na; i++) ans += r.pick(vector<char>{'T', 'T', 'T', 'N', '1', '5', 'T', 'N'});
  if (r.chance(0.3)) { ans += r.pick(vector<char>{'F', 'F', '0', 'Z', '-'}); }
  if (r.chance(0.15)) ans.insert(r.below(ans.size() + 1), 1, r.chance(0.8) ? 'R' : 'X');
  if (r.chance(0.05)) ans.insert(r.below(ans.size() + 1), 1, r.pick(vector<char>{'S', 'D', 'L'}));
  if (r.chance(0.1)) ans.insert(r.below(ans.size() + 1), 1, 'C');
  int k = r.range(0, 99);
  if (k < 12) {             // a required argument is missing or of the wrong type, or the argument is no dictionary
    if (r.chance(0.25)) p.set("form", r.pick(vector<string>{"none", "two", "list", "str"}));
    else { const string& q = REQUIRED[r.below(4)]; if (r.chance(0.4)) p.set("drop", q); else if (q != "on_progress_received") a[q] = r.pick(vector<string>{"n:", "i:5", "B:x", "S:", "f:1.5", "L:"}); else a[q] = r.pick(vector<string>{"n:", "i:5", "s:x"}); }
    p.set("bad", 1L);
  } else if (k < 18) {      // an optional argument of the wrong type
    vector<string> keys; for (auto& x : a) if (x.second != "cb" && x.first != "guid" && x.first != "some_other_key") keys.push_back(x.first);
    if (!keys.empty()) { string q = r.pick(keys); a[q] = r.pick(vector<string>{"n:", "s:0.05", "S:", "B:1", "L:", "I:"}); p.set("odd", q); }
  } else if (k < 28) { p.set("repeat", 4L); if (p.get("mode") != "existing") p.set("mode", "sep"); }
  else if (k < 55) {        // faults
    p.set("faulty", 1L);
    Names n = names(p.get("mode"), "lib"); Job j = job_of(p, n); j.s = e; j.s.log_level = 6; sim::Sim d(cfg_of(p)); place(d, p.get("mode"), n, f.data()); run_one(d, j);
    if (r.chance(0.2)) { long al = std::max(1l, d.procs[0]->allocs); p.set("alloc_fail", r.chance(0.3) ? 1 + (long)r.below(std::min(al, 600l)) : 1 + (long)r.below(al)); }
    else if (r.chance(0.2)) p.set("disk_free", (long)r.below(d.get(d.resolve(n.ptgt)).size() + 50));
    else if (r.chance(0.1)) p.set("ro_dir", 1L);
    else { int nf = r.chance(0.7) ? 1 : 2; for (int i = 0; i < nf; i++) p.faults.push_back({0, pick_fault(r, d.log, 0, 0)}); }
  }
  if (r.chance(0.1)) p.set("logger_raises", 1L);
  p.set("answers", ans);
  for (auto& x : a) p.set("py." + x.first, x.second);
  // the file of the nested conversion
  if (ans.find('C') != string::npos) { PFile g; g.path = "nested"; gen::Profile q; q.lines = r.range(6, 60); Settings ds; ds.notification = 0; g.lines = gen::program(r, ds, q); p.files.push_back(g); }
  return p;
}
// ---- oracle
static double field(const Prog& g, const string& k, bool* known) {
  *known = true;
  if (k == "percent_complete") return g.percent; if (k == "gcodes_processed") return g.gcodes; if (k == "lines_processed") return g.lines; if (k == "points_compressed") return g.points;
  if (k == "arcs_created") return g.arcs; if (k == "arcs_aborted_by_flowrate") return g.aborted; if (k == "num_firmware_compensations") return g.fwcomp; if (k == "num_gcode_length_exceptions") return g.lenexc;
  if (k == "source_file_position") return g.src_pos; if (k == "source_file_size") return g.src_size; if (k == "target_file_size") return g.tgt_size; if (k == "compression_ratio") return g.ratio; if (k == "compression_percent") return g.size_pct;
  if (k == "source_file_total_length") return g.seg.ls; if (k == "target_file_total_length") return g.seg.lt; if (k == "source_file_total_count") return g.seg.cs; if (k == "target_file_total_count") return g.seg.ct;
  if (k == "source_file_total_travel_length") return g.trav.ls; if (k == "target_file_total_travel_length") return g.trav.lt; if (k == "source_file_total_travel_count") return g.trav.cs; if (k == "target_file_total_travel_count") return g.trav.ct;
  auto change = [](int a, int b) { return a ? ((double)b - a) / a * 100 : 0; };
  if (k == "total_count_reduction_percent") return change(g.seg.cs, g.seg.ct); if (k == "total_travel_count_reduction_percent") return change(g.trav.cs, g.trav.ct);
  *known = false; return 0;
}
static const char* FIELDS[] = {"percent_complete", "seconds_elapsed", "seconds_remaining", "gcodes_processed", "lines_processed", "points_compressed", "arcs_created", "arcs_aborted_by_flowrate", "num_firmware_compensations", "num_gcode_length_exceptions", "source_file_position", "source_file_size", "target_file_size", "compression_ratio", "compression_percent", "source_file_total_length", "target_file_total_length", "source_file_total_count", "target_file_total_count", "total_count_reduction_percent", "source_file_total_travel_length", "target_file_total_travel_length", "source_file_total_travel_count", "target_file_total_travel_count", "total_travel_count_reduction_percent"};
// "" when the dictionary shows these values
static string differs(const PyDictRec& d, const Prog& g, const string& guid, bool times) {
  for (const char* k : FIELDS) {
    auto i = d.num.find(k); if (i == d.num.end()) return strf("there is no %s", k);
    bool known; double v = field(g, k, &known);
    if (!known) { if (!times) continue; v = !strcmp(k, "seconds_elapsed") ? g.elapsed : g.remaining; }
    if (!(fabs(i->second - v) <= 1e-9 * std::max(1.0, fabs(v)))) return strf("%s is %.10g instead of %.10g", k, i->second, v);
  }
  auto t = d.text.find("guid"); if (t == d.text.end() || t->second != guid) return "guid is '" + (t == d.text.end() ? string("missing") : t->second) + "'";
  return "";
}
static void run_progress(const Plan& p, Report& R) {
  Rng r(p.seed); Prog g; auto big = [&]() { return (long)(r.chance(0.5) ? r.below(1ull << 31) : r.below(1ull << 40)); };
  g.percent = r.uni(0, 100); g.elapsed = r.uni(0, 1e5); g.remaining = r.uni(0, 1e5); g.ratio = r.uni(0, 50); g.size_pct = r.uni(0, 100);
  for (int* q : {&g.gcodes, &g.lines, &g.points, &g.arcs, &g.aborted, &g.fwcomp, &g.lenexc, &g.seg.cs, &g.seg.ct, &g.trav.cs, &g.trav.ct}) *q = (int)r.below(1ull << 31);
  g.src_pos = big(); g.src_size = big(); g.tgt_size = big(); for (double* q : {&g.seg.ls, &g.seg.lt, &g.trav.ls, &g.trav.lt}) *q = r.uni(0, 1e7);
  sim::Sim s(cfg_of(p)); PyDictRec d; bool ok = false; string guid = "g" + std::to_string(r.below(1000));
  s.spawn("py", [&]() -> int { ok = py_progress(g, guid, d, false); return 0; }); s.run(); R.absorb(s); R.nontrivial = true; R.count["progress_dicts"] += 1;
  if (!ok) { R.fail("P28", "progress", "no progress dictionary is built"); return; }
  string w = differs(d, g, guid, true); if (!w.empty()) R.fail("P28", "progress", "the progress dictionary is wrong: %s", w.c_str());
}
static void run_py(const Plan& p, Report& R) {
  if (p.get("what") == "progress") { run_progress(p, R); return; }
  string mode = p.get("mode", "sep"), O = p.files[0].data(); Names n = names(mode, "lib");
  bool bad = p.num("bad"), odd = p.kv.count("odd"), faulty = p.num("faulty"); string form = p.get("form"), answers = p.get("answers");
  PyCall c, nest; for (auto& k : p.kv) if (k.first.compare(0, 3, "py.") == 0) c.args[k.first.substr(3)] = k.second;
  if (!c.args.count("source_path")) c.args["source_path"] = "s:" + n.src; if (!c.args.count("target_path")) c.args["target_path"] = "s:" + n.tgt;
  if (!bad && (!c.args.count("guid") || !c.args.count("on_progress_received"))) return;     // a plan cut down too far
  if (p.kv.count("drop")) c.args.erase(p.get("drop"));
  c.form = form; c.answers = answers; c.logger_raises = p.num("logger_raises"); c.repeat = (int)p.num("repeat", 1); c.alloc_fail = p.num("alloc_fail", -1);
  string ng = "/sim/w/nested.gcode", no = "/sim/w/nested_out.gcode", N, NC;
  bool nested = answers.find('C') != string::npos && p.files.size() > 1;
  if (nested) { nest.args = {{"guid", "s:nested"}, {"source_path", "s:" + ng}, {"target_path", "s:" + no}, {"on_progress_received", "cb"}, {"log_level", "i:10"}}; c.nested = &nest; N = p.files[1].data(); Job q; q.entry = "lib"; NC = convert(p, q, N); }
  // reference: the library with the settings these arguments stand for, every callback delivered
  Settings e; if (!bad && !odd) e = meaning(c.args); e.log_level = 6; e.notification = 0;
  Job j; j.entry = "lib"; j.s = e; j.src = n.src; j.tgt = n.tgt; j.callback = true;
  sim::Config rc; rc.seed = p.seed; rc.clock_mode = 3; rc.clock_seed = 7; Outcome ro; string C;
  if (!bad && !odd) { sim::Sim s(rc); place(s, mode, n, O); ro = run_one(s, j); C = s.get(s.resolve(n.ptgt)); if (!ro.ok) { R.fail("P28", "failed", "the library cannot convert this file"); return; } }
  sim::Config cc = cfg_of(p); cc.alloc_fail_at = -1; sim::Sim s(cc); place(s, mode, n, O); if (nested) s.put(ng, N); auto before = s.list();
  PyOut o; int id = s.spawn("py", [&]() -> int { py_convert(c, o); return 0; }); s.run(); R.absorb(s);
  sim::Proc& pr = *s.procs[id];
  if (pr.crashed || pr.threw || pr.exit_code) { R.fail("P28", "killed", "the interpreter's process ends (%s%s)", pr.threw ? "exception " : pr.crashed ? "killed" : "exit", pr.what.c_str()); return; }
  if (o.import_failed) { if (!faulty) R.fail("P28", "import", "the module cannot be imported: %s %s", o.exc.c_str(), o.exc_text.c_str()); return; }
  bool hit = cc.read_only_dir; for (auto& f : s.fault_count) if (f.second && hard_fault(f.first)) hit = true; if (cc.read_only_dir) R.faults["read_only_directory"]++; R.count["callbacks"] += o.cbs.size(); R.count["calls"] += o.blocks.size();
  string now = s.get(s.resolve(n.src)), tgt = s.exists(s.resolve(n.ptgt)) ? s.get(s.resolve(n.ptgt)) : "";
  if (o.raised && o.exc == "SystemError") { R.fail("P28", "system_error", "the call ends with %s: %s", o.exc.c_str(), o.exc_text.c_str()); return; }
  if (o.returned && o.leftover) { R.fail("P28", "system_error", "a value is returned while an exception is set"); return; }
  R.states.push_back(sim::mix(tag(mode + form + p.get("drop") + p.get("odd")), tag(strf("%d %d %d %d %zu", o.raised, (int)o.result.num["success"], (int)o.result.num["is_cancelled"], hit, std::min<size_t>(8, o.cbs.size())))));
  if (bad) {
    bool callback_only = !p.kv.count("form") && p.get("drop") != "on_progress_received" && c.args.count("on_progress_received") && c.args["on_progress_received"] != "cb";
    R.nontrivial = true; R.count["bad_calls"] += 1;
    if (!o.raised && !callback_only) R.fail("P28", "accepted", "a call with a missing or wrong required argument returns normally");
    if (o.raised && (now != O || s.list() != before)) R.fail("P28", "touched", "the call raises %s but files have changed", o.exc.c_str());
    return;
  }
  if (odd) {
    R.nontrivial = true; R.count["odd_calls"] += 1;
    if (o.raised && (now != O || (n.alias && tgt != O))) R.fail("P28", "touched", "the call raises %s but the source has changed", o.exc.c_str());
    return;
  }
  if (o.raised) {
    if (!hit) R.fail("P28", "raised", "a good call raises %s: %s", o.exc.c_str(), o.exc_text.c_str());
    else if (s.fault_count.count("alloc_failure") == 0) R.fail("P28", "raised", "a disk fault ends with %s: %s instead of a result", o.exc.c_str(), o.exc_text.c_str());
    if (now != O && !(n.alias && now == C)) R.fail("P28", "source", "the call raises %s and the source has changed", o.exc.c_str());
    return;
  }
  if (o.result.num.count("success") == 0 || o.result.num.count("is_cancelled") == 0 || !o.result.text.count("message")) { R.fail("P28", "result", "the results dictionary is incomplete"); return; }
  bool success = o.result.num["success"] != 0, cancelled = o.result.num["is_cancelled"] != 0; string msg = o.result.text["message"], guid = c.args["guid"].substr(2);
  // the first answer that asks to stop; an answer that is no number may count as either
  int stop = -1, vague = -1; bool raises = false;
  for (size_t k = 0; k < o.cbs.size(); k++) { char a = k < answers.size() ? answers[k] : 'T'; if (a == 'R' || a == 'X') raises = true; if (strchr("SDL", a) && vague < 0) vague = (int)k; if (strchr("F0Z-", a)) { stop = (int)k; break; } }
  bool last = stop >= 0 && stop == (int)o.cbs.size() - 1 && !o.cbs[stop].num.empty() && o.cbs[stop].num["lines_processed"] == ro.w.fin.lines && ro.w.fin.lines > 0; if (last) stop = -1;
  if (raises && !o.reported && !o.logged) R.fail("P28", "swallowed", "an exception of the callback disappears");
  if (!hit && !raises && answers.find_first_of("SDLRX") == string::npos && !c.logger_raises && o.reported) R.fail("P28", "reported", "a call in which nothing raises prints %ld exceptions", o.reported);
  if (!hit) for (auto& x : o.nested_err) R.fail("P28", "nested", "a conversion inside the callback fails: %s", x.c_str());
  if (nested && !o.nested_err.size() && s.exists(no) && s.get(no) != NC && !hit) R.fail("P28", "nested", "a conversion inside the callback writes a different file");
  R.nontrivial = ro.w.fin.arcs > 0;
  if (stop >= 0) R.faults["cancel"]++;
  if (raises) R.faults["callback_raises"]++;
  // files
  if (!hit) {
    if (vague >= 0 && (stop < 0 || vague < stop) && cancelled) { if (success) R.fail("P28", "report", "success and cancelled at once"); if (now != O) R.fail("P28", "source", "the source was changed although the conversion was cancelled"); return; }
    if (stop >= 0) {
      if (!cancelled || success) R.fail("P28", "stop", "callback %d asked to stop ('%c'), the result says success=%d is_cancelled=%d", stop, answers[stop], success, cancelled);
      if (now != O) R.fail("P28", "source", "the source was changed although the conversion was cancelled");
      int L = (int)o.cbs[stop].num["lines_processed"], at = -1; for (size_t k = 0; k < ro.w.prog.size(); k++) if (ro.w.prog[k].lines == L) { at = (int)k; break; }
      if (at >= 0 && c.repeat == 1) { Job k = j; k.cancel_at = at; sim::Sim q(rc); place(q, mode, n, O); Outcome x = run_one(q, k); if (nested && s.exists(ng)) { q.put(ng, N); if (s.exists(no)) q.put(no, NC); }
        for (auto& f : q.list()) if (!s.exists(f) || s.get(f) != q.get(f)) { R.fail("P28", "stop_files", "stopped at line %d, %s differs from what the library leaves", L, f.c_str()); break; }
        for (auto& f : s.list()) if (!q.exists(f)) { R.fail("P28", "stop_files", "stopped at line %d, %s is left behind", L, f.c_str()); break; }
      }
    } else {
      if (!success || cancelled) { R.fail("P28", "report", "nobody asked to stop, the result says success=%d is_cancelled=%d (%s)", success, cancelled, msg.c_str()); return; }
      if (tgt != C) { R.fail("P28", "settings", "the file differs from the library's with the same settings (%zu / %zu bytes)", tgt.size(), C.size()); return; }
      if (!n.alias && now != O) R.fail("P28", "source", "the source was changed");
      if (msg != ro.w.message) R.fail("P28", "result", "message is '%s' instead of '%s'", msg.c_str(), ro.w.message.c_str());
      string w = differs(o.progress, ro.w.fin, guid, false); if (!w.empty()) R.fail("P28", "result", "the final progress is wrong: %s", w.c_str());
      string html = o.progress.text["segment_statistics_text"] + "\x1e" + o.progress.text["segment_travel_statistics_text"];
      if (html != ro.w.fin.html) R.fail("P28", "result", "the statistics texts differ from the library's");
    }
    // the messages of the conversion reach the host's logger
    if (stop < 0 && !raises && !nested && !c.logger_raises && p.num("clock_mode") == 3) {
      string v = c.args.count("log_level") ? c.args["log_level"] : "i:20"; int lv = 0; { static const int V[] = {0, 5, 10, 20, 30, 40, 50}; for (int k = 0; k < 7; k++) if (atoi(v.c_str() + 2) == V[k]) lv = k; }
      static const char* LN[] = {"?", "verbose", "debug", "info", "warn", "error", "error"}; vector<std::pair<string, string>> got, ref; std::set<string> below;
      auto calm = [&](const string& t) { string o, w; for (size_t i = 0; i <= t.size(); i++) { char c = i < t.size() ? t[i] : ' '; if (c != ' ' && c != '\n') { w += c; continue; } o += n.alias && w.find('/') != string::npos ? "path" : w; o += c; w.clear(); } return o; };      // names of temporary files differ
      for (int pass = 0; pass < 2; pass++) { int k = pass ? 0 : lv; vector<std::pair<int, string>> w; Job q = j; q.s = e; q.s.notification = 1; void* lg = make_recorder(k, &w); q.shared_logger = lg; { sim::Sim s2(rc); place(s2, mode, n, O); run_one(s2, q); } free_logger(lg); sim::g = &s; for (auto& x : w) { if (!pass) ref.push_back({LN[x.first], calm(x.second)}); if (x.first < lv) below.insert(calm(x.second)); } }
      for (auto& x : o.records) got.push_back({x.first, calm(x.second)});
      R.count["log_records_compared"] += ref.size();
      size_t i = 0, k = 0; while (i < ref.size() && k < got.size()) { if (ref[i] == got[k]) i++; k++; }
      if (i < ref.size()) R.fail("P28", "log", "message %zu of the conversion, %s '%s', does not reach the logger of the host (%zu of %zu messages)", i + 1, ref[i].first.c_str(), ref[i].second.substr(0, 120).c_str(), got.size(), ref.size());
      for (auto& x : got) if (below.count(x.second)) { R.fail("P28", "log", "the message '%s' is logged although the level is %s", x.second.substr(0, 120).c_str(), LN[lv]); break; }
    }
    // every callback shows the values of its moment
    size_t done = 0; int prev = -1;
    for (auto& d : o.cbs) {
      done++; for (auto& x : d.other) R.fail("P28", "progress", "callback %zu: %s is a %s", done - 1, x.first.c_str(), x.second.c_str());
      auto li = d.num.find("lines_processed"); int L = li == d.num.end() ? -1 : (int)li->second; string w = "no such moment"; bool final = false;
      for (auto& g : ro.w.prog) if (g.lines == L) { w = differs(d, g, guid, false); if (w.empty()) { final = true; break; } }
      if (!final && stop >= 0 && (int)done - 1 > stop) final = true;             // the last report of a stopped conversion
      if (!final) { R.fail("P28", "progress", "callback %zu (line %d): %s", done - 1, L, w.c_str()); break; }
      if (L < prev) R.fail("P28", "progress", "callback %zu goes back to line %d", done - 1, L); prev = L;
    }
    if (o.cbs.size() < 1) R.fail("P28", "progress", "the callback is never called");
    if (stop >= 0 && (int)o.cbs.size() > stop + 2) R.fail("P28", "stop", "callback %d asked to stop but %d more follow", stop, (int)o.cbs.size() - 1 - stop);
    size_t z = o.blocks.size();
    if (z >= 4) {
      R.count["leak_checks"] += 1;
      if (o.blocks[z - 1] > o.blocks[z - 2] && o.blocks[z - 2] > o.blocks[z - 3] && o.blocks[z - 3] > o.blocks[z - 4]) R.fail("P28", "leak", "every call leaves %ld more objects behind", o.blocks[z - 1] - o.blocks[z - 2]);
      if (o.cb_refs[z - 1] != o.cb_refs[0]) R.fail("P28", "leak", "the callback's references go from %ld to %ld", o.cb_refs[0], o.cb_refs[z - 1]);
      if (o.guid_refs[z - 1] != o.guid_refs[0]) R.fail("P28", "leak", "the guid's references go from %ld to %ld", o.guid_refs[0], o.guid_refs[z - 1]);
    }
  } else {
    if (success && cancelled) R.fail("P28", "report", "success and cancelled at once");
    if (success && tgt != C) R.fail("P28", "report", "success is reported but the target is not the conversion (%zu / %zu bytes)", tgt.size(), C.size());
    if (!success && now != O && !(n.alias && now == C)) R.fail("P28", "source", "no success, and the source has changed");
    if (!success && !cancelled && msg.empty()) R.fail("P28", "result", "no success and no message");
    if (o.progress.num.empty()) R.fail("P28", "result", "there is no progress in the results");
  }
}
extern const Kind py_kinds[]; const Kind py_kinds[] = {{"py", gen_py, run_py}};
extern const int n_py_kinds; const int n_py_kinds = 1;
