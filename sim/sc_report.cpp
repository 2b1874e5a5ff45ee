// Scenario report: what both programs print about a run - the arguments it used, its progress,
// its totals and how it ended - judged against the command line, the files and the exit status (P33).
#include "scen.h"
#include "straight.h"
#include <math.h>
#include <string.h>
#include <algorithm>
using std::string; using std::vector;
using sim::Rng; using namespace model;
static const char* LV[] = {"NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"};
static string trim(const string& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
typedef std::map<string, string> Listing;
// "\tLabel : value" lines from the line that holds `head` on
static bool listing(const string& out, const string& head, Listing* l, size_t from = 0, size_t* end = nullptr) {
  size_t i = out.find(head, from); if (i == string::npos) return false; bool any = false;
  while (i < out.size()) {
    size_t e = out.find('\n', i); string s = out.substr(i, e == string::npos ? string::npos : e - i); bool tab = !s.empty() && s[0] == '\t'; if (any && !tab) break;
    if (tab) { any = true; size_t c = s.find(':'); if (c != string::npos) { string k = trim(s.substr(0, c)); (*l)[l->count(k) ? k + " (again)" : k] = trim(s.substr(c + 1)); } }
    i = e == string::npos ? out.size() : e + 1;
  }
  if (end) *end = i; return any;
}
static Plan gen_report(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); bool weld = r.chance(0.6); p.set("entry", weld ? "cli" : "straight"); p.set("mode", MODES[r.below(r.chance(0.6) ? 4 : N_MODES)]); p.set("level", (long)(r.chance(0.7) ? 3 : r.range(0, 6)));
  PFile f; f.path = "in"; Settings s;
  if (weld) {
    s = gen::settings(r); if (r.chance(0.3)) { static const vector<double> v = {0, 0.001, 0.002, 0.0125, 0.05, 0.1, 1, 2.5}; s.rate_variance = r.pick(v); }
    p.set("progress", r.pick(vector<string>{"NONE", "SIMPLE", "SIMPLE", "FULL", "FULL"})); gen::Profile pr; pr.lines = r.chance(0.15) ? r.range(990, 2600) : r.range(6, 200); f.lines = gen::program(r, s, pr);
  } else if (r.chance(0.15)) {
    static const char* V[][2] = {{"MARLIN_1", "1.1.9.1"}, {"MARLIN_2", "2.0.9.1"}, {"MARLIN_2", "2.0.9.2"}, {"PRUSA", "3.10.0"}, {"PRUSA", "3.11.0"}, {"REPETIER", "1.0.4"}, {"REPETIER", "1.0.5"}, {"SMOOTHIEWARE", "2021-06-19"}};
    int k = r.range(0, 7); string a; if (k != 1 || r.chance(0.5)) a += string("-f=") + V[k][0] + "\x1f"; bool latest = k != 2 && k != 4 && k != 6; if (!latest || r.chance(0.5)) a += string("-v=") + V[k][1] + "\x1f"; else if (r.chance(0.3)) a += "--firmware-version=LATEST_RELEASE\x1f"; p.set("args", a + (r.chance(0.5) ? "-p" : "--print-firmware-defaults")); p.set("defaults", 1L);
  } else {
    vector<string> a = gen_sargs(r); string t; for (auto& x : a) if (x.rfind("-l", 0) && x.rfind("--log", 0)) t += (t.empty() ? "" : "\x1f") + x; p.set("args", t);
    f.lines = gen::arc_program(r, r.chance(0.05) ? 0 : r.range(3, 120), true, false);
  }
  f.nl = !r.chance(0.1); if (r.chance(0.03)) f.lines.clear();
  put_settings(p, s); p.files.push_back(f); gen_env(p, r, 0.7);
  if (r.chance(0.25) && !p.num("defaults")) {
    int k = r.range(0, 3);
    if (k == 0) p.set("disk_free", (long)r.range(0, 4000)); else if (k == 1) p.set("ro_dir", 1L);
    else { Names n = names(p.get("mode"), p.get("entry")); Job j = job_of(p, n); sim::Sim d(cfg_of(p)); place(d, p.get("mode"), n, f.data()); run_one(d, j); sim::Fault q = pick_fault(r, d.log, 0, 0); PFault z; z.f = q; p.faults.push_back(z); }
  }
  return p;
}
static bool stamped(const string& l) { static const char* F = "dddd-dd-dd dd:dd:dd.ddd - "; if (l.size() < 26) return false; for (int i = 0; i < 26; i++) if (F[i] == 'd' ? !isdigit((unsigned char)l[i]) : l[i] != F[i]) return false; return true; }
static void run_report(const Plan& p, Report& R) {
  string entry = p.get("entry"), mode = p.get("mode", "sep"), data = p.files[0].data(), progress = p.get("progress"); bool weld = entry == "cli", defaults = p.num("defaults") != 0; Names n = names(mode, entry); int lv = (int)p.num("level") % 7; string who = weld ? "ArcWelder" : "ArcStraightener";
  Job j = job_of(p, n); if (!defaults) j.args.push_back(string("-l=") + LV[lv]); if (weld && !progress.empty()) j.args.push_back("-p=" + progress); if (defaults) j.src = j.tgt = "";
  sim::Sim S(cfg_of(p)); place(S, mode, n, data); Outcome o;
  if (defaults) { vector<string> a = j.args; int id = S.spawn("straight", [&]() -> int { return cli_straighten(a); }); S.run(); collect(S, id, j, o); } else o = run_one(S, j);
  S.trace_hash = sim::mix(S.trace_hash, tag(o.out)); R.absorb(S); if (o.crashed || o.threw) return;       // P11, P10
  const Settings& s = j.s; SArgs a = sargs(j.args); string cl; for (auto& x : j.args) cl += " " + x;
  R.states.push_back(tag(entry + progress + mode + (o.code ? "fail" : "ok") + LV[lv] + (weld ? string() : a.fw + a.ver)));
  auto num = [&](const Listing& L, const string& k, double v, const char* unit, int least) {          // the value shown is v rounded to its decimals
    if (!L.count(k)) { R.fail("P33", "missing", "%s%s does not show '%s'", who.c_str(), cl.c_str(), k.c_str()); return; }
    const string& t = L.at(k); char* e; double x = strtod(t.c_str(), &e); string z(t.c_str(), e - t.c_str()); size_t d = z.find('.'); int dec = d == string::npos ? 0 : (int)(z.size() - d - 1);
    if (z.empty() || (unit && string(e) != unit) || fabs(x - v) > 0.5 * pow(10, -std::max(dec, least)) * 1.001 + fabs(v) * 1e-9) R.fail("P33", "value", "%s%s shows '%s: %s' although the run uses %.9g%s", who.c_str(), cl.c_str(), k.c_str(), t.c_str(), v, unit ? unit : ""); else R.count["values_compared"] += 1;
  };
  auto txt = [&](const Listing& L, const string& k, const string& v) { if (!L.count(k)) R.fail("P33", "missing", "%s%s does not show '%s'", who.c_str(), cl.c_str(), k.c_str()); else if (L.at(k) != v) R.fail("P33", "value", "%s%s shows '%s: %s' instead of '%s'", who.c_str(), cl.c_str(), k.c_str(), L.at(k).c_str(), v.c_str()); else R.count["values_compared"] += 1; };
  auto none = [&](const Listing& L, const string& k) { if (L.count(k)) R.fail("P33", "value", "%s%s shows '%s: %s', which the run does not use", who.c_str(), cl.c_str(), k.c_str(), L.at(k).c_str()); };
  auto firmware = [&](const Listing& L, const string& tail) {
    static const char* A[][2] = {{"g", "g90-g91-influences-extruder"}, {"r", "min-arc-segments"}, {"a", "min-circle-segments"}, {"c", "n-arc-correction"}, {"m", "mm-per-arc-segment"}, {"i", "arc-segments-per-r"}, {"s", "arc-segments-per-sec"}, {"e", "mm-max-arc-error"}, {"n", "min-mm-per-arc-segment"}, {"b", "min-arc-segment-mm"}, {"d", "max-arc-segment-mm"}};
    txt(L, "Firmware Type", a.fw); txt(L, "Firmware Version", a.ver == a.latest ? a.ver + " (LATEST_RELEASE)" : a.ver); std::set<string> unused, shown;
    for (auto& k : A) {
      if (a.used.find(k[0]) == string::npos) { none(L, k[1]); unused.insert(string("--") + k[1]); continue; }
      switch (k[0][0]) { case 'g': txt(L, k[1], a.g90 ? "True" : "False"); break; case 'r': num(L, k[1], a.r, "", 0); break; case 'a': num(L, k[1], a.a, "", 0); break; case 'c': num(L, k[1], a.c, "", 0); break; case 'm': num(L, k[1], a.m, "", 2); break; case 'i': num(L, k[1], a.per_r, "", 2); break;
        case 's': num(L, k[1], a.per_sec, "", 2); break; case 'e': num(L, k[1], a.err, "", 2); break; case 'n': num(L, k[1], a.min_mm, "", 2); break; case 'b': num(L, k[1], a.b, "", 2); break; case 'd': num(L, k[1], a.d, "", 2); break; }
    }
    size_t c = tail.find("do not apply"); if (c != string::npos && (c = tail.find(':', c)) != string::npos) { string t = tail.substr(c + 1, tail.find('\n', c) - c - 1), w; for (char ch : t + ",") if (ch == ',') { if (!trim(w).empty()) shown.insert(trim(w)); w.clear(); } else w += ch; }
    if (shown != unused) { string d; for (auto& x : unused) if (!shown.count(x)) d += " without " + x; for (auto& x : shown) if (!unused.count(x)) d += " with " + x; R.fail("P33", "unused", "%s%s lists the parameters that do not apply%s", who.c_str(), cl.c_str(), d.c_str()); }
  };
  if (defaults) {
    Listing L; size_t e = 0; R.count["default_listings"] += 1; R.nontrivial = true;
    if (o.code != 0 || !listing(o.out, "Default Firmware Arguments", &L, 0, &e)) { R.fail("P33", "defaults", "%s%s does not show the defaults (status %d)", who.c_str(), cl.c_str(), o.code); return; }
    firmware(L, o.out.substr(e));
    size_t c = o.out.find("Available argument"); std::set<string> shown, want; if (c != string::npos && (c = o.out.find(':', c)) != string::npos) { string w; for (char ch : o.out.substr(c + 1, o.out.find('\n', c) - c - 1) + ",") if (ch == ',') { shown.insert(trim(w)); w.clear(); } else w += ch; }
    static const char* A[][2] = {{"g", "g90-g91-influences-extruder"}, {"r", "min-arc-segments"}, {"a", "min-circle-segments"}, {"c", "n-arc-correction"}, {"m", "mm-per-arc-segment"}, {"i", "arc-segments-per-r"}, {"s", "arc-segments-per-sec"}, {"e", "mm-max-arc-error"}, {"n", "min-mm-per-arc-segment"}, {"b", "min-arc-segment-mm"}, {"d", "max-arc-segment-mm"}};
    for (auto& k : A) if (a.used.find(k[0]) != string::npos) want.insert(string("--") + k[1]);
    if (shown != want) { string d; for (auto& x : want) if (!shown.count(x)) d += " without " + x; for (auto& x : shown) if (!want.count(x)) d += " with " + x; R.fail("P33", "available", "%s%s lists the available arguments%s", who.c_str(), cl.c_str(), d.c_str()); }
    return;
  }
  bool info = lv <= 3, good = o.code == 0; vector<string> lines = split_lines(o.out); R.nontrivial = info || progress == "SIMPLE" || progress == "FULL"; R.count[good ? "successful_runs" : "failed_runs"] += 1;
  if (!good && o.out.find("PARSE ERROR") != string::npos) return;         // refused before anything began (P11)
  // how it ended
  long yes = 0, no = 0; string last; const string YES = weld ? "Arc Welder process completed successfully." : "Process completed successfully.";
  for (auto& l : lines) { if (l.find(YES) != string::npos && (weld || l.find("Arc Welder process") == string::npos)) yes++; if (l.find("File processing failed.") != string::npos || l.find("Unable to replace the source file.") != string::npos) no++; if (stamped(l)) last = l; }
  if (info && good && (yes != 1 || no != 0)) R.fail("P33", "ended", "%s%s ends with status 0 and says '%s' (%ld announcements of success, %ld of failure)", who.c_str(), cl.c_str(), last.c_str(), yes, no);
  if (!good && yes) R.fail("P33", "ended", "%s%s ends with status %d but says '%s'", who.c_str(), cl.c_str(), o.code, YES.c_str());
  if (info && !good && !no) R.fail("P33", "ended", "%s%s ends with status %d but does not say that it failed: '%s'", who.c_str(), cl.c_str(), o.code, last.c_str());
  if (info && good && last.find(YES) == string::npos) R.fail("P33", "ended", "%s%s ends with '%s'", who.c_str(), cl.c_str(), last.c_str());
  string out = S.get(S.resolve(n.ptgt)); vector<string> src = split_lines(data), res = split_lines(out);
  if (!weld) {
    if (info) {
      Listing L; size_t e = 0; if (!listing(o.out, "Arguments:", &L, 0, &e)) { R.fail("P33", "missing", "%s%s does not show its arguments", who.c_str(), cl.c_str()); return; }
      txt(L, "Source File Path", j.src); string t = j.tgt.empty() ? j.src : j.tgt; int shown = 0; for (auto& x : L) if (x.first.rfind("Target File", 0) == 0) { shown++; bool over = x.first.find("overwrite") != string::npos; if (x.second != t || over != n.alias) R.fail("P33", "target", "%s%s shows '%s: %s', the target is %s%s", who.c_str(), cl.c_str(), x.first.c_str(), x.second.c_str(), t.c_str(), n.alias ? " and is overwritten" : ""); } if (shown != 1) R.fail("P33", "target", "%s%s shows %d targets", who.c_str(), cl.c_str(), shown);
      txt(L, "Log Level", LV[lv]); Listing F; if (!listing(o.out, "Firmware Arguments:", &F, 0, &e)) { R.fail("P33", "missing", "%s%s does not show its firmware arguments", who.c_str(), cl.c_str()); return; } firmware(F, o.out.substr(e));
    }
    Listing T; if (!listing(o.out, "Completed file processing", &T)) { if (!good) return; R.fail("P33", "totals", "%s%s does not show its totals", who.c_str(), cl.c_str()); return; }
    if (good) {
      long arcs = 0; for (auto& l : src) if (parse(l).is_arc()) arcs++;
      size_t h = 0; while (h < res.size() && !res[h].empty()) h++;
      num(T, "Lines Processed", src.size(), "", 0); num(T, "Arc Commands Processed", arcs, "", 0); if (h < res.size()) num(T, "Arc Segments Generated", (double)res.size() - h - 1 - ((double)src.size() - arcs), "", 0); double sec = T.count("Total Seconds") ? strtod(T["Total Seconds"].c_str(), nullptr) : -1; if (sec < 0 || sec > S.cpu_us / 1e6 * 1.0001 + 1e-6) R.fail("P33", "times", "ArcStraightener%s reports %s seconds, the run took %.6f", cl.c_str(), T["Total Seconds"].c_str(), S.cpu_us / 1e6);
    }
    return;
  }
  if (info) {
    Listing L; if (!listing(o.out, "Arc Welder Arguments", &L)) { R.fail("P33", "missing", "%s%s does not show its arguments", who.c_str(), cl.c_str()); return; }
    txt(L, "Source File Path", j.src); string t = j.tgt.empty() ? j.src : j.tgt; int shown = 0; for (auto& x : L) if (x.first.rfind("Target File", 0) == 0) { shown++; bool over = x.first.find("overwrite") != string::npos; if (x.second != t || over != n.alias) R.fail("P33", "target", "%s%s shows '%s: %s', the target is %s%s", who.c_str(), cl.c_str(), x.first.c_str(), x.second.c_str(), t.c_str(), n.alias ? " and is overwritten" : ""); } if (shown != 1) R.fail("P33", "target", "%s%s shows %d targets", who.c_str(), cl.c_str(), shown);
    auto yn = [](bool b) { return string(b ? "True" : "False"); }; bool fw = s.min_arc_segments > 0 && s.mm_per_arc_segment > 0;
    { string r = L["Resolution"]; size_t q = r.find(" (+-"); Listing M; M["Resolution"] = r.substr(0, q); M["Resolution, half"] = q == string::npos ? "" : r.substr(q + 4); num(M, "Resolution", s.resolution, "mm", 2); num(M, "Resolution, half", s.resolution / 2, "mm)", 4); }
    num(L, "Path Tolerance", s.path_tolerance * 100, "%", 2); num(L, "Maximum Arc Radius", s.max_radius, "mm", 1); txt(L, "Firmware Compensation", yn(fw));
    if (fw) { num(L, "Min Arc Segments", s.min_arc_segments, "", 0); num(L, "MM Per Arc Segment", s.mm_per_arc_segment, "", 2); } else { none(L, "Min Arc Segments"); none(L, "MM Per Arc Segment"); }
    txt(L, "Allow 3D Arcs", yn(s.arcs3d)); txt(L, "Allow Travel Arcs", yn(s.travel)); txt(L, "Allow Dynamic Precision", yn(s.dynamic)); num(L, "Default XYZ Precision", s.xyz_precision, "", 0); num(L, "Default E Precision", s.e_precision, "", 0);
    if (s.rate_variance == 0) txt(L, "Extrusion Rate Variance", "Unlimited"); else { num(L, "Extrusion Rate Variance", s.rate_variance * 100, "%", 0); if (s.rate_variance >= 0.0001 && strtod(L["Extrusion Rate Variance"].c_str(), nullptr) == 0) R.fail("P33", "value", "ArcWelder%s shows an extrusion rate variance of %s although %.9g%% is used", cl.c_str(), L["Extrusion Rate Variance"].c_str(), s.rate_variance * 100); }
    txt(L, "G90/G91 Influences Extruder", yn(s.g90e)); if (s.max_gcode_length == 0) txt(L, "Max Gcode Length", "Unlimited"); else num(L, "Max Gcode Length", s.max_gcode_length, " characters", 0);
    txt(L, "Log Level", LV[lv]); txt(L, "Hide Progress Updates", yn(progress == "NONE"));
  }
  // progress
  vector<string> pr; for (auto& l : lines) if (l.rfind("Progress: ", 0) == 0) pr.push_back(l.substr(10)); bool full = progress == "FULL"; double before = -1, line_before = 0, el_before = 0; double limit = S.cpu_us / 1e6;
  if (progress == "NONE" && !pr.empty()) R.fail("P33", "progress", "ArcWelder%s shows progress", cl.c_str());
  if (progress != "NONE" && good && pr.empty()) R.fail("P33", "progress", "ArcWelder%s shows no progress", cl.c_str());
  std::map<string, double> V; R.count["progress_lines"] += pr.size();
  for (size_t i = 0; i < pr.size(); i++) {
    const string& t = pr[i]; double pc = -1, el = -1, rem = -1, tot = -1; V.clear();
    if (full) {
      string w; for (char c : t + ",") { if (c != ',') { w += c; continue; } size_t q = w.find(':'); if (q == string::npos) { R.fail("P33", "progress", "progress line '%s'", t.c_str()); return; } char* e; string v = trim(w.substr(q + 1)); double x = strtod(v.c_str(), &e); if (v.empty() || (*e && string(e) != "%") || !std::isfinite(x)) { R.fail("P33", "progress", "progress line '%s' has no number in '%s'", t.c_str(), w.c_str()); return; } V[trim(w.substr(0, q))] = x; w.clear(); }
      for (const char* k : {"percent_complete", "seconds_elapsed", "seconds_remaining", "gcodes_processed", "current_file_line", "points_compressed", "arcs_created", "arcs_aborted_by_flowrate", "num_firmware_compensations", "num_gcode_length_exceptions", "compression_ratio", "size_reduction"}) if (!V.count(k)) { R.fail("P33", "progress", "progress line '%s' does not show %s", t.c_str(), k); return; }
      pc = V["percent_complete"]; el = V["seconds_elapsed"]; rem = V["seconds_remaining"];
      if (V["current_file_line"] < line_before || V["current_file_line"] > src.size()) R.fail("P33", "progress", "progress line '%s' is on line %g of %zu after %g", t.c_str(), V["current_file_line"], src.size(), line_before); line_before = V["current_file_line"];
      if (pc > 0.02) { double lo = std::max(0.0, el - 0.0051) * (100 - pc - 0.0051) / (pc + 0.0051) - 0.0051, hi = (el + 0.0051) * (100 - pc + 0.0051) / (pc - 0.0051) + 0.0051; if (rem < lo - 1e-9 * hi || rem > hi * (1 + 1e-9)) R.fail("P33", "times", "progress line '%s': %.2f s remaining do not follow from %.2f %% in %.2f s", t.c_str(), rem, pc, el); }
    } else {
      char tail[64] = ""; int used = 0; double x = 0, y = 0;
      if (sscanf(t.c_str(), " %lf%% complete - Estimated %lf of %lf seconds%63s%n", &pc, &x, &y, tail, &used) == 4 && used == (int)t.size()) {
        rem = x; tot = y; el = -1; double T0 = std::max(0.0, tot - 0.501), T1 = tot + 0.501; if (rem < T0 * (100 - pc - 0.051) / 100 - 0.501 || rem > T1 * (100 - pc + 0.051) / 100 + 0.501) R.fail("P33", "times", "progress line '%s': the remaining time does not follow from the rest", t.c_str());
      } else if (sscanf(t.c_str(), " %lf%% complete - %lf seconds%63s%n", &pc, &x, tail, &used) == 3 && used == (int)t.size()) { el = x; if (pc != 100) R.fail("P33", "progress", "progress line '%s' gives a total although it is not the end", t.c_str()); }
      else if (sscanf(t.c_str(), " %lf%% complete - Estimating remaining time.%n", &pc, &used) == 1 && used == (int)t.size()) { if (pc != 0) R.fail("P33", "progress", "progress line '%s' does not estimate", t.c_str()); }
      else { R.fail("P33", "progress", "progress line '%s' is not understood", t.c_str()); return; }
      if (tot >= 0 && tot < rem - 1e-9) R.fail("P33", "times", "progress line '%s' has more left than in all", t.c_str());
    }
    if (pc < 0 || pc > 100 || pc < before) R.fail("P33", "progress", "progress line '%s' follows %.2f %%", t.c_str(), before); before = pc;
    if (el >= 0 && (el > limit * 1.00001 + 0.006 || (full && el < el_before - 0.011))) R.fail("P33", "times", "progress line '%s': %.2f s have passed, before that %.2f s, the run took %.2f s", t.c_str(), el, el_before, limit); if (el >= 0) el_before = el;
  }
  if (good && !pr.empty() && before != 100) R.fail("P33", "progress", "the last progress line is '%s'", pr.back().c_str());
  if (good && !data.empty()) {
    // the same conversion through the library: the last line and the travel message say what happened
    Job q = j; q.entry = "lib"; Outcome x; bool ok; sim::Sim* keep = sim::g; convert(p, q, data, &x, &ok); sim::g = keep; const Prog& f = x.w.fin; if (!ok) return;
    if (full && !pr.empty()) {
      auto same = [&](const char* k, double v, double tol) { if (fabs(V[k] - v) > tol) R.fail("P33", "last", "the last progress line shows %s %g, the conversion has %g", k, V[k], v); else R.count["values_compared"] += 1; };
      same("gcodes_processed", f.gcodes, 0); same("current_file_line", f.lines, 0); same("points_compressed", f.points, 0); same("arcs_created", f.arcs, 0); same("arcs_aborted_by_flowrate", f.aborted, 0); same("num_firmware_compensations", f.fwcomp, 0); same("num_gcode_length_exceptions", f.lenexc, 0);
      if (!out.empty() && p.faults.empty()) { same("compression_ratio", (double)data.size() / out.size(), 0.00501); same("size_reduction", 100 * (1 - (double)out.size() / data.size()), 0.0101); }
    }
    if (info && s.travel) { bool said = o.out.find("No travel arcs converted") != string::npos, want = f.trav.cs == f.trav.ct; if (said != want) R.fail("P33", "travel", "ArcWelder%s %s that no travel arcs were converted, %d travel moves became %d", cl.c_str(), said ? "says" : "does not say", f.trav.cs, f.trav.ct); }
    if (info && o.out.find("Target File Extrusion Statistics") == string::npos) R.fail("P33", "missing", "ArcWelder%s does not show the statistics", cl.c_str());
  }
}
extern const Kind report_kinds[]; const Kind report_kinds[] = {{"report", gen_report, run_report}};
extern const int n_report_kinds; const int n_report_kinds = 1;
