// Scenario cli: both command line programs, driven with valid and invalid
// argument vectors, judged by an independent description of their options.
#include "scen.h"
#include <math.h>
#include <string.h>
#include <algorithm>
#include <regex>
using std::string; using std::vector;
using sim::Rng; using namespace model;

// ------------------------------------------------------------------ reference description of the options
struct Opt { char s; const char* l; char type; };    // type: d double, i int, u unsigned, b switch, p progress, g log level, f firmware, v version, t TRUE/FALSE/DEFAULT
static const Opt W_OPTS[] = {{'r', "resolution-mm", 'd'}, {'t', "path-tolerance-percent", 'd'}, {'m', "max-radius-mm", 'd'}, {'z', "allow-3d-arcs", 'b'}, {'y', "allow-travel-arcs", 'b'}, {'d', "allow-dynamic-precision", 'b'},
  {'x', "default-xyz-precision", 'u'}, {'e', "default-e-precision", 'u'}, {'s', "mm-per-arc-segment", 'd'}, {'a', "min-arc-segments", 'i'}, {'v', "extrusion-rate-variance-percent", 'd'}, {'c', "max-gcode-length", 'i'},
  {'g', "g90-influences-extruder", 'b'}, {'p', "progress-type", 'p'}, {'l', "log-level", 'g'}, {'h', "help", 'H'}, {0, "version", 'H'}, {0, nullptr, 0}};
static const Opt S_OPTS[] = {{'f', "firmware-type", 'f'}, {'v', "firmware-version", 'v'}, {'g', "g90-g91-influences-extruder", 't'}, {'m', "mm-per-arc-segment", 'd'}, {'d', "max-arc-segment-mm", 'd'}, {'i', "arc-segments-per-r", 'd'}, {'n', "min-mm-per-arc-segment", 'd'},
  {'b', "min-arc-segment-mm", 'd'}, {'r', "min-arc-segments", 'i'}, {'a', "min-circle-segments", 'i'}, {'c', "n-arc-correction", 'i'}, {'s', "arc-segments-per-sec", 'd'}, {'e', "mm-max-arc-error", 'd'}, {'l', "log-level", 'g'}, {'p', "print-firmware-defaults", 'b'},
  {'h', "help", 'H'}, {0, "version", 'H'}, {0, nullptr, 0}};
static const vector<string> LEVELS = {"NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"}, PROGRESS = {"NONE", "SIMPLE", "FULL"};
static const std::map<string, vector<string>> FW = {{"MARLIN_1", {"LATEST_RELEASE", "1.1.9.1"}}, {"MARLIN_2", {"LATEST_RELEASE", "2.0.9.1", "2.0.9.2"}}, {"PRUSA", {"LATEST_RELEASE", "3.10.0", "3.11.0"}}, {"REPETIER", {"LATEST_RELEASE", "1.0.4", "1.0.5"}}, {"SMOOTHIEWARE", {"LATEST_RELEASE", "2021-06-19"}}};
static bool in(const vector<string>& v, const string& s) { return std::find(v.begin(), v.end(), s) != v.end(); }
static bool is_num(const string& v, bool integer) { static const std::regex d("[-+]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][-+]?[0-9]+)?"), i("[-+]?[0-9]+"); return std::regex_match(v, integer ? i : d); }

struct Parsed { bool help = false, ok = true; string why; std::map<char, string> o; vector<string> pos; };
static Parsed parse_args(const vector<string>& a, const Opt* opts) {
  Parsed p; auto bad = [&](const string& w) { if (p.ok) { p.ok = false; p.why = w; } };
  for (auto& s : a) {
    if (s.empty() || s[0] != '-' || s == "-") { p.pos.push_back(s); continue; }
    size_t eq = s.find('='); string name = s.substr(0, eq), val = eq == string::npos ? "" : s.substr(eq + 1); const Opt* m = nullptr;
    for (const Opt* o = opts; o->l; o++) if ((name.size() == 2 && o->s && name[1] == o->s) || name == string("--") + o->l) m = o;
    if (!m) { bad("unknown option " + name); continue; }
    if (m->type == 'H') { if (p.ok) p.help = true; return p; }
    if (p.o.count(m->s)) bad("option given twice: " + name);
    if (m->type == 'b') { if (eq != string::npos) bad("switch with a value"); p.o[m->s] = "1"; continue; }
    if (eq == string::npos) { bad("option without value"); continue; }
    p.o[m->s] = val;
    switch (m->type) {
      case 'd': if (!is_num(val, false)) bad("not a number: " + s); break;
      case 'i': case 'u': if (!is_num(val, true)) bad("not an integer: " + s); break;
      case 'p': if (!in(PROGRESS, val)) bad("progress type"); break;
      case 'g': if (!in(LEVELS, val)) bad("log level"); break;
      case 'f': if (!FW.count(val)) bad("firmware type"); break;
      case 't': if (val != "TRUE" && val != "FALSE" && val != "DEFAULT") bad("g90 value"); break;
    }
  }
  if (p.pos.size() > 2) bad("too many paths");
  return p;
}
static double dv(const Parsed& p, char c, double d) { auto i = p.o.find(c); return i == p.o.end() ? d : strtod(i->second.c_str(), nullptr); }
static bool weld_valid(Parsed& p, Settings* s) {
  auto bad = [&](const string& w) { if (p.ok) { p.ok = false; p.why = w; } };
  s->resolution = dv(p, 'r', 0.05); s->path_tolerance = dv(p, 't', 0.05); s->max_radius = dv(p, 'm', 9999); s->mm_per_arc_segment = dv(p, 's', 0); s->rate_variance = dv(p, 'v', 0.05);
  double a = dv(p, 'a', 0), x = dv(p, 'x', 3), e = dv(p, 'e', 5), c = dv(p, 'c', 0);
  s->g90e = p.o.count('g'); s->arcs3d = p.o.count('z'); s->travel = p.o.count('y'); s->dynamic = p.o.count('d');
  if (s->resolution <= 0) bad("resolution"); if (s->path_tolerance <= 0 || s->path_tolerance >= 1) bad("path tolerance"); if (s->max_radius <= 0) bad("max radius");
  if (s->mm_per_arc_segment < 0) bad("mm per arc segment"); if (a < 0) bad("min arc segments"); if ((s->mm_per_arc_segment > 0) != (a > 0)) bad("one of -s and -a only");
  if (x < 3 || x > 6) bad("xyz precision"); if (e < 3 || e > 6) bad("e precision"); if (s->rate_variance < 0) bad("rate variance"); if (c < 0 || (c > 0 && c < 31)) bad("max gcode length");
  for (double q : {a, x, e, c}) if (fabs(q) > 2147483647.0) bad("integer range");
  s->min_arc_segments = (int)a; s->xyz_precision = (int)x; s->e_precision = (int)e; s->max_gcode_length = (int)c;
  if (p.pos.empty()) bad("no source");
  return p.ok;
}
static bool straight_valid(Parsed& p) {
  auto bad = [&](const string& w) { if (p.ok) { p.ok = false; p.why = w; } };
  string fw = p.o.count('f') ? p.o['f'] : "MARLIN_2", v = p.o.count('v') ? p.o['v'] : "LATEST_RELEASE";
  if (!FW.count(fw) || !in(FW.at(fw), v)) { bad("firmware version"); return false; }
  if (p.o.count('p')) { for (auto& o : p.o) if (!strchr("fvp", o.first)) bad("print defaults with other options"); if (!p.pos.empty()) bad("print defaults with a path"); return p.ok; }
  string used = fw == "MARLIN_1" ? "mcg" : fw == "MARLIN_2" ? (v == "2.0.9.2" ? "bdascg" : "mirscg") : fw == "PRUSA" ? (v == "3.11.0" ? "mrncg" : "mcg") : fw == "REPETIER" ? "mcg" : "mecg";
  for (auto& o : p.o) if (!strchr("fvlp", o.first) && used.find(o.first) == string::npos) bad(string("option -") + o.first + " does not apply to the firmware");
  for (auto& o : p.o) if (!strchr("fvlpg", o.first) && strtod(o.second.c_str(), nullptr) < 0) bad(string("option -") + o.first + " is negative");
  if (p.pos.empty()) bad("no source");
  return p.ok;
}
// ------------------------------------------------------------------ generator
static string value_for(Rng& r, const Opt& o, bool wrong, bool weld) {
  auto num = [&](double a, double b) { string s = strf("%.*f", r.range(1, 4), r.uni(a, b)); return s; };
  static const vector<string> junk = {"", "abc", "1.5x", "--", "0,05", "1 2", "nan", "=", " "};
  if (wrong && r.chance(0.3)) { if (strchr("dui", o.type)) return r.pick(junk); return r.chance(0.5) ? "" : "BOGUS"; }
  if (weld) switch (o.s) {
    case 'r': { if (wrong) { static const vector<string> v = {"0", "-0.1", "0.0", "-1e-9"}; return r.pick(v); } return r.chance(0.1) ? "1e-2" : num(0.005, 0.3); }
    case 't': { if (wrong) { static const vector<string> v = {"0", "1", "1.0", "-0.05", "1.5", "2"}; return r.pick(v); } static const vector<string> v = {"0.05", "0.01", "0.25", "0.5", "0.0001", "0.999", ".1"}; return r.pick(v); }
    case 'm': { if (wrong) { static const vector<string> v = {"0", "-5", "-0.01"}; return r.pick(v); } static const vector<string> v = {"9999", "50", "2000000", "3.5", "1e3"}; return r.pick(v); }
    case 'x': case 'e': { if (wrong) { static const vector<string> v = {"2", "7", "0", "-1", "1", "255", "259", "260", "3.5", "261", "-253", "262"}; return r.pick(v); } return strf("%d", r.range(3, 6)); }
    case 's': if (wrong) return r.chance(0.5) ? "-0.5" : "-1"; return r.chance(0.1) ? r.pick(vector<string>{"0.001", "1e-5", "1", "100"}) : num(0.2, 2);
    case 'a': if (wrong) return r.chance(0.5) ? (r.chance(0.5) ? "-5" : "-1") : r.chance(0.5) ? "2.5" : "2147483648"; return strf("%d", r.chance(0.15) ? r.range(1, 4) : r.range(5, 60));
    case 'v': { if (wrong) return r.chance(0.5) ? "-0.01" : "-1"; static const vector<string> v = {"0", "0.05", "0.2", "1", "0.01"}; return r.pick(v); }
    case 'c': { if (wrong) { static const vector<string> v = {"30", "1", "-1", "-31", "10", "31.5"}; return r.pick(v); } static const vector<string> v = {"0", "31", "40", "55", "100"}; return r.pick(v); }
    case 'p': return wrong ? r.pick(vector<string>{"Simple", "SIM", "NONE_", "FULL "}) : r.pick(PROGRESS);
    case 'l': return wrong ? r.pick(vector<string>{"info", "INF", "DEBUGS", "ERR", " INFO"}) : r.pick(LEVELS);
  }
  switch (o.type) {
    case 'd': return wrong ? (r.chance(0.4) ? r.pick(vector<string>{"-1", "-0.5", "-1e-9", "-100"}) : r.pick(junk)) : num(0.2, 2);
    case 'i': return wrong ? (r.chance(0.4) ? r.pick(vector<string>{"-1", "-25", "-300"}) : r.chance(0.5) ? "2.5" : r.pick(junk)) : strf("%d", r.chance(0.1) ? r.range(1, 4) : r.range(5, 40));
    case 'g': return wrong ? r.pick(vector<string>{"trace", "INF", "VERBOSE_", "E", "NOSE"}) : r.pick(LEVELS);
    case 't': return wrong ? "true" : r.chance(0.5) ? "TRUE" : r.chance(0.5) ? "FALSE" : "DEFAULT";
    case 'f': { if (wrong) return r.pick(vector<string>{"MARLIN", "marlin_2", "MARLIN_", "MARLIN_22", "PRUS", "REPETIER ", "SMOOTHIE"}); static const vector<string> f = {"MARLIN_1", "MARLIN_2", "PRUSA", "REPETIER", "SMOOTHIEWARE"}; return r.pick(f); }
    case 'v': { if (wrong) return r.pick(vector<string>{"9.9.9", "latest", "LATEST", "LATEST_RELEASES", "2.0.9", "2.0.9.", "2.0.9.11", "2", "3.1", "3.11", "1.0", "1.0.", "1.1.9", "2021", "2021-06-1", "v2.0.9.1", " 2.0.9.1", "2.0.9.1 ", "0"}); return "LATEST_RELEASE"; }
  }
  return "1";
}
static Plan gen_cli(const string& prop, uint64_t seed, int) {
  Plan p; Rng r(seed); bool weld = prop == "P23" ? true : prop == "P11" ? r.chance(0.6) : r.chance(0.5); p.set("entry", weld ? "cli" : "straight");
  const Opt* opts = weld ? W_OPTS : S_OPTS; int no = 0; while (opts[no].l) no++;
  vector<string> a; std::set<char> used; double dens = r.chance(0.2) ? 0 : r.uni(0.1, 0.6); bool err = prop == "P23" ? false : r.chance(0.5);
  auto text = [&](const Opt& o, const string& v) { string n = o.s && !r.chance(0.35) ? string("-") + o.s : string("--") + o.l; return o.type == 'b' || o.type == 'H' ? n : n + "=" + v; };
  string fw = "MARLIN_2", allowed;
  if (!weld) {
    static const char* V[][3] = {{"MARLIN_1", "1.1.9.1", "mcg"}, {"MARLIN_2", "2.0.9.1", "mirscg"}, {"MARLIN_2", "2.0.9.2", "bdascg"}, {"PRUSA", "3.10.0", "mcg"}, {"PRUSA", "3.11.0", "mrncg"}, {"REPETIER", "1.0.4", "mcg"}, {"REPETIER", "1.0.5", "mcg"}, {"SMOOTHIEWARE", "2021-06-19", "mecg"}};
    int k = r.range(0, 7); allowed = string(V[k][2]) + "l"; a.push_back(text(S_OPTS[0], V[k][0])); a.push_back(text(S_OPTS[1], V[k][1]));
  }
  for (int i = 0; i < no; i++) {
    const Opt& o = opts[i]; if (o.type == 'H' || !r.chance(dens)) continue;
    if (!weld && allowed.find(o.s) == string::npos) continue;
    if (weld && (o.s == 's' || o.s == 'a')) continue;
    a.push_back(text(o, value_for(r, o, false, weld)));
  }
  if (weld && r.chance(0.3)) { a.push_back(text(W_OPTS[8], value_for(r, W_OPTS[8], false, true))); a.push_back(text(W_OPTS[9], value_for(r, W_OPTS[9], false, true))); }
  for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[r.below(i)]);
  string mode = MODES[r.below(r.chance(0.7) ? 4 : N_MODES)]; p.set("mode", mode);
  if (err) {
    int k = r.range(0, weld ? 10 : 9); const Opt& o = opts[r.below(no)];
    auto put = [&](const string& s) { a.insert(a.begin() + r.below(a.size() + 1), s); };
    if (k <= 4) { string v = text(o, value_for(r, o, true, weld)); if (o.type == 'b' && r.chance(0.5)) v += "=1"; bool replaced = false; for (auto& x : a) if ((o.s && x.size() > 1 && x[0] == '-' && x[1] == o.s) || x.rfind(string("--") + o.l, 0) == 0) { x = v; replaced = true; break; } if (!replaced) put(v); }
    else if (k == 5 && !a.empty()) put(r.pick(a));                                       // twice
    else if (k == 6) { static const vector<string> u = {"-q", "--bogus", "--bogus=3", "-k=5", "--resolution=0.1", "-Z", "--Help", "---r=1"}; put(r.pick(u)); }
    else if (k == 10) { const Opt& h = W_OPTS[r.range(8, 9)]; for (size_t i = a.size(); i-- > 0;) for (const char* n : {"-s=", "-a=", "--mm-per", "--min-arc"}) if (a[i].rfind(n, 0) == 0) { a.erase(a.begin() + i); break; } put(text(h, value_for(r, h, false, true))); if (r.chance(0.3)) put(text(W_OPTS[17 - (&h - W_OPTS)], "0")); }   // one half of the firmware compensation
    else if (k == 7) p.set("paths", r.chance(0.5) ? "none" : "three");
    else if (k == 8) p.set("paths", r.chance(0.5) ? "missing" : "missing_dir");
    else { if (!o.s || o.type == 'b' || o.type == 'H') put("-r"); else put(r.chance(0.5) ? string("-") + o.s : string("--") + o.l); }           // no value
  } else if (prop == "P11" && r.chance(0.08)) { a.clear(); a.push_back(r.chance(0.5) ? "--version" : r.chance(0.5) ? "--help" : "-h"); }
  else if (prop == "P11" && !weld && r.chance(0.1)) { a.clear(); if (r.chance(0.7)) a.push_back("-f=" + r.pick(vector<string>{"MARLIN_1", "MARLIN_2", "PRUSA", "REPETIER", "SMOOTHIEWARE"})); if (r.chance(0.3)) a.push_back("-v=LATEST_RELEASE"); a.push_back(r.chance(0.5) ? "-p" : "--print-firmware-defaults"); if (r.chance(0.7)) p.set("paths", "none"); }
  string t; for (auto& x : a) t += (t.empty() ? "" : "\x1f") + x; p.set("args", t);
  PFile f; f.path = "in"; Settings s; { Parsed q = parse_args(a, opts); if (weld) weld_valid(q, &s); }
  if (weld) { gen::Profile pr; pr.lines = r.range(6, 150); f.lines = gen::program(r, s, pr); } else f.lines = gen::arc_program(r, r.range(6, 60), true, false);
  gen::wild(r, f.lines, 0.15); p.files.push_back(f); gen_env(p, r, 0.4);
  return p;
}
// ------------------------------------------------------------------ run
static void run_cli(const Plan& p, Report& R) {
  string entry = p.get("entry", "cli"), mode = p.get("mode", "sep"), paths = p.get("paths"); bool weld = entry == "cli"; Names n = names(mode, entry); string data = p.files[0].data();
  vector<string> a = split_args(p.get("args"));
  if (paths == "three") { a.push_back(n.src); a.push_back("/sim/w/out.gcode"); a.push_back("/sim/w/third.gcode"); }
  else if (paths == "missing") { a.push_back("/sim/w/absent.gcode"); a.push_back("/sim/w/out.gcode"); }
  else if (paths == "missing_dir") { a.push_back("/sim/nowhere/absent.gcode"); }
  else if (paths != "none") { a.push_back(n.src); if (!n.tgt.empty()) a.push_back(n.tgt); }
  Parsed q = parse_args(a, weld ? W_OPTS : S_OPTS); Settings s; bool valid = q.help || (weld ? weld_valid(q, &s) : straight_valid(q));
  if (valid && !q.help && paths.rfind("missing", 0) == 0) { valid = false; q.why = "no such source file"; }
  bool quiet = q.help || (!weld && q.o.count('p'));      // answers without converting anything
  // an option value that looks like a path ("--" or " ") is outside the description above
  for (auto& x : a) if (x == "--" || x.find(' ') != string::npos || x.rfind("---", 0) == 0 || (x.size() > 2 && x[0] == '-' && x[1] != '-' && x.find('=') == string::npos)) return;
  if (quiet && !valid) { }
  sim::Sim S(cfg_of(p)); place(S, mode, n, data); std::map<string, string> before; for (auto& f : S.list()) before[f] = S.get(f);
  int code = -1; vector<string> copy = a; int id = S.spawn(entry, [&]() -> int { return weld ? cli_weld(copy) : cli_straighten(copy); }); S.run(); sim::Proc& P = *S.procs[id]; R.absorb(S); code = P.exit_code;
  string cl; for (auto& x : a) cl += " " + x;
  R.nontrivial = true; R.count[valid ? (quiet ? "informational" : "valid_command_lines") : "invalid_command_lines"] += 1; { string ks; for (auto& o : q.o) ks += o.first; R.states.push_back(tag(entry + ks + (valid ? "ok" : q.why))); }
  if (P.crashed || P.threw) { R.fail("P11", "died", "%s%s dies%s %s", weld ? "ArcWelder" : "ArcStraightener", cl.c_str(), P.threw ? " with an exception" : "", P.what.c_str()); return; }
  std::map<string, string> after; for (auto& f : S.list()) after[f] = S.get(f);
  if (!valid) {
    if (code == 0) R.fail("P11", "accepted", "%s%s is accepted although it is invalid (%s)", weld ? "ArcWelder" : "ArcStraightener", cl.c_str(), q.why.c_str());
    if (before != after) R.fail("P11", "touched", "%s%s is invalid (%s) but files are changed", weld ? "ArcWelder" : "ArcStraightener", cl.c_str(), q.why.c_str());
    if (code != 0 && P.out.empty()) R.fail("P11", "silent", "%s%s is refused without any message", weld ? "ArcWelder" : "ArcStraightener", cl.c_str());
    return;
  }
  if (code != 0) { R.fail("P11", "refused", "%s%s ends with status %d although it is valid: %s", weld ? "ArcWelder" : "ArcStraightener", cl.c_str(), code, P.out.substr(0, 300).c_str()); return; }
  if (quiet) { if (before != after) R.fail("P11", "touched", "%s%s changes files", weld ? "ArcWelder" : "ArcStraightener", cl.c_str()); if (P.out.empty()) R.fail("P11", "silent", "%s%s prints nothing", weld ? "ArcWelder" : "ArcStraightener", cl.c_str()); return; }
  string tgt = S.get(S.resolve(n.ptgt)); if (!S.exists(S.resolve(n.ptgt)) || tgt.empty()) { R.fail("P11", "nothing", "status 0 but there is no output"); return; }
  if (!n.alias && S.get(S.resolve(n.src)) != data) R.fail("P04", "source", "the source was changed");
  string lv = q.o.count('l') ? q.o['l'] : "INFO"; bool info = lv != "WARNING" && lv != "ERROR" && lv != "CRITICAL";
  if ((P.out.find(" - INFO - ") != string::npos) != info) R.fail("P23", "log", "log level %s: informational messages are %s", lv.c_str(), info ? "missing" : "printed");
  if (weld) {
    string pt = q.o.count('p') ? q.o['p'] : "SIMPLE"; bool shown = P.out.find("Progress: ") != string::npos;
    if (shown != (pt != "NONE")) R.fail("P23", "progress", "progress type %s: progress is %s", pt.c_str(), shown ? "shown" : "not shown");
    auto warned = [&](const char* what, bool want, double v) { if ((P.out.find(what) != string::npos) != want) R.fail("P23", "warning", "ArcWelder%s: the warning '%s' is %s although the value is %g", cl.c_str(), what, want ? "missing" : "printed", v); };
    warned("max radius of", s.max_radius > 1000000, s.max_radius); warned("is greater than 0.25", s.path_tolerance > 0.25, s.path_tolerance); warned("is less than 0.001", s.path_tolerance < 0.001, s.path_tolerance);
    // the same conversion through the library, with the settings the options stand for
    Job j; j.entry = "lib"; j.s = s; Outcome o; bool ok; sim::Sim* keep = sim::g; string ref = convert(p, j, data, &o, &ok); sim::g = keep;
    if (!ok) { R.fail("P23", "failed", "the library refuses settings the program accepts:%s", cl.c_str()); return; }
    if (ref != tgt) { vector<string> x = split_lines(ref), y = split_lines(tgt); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++; R.fail("P23", "settings", "ArcWelder%s writes '%s' on line %zu, the conversion with these settings has '%s'", cl.c_str(), i < y.size() ? y[i].c_str() : "(end)", i + 1, i < x.size() ? x[i].c_str() : "(end)"); }
  }
}
extern const Kind cli_kinds[]; const Kind cli_kinds[] = {{"cli", gen_cli, run_cli}};
extern const int n_cli_kinds; const int n_cli_kinds = 1;
