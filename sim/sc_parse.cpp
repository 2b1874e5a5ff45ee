// Scenario parse: one parser and one command object take apart a long history of lines, and numbers are
// written back; everything is compared with an independent reading of each line (P31).
#include "scen.h"
#include "pos.h"
#include <ctype.h>
#include <math.h>
#include <string.h>
using std::string; using std::vector;
using sim::Rng;

// ---- reference: what a line means, written down independently of the parser
struct PRef { bool known = false, empty = true; string code, comment, text; vector<ParsedParam> params; bool has_params = false; };
static bool listed(const string& c) {
  static const vector<string> v = {"G0", "G1", "G2", "G3", "G10", "G11", "G20", "G21", "G28", "G29", "G80", "G90", "G91", "G92", "M82", "M83", "M104", "M105", "M106", "M109", "M114", "M116", "M140", "M141", "M190", "M191", "M207", "M208", "M218", "M240", "M400", "M563", "T", "@OCTOLAPSE"};
  return std::find(v.begin(), v.end(), c) != v.end();
}
static string up(string s) { for (auto& c : s) c = (char)toupper((unsigned char)c); return s; }
static string strip(const string& s) { size_t a = s.find_first_not_of(" \t\r\n\v\f"), b = s.find_last_not_of(" \t\r\n\v\f"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
static PRef read_line(const string& l, bool keep) {
  PRef r; size_t sc = l.find(';'); string b = l.substr(0, sc);
  if (sc != string::npos) for (char c : l.substr(sc + 1)) if (c != '\r' && c != '\n') r.comment += c;
  size_t i = 0; auto sp = [&]() { while (i < b.size() && b[i] == ' ') i++; };
  auto digits = [&]() { string d; while (i < b.size() && isdigit((unsigned char)b[i])) d += b[i++]; return d; };
  sp(); char k = i < b.size() ? (char)toupper((unsigned char)b[i]) : 0;
  if (k == '@') { while (i < b.size() && b[i] != ' ') r.code += (char)toupper((unsigned char)b[i++]); r.known = true; }
  else if (k == 'G' || k == 'M') {
    i++; sp(); string d = digits();
    if (!d.empty()) { size_t z = 0; while (z + 1 < d.size() && d[z] == '0') z++; r.code = string(1, k) + d.substr(z); r.known = true; if (i < b.size() && b[i] == '.') { i++; r.code += "." + digits(); } }
  } else if (k == 'T') {
    i++; size_t j = i; sp(); char t = i < b.size() ? (char)toupper((unsigned char)b[i]) : 0;
    if (isdigit((unsigned char)t)) { ParsedParam q; q.name = "T"; q.type = 'U'; q.num = strtod(digits().c_str(), nullptr); r.params.push_back(q); r.known = true; }
    else if (t == 'C' || t == 'X' || t == '?') { i++; if (strip(b.substr(i)).empty()) { ParsedParam q; q.name = "T"; q.type = 'S'; q.text = string(1, t); r.params.push_back(q); r.known = true; } }
    i = j; if (r.known) r.code = "T";
  }
  r.empty = !r.known && strip(b).empty();
  r.text = b; if (!keep) { string t = strip(b), o; for (char c : t) if ((unsigned char)c >= 32) o += c; r.text = r.code == "M117" ? o : up(o); }
  r.has_params = r.known && listed(r.code);
  if (r.has_params && r.code != "T") {
    if (r.code == "M117") { sp(); ParsedParam q; q.name = ""; q.type = 0; q.text = b.substr(i); r.params.push_back(q); }
    else {
      if (r.code == "@OCTOLAPSE") { sp(); ParsedParam q; q.type = 'N'; while (i < b.size() && b[i] != ' ') q.name += (char)toupper((unsigned char)b[i++]); if (q.name.empty()) return r; r.params.push_back(q); }
      while (true) {
        sp(); if (i >= b.size() || !isalpha((unsigned char)b[i])) break;
        ParsedParam q; q.name = string(1, (char)toupper((unsigned char)b[i++])); size_t j = i; sp();
        string n; if (i < b.size() && (b[i] == '-' || b[i] == '+')) { if (b[i] == '-') n = "-"; i++; }
        string a = digits(), f; bool dot = i < b.size() && b[i] == '.'; if (dot) { i++; f = digits(); }
        if (a.empty() && f.empty()) { i = j; sp(); q.type = 'S'; q.text = b.substr(i); i = b.size(); }
        else { q.type = 'F'; q.num = strtod((n + (a.empty() ? "0" : a) + "." + (f.empty() ? "0" : f)).c_str(), nullptr); q.precision = dot ? (int)f.size() : -1; }
        r.params.push_back(q);
      }
    }
  }
  return r;
}
// ---- generator
static Plan gen_parse(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); gen_env(p, r, 0.3); PFile f; f.path = "ops"; int n = r.chance(0.7) ? r.range(5, 60) : r.range(60, 300);
  static const vector<string> C = {"G0", "G1", "G1", "G1", "G1", "G2", "G3", "G28", "G92", "G90", "G91", "M82", "M83", "G4", "G21", "M104", "M109", "M106", "M73", "M204", "M218", "M563", "M207", "G10", "G11", "M400", "M240", "M900", "G00", "G01", "G02", "M0104", "G38.2", "M862.3", "G92.1", "G100", "M20", "G0", "M0"};
  auto num = [&]() -> string {
    int k = r.range(0, 9); string sg = r.chance(0.3) ? "-" : r.chance(0.05) ? "+" : "";
    if (k == 0) return sg + strf("%d", r.range(0, 9)); if (k == 1) return sg + (r.chance(0.1) ? strf("%d%s", r.range(250000, 2000000000), r.chance(0.3) ? ".25" : "") : strf("%d", r.range(0, 250000))); if (k == 2) return sg + strf(".%d", r.range(0, 99999)); if (k == 3) return sg + strf("%d.", r.range(0, 300));
    if (k == 4) return sg + strf("00%d.%02d", r.range(0, 99), r.range(0, 99)); if (k == 5) return sg + strf("%.*f", r.range(6, 12), r.uni(0, 1000)); if (k == 6) return sg + strf("0.%0*d", r.range(4, 9), r.range(0, 99)); return sg + strf("%.*f", r.range(1, 5), r.uni(0, 400));
  };
  bool dense = r.chance(0.3);
  for (int i = 0; i < n; i++) {
    if (r.chance(0.15)) {       // write a number
      double m = pow(10, r.range(-7, 9)), x = r.uni(-1, 1) * m; int pr = r.range(0, 7); if (r.chance(0.4)) { double q = pow(10, r.range(0, 7)); x = round(x * q) / q; } else if (r.chance(0.3)) { double q = pow(10, pr); x = (floor(x * q) + 0.5) / q; } else if (r.chance(0.2)) { double q = pow(10, r.range(0, 9)); x = (r.chance(0.5) ? 1 : -1) * (q - r.uni(0, 2) * pow(10, -pr)); } else if (r.chance(0.1)) x = r.pick(vector<double>{0, 0.5, 9.5, 99.95, 9.9999999, 0.95, -0.05, 1, 10, 100, 1000, 4294967295.0, 2147483647.5});
      f.lines.push_back(strf("d %d %a", pr, x)); continue;
    }
    string l; int k = r.range(0, 19);
    if (k == 0) l = ""; else if (k == 1) l = string(r.range(0, 3), ' ') + string(r.range(0, 2), '\t'); else if (k == 2) l = "T" + string(r.chance(0.2) ? " " : "") + strf("%d", r.chance(0.8) ? r.range(0, 7) : r.chance(0.2) ? 2000000000 + r.range(0, 147000000) : r.range(0, 999999)) + (r.chance(0.03) ? "0" : ""); else if (k == 3) l = r.pick(vector<string>{"Tc", "TX", "T?", "Tx ", "t0", "T", "T-1", "T c", "TC now", "Tool"});
    else if (k == 4) l = r.pick(vector<string>{"M117 Hello world", "m117 printing X10 Y20 *", "M117", "M117   5 min left ", "M117 a;b", "M117 Layer 3/120"}) + (r.chance(0.1) ? string(r.range(50, 900), 'q') : ""); else if (k == 5) l = r.pick(vector<string>{"@OCTOLAPSE TAKE-SNAPSHOT", "@octolapse take-snapshot X5", "@pause", "@Custom abc def", "@OCTOLAPSE", "@octolapse  stop-timelapse "});
    else if (k == 6) l = r.pick(vector<string>{"%", "(note)", "N10 G1 X5", "X10 Y10", "G", "M", "g", "*71", "O100", "$H", "/G1 X1", "$$", "{if}", "1 2 3", "START_PRINT BED_TEMP=60 EXTRUDER_TEMP=210", "EXCLUDE_OBJECT_DEFINE NAME=cube_id_0_copy_0 CENTER=124.9,109.7"}); if (k == 6 && r.chance(0.05)) l += string(r.range(50, 900), 'k');
    else {
      l = r.pick(C); if (l.find('.') == string::npos && r.chance(0.04)) l += strf(".%d", r.range(0, 120)); if (r.chance(0.1)) l.insert(1, r.chance(0.7) ? "0" : "00"); if (r.chance(0.15)) for (auto& c : l) c = (char)tolower((unsigned char)c); if (r.chance(0.03)) l.insert(1, " ");
      int w = r.range(0, r.chance(0.05) ? 14 : 6); bool low = r.chance(0.15);
      for (int j = 0; j < w; j++) {
        char c = r.chance(0.8) ? "XYZEFIJRS"[r.below(9)] : (char)('A' + r.below(26)); if (low) c = (char)tolower(c);
        l += dense && r.chance(0.8) ? "" : string(r.chance(0.9) ? 1 : r.range(2, 4), ' '); l += c; if (r.chance(0.04)) l += " "; bool flag = r.chance(0.04); if (!flag) l += num(); }
      if (dense && l.size() > 2 && isdigit((unsigned char)l.back())) {} if (r.chance(0.03)) l += " *" + strf("%d", r.range(0, 255));
    }
    if (r.chance(0.1)) l = string(r.range(1, 4), ' ') + l; if (r.chance(0.1)) l += string(r.range(1, 3), ' ');
    if (r.chance(0.25)) l += ";" + r.pick(vector<string>{"", " comment", "perimeter", " a;b ;c", " X10 Y20", "TYPE:FILL", " \xc3\xa9t\xc3\xa9", "   ", "\t tab", " filament used [mm] = 1234.5 (of which 12.5 for the wipe tower)"}) + (r.chance(0.06) ? string(r.range(50, 900), 'c') : ""); if (r.chance(0.04) && (k != 3)) l += "\r";
    f.lines.push_back((r.chance(0.75) ? "p " : r.chance(0.5) ? "n " : "f ") + l);
  }
  p.files.push_back(f); return p;
}
static string show(const string& s) { string o; for (unsigned char c : s) o += c < 32 || c > 126 ? strf("\\x%02x", c) : string(1, (char)c); return o; }
static void run_parse_plan(const Plan& p, Report& R) {
  vector<ParseOp> ops; for (auto& l : p.files.empty() ? vector<string>() : p.files[0].lines) { if (l.size() < 2 || !strchr("pnfd", l[0])) continue; ParseOp o; o.kind = l[0]; if (l[0] == 'd') { o.precision = atoi(l.c_str() + 2); const char* q = strchr(l.c_str() + 2, ' '); if (!q) continue; o.x = strtod(q, nullptr); if (o.precision < 0 || o.precision > 7 || !(fabs(o.x) <= 1e12)) continue; } else o.line = l.substr(2); ops.push_back(o); }
  sim::Sim s(cfg_of(p)); vector<ParseRes> out; s.spawn("parse", [&]() -> int { run_parse(ops, out); return 0; }); s.run();
  for (auto& q : out) { s.trace_hash = sim::mix(s.trace_hash, tag(q.code + "|" + q.text + "|" + q.comment)); for (auto& x : q.params) s.trace_hash = sim::mix(s.trace_hash, tag(x.name + strf("%.17g", x.num) + x.text)); }
  R.absorb(s);
  if (s.procs[0]->threw || s.procs[0]->crashed || out.size() != ops.size()) { R.fail("P31", "threw", "the parser ends with an exception (%s)", s.procs[0]->what.c_str()); return; }
  long lines = 0, nums = 0, params = 0; uint64_t h = 3;
  for (size_t k = 0; k < ops.size(); k++) {
    const ParseOp& o = ops[k]; const ParseRes& a = out[k];
    if (o.kind == 'd') {
      nums++; string at = strf("%.17g with %d decimals is written as '%s'", o.x, o.precision, show(a.text).c_str()); const string& t = a.text; size_t i = t.size() && t[0] == '-' ? 1 : 0, j = i; while (j < t.size() && isdigit((unsigned char)t[j])) j++; bool ok = j > i; size_t dec = 0;
      if (j < t.size() && t[j] == '.') { size_t e = ++j; while (j < t.size() && isdigit((unsigned char)t[j])) j++; dec = j - e; ok &= dec > 0; } ok &= j == t.size(); double y = strtod(t.c_str(), nullptr);
      if (!ok) { R.fail("P31", "number", "%s, which is not a plain decimal number", at.c_str()); return; }
      if (fabs(y - o.x) > 0.5 * pow(10, -o.precision) * (1 + 1e-7) + fabs(o.x) * 4e-16) { R.fail("P31", "number", "%s, which is not the nearest such number", at.c_str()); return; }
      if (dec > (size_t)o.precision || (dec < (size_t)o.precision && o.x != 0)) { R.fail("P31", "number", "%s", at.c_str()); return; }
      continue;
    }
    lines++; PRef r = read_line(o.line, o.kind != 'n'); string at = "line '" + show(o.line) + "' (step " + std::to_string(k + 1) + ")";
    bool ascii = true; for (unsigned char c : o.line) ascii &= c < 128;
#define BAD(...) { R.fail("P31", "parse", "%s: %s", at.c_str(), strf(__VA_ARGS__).c_str()); return; }
    if (a.known != r.known) BAD("is %sread as a command", r.known ? "not " : "")
    if (a.code != r.code) BAD("command is '%s' instead of '%s'", show(a.code).c_str(), r.code.c_str())
    if (a.comment != r.comment) BAD("comment is '%s' instead of '%s'", show(a.comment).c_str(), show(r.comment).c_str())
    if (a.empty != r.empty) BAD("is %staken for an empty line", r.empty ? "not " : "")
    if ((o.kind != 'n' || ascii) && a.text != r.text) BAD("text is '%s' instead of '%s'", show(a.text).c_str(), show(r.text).c_str())
    string whole = r.text + (r.comment.empty() ? "" : ";" + r.comment); if (o.kind != 'n' && a.whole != whole) BAD("is given back as '%s'", show(a.whole).c_str())
    if (r.has_params || !r.known) {
      if (!r.known && !a.params.empty()) BAD("has %zu parameters", a.params.size())
      if (a.params.size() != r.params.size()) BAD("has %zu parameters instead of %zu", a.params.size(), r.params.size())
      for (size_t i = 0; i < r.params.size(); i++) {
        const ParsedParam &x = a.params[i], &y = r.params[i]; params++;
        if (y.type == 0) { if (x.text != y.text) BAD("text parameter is '%s' instead of '%s'", show(x.text).c_str(), show(y.text).c_str()) continue; }
        if (x.name != y.name) BAD("parameter %zu is named '%s' instead of '%s'", i + 1, show(x.name).c_str(), y.name.c_str())
        if (x.type != y.type) BAD("parameter %s is of type '%c' instead of '%c'", y.name.c_str(), x.type, y.type)
        if (y.type == 'S' && x.text != y.text) BAD("parameter %s is '%s' instead of '%s'", y.name.c_str(), show(x.text).c_str(), show(y.text).c_str())
        if ((y.type == 'F' || y.type == 'U') && fabs(x.num - y.num) > fabs(y.num) * 1e-13) BAD("parameter %s is %.17g instead of %.17g", y.name.c_str(), x.num, y.num)
        if (y.type == 'F' && y.precision >= 0 && x.precision != y.precision) BAD("parameter %s has %d decimals instead of %d", y.name.c_str(), x.precision, y.precision)
      }
    }
    h = sim::mix(h, tag(r.code) * 31 + r.params.size());
  }
  R.nontrivial = params > 0; R.count["lines_parsed"] += lines; R.count["parameters"] += params; R.count["numbers_written"] += nums; R.states.push_back(h);
}
extern const Kind parse_kinds[]; const Kind parse_kinds[] = {{"parse", gen_parse, run_parse_plan}};
extern const int n_parse_kinds; const int n_parse_kinds = 1;
