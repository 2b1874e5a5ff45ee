// Scenarios log and levels: the messages of the library's logger over a random history of levels and messages,
// and what both programs print at two log levels (P32).
#include "scen.h"
#include "pos.h"
#include <math.h>
#include <string.h>
#include <time.h>
using std::string; using std::vector;
using sim::Rng;
static const char* LV[] = {"NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"};
static const int LVV[] = {0, 5, 10, 20, 30, 40, 50};
static const int N_LV = 7;
static string show(const string& s) { string o; for (unsigned char c : s) o += c < 32 || c > 126 ? strf("\\x%02x", c) : string(1, (char)c); return o; }
// ---- the logger
static Plan gen_log(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); gen_env(p, r, 0.5); int k = r.range(1, 4); p.set("loggers", (long)k);
  if (r.chance(0.2)) p.set("cpu", (long)(r.uni() < 0.5 ? r.range(0, 2000000) : r.range(2000000, 100000000)));      // seconds of processor time used before: a program that has been running for long
  PFile f; f.path = "ops"; int n = r.chance(0.7) ? r.range(5, 50) : r.range(50, 250);
  for (int i = 0; i < n; i++) {
    int t = r.range(0, k - 1), l = r.range(0, 6), w = r.range(0, 19); string m;
    if (w < 9) { int q = r.range(0, 8); m = q == 0 ? "" : q == 1 ? string(r.range(1, r.chance(0.1) ? 60000 : 3000), 'x') : q == 2 ? "50%s done %d%n" : q == 3 ? "a - b - INFO - c" : q == 4 ? "two\\nlines" : q == 5 ? r.pick(vector<string>{"a\tb", "\xc3\xa9t\xc3\xa9", "\xff\xfe", "{}", "\\ \"q\"", "  padded  "}) : strf("message %d of %s", i, LV[l]); f.lines.push_back(strf("m %d %d ", t, l) + m); }
    else if (w < 11) f.lines.push_back(strf("x %d 0 exception %d", t, i) + (r.chance(0.2) ? string(r.range(40, 2000), 'e') : ""));
    else if (w < 13) f.lines.push_back(strf("L %d %d ", t, l));
    else if (w < 14) f.lines.push_back(strf("l 0 %d ", l));
    else if (w < 16) f.lines.push_back(strf("V %d %d ", t, r.chance(0.9) ? LVV[l] : r.range(0, 60)));
    else if (w < 17) f.lines.push_back(strf("v 0 %d ", r.chance(0.9) ? LVV[l] : r.range(0, 60)));
    else if (w < 18) f.lines.push_back(strf("q %d 0 ", r.chance(0.9) ? t : 9));
    else f.lines.push_back(strf("e %d %d ", t, l));
  }
  p.files.push_back(f); return p;
}
static bool stamp(const string& s, int* v) {
  static const char* F = "dddd-dd-dd dd:dd:dd.ddd"; if (s.size() < 23) return false;
  for (int i = 0; i < 23; i++) if (F[i] == 'd' ? !isdigit((unsigned char)s[i]) : s[i] != F[i]) return false;
  return sscanf(s.c_str(), "%d-%d-%d %d:%d:%d", v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6;
}
static void run_log_plan(const Plan& p, Report& R) {
  vector<LogOp> ops; int k = (int)p.num("loggers", 1); if (k < 1 || k > 8) return; vector<string> names; for (int i = 0; i < k; i++) names.push_back(strf("part.%d", i));
  for (auto& l : p.files.empty() ? vector<string>() : p.files[0].lines) {
    LogOp o; char c = 0; int used = 0; if (sscanf(l.c_str(), "%c %d %d%n", &c, &o.type, &o.level, &used) != 3 || !strchr("mxLlVvqe", c)) continue;
    o.kind = c; o.text = used + 1 < (int)l.size() ? l.substr(used + 1) : ""; size_t nl; while ((nl = o.text.find("\\n")) != string::npos) o.text.replace(nl, 2, "\n");
    if (strchr("mxLVe", c) && (o.type < 0 || o.type >= k)) continue; if (strchr("mLle", c) && (o.level < 0 || o.level > 6)) continue; ops.push_back(o);
  }
  sim::Sim s(cfg_of(p)); s.cpu_us = p.num("cpu") * 1000000ll; vector<LogRes> out; int id = s.spawn("log", [&]() -> int { run_log(names, ops, out); return 0; }); s.run();
  sim::Proc& P = *s.procs[id]; s.trace_hash = sim::mix(s.trace_hash, tag(P.out)); R.absorb(s);
  if (P.threw || P.crashed || out.size() != ops.size()) { R.fail("P32", "threw", "the logger ends with an exception (%s)%s", P.what.c_str(), p.num("cpu") ? strf(" after %ld s of processor time", p.num("cpu")).c_str() : ""); return; }
  vector<int> lv(k, 0); long written = 0, dropped = 0; uint64_t h = 5; bool exact = p.num("clock_mode") != 1;
  for (size_t i = 0; i < ops.size(); i++) {
    const LogOp& o = ops[i]; const LogRes& a = out[i]; string at = strf("step %zu: ", i + 1), want_out, want_err; int level = o.kind == 'x' ? 5 : o.level, value = 0; for (int j = 0; j < N_LV; j++) if (LVV[j] == o.level) value = j;
    bool on = false;
    switch (o.kind) {
      case 'L': lv[o.type] = o.level; break;
      case 'l': for (auto& x : lv) x = o.level; break;
      case 'V': lv[o.type] = value; break;
      case 'v': for (auto& x : lv) x = value; break;
      case 'q': { string w = o.type < k ? LV[lv[o.type]] : "UNKNOWN"; if (a.text != w) { R.fail("P32", "level", "%sthe level of logger %d is called %s instead of %s", at.c_str(), o.type, show(a.text).c_str(), w.c_str()); return; } break; }
      case 'e': if (a.enabled != (lv[o.type] <= o.level)) { R.fail("P32", "enabled", "%slevel %s is reported %s at %s", at.c_str(), LV[o.level], a.enabled ? "enabled" : "disabled", LV[lv[o.type]]); return; } break;
      default: on = lv[o.type] <= level; (on ? written : dropped)++;
    }
    const string &got = o.kind == 'x' ? a.err : a.out, &other = o.kind == 'x' ? a.out : a.err;
    if (!other.empty()) { R.fail("P32", "stream", "%s'%s' is written to standard %s", at.c_str(), show(other.substr(0, 200)).c_str(), o.kind == 'x' ? "output" : "error"); return; }
    if (!on) { if (!got.empty()) { R.fail("P32", "extra", "%s'%s' is written although the level of the logger is %s", at.c_str(), show(got.substr(0, 200)).c_str(), o.type < k && o.type >= 0 ? LV[lv[o.type]] : "?"); return; } continue; }
    string tail = " - " + names[o.type] + " - " + LV[level] + " - " + o.text + "\n"; int v[6];
    if (got.empty()) { R.fail("P32", "lost", "%s%s message '%s' is not written at level %s", at.c_str(), LV[level], show(o.text.substr(0, 100)).c_str(), LV[lv[o.type]]); return; }
    if (!stamp(got, v) || got.substr(23) != tail) { R.fail("P32", "format", "%s'%s' is written instead of '(time)%s'", at.c_str(), show(got.substr(0, 200)).c_str(), show(tail.substr(0, 200)).c_str()); return; }
    if (exact) {
      struct tm t; memset(&t, 0, sizeof t); t.tm_year = v[0] - 1900; t.tm_mon = v[1] - 1; t.tm_mday = v[2]; t.tm_hour = v[3]; t.tm_min = v[4]; t.tm_sec = v[5]; long at_s = (long)timegm(&t);
      if (at_s < a.t0 || at_s > a.t1) { R.fail("P32", "time", "%sa message of %ld..%ld carries the time %s", at.c_str(), a.t0, a.t1, got.substr(0, 19).c_str()); return; }
    }
    h = sim::mix(h, level * 8 + lv[o.type]);
  }
  R.nontrivial = written && dropped; R.count["messages_written"] += written; R.count["messages_suppressed"] += dropped; R.states.push_back(h);
}
// ---- the programs at two levels
static Plan gen_levels(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); bool weld = r.chance(0.6); p.set("entry", weld ? "cli" : "straight"); gen_env(p, r, 0.4); p.set("clock_mode", 2L);
  int a = r.range(0, 6), b = r.range(0, 6); if (r.chance(0.5)) a = 2; p.set("a", (long)a); p.set("b", (long)b); p.set("mode", MODES[r.below(N_MODES)]);
  PFile f; f.path = "in"; model::Settings s;
  if (weld) { s = gen::settings(r); p.set("progress", r.pick(vector<string>{"NONE", "SIMPLE", "FULL"})); gen::Profile pr; pr.lines = r.range(6, 120); f.lines = gen::program(r, s, pr); }
  else { f.lines = gen::arc_program(r, r.range(6, 60), true, false); p.set("fw", straight_args(r)[0]); }
  gen::wild(r, f.lines); put_settings(p, s); p.files.push_back(f);
  if (r.chance(0.12)) { if (r.chance(0.5)) p.set("disk_free", (long)r.range(0, 2000)); else p.set("ro_dir", 1L); }
  return p;
}
struct Line { int level; string text; };      // level: of the message that begins on this line, or 99
static vector<Line> lines_of(const string& o, string* said) {
  vector<Line> v; size_t i = 0;
  while (i < o.size()) {
    size_t e = o.find('\n', i); e = e == string::npos ? o.size() : e + 1; string l = o.substr(i, e - i); i = e; int t[6], lv = 99;
    if (stamp(l, t)) {
      lv = -1; l = l.substr(23); size_t a = l.find(" - ", 3); if (a != string::npos) { size_t b = l.find(" - ", a + 3); if (b != string::npos) for (int k = 0; k < N_LV; k++) if (l.substr(a + 3, b - a - 3) == LV[k]) lv = k; }
    }
    for (const char* w : {"Temporary File Path", "Log Level"}) { size_t c = l.find(w); if (c != string::npos && (c = l.find(':', c)) != string::npos) { if (*w == 'L') *said = l.substr(c + 1); l.erase(c); } }      // names of temporary files differ, and so does the level
    v.push_back({lv, l});
  }
  return v;
}
static void run_levels(const Plan& p, Report& R) {
  string entry = p.get("entry"), mode = p.get("mode", "sep"), data = p.files[0].data(); bool weld = entry == "cli"; Names n = names(mode, entry); string out[2]; int code[2]; string got[2]; int lv[2] = {(int)p.num("a") % 7, (int)p.num("b") % 7};
  for (int k = 0; k < 2; k++) {
    Job j = job_of(p, n); j.args.clear(); j.args.push_back(string("-l=") + LV[lv[k]]); if (weld && !p.get("progress").empty()) j.args.push_back("-p=" + p.get("progress")); if (!weld && !p.get("fw").empty()) j.args.push_back(p.get("fw"));
    sim::Sim s(cfg_of(p)); place(s, mode, n, data); Outcome o = run_one(s, j); s.trace_hash = sim::mix(s.trace_hash, tag(o.out)); R.absorb(s);
    if (o.crashed || o.threw) return;                        // P11
    out[k] = o.out; code[k] = o.code; got[k] = s.get(s.resolve(n.ptgt));
  }
  string who = weld ? "ArcWelder" : "ArcStraightener"; R.count["pairs_of_levels"] += 1; R.nontrivial = lv[0] != lv[1]; R.states.push_back(tag(entry + p.get("progress")) * 64 + lv[0] * 7 + lv[1]);
  if (code[0] != code[1] || got[0] != got[1]) { R.fail("P32", "result", "%s %s at log level %s and %s", who.c_str(), code[0] != code[1] ? "ends differently" : "writes different files", LV[lv[0]], LV[lv[1]]); return; }
  vector<Line> all[2], m[2]; int top = std::max(3, std::max(lv[0], lv[1]));
  for (int k = 0; k < 2; k++) {
    string said; all[k] = lines_of(out[k], &said);
    if (!said.empty() && said.find(LV[lv[k]]) == string::npos) { R.fail("P32", "level", "%s reports the log level '%s' at log level %s", who.c_str(), show(said).c_str(), LV[lv[k]]); return; }
    for (auto& x : all[k]) {
      if (x.level < 0) { R.fail("P32", "format", "%s writes a message without level: '%s'", who.c_str(), show(x.text.substr(0, 200)).c_str()); return; }
      if (x.level < lv[k]) { R.fail("P32", "extra", "%s writes '%s' at log level %s", who.c_str(), show(x.text.substr(0, 200)).c_str(), LV[lv[k]]); return; }
      if (x.level >= top && x.level != 99) m[k].push_back(x);
    }
  }
  size_t i = 0; while (i < m[0].size() && i < m[1].size() && m[0][i].text == m[1][i].text) i++;
  if (i < m[0].size() || i < m[1].size()) { R.fail("P32", "lost", "%s prints '%s' at log level %s and '%s' at %s", who.c_str(), i < m[0].size() ? show(m[0][i].text.substr(0, 200)).c_str() : "(nothing)", LV[lv[0]], i < m[1].size() ? show(m[1][i].text.substr(0, 200)).c_str() : "(nothing)", LV[lv[1]]); return; }
  int hi = lv[1] > lv[0]; if (lv[hi] >= 3) {          // the shorter output is contained in the longer one
    size_t j = 0; for (auto& x : all[hi]) { while (j < all[!hi].size() && all[!hi][j].text != x.text) j++; if (j == all[!hi].size()) { R.fail("P32", "differs", "%s prints '%s' at log level %s but not there at %s", who.c_str(), show(x.text.substr(0, 200)).c_str(), LV[lv[hi]], LV[lv[!hi]]); return; } j++; }
  }
  R.count["messages_compared"] += m[0].size();
}
extern const Kind log_kinds[]; const Kind log_kinds[] = {{"log", gen_log, run_log_plan}, {"levels", gen_levels, run_levels}};
extern const int n_log_kinds; const int n_log_kinds = 2;
