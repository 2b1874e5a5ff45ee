// Scenario bytes: arbitrary and damaged input files.
#include "scen.h"
#include <math.h>
#include <string.h>
#include <algorithm>
using std::string; using std::vector;
using sim::Rng; using namespace model;

static string num(Rng& r, bool tame) {
  switch (r.range(0, tame ? 9 : 17)) {
    case 0: return ""; case 1: return "-"; case 2: return "."; case 3: return "-."; case 4: return strf("%d", r.range(-20, 300)); case 5: return strf("%.3f", r.uni(-50, 250)); case 6: return strf("%.9f", r.uni(-5, 5)); case 7: return "+5"; case 8: return "1.2.3"; case 9: return "0";
    case 10: return "1e5"; case 11: return "99999999999999999999"; case 12: return "1e308"; case 13: return string(r.range(20, 400), '9'); case 14: return "0." + string(r.range(20, 400), '7'); case 15: return "-99999999999.5"; case 16: return "nan"; default: return "2147483648";
  }
}
static string line(Rng& r, bool tame, int* k) {
  static const vector<string> C = {"G0", "G1", "G1", "G1", "G2", "G3", "G4", "G10", "G11", "G20", "G21", "G28", "G29", "G80", "G90", "G91", "G92", "M82", "M83", "M104", "M106", "M109", "M117", "M190", "M204", "M207", "M208", "M218", "M563", "M600", "M900", "T0", "T1", "T5", "T99", "T-1", "T", "T?", "Tx", "Tc", "g1", "g01", "G1.5", "G001", "G", "M", "N10 G1", "@OBJECT", "@", "%", "$", "G999999999999", "G-1", "M1e9", ";", "(", ")", "O", "\xff"};
  static const string L = "XYZEFIJRSPTKABCxyzef*;()#@ ";
  switch (r.range(0, 11)) {
    case 0: { string s; int n = r.range(0, 60); for (int i = 0; i < n; i++) { char c = (char)r.below(256); if (c == '\n') c = 0; s += c; } return s; }
    case 1: return strf(";SENTINEL %d", (*k)++);
    case 2: return string(r.range(0, 3), '\t') + ";" + strf("%d", r.range(0, 9));
    case 3: { if (!r.chance(0.25)) return ""; static const vector<string> H = {"", "", "M117 ", "; ", "G1 X", "G1 X1 Y2 ;", "@", "@OCTOLAPSE ", "T", "M104 S0.", "G1 X-0.", "N", "G", "M", "G1 "}; string h = r.pick(H); return h + string(r.chance(0.5) ? r.range(30, 600) : r.range(500, 20000), h.empty() ? (r.chance(0.5) ? 'X' : ' ') : tame ? 'x' : "9x0 Z"[r.below(5)]); }
    case 4: return string("; ") + (r.chance(0.3) ? "Postprocessed by [ArcWelder]" : r.chance(0.3) ? "KISSlicer" : r.chance(0.3) ? "generated by Slic3r" : r.chance(0.5) ? ";FLAVOR:UltiGCode" : "Sliced by ideaMaker");
    default: {
      string s = string(r.chance(0.1) ? r.range(1, 3) : 0, ' ') + r.pick(C); int n = r.range(0, r.chance(0.05) ? 60 : 6);
      for (int i = 0; i < n; i++) { if (!r.chance(0.1)) s += ' '; s += L[r.below(L.size())]; if (r.chance(0.1)) s += ' '; s += num(r, tame); }
      if (r.chance(0.1)) s += "*" + strf("%d", r.range(0, 255)); if (r.chance(0.2)) s += " ; c" + string(r.range(0, 40), 'x'); return s; }
  }
}
static Plan gen_bytes(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); Settings s = gen::settings(r); if (r.chance(0.3)) s.log_level = r.range(0, 2); put_settings(p, s); int e = r.range(0, 4); p.set("entry", e < 2 ? "lib" : e == 2 ? "cli" : "straight"); bool st = e > 2;
  vector<string> L; int k = 0;
  int m = r.range(0, 3);
  if (m == 0) { int n = r.range(0, 60); for (int i = 0; i < n; i++) L.push_back(line(r, st, &k)); }
  else {
    if (st) L = gen::arc_program(r, r.range(5, 60), true, true); else { gen::Profile pr; pr.lines = r.range(5, 120); L = gen::program(r, s, pr); }
    int n = r.range(1, 25); for (int i = 0; i < n; i++) L.insert(L.begin() + r.below(L.size() + 1), line(r, st, &k));
    // number the sentinels in order of appearance
    int q = r.range(0, 12); for (int i = 0; i < q && !L.empty(); i++) { string& s = L[r.below(L.size())]; if (s.empty() || s[0] == ';') continue; int w = r.range(0, 4); size_t at = r.below(s.size()); if (w == 0) s.erase(at, 1 + r.below(4)); else if (w == 1) s.insert(at, 1, (char)(1 + r.below(9))); else if (w == 2) s[at] = (char)(32 + r.below(95)); else if (w == 3) s = s.substr(0, at); else s.insert(at, num(r, st)); }
  }
  if (r.chance(0.2) && !L.empty()) {      // comments of any length behind the moves of a stretch
    int a = r.range(0, (int)L.size() - 1), b = r.chance(0.5) ? (int)L.size() - 1 : r.range(a, (int)L.size() - 1); size_t n = (size_t)exp(r.uni(log(5), log(5000))); bool same = r.chance(0.5);
    for (int i = a; i <= b; i++) { string& x = L[i]; if (x.empty() || x.find(';') != string::npos || toupper((unsigned char)x[0]) != 'G') continue; x += ";" + string(n, 'c') + (same ? "" : strf("%d", i)); }
  }
  for (auto& x : L) if (r.chance(0.02)) x += '\r';
  if (r.chance(0.1)) for (auto& x : L) x += "\r";
  PFile f; f.path = "in"; f.lines = L; f.nl = !r.chance(0.25); p.files.push_back(f); p.set("mode", MODES[r.below(4)]);
  if (st) { static const vector<string> fw = {"MARLIN_1", "MARLIN_2", "MARLIN_2\x1f-v=2.0.9.2", "PRUSA", "PRUSA\x1f-v=3.11.0", "REPETIER", "REPETIER\x1f-v=1.0.5", "SMOOTHIEWARE"}; p.set("args", "-f=" + r.pick(fw)); }
  gen_env(p, r, 0.5);
  return p;
}
static void run_bytes(const Plan& p, Report& R) {
  string mode = p.get("mode", "sep"), entry = p.get("entry", "lib"); Names n = names(mode, entry); Job j = job_of(p, n); string data = p.files[0].data();
  vector<string> L = split_lines(data);
  sim::Sim s(cfg_of(p)); place(s, mode, n, data); Outcome o = run_one(s, j); R.absorb(s); R.nontrivial = !data.empty(); R.count["input_bytes"] += data.size(); R.count["input_lines"] += L.size();
  if (s.hang) { R.fail("P22", "hang", "the program does not come to an end"); return; }
  if (o.crashed || o.threw) { R.fail("P22", "died", "the program dies on this input%s %s", o.threw ? " with an exception" : "", o.what.c_str()); return; }
  if (!o.ok) { R.fail("P22", "refused", "the conversion fails: %s %s", o.w.message.c_str(), o.out.substr(0, 200).c_str()); return; }
  string out = s.get(s.resolve(n.ptgt)); vector<string> T = split_lines(out);
  vector<string> a, b; auto pick = [](const vector<string>& v, vector<string>& o) { for (auto l : v) if (l.rfind(";SENTINEL ", 0) == 0) { while (!l.empty() && l.back() == '\r') l.pop_back(); o.push_back(l); } }; pick(L, a); pick(T, b);
  if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; R.fail("P22", "sentinel", "comment line '%s' is followed by '%s' in the output", i < a.size() ? a[i].c_str() : "(end)", i < b.size() ? b[i].c_str() : "(end)"); }
  if (!n.alias && s.get(s.resolve(n.src)) != data) R.fail("P04", "source", "the source was changed");
  // the same bytes under another environment give the same result
#ifdef SIM_NO_NEW
  if (entry != "lib") return;   // this flavour gives every process the same globals, and the option parser keeps state in one
#endif
  if (entry == "lib" || entry == "straight") { Plan q = p; for (auto* k : {"read_chunk", "write_chunk", "eintr_every", "junk", "clock_mode", "clock_seed"}) q.kv.erase(k); q.set("junk", 255L); sim::Sim z(cfg_of(q)); place(z, mode, n, data); Outcome o2 = run_one(z, j); R.absorb(z); if (z.get(z.resolve(n.ptgt)) != out) { string o3 = z.get(z.resolve(n.ptgt)); size_t i = 0; while (i < out.size() && i < o3.size() && out[i] == o3[i]) i++; i = i > 40 ? i - 40 : 0; R.fail("P22", "unstable", "the same input gives two different outputs: ...%s  and ...%s", out.substr(i, 120).c_str(), o3.substr(i, 120).c_str()); } (void)o2; }
  R.states.push_back(tag(entry + mode) ^ sim::fnv(out.substr(0, 4000)) % 65536);
}
extern const Kind bytes_kinds[]; const Kind bytes_kinds[] = {{"bytes", gen_bytes, run_bytes}};
extern const int n_bytes_kinds; const int n_bytes_kinds = 1;
