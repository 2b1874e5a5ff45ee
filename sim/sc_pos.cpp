// Scenario pos: the position tracker as a library.  Any history of updates, undone
// updates and growing buffers; after every step the tracker is compared with a
// small reference printer and its history with the states recorded earlier.
#include "scen.h"
#include "pos.h"
#include <math.h>
#include <algorithm>
using std::string; using std::vector;
using sim::Rng; using namespace model;

static string nums(const vector<double>& v) { string s; for (double x : v) s += strf("%s%.17g", s.empty() ? "" : " ", x); return s; }
static vector<double> unnums(const string& s) { vector<double> v; const char* p = s.c_str(); char* e; while (true) { double x = strtod(p, &e); if (e == p) break; v.push_back(x); p = e; } return v; }
static void put_cfg(Plan& p, const PosCfg& c) {
  p.set("pos.buffer", (long)c.buffer); p.set("pos.extruders", (long)c.extruders); p.set("pos.def", (long)c.def); p.set("pos.shared", (long)c.shared); p.set("pos.zero", (long)c.zero_based); p.set("pos.g90e", (long)c.g90e); p.set("pos.bound", (long)(c.bound ? c.circular ? 2 : 1 : 0));
  p.set("pos.home", nums({c.hx, c.hy, c.hz})); p.set("pos.none", (long)(c.nx + 2 * c.ny + 4 * c.nz)); p.set("pos.height", nums({c.priming, c.minlayer, c.hinc})); p.set("pos.lim", nums(vector<double>(c.lim, c.lim + 6))); p.set("pos.xyz", c.xyz); p.set("pos.e", c.e);
  p.set("pos.retr", nums(c.retr)); p.set("pos.lift", nums(c.lift)); p.set("pos.fx", nums(c.fx)); p.set("pos.fy", nums(c.fy));
}
static PosCfg get_cfg(const Plan& p) {
  PosCfg c; c.buffer = std::max(3, (int)p.num("pos.buffer", 50)); c.extruders = std::max(1, (int)p.num("pos.extruders", 1)); c.def = (int)p.num("pos.def"); c.shared = p.num("pos.shared", 1); c.zero_based = p.num("pos.zero", 1); c.g90e = p.num("pos.g90e"); c.bound = p.num("pos.bound"); c.circular = p.num("pos.bound") == 2;
  auto at = [&](const vector<double>& v, size_t i) { return i < v.size() ? v[i] : 0.0; };
  auto h = unnums(p.get("pos.home")), g = unnums(p.get("pos.height")), l = unnums(p.get("pos.lim")); c.hx = at(h, 0); c.hy = at(h, 1); c.hz = at(h, 2); int n = (int)p.num("pos.none"); c.nx = n & 1; c.ny = n & 2; c.nz = n & 4; c.priming = at(g, 0); c.minlayer = at(g, 1); c.hinc = at(g, 2); for (int i = 0; i < 6; i++) c.lim[i] = at(l, i);
  if (p.kv.count("pos.xyz")) c.xyz = p.get("pos.xyz"); if (p.kv.count("pos.e")) c.e = p.get("pos.e");
  auto fill = [&](const char* k) { auto v = unnums(p.get(k)); v.resize(c.extruders, 0); return v; }; c.retr = fill("pos.retr"); c.lift = fill("pos.lift"); c.fx = fill("pos.fx"); c.fy = fill("pos.fy");
  return c;
}
// ---- generator
static Plan gen_pos(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); PosCfg c; static const vector<string> modes = {"absolute", "relative", "force-absolute", "force-relative", "require-explicit"};
  c.buffer = r.pick(vector<int>{3, 4, 5, 8, 10, 50, 51}); c.shared = r.chance(0.5); c.extruders = r.chance(0.5) ? 1 : r.range(2, 6); c.def = r.chance(0.8) ? 0 : r.range(-1, 6); c.zero_based = r.chance(0.8); c.g90e = r.chance(0.5);
  if (r.chance(0.6)) { c.nx = r.chance(0.2); c.ny = r.chance(0.2); c.nz = r.chance(0.2); c.hx = r.range(-20, 200); c.hy = r.range(-20, 200); c.hz = r.chance(0.5) ? 0 : r.range(0, 5); } else c.nx = c.ny = c.nz = true;
  if (r.chance(0.3)) c.priming = r.pick(vector<double>{0.5, 1, 5}); if (r.chance(0.3)) c.minlayer = r.pick(vector<double>{0.05, 0.1, 0.3}); if (r.chance(0.3)) c.hinc = r.pick(vector<double>{0.5, 1, 2.5});
  if (r.chance(0.3)) { c.bound = true; c.circular = r.chance(0.3); c.lim[0] = c.lim[2] = c.circular ? -100 : 0; c.lim[1] = c.lim[3] = r.range(50, 150); c.lim[5] = r.range(2, 20); }
  if (r.chance(0.4)) { c.xyz = r.pick(modes); c.e = r.pick(modes); }
  bool off = !c.shared && r.chance(0.6);
  for (int i = 0; i < c.extruders; i++) { c.retr.push_back(r.pick(vector<double>{0.5, 0.8, 2})); c.lift.push_back(0.2); c.fx.push_back(off ? r.range(-30, 30) : 0); c.fy.push_back(off ? r.range(-30, 30) : 0); }
  put_cfg(p, c); gen_env(p, r, 0.3);
  PFile f; f.path = "ops"; int n = r.chance(0.7) ? r.range(5, 80) : r.chance(0.05) ? r.range(400, 2500) : r.range(80, 400); int count = 0, max = c.buffer; bool full = false; double z = r.chance(0.1) ? r.range(-40, 900) / 4.0 : 0.2, undo = r.chance(0.7) ? 0.08 : 0, grow = r.chance(0.4) ? 0.04 : 0, meta = r.chance(0.5) ? 0.05 : 0.2; bool three = r.chance(0.3); double sect = r.chance(0.3) ? r.uni(0.02, 0.2) : 0; int family = r.range(0, 3);
  auto co = [&]() { return r.chance(0.3) ? strf("%d", r.range(-5, 160)) : r.chance(0.5) ? strf("%.2f", r.range(-500, 16000) / 100.0 * (r.chance(0.03) ? 20 : 1)) : strf("%.3f", r.range(-5, 9) * 0.25 + r.range(0, 150)); };
  for (int i = 0; i < n; i++) {
    if (r.chance(undo)) { int k = r.range(1, std::min(count - (full ? 1 : 0), r.chance(0.8) ? 3 : 30)); if (k >= 1 && count - (full ? 1 : 0) >= 1) { f.lines.push_back(strf("%c %d", r.chance(0.5) ? 'z' : 'Z', k)); count -= k; continue; } }
    if (r.chance(grow)) { int k = r.range(1, 3) * max - r.range(-2, 3); k = std::min(k, 300); f.lines.push_back(strf("g %d", k)); max = std::max(max, k); continue; }
    if (r.chance(sect)) {
      static const vector<string> F[] = {{"TYPE:WALL-OUTER", "TYPE:WALL-INNER", "TYPE:FILL", "TYPE:SKIN", "TYPE:SKIRT", "LAYER:12", ";MESH:NONMESH", "TYPE:SUPPORT"}, {"feature outer perimeter", "feature inner perimeter", "feature infill", "feature solid layer", "feature skirt", "feature ooze shield", "feature prime pillar", "feature gap fill", "feature bridge"},
        {"outer perimeter", "inner perimeter", "infill", "solid layer", "skirt", "ooze shield", "prime pillar", "gap fill"}, {"CP TOOLCHANGE WIPE", "CP TOOLCHANGE END", "CP TOOLCHANGE START"}};
      f.lines.push_back("s " + (r.chance(0.1) ? r.pick(vector<string>{"", "note", "LAYER:1", "perimeter", "feature"}) : r.pick(F[r.chance(0.1) ? r.range(0, 3) : family]))); continue;
    }
    string l;
    if (r.chance(meta)) {
      int k = r.range(0, 17); auto axes = [&]() { string a; for (char x : {'X', 'Y', 'Z'}) if (r.chance(0.4)) a += strf(" %c%s", x, r.chance(0.5) ? "0" : ""); return a; };
      if (k == 0) l = "G28"; else if (k == 1) l = "G28" + axes(); else if (k == 2) l = "G90"; else if (k == 3) l = "G91"; else if (k == 4) l = "M82"; else if (k == 5) l = "M83";
      else if (k == 6) l = "G92 E0"; else if (k == 7) l = strf("G92 E%.2f", r.range(0, 500) / 100.0 * (r.chance(0.2) ? r.chance(0.5) ? -40 : 5000 : 1));
      else if (k == 8) { l = "G92"; for (char x : {'X', 'Y', 'Z', 'E'}) if (r.chance(0.4)) l += strf(" %c%s", x, co().c_str()); }
      else if (k == 9) l = strf("T%d", r.range(0, 6)); else if (k == 10) l = "G21"; else if (k == 11) l = strf("M104 S%d", r.range(0, 250)); else if (k == 12) l = "M117 X5 Y5 printing"; else if (k == 13) l = "; a comment";
      else if (k == 14) l = ""; else if (k == 15) l = strf("G4 P%d", r.range(1, 99));
      else if (!c.shared && k == 16) {
        vector<string> w{strf("P%d", r.range(0, 6))}; for (char x : {'X', 'Y'}) if (r.chance(0.7)) w.push_back(strf("%c%d", x, r.range(-30, 30))); if (r.chance(0.3)) w.push_back(strf("Z%s", r.pick(vector<string>{"0.5", "-0.2", "0"}).c_str()));
        if (r.chance(0.3)) w.push_back(strf("S%d", r.range(0, 250))); if (r.chance(0.3)) w.push_back(strf("R%d", r.range(0, 200)));      // temperatures of the tool
        l = "G10"; while (!w.empty()) { size_t i = r.chance(0.7) ? 0 : r.range(0, (int)w.size() - 1); l += " " + w[i]; w.erase(w.begin() + i); }
      } else if (!c.shared) l = strf("M218 T%d%s%s%s", r.range(0, 6), r.chance(0.7) ? strf(" X%d", r.range(-30, 30)).c_str() : "", r.chance(0.7) ? strf(" Y%d", r.range(-30, 30)).c_str() : "", r.chance(0.3) ? " Z0.5" : "");
      else l = "M106 S255";
    } else {
      l = r.pick(vector<string>{"G1", "G1", "G1", "G1", "G0", "G2", "G3", "G01", "g1"}); bool arc = l == "G2" || l == "G3";
      string xy = " X" + co() + " Y" + co(); int k = r.range(0, 99);
      if (k < 55) l += xy + strf(" E%.2f", r.range(0, 60) / 100.0 + 0.02); else if (k < 62) { l += strf(" E-%s", r.pick(vector<string>{"0.5", "0.8", "2", "0.3"}).c_str()); arc = false; } else if (k < 69) { l += strf(" E%s", r.pick(vector<string>{"0.5", "0.8", "2", "1.1"}).c_str()); arc = false; }
      else if (k < 79) l += xy; else if (k < 85) { z += three ? r.range(-3, 8) / 10.0 : 0.2; l += strf(" Z%.2f", z); arc = false; } else if (k < 89) l += xy + strf(" Z%.2f E0.2", z += 0.2); else if (k < 92) { l += strf(" F%d", r.range(10, r.chance(0.05) ? 200000 : 9000)); arc = false; } else if (k < 95) l += " X" + co(); else if (k < 97) l += xy + strf(" Z%.2f", z); else l += " Y" + co() + strf(" E%.1f", r.range(-3, 9) / 10.0);
      if (arc) l += strf(" I%d J%d", r.range(1, 9), r.range(-9, 9)); if (r.chance(0.2) && l.find('F') == string::npos) l += strf(" F%d", r.range(10, 9000)); if (r.chance(0.1)) l += r.chance(0.7) ? " ; note" : string(r.chance(0.5) ? " ;" : " ; ") + (r.chance(0.5) ? "move to first " : "") + r.pick(vector<string>{"perimeter", "infill", "infill(bridge)", "skirt", "infill point", "perimeter point", "skirt point", "infill(bridge) point"});
    }
    f.lines.push_back("u " + l); count++; if (count > max) { count = max; } if (count == max) full = true;
  }
  p.files.push_back(f); return p;
}
// ---- reference
struct RExt { double fx = 0, fy = 0, fz = 0, e = 0, eo = 0, rel = 0, len = 0, total = 0, retr = 0; bool extr = false, extr_start = false, retring = false, retr_start = false, der = false, der_start = false, deretracted = false, primed = false, partly = false, retracted = false; double der_len = 0; };
struct Ref {
  double p[3] = {0, 0, 0}, o[3] = {0, 0, 0}, w[3] = {0, 0, 0}, f = 0, zrel = 0, height = 0, last = 0; bool null[3] = {true, true, true}, homed[3] = {false, false, false}, fn = true, rel = false, reln = true, erel = false, ereln = true, changed = false, xyc = false, lc = false, primed = false, inb = true, ign = true, xyt = false, xyzt = false, zhop = false, lhn = true, def = false, hchange = false;
  long layer = 0, line = -1, number = -1; long fpos = 0; int tool = 0, hinc = 0, feature = 0; vector<RExt> ext; Cmd cmd;
};
static bool ne(double a, double b) { return fabs(a - b) >= 0.000005; }
static bool gt(double a, double b) { return a > b && ne(a, b); }
// sections of Cura, Simplify3D and Slic3r PE: what kind of file it is shows in the first comment that is understood
struct Sections {
  int kind = 0, feature = 0;                       // 0 unknown, 1 slic3r, 2 cura, 3 simplify3d; feature of the current section, 0 none
  bool cura(const string& t) { static const std::map<string, int> m = {{"TYPE:WALL-OUTER", 2}, {"TYPE:WALL-INNER", 4}, {"TYPE:FILL", 9}, {"TYPE:SKIN", 7}, {"TYPE:SKIRT", 5}}; if (m.count(t)) { feature = m.at(t); return true; } if (t.rfind("LAYER:", 0) == 0 || t.rfind(";MESH:NONMESH", 0) == 0) feature = 0; return false; }
  bool s3d(string t) { static const std::map<string, int> m = {{"outer perimeter", 2}, {"inner perimeter", 4}, {"infill", 9}, {"solid layer", 7}, {"skirt", 5}, {"ooze shield", 8}, {"prime pillar", 10}, {"gap fill", 6}}; if (t.rfind("feature ", 0) == 0) t = t.substr(8); if (!m.count(t)) return false; feature = m.at(t); return true; }
  bool slic3r(const string& t) { if (t == "CP TOOLCHANGE WIPE") { feature = 10; return true; } if (t == "CP TOOLCHANGE END") { feature = 0; return true; } return false; }
  void comment(const string& t) { if (t.empty()) return; if (kind == 2) cura(t); else if (kind == 3) s3d(t); else if (kind == 1) slic3r(t); else if (cura(t)) kind = 2; else if (s3d(t)) kind = 3; else if (slic3r(t)) kind = 1; }
  int line(const string& note) {
    if (feature) return feature; if (kind > 1) return 0;
    static const vector<std::pair<string, int>> m = {{"perimeter", 3}, {"infill", 9}, {"infill(bridge)", 1}, {"skirt", 5}}; string n = feature_of(note); for (auto& x : m) if (n == x.first) { kind = 1; return x.second; } return 0;
  }
};
static void step(Ref& s, const PosCfg& c, const Cmd& m, long line, long number, Sections& sec) {
  const Ref b = s; s.cmd = m; s.line = line; s.number = number; s.changed = s.lc = s.xyt = s.xyzt = false; s.feature = 0; s.hchange = false; s.ign = true; s.zrel = 0; s.ext[s.tool].rel = 0;
  s.feature = sec.line(m.comment);
  static const vector<string> known = {"G0", "G1", "G2", "G3", "G10", "G11", "G20", "G21", "G28", "G90", "G91", "G92", "M82", "M83", "M207", "M208", "M218", "M563"};
  bool t = m.code.size() > 1 && m.code[0] == 'T';
  if (!t && std::find(known.begin(), known.end(), m.code) == known.end()) return;
  s.ign = false; bool any = m.has('X') || m.has('Y') || m.has('Z'); static const char AX[] = "XYZ";
  if (m.is_line() || m.is_arc()) {
    if (!m.has('E')) { if (m.has('Z')) s.xyzt = m.has('X') || m.has('Y'); else s.xyt = m.has('X') || m.has('Y'); }
    if (m.has('F')) { s.f = m.get('F'); s.fn = false; }
    RExt& x = s.ext[s.tool]; double fw[3] = {x.fx, x.fy, x.fz};
    if (!s.reln) for (int i = 0; i < 3; i++) if (m.has(AX[i])) { double v = m.get(AX[i]); if (s.rel) { if (!s.null[i]) s.p[i] += v; } else { s.w[i] = fw[i]; s.p[i] = v + s.o[i] - fw[i]; s.null[i] = false; } }
    if (m.has('E') && !s.ereln) x.e = s.erel ? x.e + m.get('E') : m.get('E') + x.eo;
  } else if (m.code == "G10" || m.code == "M218") {
    char k = m.code == "G10" ? 'P' : 'T'; if (m.has(k)) { int i = (int)m.get(k) - (c.zero_based ? 0 : 1); i = std::max(0, std::min(c.extruders - 1, i)); if (m.has('X')) s.ext[i].fx = m.get('X'); if (m.has('Y')) s.ext[i].fy = m.get('Y'); if (m.has('Z')) s.ext[i].fz = m.get('Z'); }
  } else if (m.code == "G28") {
    string a = m.body; double h[3] = {c.hx, c.hy, c.hz}; bool none[3] = {c.nx, c.ny, c.nz}; bool q[3]; any = false; for (int i = 0; i < 3; i++) any |= q[i] = a.find(AX[i]) != string::npos;
    for (int i = 0; i < 3; i++) if (q[i] || !any) { s.homed[i] = true; s.null[i] = none[i]; s.o[i] = 0; if (!none[i]) s.p[i] = h[i]; }
  } else if (m.code == "G90" || m.code == "G91") { s.rel = m.code == "G91"; s.reln = false; if (c.g90e) { s.erel = s.rel; s.ereln = false; } }
  else if (m.code == "M82" || m.code == "M83") { s.erel = m.code == "M83"; s.ereln = false; }
  else if (m.code == "G92") {
    RExt& x = s.ext[s.tool];
    if (!any && !m.has('E')) { for (int i = 0; i < 3; i++) if (!s.null[i]) s.o[i] = s.p[i] + s.w[i]; x.eo = x.e; }
    for (int i = 0; i < 3; i++) if (m.has(AX[i])) { double v = m.get(AX[i]); if (!s.null[i] && s.homed[i]) s.o[i] = s.p[i] - v + s.w[i]; else { s.p[i] = v - s.w[i]; s.o[i] = 0; s.null[i] = false; } }
    if (m.has('E')) x.eo = x.e - m.get('E');
  } else if (t) {
    int i = atoi(m.code.c_str() + 1) - (c.zero_based ? 0 : 1); i = std::max(0, std::min(c.extruders - 1, i)); if (c.shared) { s.ext[i].e = s.ext[s.tool].e; s.ext[i].eo = s.ext[s.tool].eo; } s.tool = i;
  }
  RExt& x = s.ext[s.tool]; const RExt& y = b.ext[s.tool];
  x.rel = x.e - (c.shared ? b.ext[b.tool].e : y.e); s.zrel = s.p[2] - b.p[2];
  s.xyc = ne(s.p[0], b.p[0]) || ne(s.p[1], b.p[1]); s.changed = s.xyc || ne(s.p[2], b.p[2]) || ne(x.rel, 0); for (int i = 0; i < 3; i++) s.changed |= s.null[i] != b.null[i];
  if (!s.null[0] && !s.null[1] && !s.null[2] && !s.reln && !s.ereln) s.def = true;
  if (!s.changed) return;
  x.total += x.rel; double d = y.retr - x.rel; x.retr = gt(d, 0) ? d : 0; x.len = gt(d, 0) ? 0 : -d;
  if (b.tool == s.tool) { x.extr = gt(x.len, 0); x.retring = gt(x.retr, y.retr); } else x.extr = x.retring = false; x.deretracted = gt(y.retr, 0) && x.retr == 0;
  x.der_len = gt(y.retr, x.retr) ? y.retr - x.retr : 0; x.der = b.tool == s.tool && gt(x.der_len, 0); x.extr_start = x.extr && !y.extr; x.retr_start = x.retring && !y.retring; x.der_start = x.der && !y.der; x.primed = !gt(x.len, 0) && x.retr == 0; double full = c.retr[s.tool]; x.retracted = !gt(full, x.retr); x.partly = x.retr > 0 && !x.retracted; s.zhop = false; double was = s.last;
  if (c.bound) { if (c.circular) s.inb = !gt(hypot(s.p[0], s.p[1]), c.lim[1]); else { s.inb = true; for (int i = 0; i < 3; i++) if (gt(c.lim[2 * i], s.p[i]) || gt(s.p[i], c.lim[2 * i + 1])) s.inb = false; } }
  if (gt(s.p[2], s.last) && !s.null[2] && (x.extr || (s.layer > 0 && x.deretracted))) {
    if (!s.primed) s.primed = !gt(c.priming, 0) || gt(c.priming, s.p[2]);
    if (s.primed && (!c.bound || s.inb)) { s.last = s.p[2]; s.lhn = false; if (!gt(b.height + c.minlayer, s.p[2])) { s.height = s.p[2]; s.lc = true; s.layer++; if (c.hinc != 0) { int k = (int)floor(s.height / c.hinc + 5e-6); if (k > s.hinc && k > 1) { s.hinc = k; s.hchange = true; } } } }
  }
  s.zhop = gt(s.p[2], was) && !s.null[2] && !x.extr && !s.lhn && !gt(c.lift[s.tool], s.p[2] - s.last);
}
// "" when the tracker shows the reference's state
static string against(const PosState& a, const Ref& r, const PosCfg& c) {
  double q[3] = {a.x, a.y, a.z}, g[3] = {a.gx, a.gy, a.gz}; bool n[3] = {a.xn, a.yn, a.zn}, h[3] = {a.xh, a.yh, a.zh};
  for (int i = 0; i < 3; i++) {
    if (n[i] != r.null[i]) return strf("%c is %sknown", "XYZ"[i], n[i] ? "un" : ""); if (h[i] != r.homed[i]) return strf("%c homed is %d", "XYZ"[i], h[i]);
    if (r.null[i]) continue; if (fabs(q[i] - r.p[i]) > 1e-6) return strf("%c is %.6f instead of %.6f", "XYZ"[i], q[i], r.p[i]); if (fabs(g[i] - (r.p[i] - r.o[i] + r.w[i])) > 1e-6) return strf("%c in the program's coordinates is %.6f instead of %.6f", "XYZ"[i], g[i], r.p[i] - r.o[i] + r.w[i]);
  }
  if (a.fn != r.fn || (!r.fn && a.f != r.f)) return strf("feed rate is %g (%s) instead of %g", a.f, a.fn ? "unknown" : "known", r.f);
  if (a.reln != r.reln || (!r.reln && a.rel != r.rel)) return "axis mode differs"; if (a.ereln != r.ereln || (!r.ereln && a.erel != r.erel)) return "extruder mode differs";
  if (a.tool != r.tool) return strf("tool is %d instead of %d", a.tool, r.tool); if (a.changed != r.changed) return strf("position changed is %d", a.changed); if (!r.ign && a.xy_changed != r.xyc) return strf("XY changed is %d", a.xy_changed);
  if (a.ignored != r.ign) return strf("ignored is %d", a.ignored); if (a.xy_travel != r.xyt || a.xyz_travel != r.xyzt) return strf("travel is %d %d", a.xy_travel, a.xyz_travel);
  if (fabs(a.z_rel - r.zrel) > 1e-6 && !r.null[2]) return strf("relative Z is %g instead of %g", a.z_rel, r.zrel);
  if (a.layer != r.layer || a.layer_change != r.lc || fabs(a.height - r.height) > 1e-6 || fabs(a.last_h - r.last) > 1e-6 || a.primed != r.primed || a.hinc != r.hinc) return strf("layer %ld (change %d) height %g last %g primed %d increment %d instead of %ld (%d) %g %g %d %d", a.layer, a.layer_change, a.height, a.last_h, a.primed, a.hinc, r.layer, r.lc, r.height, r.last, r.primed, r.hinc);
  if (a.lhn != r.lhn) return strf("last extrusion height is %sknown", a.lhn ? "un" : ""); if (a.zhop != r.zhop) return strf("zhop is %d", a.zhop);
  if (a.definite != r.def) return strf("definite position is %d", a.definite); if (a.hchange != r.hchange) return strf("height increment change is %d", a.hchange); if (a.feature != r.feature) return strf("feature is %d instead of %d", a.feature, r.feature);
  if (r.line >= 0 && a.fpos != r.fpos) return strf("file position is %ld instead of %ld", a.fpos, r.fpos); if (r.line >= 0 && a.command != (r.cmd.code[0] == 'T' ? "T" : r.cmd.code)) return strf("command is '%s' instead of '%s'", a.command.c_str(), r.cmd.code.c_str());
  if (r.line >= 0 && a.comment != r.cmd.comment) return strf("comment is '%s' instead of '%s'", a.comment.c_str(), r.cmd.comment.c_str());
  if (a.in_bounds != r.inb) return strf("in bounds is %d", a.in_bounds); if (a.line != r.line || a.number != r.number) return strf("line %ld number %ld instead of %ld %ld", a.line, a.number, r.line, r.number);
  if ((int)a.ext.size() != c.extruders) return "number of extruders";
  for (int i = 0; i < c.extruders; i++) {
    const PosExt& e = a.ext[i]; const RExt& x = r.ext[i]; if (c.shared && i != r.tool) continue;
    if (fabs(e.e - x.e) > 1e-6) return strf("E of tool %d is %.6f instead of %.6f", i, e.e, x.e); if (i == r.tool && fabs(e.e_rel - x.rel) > 1e-6) return strf("relative E is %.6f instead of %.6f", e.e_rel, x.rel);
    if (c.shared && c.extruders > 1) continue;
    if (fabs(e.total - x.total) > 1e-5) return strf("total extrusion of tool %d is %.6f instead of %.6f", i, e.total, x.total); if (fabs(e.retr_len - x.retr) > 1e-5) return strf("retraction length of tool %d is %.6f instead of %.6f", i, e.retr_len, x.retr); if (fabs(e.ext_len - x.len) > 1e-5) return strf("extrusion length of tool %d is %.6f instead of %.6f", i, e.ext_len, x.len);
    if (e.extruding != x.extr || e.retracting != x.retring) return strf("tool %d: extruding %d retracting %d", i, e.extruding, e.retracting);
    if (e.extr_start != x.extr_start || e.retr_start != x.retr_start || e.der != x.der || e.der_start != x.der_start || (r.changed && (e.deretracted != x.deretracted || e.primed != x.primed || e.partly != x.partly || e.retracted != x.retracted))) return strf("tool %d: starts extruding %d, starts retracting %d, deretracting %d, starts %d, deretracted %d, primed %d, partially retracted %d, retracted %d", i, e.extr_start, e.retr_start, e.der, e.der_start, e.deretracted, e.primed, e.partly, e.retracted);
    if (fabs(e.der_len - x.der_len) > 1e-5) return strf("deretraction length of tool %d is %.6f instead of %.6f", i, e.der_len, x.der_len);
  }
  return "";
}
static bool same(const PosState& a, const PosState& b) {
  if (a.x != b.x || a.y != b.y || a.z != b.z || a.gx != b.gx || a.gy != b.gy || a.gz != b.gz || a.f != b.f || a.z_rel != b.z_rel || a.height != b.height || a.last_h != b.last_h || a.xn != b.xn || a.yn != b.yn || a.zn != b.zn || a.fn != b.fn || a.xh != b.xh || a.yh != b.yh || a.zh != b.zh || a.rel != b.rel || a.reln != b.reln || a.erel != b.erel || a.ereln != b.ereln) return false;
  if (a.changed != b.changed || a.xy_changed != b.xy_changed || a.layer_change != b.layer_change || a.primed != b.primed || a.in_bounds != b.in_bounds || a.definite != b.definite || a.ignored != b.ignored || a.xy_travel != b.xy_travel || a.xyz_travel != b.xyz_travel || a.lhn != b.lhn || a.layer != b.layer || a.line != b.line || a.number != b.number || a.fpos != b.fpos || a.tool != b.tool || a.hinc != b.hinc || a.command != b.command || a.gcode != b.gcode || a.comment != b.comment || a.zhop != b.zhop || a.hchange != b.hchange || a.feature != b.feature || a.rest != b.rest || a.ext.size() != b.ext.size()) return false;
  for (size_t i = 0; i < a.ext.size(); i++) { const PosExt &x = a.ext[i], &y = b.ext[i]; if (x.e != y.e || x.e_rel != y.e_rel || x.ext_len != y.ext_len || x.total != y.total || x.retr_len != y.retr_len || x.extruding != y.extruding || x.retracting != y.retracting || x.retracted != y.retracted || x.extr_start != y.extr_start || x.retr_start != y.retr_start || x.der != y.der || x.der_start != y.der_start || x.deretracted != y.deretracted || x.primed != y.primed || x.partly != y.partly || x.der_len != y.der_len) return false; }
  return true;
}
static void run_pos_plan(const Plan& p, Report& R) {
  PosCfg c = get_cfg(p); vector<PosOp> ops; vector<string> text;
  // operations that a cut-down plan no longer allows are left out
  int count = 0, max = c.buffer; bool full = false;
  for (auto& l : p.files.empty() ? vector<string>() : p.files[0].lines) {
    if (l.size() < 2) continue; PosOp o; o.kind = l[0]; o.n = atoi(l.c_str() + 2); o.line = l.substr(2);
    if (o.kind == 'u') { count = std::min(max, count + 1); if (count == max) full = true; }
    else if (o.kind == 'z' || o.kind == 'Z') { if (o.n < 1 || count - (full ? 1 : 0) < o.n) continue; count -= o.n; } else if (o.kind == 'g') { if (o.n < 1) continue; if (o.n > max) max = o.n; } else if (o.kind != 's') continue;
    ops.push_back(o); text.push_back(l);
  }
  sim::Sim s(cfg_of(p)); vector<PosStep> st; s.spawn("pos", [&]() -> int { run_pos(c, ops, 12, st); return 0; }); s.run();
  for (auto& q : st) for (auto& a : q.hist) s.trace_hash = sim::mix(s.trace_hash, tag(strf("%.6f %.6f %.6f %.3f %ld %d %ld", a.x, a.y, a.z, a.f, a.layer, a.tool, a.line)));
  R.absorb(s);
  if (s.procs[0]->threw || s.procs[0]->crashed) { R.fail("P29", "threw", "the tracker ends with an exception (%s)", s.procs[0]->what.c_str()); return; }
  if (st.size() != ops.size() + 1) { R.fail("P29", "threw", "the tracker stops early"); return; }
  Ref r; r.ext.resize(c.extruders); for (int i = 0; i < c.extruders && !c.shared; i++) { r.ext[i].fx = c.fx[i]; r.ext[i].fy = c.fy[i]; } r.tool = std::max(0, std::min(c.extruders - 1, c.def));
  auto mode = [](const string& m, bool& rel, bool& null) { null = m == "require-explicit"; rel = m == "relative" || m == "force-relative"; }; mode(c.xyz, r.rel, r.reln); mode(c.e, r.erel, r.ereln);
  vector<Ref> refs = {r}; vector<PosState> seen = {st[0].hist[0]}; max = c.buffer; count = 0; full = false; long line = 0, number = 0, fpos = 0, undone = 0, moves = 0; uint64_t h = 7; Sections sec; long sections = 0;
  for (size_t k = 0; k <= ops.size(); k++) {
    string at = k ? "after '" + text[k - 1] + "' (step " + std::to_string(k) + ")" : "at the start";
    if (k) {
      const PosOp& o = ops[k - 1];
      if (o.kind == 'u') { Cmd m = parse(o.line); line++; if (!m.code.empty()) number++; Ref x = refs.back(); step(x, c, m, line, number, sec); x.fpos = fpos += (long)o.line.size() + 1; refs.push_back(x); seen.push_back(st[k].hist[0]); count = std::min(max, count + 1); if (count == max) full = true; moves += x.changed; h = sim::mix(h, (uint64_t)x.changed * 8 + x.lc * 4 + x.ext[x.tool].extr * 2 + x.rel); }
      else if (o.kind == 'g') { if (o.n > max) max = o.n; }
      else if (o.kind == 's') { sec.comment(o.line); sections++; }
      else { for (int i = 0; i < o.n; i++) { refs.pop_back(); seen.pop_back(); } count -= o.n; undone += o.n; }
      if (o.kind != 'u' && !same(st[k].hist[0], seen.back())) { R.fail("P29", o.kind == 'g' ? "grow" : o.kind == 's' ? "section" : "undo", "%s the state differs from the one seen before: %s", at.c_str(), against(st[k].hist[0], refs.back(), c).c_str()); return; }
    }
    string w = against(st[k].hist[0], refs.back(), c); if (!w.empty()) { R.fail("P29", "state", "%s %s", at.c_str(), w.c_str()); return; }
    if (st[k].count != count || st[k].max != max) { R.fail("P29", "history", "%s the history holds %d of %d positions instead of %d of %d", at.c_str(), st[k].count, st[k].max, count, max); return; }
    for (size_t i = 1; i < st[k].hist.size() && (int)i < count + (full ? 0 : 1); i++) if (i < seen.size() && !same(st[k].hist[i], seen[seen.size() - 1 - i])) { R.fail("P29", "history", "%s the position %zu updates ago differs from the one seen then: %s", at.c_str(), i, against(st[k].hist[i], refs[refs.size() - 1 - i], c).c_str()); return; }
  }
  R.nontrivial = moves > 0; R.count["updates"] += line; R.count["undone"] += undone; R.count["section_comments"] += sections; R.states.push_back(h);
}
extern const Kind pos_kinds[]; const Kind pos_kinds[] = {{"pos", gen_pos, run_pos_plan}};
extern const int n_pos_kinds; const int n_pos_kinds = 1;
