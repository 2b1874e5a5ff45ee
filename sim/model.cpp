#include "model.h"
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <functional>

namespace model {
static std::string fmt(const char* f, ...) {
  va_list ap; va_start(ap, f); char b[1024]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
bool Cmd::has(char k) const { return find(k) != nullptr; }
double Cmd::get(char k, double d) const { const Param* p = find(k); return p ? p->v : d; }
const Param* Cmd::find(char k) const { for (auto& p : params) if (p.k == k) return &p; return nullptr; }

Cmd parse(const std::string& line) {
  Cmd c;
  size_t sc = line.find(';');
  c.body = sc == std::string::npos ? line : line.substr(0, sc);
  if (sc != std::string::npos) for (char ch : line.substr(sc + 1)) if (ch != '\r') c.comment += ch;
  std::string b = c.body; size_t i = 0;
  auto ws = [&]() { while (i < b.size() && (b[i] == ' ' || b[i] == '\t' || b[i] == '\r')) i++; };
  ws();
  if (i < b.size() && toupper(b[i]) == 'N' && i + 1 < b.size() && isdigit((unsigned char)b[i + 1])) { i++; while (i < b.size() && isdigit((unsigned char)b[i])) i++; ws(); }
  if (i >= b.size()) return c;
  char L = (char)toupper(b[i]);
  if (L != 'G' && L != 'M' && L != 'T') return c;
  size_t j = i + 1; while (j < b.size() && b[j] == ' ') j++;
  if (j >= b.size() || !isdigit((unsigned char)b[j])) return c;
  size_t d0 = j; while (j < b.size() && isdigit((unsigned char)b[j])) j++;
  std::string num = b.substr(d0, j - d0);
  while (num.size() > 1 && num[0] == '0') num.erase(0, 1);
  if (j < b.size() && b[j] == '.') { size_t k = j + 1; while (k < b.size() && isdigit((unsigned char)b[k])) k++; num += b.substr(j, k - j); j = k; }
  c.code = std::string(1, L) + num;
  i = j;
  if (c.code == "M117" || c.code == "M118") return c;
  while (i < b.size()) {
    ws(); if (i >= b.size()) break;
    if (b[i] == '*') break;
    char k = (char)toupper(b[i]); i++;
    if (k < 'A' || k > 'Z') continue;
    while (i < b.size() && b[i] == ' ') i++;
    size_t v0 = i; if (i < b.size() && (b[i] == '-' || b[i] == '+')) i++;
    bool dot = false; int dec = 0; bool any = false;
    while (i < b.size() && (isdigit((unsigned char)b[i]) || (b[i] == '.' && !dot))) { if (b[i] == '.') dot = true; else { any = true; if (dot) dec++; } i++; }
    if (!any) { i = v0; c.params.push_back({k, 0, "", 0}); continue; }
    std::string t = b.substr(v0, i - v0);
    c.params.push_back({k, strtod(t.c_str(), nullptr), t, dec});
  }
  return c;
}
std::string norm(const std::string& line) {
  size_t sc = line.find(';');
  std::string g = line.substr(0, sc), c;
  if (sc != std::string::npos) for (char ch : line.substr(sc + 1)) if (ch != '\r') c += ch;
  while (!g.empty() && g.back() == '\r') g.pop_back();
  if (c.empty()) return g;
  return g + ";" + c;
}
std::vector<std::string> split_lines(const std::string& d) {
  std::vector<std::string> v; size_t p = 0;
  while (p < d.size()) { size_t q = d.find('\n', p); if (q == std::string::npos) q = d.size(); v.push_back(d.substr(p, q - p)); p = q + 1; }
  return v;
}
std::string join_lines(const std::vector<std::string>& l) { std::string s; for (auto& x : l) { s += x; s += '\n'; } return s; }

bool Printer::apply(const Cmd& c, Motion* m) {
  if (c.code == "G90") { rel = false; if (g90e) erel = false; }
  else if (c.code == "G91") { rel = true; if (g90e) erel = true; }
  else if (c.code == "M82") erel = false;
  else if (c.code == "M83") erel = true;
  else if (c.code == "G20") unit = 25.4;
  else if (c.code == "G21") unit = 1;
  else if (c.code == "G92") {
    bool any = c.has('X') || c.has('Y') || c.has('Z') || c.has('E');
    if (!any) { ox = mx; oy = my; oz = mz; oe = me; }
    if (c.has('X')) ox = mx - c.get('X') * unit;
    if (c.has('Y')) oy = my - c.get('Y') * unit;
    if (c.has('Z')) oz = mz - c.get('Z') * unit;
    if (c.has('E')) oe = me - c.get('E') * unit;
  } else if (c.code == "G28") {
    bool any = c.has('X') || c.has('Y') || c.has('Z');
    if (!any || c.has('X')) { mx = hx; ox = 0; }
    if (!any || c.has('Y')) { my = hy; oy = 0; }
    if (!any || c.has('Z')) { mz = hz; oz = 0; }
  } else if (!c.code.empty() && c.code[0] == 'T') tool = atoi(c.code.c_str() + 1);
  else if (c.is_line() || c.is_arc()) {
    Motion mo; mo.x0 = x(); mo.y0 = y(); mo.z0 = z(); mo.e0 = me;
    if (c.has('F')) f = c.get('F') * unit;
    if (c.has('X')) { double v = c.get('X') * unit; mx = rel ? mx + v : v + ox; }
    if (c.has('Y')) { double v = c.get('Y') * unit; my = rel ? my + v : v + oy; }
    if (c.has('Z')) { double v = c.get('Z') * unit; mz = rel ? mz + v : v + oz; }
    if (c.has('E')) { double v = c.get('E') * unit; me = erel ? me + v : v + oe; }
    mo.x1 = x(); mo.y1 = y(); mo.z1 = z(); mo.e1 = me; mo.f = f;
    if (c.is_arc()) {
      mo.arc = true; mo.cw = c.code == "G2";
      double I = c.get('I') * unit, J = c.get('J') * unit, R = c.has('R') ? c.get('R') * unit : 0;
      if (R != 0) { // radius form: of the two circles through both ends the one whose arc is shorter than a half circle, the other one if R is negative
        double X = mo.x1 - mo.x0, Y = mo.y1 - mo.y0, L = hypot(X, Y), h = L > 0 ? sqrt(std::max(0.0, R * R - L * L / 4)) : 0; bool left = (!mo.cw) == (R > 0); if (!left) h = -h;
        I = L > 0 ? X / 2 - h * Y / L : 0; J = L > 0 ? Y / 2 + h * X / L : 0;
      }
      mo.cx = mo.x0 + I; mo.cy = mo.y0 + J; mo.r = hypot(I, J);
      double a0 = atan2(-J, -I), a1 = atan2(mo.y1 - mo.cy, mo.x1 - mo.cx);
      double d = a1 - a0;
      if (mo.x0 == mo.x1 && mo.y0 == mo.y1) { mo.full = true; d = mo.cw ? -2 * M_PI : 2 * M_PI; }
      else if (mo.cw) { while (d >= 0) d -= 2 * M_PI; while (d < -2 * M_PI) d += 2 * M_PI; }
      else { while (d <= 0) d += 2 * M_PI; while (d > 2 * M_PI) d -= 2 * M_PI; }
      mo.sweep = d;
    }
    if (m) *m = mo;
    return true;
  }
  return false;
}

bool first_line_kept(const std::string& line) { std::string l = norm(line); return l == ";FLAVOR:UltiGCode" || l.rfind("; generated by PrusaSlicer", 0) == 0; }

std::vector<std::string> header_of(const Settings& s) {
  std::vector<std::string> h;
  h.push_back("; Postprocessed by [ArcWelder](https://github.com/FormerLurker/ArcWelderLib)");
  h.push_back("; Copyright(C) ");
  h.push_back("; Version: ");
  h.push_back(fmt("; resolution=%.2fmm", s.resolution));
  h.push_back(fmt("; path_tolerance=%.1f%%", s.path_tolerance * 100));
  h.push_back(fmt("; max_radius=%.2fmm", std::min(s.max_radius, 9999.0)));
  if (s.g90e) h.push_back("; g90_influences_extruder=True");
  if (s.mm_per_arc_segment > 0 && s.min_arc_segments > 0) {
    h.push_back("; firmware_compensation=True");
    h.push_back(fmt("; mm_per_arc_segment=%.2fmm", s.mm_per_arc_segment));
    h.push_back(fmt("; min_arc_segments=%d", s.min_arc_segments));
  }
  if (s.arcs3d) h.push_back("; allow_3d_arcs=True");
  if (s.travel) h.push_back("; allow_travel_arcs=True");
  if (s.dynamic) h.push_back("; allow_dynamic_precision=True");
  h.push_back(fmt("; default_xyz_precision=%d", s.xyz_precision));
  h.push_back(fmt("; default_e_precision=%d", s.e_precision));
  if (s.rate_variance > 0) h.push_back(fmt("; extrusion_rate_variance=%.1f%%", s.rate_variance * 100));
  h.push_back("");
  return h;
}
int header_len(const std::vector<std::string>& t, size_t at) {
  if (at >= t.size() || t[at].rfind("; Postprocessed by [ArcWelder]", 0) != 0) return -1;
  for (size_t i = at; i < t.size() && i < at + 40; i++) if (t[i].empty()) return (int)(i - at + 1);
  return -1;
}

// the feature a move belongs to according to its comment ("" if the comment names none)
std::string feature_of(std::string c) {
  size_t a = c.find_first_not_of(" \t\r\n\f\v"); if (a == std::string::npos) return "";
  c = c.substr(a, c.find_last_not_of(" \t\r\n\f\v") - a + 1);
  const std::string pre = "move to first ", post = " point"; if (c.size() > pre.size() + post.size() && c.compare(0, pre.size(), pre) == 0 && c.compare(c.size() - post.size(), post.size(), post) == 0) c = c.substr(pre.size(), c.size() - pre.size() - post.size());
  return c == "perimeter" || c == "infill" || c == "skirt" || c == "infill(bridge)" ? c : "";
}
static double seg_dev(double x0, double y0, double x1, double y1, double cx, double cy, double r) {
  // greatest distance between the segment and the circle, measured radially
  double d0 = fabs(hypot(x0 - cx, y0 - cy) - r), d1 = fabs(hypot(x1 - cx, y1 - cy) - r), m = std::max(d0, d1);
  double dx = x1 - x0, dy = y1 - y0, L2 = dx * dx + dy * dy;
  if (L2 > 0) {
    double t = ((cx - x0) * dx + (cy - y0) * dy) / L2;
    if (t > 0 && t < 1) m = std::max(m, fabs(r - hypot(x0 + t * dx - cx, y0 + t * dy - cy)));
  }
  return m;
}

Weld analyze_weld(const std::vector<std::string>& src, const std::vector<std::string>& tgt, const Settings& s) {
  Weld w;
  size_t t0 = 0, s0 = 0;
  // ---- header
  if (src.empty()) { if (!tgt.empty() && header_len(tgt, 0) < 0) w.add("header", "target of an empty source is neither empty nor a header"); w.aligned = true; return w; }
  bool keep = first_line_kept(src[0]);
  if (keep) {
    if (tgt.empty() || norm(tgt[0]) != norm(src[0])) { w.add("header", "slicer marker line is not the first line of the output"); }
    else { t0 = 1; s0 = 1; }
  }
  int hl = header_len(tgt, t0);
  if (hl < 0) { w.add("header", "settings header missing at the start of the output"); w.add("align", "no header"); return w; }
  std::vector<std::string> eh = header_of(s);
  if (hl != (int)eh.size()) w.add("header", fmt("header has %d lines, expected %d", hl, (int)eh.size()));
  else for (int i = 0; i < hl; i++) {
    bool ok = (i == 1 || i == 2) ? tgt[t0 + i].rfind(eh[i], 0) == 0 : tgt[t0 + i] == eh[i];
    if (!ok) w.add("header", "header line '" + tgt[t0 + i] + "', expected '" + eh[i] + "'");
  }
  t0 += hl;
  // ---- compact both sides (blank lines carry no meaning)
  struct L { Cmd c; std::string n; int no; };
  std::vector<L> S, T;
  for (size_t i = s0; i < src.size(); i++) { Cmd c = parse(src[i]); if (c.blank()) continue; S.push_back({c, norm(src[i]), (int)i}); }
  for (size_t i = t0; i < tgt.size(); i++) { Cmd c = parse(tgt[i]); if (c.blank()) continue; if (c.body.empty() && c.comment.rfind(" Postprocessed by [ArcWelder]", 0) == 0) {
      bool insrc = false; for (auto& l : S) if (l.n == norm(tgt[i])) insrc = true;
      if (!insrc) w.add("header", "a second settings header appears in the output"); }
    T.push_back({c, norm(tgt[i]), (int)i}); }
  // ---- alignment
  // states of the source printer after each line
  std::vector<Printer> sp(S.size() + 1); std::vector<Motion> sm(S.size()); std::vector<char> ism(S.size());
  sp[0].g90e = s.g90e;
  for (size_t i = 0; i < S.size(); i++) { sp[i + 1] = sp[i]; ism[i] = sp[i + 1].apply(S[i].c, &sm[i]); }
  std::map<std::string, std::vector<int>> where;
  for (size_t i = 0; i < S.size(); i++) where[S[i].n].push_back((int)i);
  struct Step { int i0, i1; };              // target line j covers source [i0,i1)
  std::vector<Step> al(T.size());
  double tolx = 2.5 * pow(10, -s.xyz_precision);
  size_t far_i = 0, far_j = 0; long budget = 200000;
  // explicit stack depth-first search
  struct Fr { int i, j; std::vector<int> cand; size_t ci; Printer tp; };
  std::vector<Fr> st;
  auto cands = [&](int i, int j, const Printer& tp) {
    std::vector<int> out;
    if (j >= (int)T.size()) return out;
    if (i < (int)S.size() && S[i].n == T[j].n) { out.push_back(i + 1); }
    if (T[j].c.is_arc()) {
      Printer q = tp; Motion m; q.apply(T[j].c, &m);
      int lim = i; while (lim < (int)S.size() && S[lim].c.is_line()) lim++;
      std::vector<std::pair<double, int>> good; double best = 1e300; int bk = -1;
      for (int k = i + 2; k <= lim; k++) {
        if (j + 1 < (int)T.size() && !T[j + 1].c.is_arc() && !(k < (int)S.size() && S[k].n == T[j + 1].n)) continue;
        if (j + 1 >= (int)T.size() && k != (int)S.size()) continue;
        double d = std::max(std::max(fabs(sp[k].x() - q.x()), fabs(sp[k].y() - q.y())), fabs(sp[k].z() - q.z()));
        double de = fabs(sp[k].me - q.me);
        double score = d + de;
        if (d <= tolx && de <= 0.01) good.push_back({d <= 0.51 * pow(10, -s.xyz_precision) && de <= 0.51 * pow(10, -s.e_precision) ? 0 : score, k});
        if (score < best) { best = score; bk = k; }
      }
      std::stable_sort(good.begin(), good.end(), [](const std::pair<double, int>& a, const std::pair<double, int>& b) { return a.first < b.first; });
      for (auto& g : good) out.push_back(g.second);
      if (good.empty() && bk > 0) out.push_back(bk);
    }
    return out;
  };
  { Printer p0; p0.g90e = s.g90e; st.push_back({0, 0, cands(0, 0, p0), 0, p0}); }
  bool done = S.empty() && T.empty();
  while (!st.empty() && !done && budget-- > 0) {
    Fr& f = st.back();
    if (f.i == (int)S.size() && f.j == (int)T.size()) { done = true; break; }
    if ((size_t)f.j > far_j || ((size_t)f.j == far_j && (size_t)f.i > far_i)) { far_j = f.j; far_i = f.i; }
    if (f.ci >= f.cand.size()) { st.pop_back(); continue; }
    int k = f.cand[f.ci++]; int j = f.j, i = f.i; Printer tp = f.tp;
    al[j] = {i, k};
    tp.apply(T[j].c, nullptr);
    st.push_back({k, j + 1, cands(k, j + 1, tp), 0, tp});
  }
  if (!done) {
    w.add("align", fmt("no correspondence between source and output beyond source line %d ('%s') / output line %d ('%s')",
      far_i < S.size() ? S[far_i].no + 1 : -1, far_i < S.size() ? S[far_i].n.c_str() : "<end>", far_j < T.size() ? T[far_j].no + 1 : -1, far_j < T.size() ? T[far_j].n.c_str() : "<end>"));
    return w;
  }
  w.aligned = true;
  // ---- lock-step execution
  Printer tp; tp.g90e = s.g90e; int arcs = 0; double etol0 = 1.01 * 0.5 * pow(10, -s.e_precision) + 1e-9;
  double ptol = 0.5001 * pow(10, -s.xyz_precision) + 1e-9;
  int dec_xyz = s.xyz_precision, dec_e = s.e_precision; size_t seen = 0;
  double xdrift = 0, ydrift = 0, zdrift = 0, ebase = 0, ecur = 0;      // admissible error from rounding still in force
  for (size_t j = 0; j < T.size(); j++) {
    int i0 = al[j].i0, i1 = al[j].i1; bool gen = i1 - i0 >= 2;
    // with dynamic precision an arc has the decimals of the moves up to its end
    if (s.dynamic) {
      for (; (int)seen < i1; seen++) if (S[seen].c.is_line()) for (auto& p : S[seen].c.params) {
        if (strchr("XYZ", p.k)) dec_xyz = std::min(6, std::max(dec_xyz, p.decimals)); if (p.k == 'E') dec_e = std::min(6, std::max(dec_e, p.decimals)); }
      ptol = 0.5001 * pow(10, -dec_xyz) + 1e-9; etol0 = 1.01 * 0.5 * pow(10, -dec_e) + 1e-9;
    }
    Printer before = tp; Motion m; tp.apply(T[j].c, &m);
    if (!gen) {
      w.verbatim++;
      if (ism[i0]) {   // absolute words re-establish the axis exactly
        if (!before.rel) { if (T[j].c.has('X')) xdrift = 0; if (T[j].c.has('Y')) ydrift = 0; if (T[j].c.has('Z')) zdrift = 0; }
        if (!before.erel && T[j].c.has('E')) ecur = 0;    // logical E exact again; machine E keeps what earlier resets froze
      } else if (T[j].c.code == "G92" && (T[j].c.has('E') || T[j].c.params.empty())) { ebase += ecur; ecur = 0; }
    } else {
      arcs++; Arc a{S[i0].no, S[i1 - 1].no, T[j].no, i1 - i0}; w.arcs.push_back(a); w.points_welded += i1 - i0;
      std::string where_ = fmt("arc at output line %d (source lines %d-%d)", T[j].no + 1, S[i0].no + 1, S[i1 - 1].no + 1);
      const Cmd& c = T[j].c;
      xdrift = ydrift = ptol; if (c.has('Z')) zdrift = ptol;
      // eligibility
      bool e_pos = false, e_neg = false, e_zero = false; std::set<std::string> tags;
      double prate = 0; bool prate_known = false;
      for (int i = i0; i < i1; i++) {
        if (!S[i].c.is_line()) w.add("eligible", where_ + " swallows '" + S[i].n + "'");
        if (sp[i].rel) w.add("eligible", where_ + " welds relative XYZ moves");
        if (!s.arcs3d && fabs(sm[i].z1 - sm[i].z0) > 1e-6) w.add("eligible", where_ + fmt(" spans a Z move %.4f -> %.4f on line %d", sm[i].z0, sm[i].z1, S[i].no + 1));
        if (i > i0 && sp[i + 1].f != sp[i].f) w.add("eligible", where_ + fmt(" spans a feed-rate change %g -> %g on line %d", sp[i].f, sp[i + 1].f, S[i].no + 1));
        double de = sm[i].e1 - sm[i].e0;
        if (de > 1e-9) e_pos = true; else if (de < -1e-9) e_neg = true; else e_zero = true;
        double len = s.arcs3d ? hypot(hypot(sm[i].x1 - sm[i].x0, sm[i].y1 - sm[i].y0), sm[i].z1 - sm[i].z0) : hypot(sm[i].x1 - sm[i].x0, sm[i].y1 - sm[i].y0);
        if (s.rate_variance > 0 && len > 0 && fabs(de) > 1e-9) {
          double rate = fabs(de) / len;
          if (prate_known) {
            double ch = fabs(rate - prate) / prate;
            if (ch > s.rate_variance + 1.1e-5 + 1e-7 / fabs(de)) w.add("extrude", where_ + fmt(" spans an extrusion-rate change of %.6f%% (limit %.6f%%) on line %d", ch * 100, s.rate_variance * 100, S[i].no + 1));
          }
          prate = rate; prate_known = true;
        }
        std::string cm = S[i].c.comment;
        if (!feature_of(cm).empty()) tags.insert(feature_of(cm));
      }
      if (e_pos + e_neg + e_zero > 1) w.add("eligible", where_ + fmt(" mixes %s%s%s moves", e_pos ? "extruding " : "", e_neg ? "retracting " : "", e_zero ? "travel " : ""));
      if (!e_pos && !e_neg && !s.travel) w.add("eligible", where_ + " welds travel moves although travel arcs are disabled");
      if (tags.size() > 1) w.add("eligible", where_ + " spans more than one feature type");
      // extrusion of the whole arc
      double se = sm[i1 - 1].e1 - sm[i0].e0, te = m.e1 - m.e0;
      double etol = etol0 + 1e-7;
      if (before.erel) { if (fabs(se - te) > etol) w.add("extrude", where_ + fmt(" feeds %.6f mm of filament, source feeds %.6f", te, se)); ecur += etol0; }
      else if (fabs((sm[i1 - 1].e1 - sp[i1].oe) - (m.e1 - tp.oe)) > etol && c.has('E')) w.add("extrude", where_ + fmt(" ends at E%.6f, source at E%.6f", m.e1 - tp.oe, sm[i1 - 1].e1 - sp[i1].oe));
      if (!before.erel && c.has('E')) ecur = etol0;
      if (!before.erel && !c.has('E') && fabs(se) > etol0) w.add("extrude", where_ + fmt(" drops %.6f mm of filament", se));
      if (!e_pos && !e_neg && c.has('E') && fabs(te) > etol + ecur + etol0) w.add("extrude", where_ + " extrudes although the source only travels");
      // geometry
      double lim = s.resolution / 2 + 2.3 * pow(10, -s.xyz_precision) + 1e-9;
      double worst = 0, worstz = 0; double ang = 0; bool back = false; double px = m.x0, py = m.y0; double prog = 0;
      double dir = m.cw ? -1 : 1;
      double seglen = 0, total = 0;
      for (int i = i0; i < i1; i++) total += s.arcs3d ? hypot(hypot(sm[i].x1 - sm[i].x0, sm[i].y1 - sm[i].y0), sm[i].z1 - sm[i].z0) : hypot(sm[i].x1 - sm[i].x0, sm[i].y1 - sm[i].y0);
      for (int i = i0; i < i1; i++) {
        double ax = i == i0 ? m.x0 : sm[i].x0, ay = i == i0 ? m.y0 : sm[i].y0;
        worst = std::max(worst, seg_dev(ax, ay, sm[i].x1, sm[i].y1, m.cx, m.cy, m.r));
        double a0 = atan2(py - m.cy, px - m.cx), a1 = atan2(sm[i].y1 - m.cy, sm[i].x1 - m.cx), d = a1 - a0;
        while (d > M_PI) d -= 2 * M_PI; while (d < -M_PI) d += 2 * M_PI;
        prog += d * dir; if (d * dir < -(lim * 2) / std::max(m.r, 1e-6) - 1e-9) back = true;
        ang += d; px = sm[i].x1; py = sm[i].y1;
        seglen += s.arcs3d ? hypot(hypot(sm[i].x1 - sm[i].x0, sm[i].y1 - sm[i].y0), sm[i].z1 - sm[i].z0) : hypot(sm[i].x1 - sm[i].x0, sm[i].y1 - sm[i].y0);
        if (s.arcs3d) {
          auto zoff = [&](double fr) { fr = std::min(1.0, std::max(0.0, fr)); return fabs(m.z0 + (m.z1 - m.z0) * fr - sm[i].z1); };
          worstz = std::max(worstz, std::min(zoff(m.sweep != 0 ? ang / m.sweep : 1), zoff(total > 0 ? seglen / total : 1)));
        }
      }
      if (worst > lim) w.add("path", where_ + fmt(" strays %.5f mm from the source path, allowed %.5f", worst, s.resolution / 2));
      bool orderly = lim < 0.4 * m.r;     // with a tolerance of the size of the radius the angular order of the points carries no information
      if (back && orderly) w.add("path", where_ + " does not visit the source points in order");
      if (orderly && fabs(ang - m.sweep) > (3 * lim) / std::max(m.r, 1e-6) + 1e-6) w.add("path", where_ + fmt(" sweeps %.4f rad, the source path sweeps %.4f", m.sweep, ang));
      if (s.arcs3d && worstz > s.resolution / 2 + 2 * pow(10, -s.xyz_precision) + 1e-9) w.add("path", where_ + fmt(" is %.4f mm off in Z", worstz));
      double arclen = fabs(m.sweep) * m.r; if (s.arcs3d) arclen = hypot(arclen, m.z1 - m.z0);
      if (seglen > 0 && fabs(arclen - seglen) / arclen > s.path_tolerance + 6 * pow(10, -s.xyz_precision) / arclen + 1e-6 && fabs(arclen - seglen) > 6 * pow(10, -s.xyz_precision)) w.add("path", where_ + fmt(" is %.4f mm long, the source path %.4f", arclen, seglen));
      // limits and format
      if (m.r > std::min(s.max_radius, 9999.0) + 1.5 * pow(10, -s.xyz_precision)) w.add("limits", where_ + fmt(" has radius %.4f above the maximum %.4f", m.r, s.max_radius));
      if (i1 - i0 < 2) w.add("limits", where_ + " replaces fewer than two moves");
      int gl = (int)c.body.size(); while (gl > 0 && c.body[gl - 1] == ' ') gl--;
      if (s.max_gcode_length > 0 && gl > s.max_gcode_length) w.add("limits", where_ + fmt(" is %d characters long, limit %d: %s", gl, s.max_gcode_length, c.body.c_str()));
      std::string order; for (auto& p : c.params) {
        order += p.k;
        int n = p.k == 'E' ? dec_e : p.k == 'F' ? 0 : dec_xyz;
        if (p.decimals < n && p.text != "0" && p.text != "-0") w.add("limits", where_ + fmt(" writes %c%s with fewer than %d decimals", p.k, p.text.c_str(), n));
        if (p.decimals > n) w.add("limits", where_ + fmt(" writes %c%s with more than %d decimals", p.k, p.text.c_str(), n));
      }
      if (!c.has('X') || !c.has('Y') || !(c.has('I') || c.has('J'))) w.add("limits", where_ + " is missing an X, Y, I or J word");
      for (size_t a1 = 0; a1 < order.size(); a1++) for (size_t b1 = a1 + 1; b1 < order.size(); b1++) if (order[a1] == order[b1]) w.add("limits", where_ + " repeats a word");
      for (char ch : c.body) if (!strchr("GXYZIJEF0123456789.- ", ch)) { w.add("limits", where_ + " contains an unexpected character: " + c.body); break; }
      if (s.mm_per_arc_segment > 0 && s.min_arc_segments > 0) {
        double circ = 2 * M_PI * m.r + 10 * pow(10, -s.xyz_precision), need = s.min_arc_segments;
        double byseg = floor(circ / s.mm_per_arc_segment + 1e-6), bylen = floor(circ / std::max(1e-9, seglen) + 1e-6);
        if (byseg < need && bylen < need) w.add("limits", where_ + fmt(" of radius %.3f would be drawn with about %.0f firmware segments per circle, at least %d wanted", m.r, byseg, s.min_arc_segments));
      }
      // comments
      std::vector<std::string> want; for (int i = i0; i < i1; i++) if (!S[i].c.comment.empty()) want.push_back(S[i].c.comment);
      std::string have = c.comment; std::set<std::string> missing;
      for (auto& q : want) if (have.find(q) == std::string::npos) missing.insert(q);
      for (auto& q : missing) w.add("comment", where_ + " loses the comment '" + q + "'");
      // in order, separated by " - "; a comment that was there before may be left out
      if (missing.empty() && want.size() < 400) {
        std::set<std::pair<size_t, size_t>> seen; bool fit = false;
        std::vector<std::pair<size_t, size_t>> todo(1, std::make_pair((size_t)0, (size_t)0));
        while (!todo.empty() && !fit) {
          std::pair<size_t, size_t> t = todo.back(); todo.pop_back(); if (!seen.insert(t).second) continue;
          if (t.first == want.size()) { fit = t.second == have.size(); continue; }
          const std::string& q = want[t.first];
          for (size_t k = 0; k < t.first; k++) if (want[k] == q) { todo.push_back(std::make_pair(t.first + 1, t.second)); break; }
          std::string e = (t.second ? " - " : "") + q; if (have.compare(t.second, e.size(), e) == 0) todo.push_back(std::make_pair(t.first + 1, t.second + e.size()));
        }
        if (!fit) w.add("comment", where_ + " does not carry the comments of its moves in order: '" + have + "'");
      }
      std::string rest = have; // nothing invented: removing the source comments and separators must leave nothing
      std::vector<std::string> uq(want); std::sort(uq.begin(), uq.end(), [](const std::string& a, const std::string& b) { return a.size() > b.size(); });
      for (auto& q : uq) { size_t at; while (!q.empty() && (at = rest.find(q)) != std::string::npos) rest.erase(at, q.size()); }
      size_t at; while ((at = rest.find(" - ")) != std::string::npos) rest.erase(at, 3);
      if (rest.find_first_not_of(" -") != std::string::npos) w.add("comment", where_ + " carries text that is in no welded line: '" + rest + "'");
    }
    // state comparison after every corresponding point
    const Printer& A = sp[i1]; const Printer& B = tp;
    std::string here = fmt("after output line %d / source line %d", T[j].no + 1, S[i1 - 1].no + 1);
    double bx = xdrift + 1e-7, by = ydrift + 1e-7, bz = zdrift + 1e-7;
    if (fabs(A.x() - B.x()) > bx || fabs(A.y() - B.y()) > by || fabs(A.z() - B.z()) > bz)
      w.add("state", here + fmt(": position (%.5f %.5f %.5f) instead of (%.5f %.5f %.5f)", B.x(), B.y(), B.z(), A.x(), A.y(), A.z()));
    if (fabs(A.me - B.me) > ebase + ecur + 1e-6) w.add("state", here + fmt(": filament fed %.6f instead of %.6f", B.me, A.me));
    if (!A.erel && fabs(A.e() - B.e()) > ecur + 1e-6) w.add("state", here + fmt(": E register %.6f instead of %.6f", B.e(), A.e()));
    if (fabs(A.f - B.f) > 0.5001) w.add("state", here + fmt(": feed rate %.4f instead of %.4f", B.f, A.f));
    if (A.rel != B.rel || A.erel != B.erel || A.unit != B.unit || A.tool != B.tool) w.add("state", here + ": modes differ");
  }
  return w;
}
}
