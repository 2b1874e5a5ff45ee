#include "gen.h"
#include <math.h>
#include <stdio.h>
#include <stdarg.h>
#include <algorithm>
using sim::Rng;
using std::string;
namespace gen {
static string fmt(const char* f, ...) { va_list ap; va_start(ap, f); char b[512]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static string dec(double v, int d, bool strip) {
  string s = fmt("%.*f", d, v);
  if (strip && s.find('.') != string::npos) { while (s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); }
  if (s == "-0") s = "0";
  bool z = true; for (char c : s) if (c != '-' && c != '0' && c != '.') z = false;
  if (z && s[0] == '-') s.erase(0, 1);
  return s;
}
model::Settings settings(Rng& r) {
  model::Settings s;
  static const std::vector<double> res = {0.05, 0.05, 0.05, 0.1, 0.02, 0.01, 0.2, 0.5, 0.05};
  s.resolution = r.pick(res);
  static const std::vector<double> tol = {0.05, 0.05, 0.05, 0.01, 0.1, 0.25, 0.02, 0.002};
  s.path_tolerance = r.pick(tol);
  static const std::vector<double> rad = {9999, 9999, 9999, 1000000, 100, 20, 5, 50.5};
  s.max_radius = r.pick(rad);
  if (r.chance(0.15)) { s.min_arc_segments = r.range(3, 24); static const std::vector<double> mm = {0.5, 1, 1, 2, 5, 0.1, 10}; s.mm_per_arc_segment = r.pick(mm); }
  static const std::vector<double> var = {0.05, 0.05, 0, 0, 0.02, 0.1, 0.3, 1.0};
  s.rate_variance = r.pick(var);
  static const std::vector<int> xp = {3, 3, 3, 4, 5, 6}, ep = {5, 5, 5, 3, 4, 6};
  s.xyz_precision = r.pick(xp); s.e_precision = r.pick(ep);
  if (r.chance(0.25)) { static const std::vector<int> gl = {31, 40, 45, 50, 55, 60, 64, 70}; s.max_gcode_length = r.pick(gl); }
  s.g90e = r.chance(0.3); s.arcs3d = r.chance(0.25); s.travel = r.chance(0.3); s.dynamic = r.chance(0.25);
  static const std::vector<int> bs = {50, 50, 50, 2, 3, 5, 10, 200, 600};
  s.buffer_size = r.pick(bs);
  static const std::vector<double> np = {0.5, 0.5, 0.0, 1.0, 0.01};
  s.notification = r.pick(np);
  s.log_level = r.chance(0.85) ? 6 : r.range(0, 6);
  return s;
}

struct B {
  Rng& r; const model::Settings& s; const Profile& p;
  std::vector<string> L;
  double x = 0, y = 0, z = 0.2, e = 0, f = 0;
  bool rel = false, erel = false;
  int xd = 3, ed = 5, zd = 3; bool strip = false; int spacing = 0; bool lower = false;
  double flow = 0.04; string tag; double cdens = 0.06; int fast = 1;
  B(Rng& r_, const model::Settings& s_, const Profile& p_) : r(r_), s(s_), p(p_) {
    if (p.vary_format) {
      static const std::vector<int> xs = {3, 3, 3, 2, 4, 5, 6}, es = {5, 5, 5, 4, 3, 6, 2};
      xd = r.pick(xs); ed = r.pick(es); if (r.chance(0.25)) { static const std::vector<int> zs = {2, 4, 5}; zd = r.pick(zs); } strip = r.chance(0.3); if (r.chance(0.1)) spacing = r.range(1, 3); lower = r.chance(0.05);
    }
    flow = r.uni(0.01, 0.12);
    if (r.chance(0.15)) cdens = r.chance(0.5) ? 0.4 : 1.0;
    fast = r.chance(0.06) ? r.range(10, 400) : 1;
  }
  string quant(double v, int d) { return dec(v, d, strip); }
  void emit(string l) {
    if (lower) { size_t c = l.find(';'); for (size_t i = 0; i < l.size() && i < c; i++) if (l[i] >= 'A' && l[i] <= 'Z') l[i] += 32; }
    L.push_back(l);
  }
  // emits one move and tracks what a printer would do with the text
  void move(bool hasx, double nx, bool hasy, double ny, bool hasz, double nz, bool hase, double de, double nf, const string& cm, int g = -1) {
    string sp = spacing == 1 ? "" : spacing == 2 ? "  " : " ";
    string l = g >= 0 ? fmt("G%d", g) : (hase ? "G1" : (r.chance(0.5) ? "G0" : "G1"));
    string first = spacing == 1 ? " " : sp;
    string body;
    auto word = [&](char k, const string& v) { body += (body.empty() ? first : sp) + string(1, k) + v; };
    if (nf > 0 && r.chance(0.5)) { word('F', dec(nf, 3, true)); f = nf; nf = 0; }
    if (hasx) { string v = quant(rel ? nx - x : nx, xd); word('X', v); double q = atof(v.c_str()); x = rel ? x + q : q; }
    if (hasy) { string v = quant(rel ? ny - y : ny, xd); word('Y', v); double q = atof(v.c_str()); y = rel ? y + q : q; }
    if (hasz) { string v = quant(rel ? nz - z : nz, zd); word('Z', v); double q = atof(v.c_str()); z = rel ? z + q : q; }
    if (hase) { string v = quant(erel ? de : e + de, ed); word('E', v); double q = atof(v.c_str()); e = erel ? e + q : q; }
    if (nf > 0) { word('F', dec(nf, 3, true)); f = nf; }
    if (body.empty()) return;
    l += body;
    if (p.unknown && r.chance(0.003)) l = " " + l;
    if (!cm.empty()) l += (r.chance(0.7) ? " ;" : ";") + cm;
    emit(l);
  }
  // sometimes a feed rate very near to the one in force
  double feed() {
    static const std::vector<double> near = {0.2, 0.4, -0.3, 1, -1, 0.001, 0.6};
    if (f > 0 && r.chance(0.4)) return r.chance(0.3) ? f : f + r.pick(near);
    return fast * (r.chance(0.8) ? r.range(600, 6000) : r.range(600000, 6000000) / 1000.0);
  }
  string comment() {
    if (!p.comments) return "";
    static const std::vector<string> cs = {" perimeter", "infill", "perimeter", "move to point", " a - b", "x;y", " support material", " note 1", "skirt", " note 12", "note", "support", "move", "a", "y", "infill(bridge)", " infill", " skirt", " move to first infill point", "move to first perimeter point"};
    if (!r.chance(cdens)) return "";
    string c = r.pick(cs); return r.chance(0.02) ? c + string(r.range(30, 600), 'c') : c;
  }
  void interrupt() {
    int k = r.range(0, 25);
    switch (k) {
      case 22: if (p.unknown) { static const std::vector<string> u = {" CLEAR_PAUSE", "\tSET_FAN S=1", "  _LAYER_MACRO N=3", "EXCLUDE_OBJECT_START NAME=a", "\xc3\x9c" "ber", "{if x}", "@OCTOLAPSE ; note", "%", "@pause now", " ; indented comment", "M118 E1 hello G1 X5", "M106 S200 *41", "START_PRINT BED_TEMP=60 EXTRUDER_TEMP=210 MATERIAL=PLA CHAMBER=35", "EXCLUDE_OBJECT_DEFINE NAME=cube_id_0_copy_0 CENTER=124.9,109.7 POLYGON=[[99.9,84.7],[149.9,84.7],[149.9,134.7],[99.9,134.7]]"}; string l = r.pick(u); if (r.chance(0.05)) l += " " + string(r.range(50, 1500), 'K'); emit(l); } break;
      case 23: if (p.unknown && !rel) { move(true, x + r.uni(-3, 3), true, y + r.uni(-3, 3), false, 0, false, 0, 0, "", 1); string& l = L.back(); size_t g = l.find_first_of("gG"); if (g != string::npos) l.insert(g + 1, r.chance(0.5) ? "0" : "00"); } break;
      case 24: if (p.unknown) emit("M400"); break;
      case 25: if (p.unknown && !p.abs_only && r.chance(0.3)) { emit("G28 X Y"); x = y = 0; } break;
      case 0: emit(""); if (r.chance(0.02)) for (int i = r.range(1, 300); i > 0; i--) emit(""); break;
      case 1: emit("; just a comment"); break;
      case 2: emit(fmt("M106 S%d", r.range(0, 255))); break;
      case 3: if (p.unknown) emit("M117 Layer G1 X1 Y1"); break;
      case 4: emit(erel ? "G92 E0" : "G92 E0"); e = 0; break;
      case 5: if (p.z_moves) move(false, 0, false, 0, true, z + (r.chance(0.5) ? 0.2 : -0.1), false, 0, 0, "", 1); break;
      case 6: move(false, 0, false, 0, false, 0, true, -r.uni(0.2, 4), 1800, "", 1); break;
      case 7: move(false, 0, false, 0, false, 0, true, r.uni(0.2, 4), 1800, "", 1); break;
      case 8: emit(fmt("G1 F%d", (int)(f = fast * r.range(600, 9000)))); break;
      case 9: if (p.rel) { erel = !erel; emit(erel ? "M83" : "M82"); if (!erel) { emit("G92 E0"); e = 0; } } break;
      case 10: if (p.unknown) emit("UNKNOWN_MACRO A=1"); break;
      case 11: if (p.unknown) emit(r.chance(0.5) ? "M900 K0.2" : "M204 S800"); break;
      case 12: emit(fmt("T%d", r.chance(0.8) ? r.range(0, 2) : r.range(3, 15))); break;
      case 13: if (p.flow) flow *= r.uni(0.4, 2.2); break;
      case 14: if (p.flow) flow *= 1 + (r.chance(0.5) ? 1 : -1) * s.rate_variance * r.uni(0.6, 1.5); break;
      case 15: if (p.comments) { static const std::vector<string> cs = {"; infill", "; perimeter", ";TYPE:WALL-OUTER", ";TYPE:FILL", "; feature infill", "; outer perimeter", ";LAYER:3"}; emit(r.pick(cs)); } break;
      case 16: if (p.rel && !p.abs_only) { emit("G91"); rel = true; bool se = erel; if (s.g90e) erel = true;
                 move(true, x + r.uni(-2, 2), true, y + r.uni(-2, 2), r.chance(0.3), z + 0.1, false, 0, 0, "", 1);
                 emit("G90"); rel = false; if (s.g90e) erel = false; if (se != erel) { emit(se ? "M83" : "M82"); erel = se; } if (!erel && s.g90e) { emit("G92 E0"); e = 0; } } break;
      case 17: if (!p.abs_only) { double a = r.uni(-5, 5); emit(fmt("G92 X%.3f", a)); x = atof(fmt("%.3f", a).c_str()); } break;
      case 18: if (p.unknown) emit("   "); break;
      case 19: emit("G4 P100"); break;
      case 20: move(true, x, true, y, false, 0, r.chance(0.5), 0.1, 0, "", 1); break;       // no movement
      case 21: if (p.z_moves) { move(false, 0, false, 0, true, z + 0.4, false, 0, 0, "", 0); move(false, 0, false, 0, true, z - 0.4, false, 0, 0, "", 0); } break;
    }
  }
  // a sampled curve: points are given by a function of [0,1]
  template <class F> void curve(F at, int n, int mode, double jitter, double spacing_irregular) {
    // mode: 1 extrude, 0 travel, -1 retracting wipe
    double px = x, py = y; double t = 0;
    for (int i = 1; i <= n; i++) {
      if (r.chance(p.weird / n)) interrupt();
      t = (double)i / n; if (i < n && spacing_irregular > 0) t += r.uni(-0.45, 0.45) * spacing_irregular / n;
      double nx, ny, nz; at(t, nx, ny, nz);
      if (jitter > 0) { nx += r.uni(-jitter, jitter); ny += r.uni(-jitter, jitter); }
      double d = hypot(nx - px, ny - py);
      bool skipx = fabs(nx - x) < 1e-9, skipy = fabs(ny - y) < 1e-9;
      bool hz = fabs(nz - z) > 1e-9;
      double fl = flow; if (p.flow && r.chance(0.01)) fl *= 1 + s.rate_variance * r.uni(-2, 2);
      move(!skipx || r.chance(0.5), nx, !skipy || r.chance(0.5), ny, hz, nz, mode != 0, mode > 0 ? d * fl : -d * 0.05, r.chance(0.02) ? feed() : 0, r.chance(0.5) ? comment() : tag);
      px = x; py = y;
    }
  }
  // moves of lengths such as exactly 1, 5 or 10 mm, which are limits of the rows of the statistics
  void ruler() {
    static const std::vector<double> ln = {0.5, 1, 1, 5, 5, 10, 10, 20, 50, 100}; auto q = [](double v) { return floor(v * 4 + 0.5) / 4; };
    move(true, q(r.uni(20, 180)), true, q(r.uni(20, 180)), p.z_moves, q(z + 0.3), false, 0, 0, "", r.range(0, 1));
    int n = r.range(2, 8), mode = r.chance(0.7) ? 1 : r.chance(0.6) ? 0 : -1;
    for (int i = 0; i < n; i++) {
      double d = r.pick(ln), dx = d, dy = 0; if (d >= 5 && r.chance(0.4)) { dx = d * 0.6; dy = d * 0.8; } if (r.chance(0.5)) std::swap(dx, dy); if (r.chance(0.5)) dx = -dx; if (r.chance(0.5)) dy = -dy;
      if (p.z_moves && dy == 0 && r.chance(0.1)) { dy = dx * 0.8; dx *= 0.6; if (q(dx) != dx || q(dy) != dy) { dx = d; dy = 0; } }
      move(dx != 0, x + dx, dy != 0, y + dy, false, 0, mode != 0, mode * d * flow, 0, comment());
    }
  }
  void shape() {
    if (r.chance(0.04)) { ruler(); return; }
    int k = r.range(0, 11);
    double cx = r.uni(20, 180), cy = r.uni(20, 180);
    if (r.chance(0.1)) { cx -= 100; cy -= 100; }
    double R = exp(r.uni(log(0.3), log(80))); if (r.chance(0.05)) R = exp(r.uni(log(80), log(20000)));
    double a0 = r.uni(0, 2 * M_PI), dir = r.chance(0.5) ? 1 : -1;
    double sw = r.uni(0.2, 2 * M_PI); if (R > 100) sw = std::min(sw, 60 / R);
    if (r.chance(0.1) && R < 100) sw = 2 * M_PI; if (r.chance(0.05) && R < 50) sw = r.uni(2, 4) * M_PI;
    // enough samples for the sagitta to be near the resolution, sometimes too few
    double sag = s.resolution * r.uni(0.05, 0.8);
    double st = sag < R ? 2 * acos(1 - sag / R) : 1.0;
    int n = std::max(2, std::min(r.chance(0.1) ? 120 : 40, (int)(sw / st) + 1));
    double jit = r.chance(0.7) ? 0 : s.resolution * r.uni(0, 1.0);
    double irr = r.chance(0.6) ? 0 : r.uni(0, 1);
    int mode = r.chance(0.8) ? 1 : r.chance(0.7) ? 0 : -1;
    double z0 = z, z1 = (p.z_moves && r.chance(s.arcs3d ? 0.4 : 0.1)) ? z + r.uni(0.05, 1) : z;
    auto circ = [&](double t, double& X, double& Y, double& Z) { X = cx + R * cos(a0 + dir * sw * t); Y = cy + R * sin(a0 + dir * sw * t); Z = z0 + (z1 - z0) * t; };
    double sx, sy, sz;
    switch (k) {
      case 0: case 1: case 2: case 3: case 4: case 5:
        circ(0, sx, sy, sz);
        if (r.chance(0.85)) move(true, sx, true, sy, false, 0, false, 0, r.chance(0.3) ? r.range(600, 9000) : 0, comment());
        curve(circ, n, mode, jit, irr);
        break;
      case 6: {          // S curve: direction flips
        circ(0, sx, sy, sz); move(true, sx, true, sy, false, 0, false, 0, 0, "");
        curve(circ, n, mode, jit, irr);
        double ex = cx + R * cos(a0 + dir * sw), ey = cy + R * sin(a0 + dir * sw); double c2x = 2 * ex - cx, c2y = 2 * ey - cy, b0 = a0 + dir * sw + M_PI; z0 = z1 = z;
        auto c2 = [&](double t, double& X, double& Y, double& Z) { X = c2x + R * cos(b0 - dir * sw * t); Y = c2y + R * sin(b0 - dir * sw * t); Z = z; };
        curve(c2, n, mode, jit, irr); break; }
      case 7: {          // polygon / infill
        int m = r.range(2, 10);
        for (int i = 0; i < m; i++) move(true, cx + r.uni(-20, 20), true, cy + r.uni(-20, 20), false, 0, mode != 0, mode * 0.5, 0, comment());
        break; }
      case 8: {          // straight subdivided line
        double bx = cx + r.uni(-40, 40), by = cy + r.uni(-40, 40); move(true, cx, true, cy, false, 0, false, 0, 0, "");
        auto ln = [&](double t, double& X, double& Y, double& Z) { X = cx + (bx - cx) * t; Y = cy + (by - cy) * t; Z = z; };
        curve(ln, r.range(2, 12), mode, jit, irr); break; }
      case 9: {          // spiral: radius grows
        double g = r.uni(0.001, 0.3) * R;
        auto spi = [&](double t, double& X, double& Y, double& Z) { double q = R + g * t; X = cx + q * cos(a0 + dir * sw * t); Y = cy + q * sin(a0 + dir * sw * t); Z = z0 + (z1 - z0) * t; };
        spi(0, sx, sy, sz); move(true, sx, true, sy, false, 0, false, 0, 0, "");
        curve(spi, n, mode, jit, irr); break; }
      case 10: if (p.arcs) {   // arcs already present in the source
        circ(0, sx, sy, sz); move(true, sx, true, sy, false, 0, false, 0, 0, "");
        bool full = r.chance(0.12); if (full) sw = 2 * M_PI; else if (sw > 6.2) sw = 6;
        double ex, ey, ez; circ(1, ex, ey, ez); double i = cx - x, j = cy - y; if (R > 1000 || rel) break;
        // sometimes with relative coordinates
        bool se = erel, rl = p.rel && !p.abs_only && r.chance(0.12); if (rl) { emit("G91"); if (s.g90e) erel = true; }
        if (full) { ex = x; ey = y; }
        string sx3 = fmt("%.3f", rl ? ex - x : ex), sy3 = fmt("%.3f", rl ? ey - y : ey), l = fmt("G%d", dir > 0 ? 3 : 2);
        if (!full || r.chance(0.5)) l += " X" + sx3 + " Y" + sy3;
        if (r.chance(0.15) && !full && fabs(sw - M_PI) > 0.1) l += fmt(" R%.3f", sw > M_PI ? -hypot(i, j) : hypot(i, j)); else l += fmt(" I%.3f J%.3f", i, j);
        if (!full) { x = rl ? x + atof(sx3.c_str()) : atof(sx3.c_str()); y = rl ? y + atof(sy3.c_str()) : atof(sy3.c_str()); }
        if (p.z_moves && r.chance(0.1)) { string v = fmt("%.3f", rl ? 0.2 : z + 0.2); l += " Z" + v; z = rl ? z + atof(v.c_str()) : atof(v.c_str()); }
        if (mode != 0) { double de = R * sw * flow; string v = quant(erel ? de : e + de, ed); l += " E" + v; double q = atof(v.c_str()); e = erel ? e + q : q; }
        if (rl) { emit(l); emit("G90"); if (s.g90e) erel = false; if (se != erel) { emit(se ? "M83" : "M82"); erel = se; } if (!erel && s.g90e) { emit("G92 E0"); e = 0; } break; }
        emit(l + (r.chance(0.1) ? ";arc" : "")); } break;
      case 11: {         // rounded corner between two straight moves, no travel in between
        double R2 = r.uni(0.3, 6);
        double nx0 = x + r.uni(-30, 30), ny0 = y + r.uni(-30, 30); move(true, nx0, true, ny0, false, 0, mode != 0, mode * 0.4, 0, "");
        double qx = x, qy = y; double c3x = qx + R2 * cos(a0 + M_PI), c3y = qy + R2 * sin(a0 + M_PI); sw = r.uni(0.5, 3);
        auto cc = [&](double t, double& X, double& Y, double& Z) { X = c3x + R2 * cos(a0 + dir * sw * t); Y = c3y + R2 * sin(a0 + dir * sw * t); Z = z; };
        curve(cc, r.range(2, 14), mode, jit, irr);
        move(true, x + r.uni(-30, 30), true, y + r.uni(-30, 30), false, 0, mode != 0, mode * 0.4, 0, ""); break; }
    }
  }
};

std::vector<string> program(Rng& r, const model::Settings& s, const Profile& p) {
  B b(r, s, p);
  if (p.marker) {
    int k = r.range(0, 9);
    if (k == 0) b.emit(";FLAVOR:UltiGCode"); else if (k == 1) b.emit("; generated by PrusaSlicer 2.3.3+linux-x64 on 2021-10-01"); else if (k == 2) b.emit(";FLAVOR:Marlin"); else if (k == 3) b.emit("; G-Code generated by Simplify3D(R) Version 4.1.2");
    else if (k == 4) b.emit(" ; generated by PrusaSlicer"); else if (k == 5) b.emit("");
  }
  if (p.preamble) {
    if (r.chance(0.5)) b.emit("M104 S200"); if (r.chance(0.3)) b.emit("G21"); if (r.chance(0.5)) b.emit("G28");
    b.emit("G90"); b.erel = p.rel && r.chance(0.4); b.emit(b.erel ? "M83" : "M82"); if (r.chance(0.8)) b.emit("G92 E0");
    double z0 = 0.2; if (r.chance(0.08)) z0 = exp(r.uni(log(1), log(2000)));
    b.move(false, 0, false, 0, true, z0, false, 0, 0, "", 1);
    if (r.chance(0.04)) { double e0 = exp(r.uni(log(100), log(500000))); b.emit(fmt("G92 E%.*f", b.ed, e0)); b.e = atof(fmt("%.*f", b.ed, e0).c_str()); }
    b.move(true, r.uni(0, 50), true, r.uni(0, 50), false, 0, false, 0, r.range(1200, 9000), "", 1);
  }
  while ((int)b.L.size() < p.lines) {
    if (r.chance(0.25)) { b.emit(fmt("G1 F%d", (int)(b.f = b.fast * r.range(600, 9000)))); }
    if (r.chance(0.2) && p.z_moves) b.move(false, 0, false, 0, true, b.z + 0.2, false, 0, 0, b.comment(), 1);
    if (r.chance(0.2)) { double d = r.uni(0.5, 5); b.move(false, 0, false, 0, false, 0, true, -d, 2400, "", 1); b.shape(); b.move(false, 0, false, 0, false, 0, true, d, 2400, "", 1); }
    if (r.chance(0.15)) b.interrupt();
    b.shape();
  }
  if (r.chance(0.5)) { b.emit("M104 S0"); if (r.chance(0.5)) b.emit("M84"); }
  if (r.chance(0.1)) b.emit("");
  if (p.unknown && r.chance(0.08)) for (auto& l : b.L) l += "\r";
  return b.L;
}
std::vector<string> arc_program(Rng& r, int n, bool g92, bool helix) {
  std::vector<string> L; double x = 0, y = 0, z = 0.2, e = 0; bool erel = r.chance(0.5);
  L.push_back("G90"); L.push_back(erel ? "M83" : "M82"); L.push_back("G92 E0");
  L.push_back("G1 Z0.2 F1200");
  auto q = [](double v, int d) { return atof(fmt("%.*f", d, v).c_str()); };
  x = q(r.uni(50, 150), 3); y = q(r.uni(50, 150), 3);
  L.push_back(fmt("G1 X%.3f Y%.3f F%d", x, y, r.range(600, 9000)));
  while ((int)L.size() < n) {
    int k = r.range(0, 12);
    if (k < 7) {
      double R = exp(r.uni(log(0.4), log(60))), a0 = r.uni(0, 2 * M_PI), sw = r.uni(0.1, 6.1); int dir = r.chance(0.5) ? 1 : -1;
      bool full = r.chance(0.08); if (full) sw = 2 * M_PI;
      double I = q(-R * cos(a0), 3), J = q(-R * sin(a0), 3); double cx = x + I, cy = y + J; double rr = hypot(I, J); a0 = atan2(-J, -I);
      if (rr < 0.05) continue;
      double ex = full ? x : q(cx + rr * cos(a0 + dir * sw), 3), ey = full ? y : q(cy + rr * sin(a0 + dir * sw), 3);
      if (!full && hypot(ex - x, ey - y) < 0.02) continue;
      string l = fmt("G%d X%.3f Y%.3f", dir > 0 ? 3 : 2, ex, ey);
      if (helix && r.chance(0.4)) { z = q(z + r.uni(0.05, 2), 3); l += fmt(" Z%.3f", z); }
      l += fmt(" I%.3f J%.3f", I, J);
      if (r.chance(0.8)) { double de = q(rr * sw * 0.04, 5); if (r.chance(0.1)) de = -de; e = erel ? de : q(e + de, 5); l += fmt(" E%.5f", e); }
      if (r.chance(0.2)) l += fmt(" F%d", r.range(600, 9000));
      L.push_back(l); x = ex; y = ey;
    } else if (k == 7) { x = q(r.uni(20, 180), 3); y = q(r.uni(20, 180), 3); L.push_back(fmt("G1 X%.3f Y%.3f", x, y)); }
    else if (k == 8) { x = q(x + r.uni(-9, 9), 3); y = q(y + r.uni(-9, 9), 3); double de = q(r.uni(0, 1), 5); e = erel ? de : q(e + de, 5); L.push_back(fmt("G1 X%.3f Y%.3f E%.5f", x, y, e)); }
    else if (k == 9) { static const std::vector<string> m = {"M106 S128", "; comment", "", "M117 hi there", "M204 S500", "G4 P10", ";LAYER:2", "  ; indented", "m105 ; lower"}; L.push_back(r.pick(m)); }
    else if (k == 10) { L.push_back("G92 E0"); e = 0; }
    else if (k == 11) { erel = !erel; L.push_back(erel ? "M83" : "M82"); if (!erel) { L.push_back("G92 E0"); e = 0; } }
    else if (k == 12) { z = q(z + 0.2, 3); L.push_back(fmt("G1 Z%.3f", z)); }
  }
  return L;
}
bool wild(Rng& r, std::vector<string>& L, double chance) {
  if (!r.chance(chance)) return false;
  static const std::vector<string> rare = {"G10", "G11", "G10 P1 X3 Y-2", "G10 P0 S200 R150", "G20", "G21", "G28", "G28 X", "G28 X0 Y0", "G29", "G80", "G92", "G92 X0 Y0", "G92 Z1.5", "G92 X Y", "M207 S1.5 F2400 Z0.2", "M208 S0 F2400", "M218 T1 X5.5 Y-1", "M218 T0 Z0.3", "M563 P1 D0:1 H2", "T0", "T1", "T3", "T?", "Tx", "T-1",
    "N12 G1 X5 Y5*33", "G1 X", "G1 X- Y5", "G1 X1.2.3 Y4", "G1", "G0", "G2 X5 Y5 R10", "G3 X10 Y10 I5", "G02 X1 Y2 I0.5 J0.5 E.1", "G1X5Y5E1", "g1 x5 y5 e.1", "@OCTOLAPSE TAKE-SNAPSHOT", "@pause", "M82", "M83", "G90", "G91", "M400", "M240", "M0", "M600", "M117 G1 X5 Y5", "; feature infill", ";FLAVOR:UltiGCode", ";TYPE:WALL-OUTER", "; CP TOOLCHANGE WIPE", "%", "(text)", "\t", "  ", "G1 X99999 Y99999", "G1 F0.5", "G1 F0", "G4 S1", "G5 X1 Y1", "M862.3 P\"MK3S\"", "\xef\xbb\xbfG1 X5", "G1 E-99999", "G1 E99999"};
  int n = r.range(1, 8);
  for (int i = 0; i < n; i++) {
    if (r.chance(0.75) || L.empty()) { L.insert(L.begin() + r.range(0, (int)L.size()), r.pick(rare)); continue; }
    string& l = L[r.range(0, (int)L.size() - 1)]; if (l.empty()) continue; size_t k = r.below(l.size());
    switch (r.range(0, 3)) { case 0: l.erase(k, 1); break; case 1: l.insert(k, 1, l[r.below(l.size())]); break; case 2: l.resize(k); break; default: l.insert(k, 1, " .-XYEFG;1"[r.range(0, 9)]); }
  }
  return true;
}
string bytes(Rng& r, int n) {
  static const std::vector<string> frag = {"G1", "G0", "G2", "G3", "X", "Y", "Z", "E", "F", "I", "J", "R", " ", ";", "\n", "\r\n", "-", ".", "1", "99999999999999999999", "0.0000000001", "M117 ", "T", "T0", "Tx", "@OCTOLAPSE TAKE-SNAPSHOT", "@", "G92", "G91", "G90", "M83", "M82", "G28", "M218 T1 X5", "M563 P1", "G10 P1 X3", "G10", "G11", "N5 ", "*33", "\t", "G1 X1e5 ", "nan", "inf", "M207 S1", "G29", ";FLAVOR:UltiGCode\n", "; feature infill\n", "1e308", "-0", "T99", "T-1", "T2147483648", "G1 X", "G1 X- ", "G1 X1.2.3", "\x80\xff", "G20\n", "P", "S", "G1X1Y2E3\n"};
  string s;
  while ((int)s.size() < n) {
    int k = r.range(0, 9);
    if (k == 0) s += (char)r.below(256); else if (k == 1) s += fmt("%.3f", r.uni(-200, 200)); else if (k == 2) s += fmt("\nG1 X%.3f Y%.3f E%.5f\n", r.uni(-20, 200), r.uni(-20, 200), r.uni(0, 9)); else s += r.pick(frag);
  }
  return s;
}
}
