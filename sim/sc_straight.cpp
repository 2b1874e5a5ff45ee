// Scenarios: straight (ArcStraightener judged against an executable description of
// arc interpolation) and roundtrip (weld, then straighten).
#include "scen.h"
#include "straight.h"
#include <math.h>
#include <string.h>
#include <algorithm>
#include <functional>
using std::string; using std::vector;
using sim::Rng; using namespace model;

// ------------------------------------------------------------------ settings
static const char* long_names[][2] = {{"-f", "--firmware-type"}, {"-v", "--firmware-version"}, {"-g", "--g90-g91-influences-extruder"}, {"-m", "--mm-per-arc-segment"}, {"-d", "--max-arc-segment-mm"}, {"-i", "--arc-segments-per-r"},
  {"-n", "--min-mm-per-arc-segment"}, {"-b", "--min-arc-segment-mm"}, {"-r", "--min-arc-segments"}, {"-a", "--min-circle-segments"}, {"-c", "--n-arc-correction"}, {"-s", "--arc-segments-per-sec"}, {"-e", "--mm-max-arc-error"}, {"-l", "--log-level"}};
SArgs sargs(const vector<string>& v) {
  std::map<string, string> o; for (auto& s : v) { size_t q = s.find('='); if (q == string::npos) continue; string k = s.substr(0, q); for (auto& l : long_names) if (k == l[1]) k = l[0]; o[k] = s.substr(q + 1); }
  SArgs x; if (o.count("-f")) x.fw = o["-f"]; string ver = o.count("-v") ? o["-v"] : "LATEST_RELEASE";
  x.latest = x.fw == "MARLIN_1" ? "1.1.9.1" : x.fw == "MARLIN_2" ? "2.0.9.1" : x.fw == "PRUSA" ? "3.10.0" : x.fw == "REPETIER" ? "1.0.4" : "2021-06-19";
  x.ver = ver == "LATEST_RELEASE" ? x.latest : ver;
  x.g90 = x.fw == "MARLIN_2" || x.fw == "SMOOTHIEWARE";
  if (x.fw == "SMOOTHIEWARE") { x.m = 0; x.c = 5; }
  x.used = x.fw == "MARLIN_1" ? "mcg" : x.ver == "2.0.9.1" ? "mirscg" : x.ver == "2.0.9.2" ? "bdascg" : x.ver == "3.10.0" ? "mcg" : x.ver == "3.11.0" ? "mrncg" : x.fw == "REPETIER" ? "mcg" : "mecg";
  auto D = [&](const char* k, double& f) { if (o.count(k)) { f = strtod(o[k].c_str(), nullptr); if (x.used.find(k[1]) == string::npos) x.ok = false; } };
  auto I = [&](const char* k, int& f) { if (o.count(k)) { f = atoi(o[k].c_str()); if (x.used.find(k[1]) == string::npos) x.ok = false; } };
  D("-m", x.m); D("-i", x.per_r); D("-s", x.per_sec); D("-n", x.min_mm); D("-b", x.b); D("-d", x.d); D("-e", x.err); I("-r", x.r); I("-a", x.a); I("-c", x.c);
  if (o.count("-g") && o["-g"] != "DEFAULT") x.g90 = o["-g"] == "TRUE";
  return x;
}
vector<string> gen_sargs(Rng& r, bool fine) {
  static const char* V[][2] = {{"MARLIN_1", "1.1.9.1"}, {"MARLIN_2", "2.0.9.1"}, {"MARLIN_2", "2.0.9.2"}, {"PRUSA", "3.10.0"}, {"PRUSA", "3.11.0"}, {"REPETIER", "1.0.4"}, {"REPETIER", "1.0.5"}, {"SMOOTHIEWARE", "2021-06-19"}};
  int k = r.range(0, 7); if (fine) { static const int ok[] = {1, 2, 4, 4}; k = ok[r.below(4)]; }
  vector<string> a; auto opt = [&](const char* n, const string& v) { string nm = n; if (r.chance(0.15)) for (auto& l : long_names) if (nm == l[0]) nm = l[1]; a.push_back(nm + "=" + v); };
  opt("-f", V[k][0]); bool latest = k == 0 || k == 1 || k == 3 || k == 5 || k == 7;
  if (!latest || r.chance(0.3)) opt("-v", V[k][1]); else if (r.chance(0.2)) opt("-v", "LATEST_RELEASE");
  SArgs u = sargs(a);
  for (char c : u.used) {
    if (fine) { if (c == 'm') opt("-m", strf("%.2f", r.uni(0.1, 0.4))); if (c == 'd') opt("-d", strf("%.2f", r.uni(0.15, 0.4))); if (c == 'r') opt("-r", strf("%d", r.range(24, 60))); continue; }
    if (!r.chance(0.45)) continue;
    switch (c) {
      case 'm': opt("-m", r.chance(0.2) ? strf("%.1f", r.uni(2, 8)) : strf("%.2f", r.uni(0.15, 2))); break;
      case 'i': opt("-i", strf("%.1f", r.uni(2, 12))); break;
      case 'r': opt("-r", strf("%d", r.chance(0.15) ? r.range(0, 2) : r.range(3, 100))); break;
      case 's': opt("-s", strf("%d", r.range(5, 200))); break;
      case 'b': opt("-b", strf("%.2f", r.uni(0.05, 0.6))); break;
      case 'd': opt("-d", strf("%.2f", r.uni(0.65, 5))); break;
      case 'a': opt("-a", strf("%d", r.range(6, 120))); break;
      case 'n': opt("-n", strf("%.2f", r.uni(0.05, 1))); break;
      case 'c': opt("-c", strf("%d", r.range(0, 60))); break;
      case 'e': opt("-e", r.chance(0.2) ? "0" : strf("%.3f", r.uni(0.001, 0.2))); break;
      case 'g': { static const vector<string> g = {"TRUE", "FALSE", "DEFAULT"}; opt("-g", r.pick(g)); break; }
    }
  }
  u = sargs(a); if (u.fw == "SMOOTHIEWARE" && u.m <= 0 && u.err <= 0) a.push_back("-m=0.5");
  if (r.chance(0.3)) opt("-l", r.chance(0.5) ? "DEBUG" : "ERROR");
  return a;
}
// ------------------------------------------------------------------ segment counts
// number of segments the emulated firmware divides this arc into; flat: arc length without Z
static double count_for(const SArgs& a, double R, double ang, double dz, double f, bool full, double* frac) {
  double flat = R * ang, len = hypot(flat, dz); double n = 1; *frac = 0;
  if (a.fw == "MARLIN_1" || a.ver == "3.10.0") n = std::max(1.0, floor(len / a.m));
  else if (a.ver == "1.0.4") n = std::max(1.0, floor(flat / (f > 60 ? std::min(a.m, f * 0.01666 * a.m) : a.m)));
  else if (a.ver == "1.0.5") n = std::max(1.0, ceil(len / a.m));
  else if (a.ver == "2.0.9.1") {
    double ms = a.r > 0 ? a.r : 1; if (!full && a.r > 1) ms = std::max(1.0, ceil(ms * ang / (2 * M_PI)));
    double sl = a.m; if (a.per_r > 0) sl = R < 1 ? a.m : std::min(a.m * R, a.per_r);   // per_r below mm_per_arc_segment: constrain() gives mm_per_arc_segment for small radii
    else if (a.per_sec > 0) sl = std::max(f / 60 / a.per_sec, a.m);
    n = std::max(ms, floor(len / sl));
  } else if (a.ver == "2.0.9.2") {
    double mc = a.a > 0 ? a.a : 1, ms = full ? mc : ceil(mc * ang / (2 * M_PI));
    double nm = a.per_sec > 0 ? std::min(std::max(f / 60 / a.per_sec, a.b), a.d) : a.d;
    double nom = std::max(floor(flat / nm), ms), sm = std::min(std::max(flat / nom, a.b), a.d);
    n = floor(flat / sm); if (sm * n < flat - 0.0001) n++; *frac = sm / flat;
    if (n < 1) n = 1;
  } else if (a.ver == "3.11.0") {
    double mm = a.m; if (a.r > 0) mm = R * 2 * M_PI / a.r;
    if (mm < a.min_mm) mm = a.min_mm; else if (mm > a.m) mm = a.m;
    n = std::max(1.0, ceil(len / mm));
  } else {   // smoothieware
    double sg = a.m; if (a.err > 0 && 2 * R > a.err) { double e = 2 * sqrt(a.err * (2 * R - a.err)); if (a.m < e) sg = e; }
    if (sg < 0.0001) sg = 0.5;
    n = std::max(1.0, floor(len / sg));
  }
  return n;
}
struct Range { long lo = 1000000000, hi = 0; double flo = 1, fhi = 0; };
static Range counts(const SArgs& a, const Motion& m, double scale) {
  Range g; double R = m.r, ang = fabs(m.sweep), f = m.f;
  double dl = 2e-4 + 4e-7 * scale * ang, da = dl / std::max(R, 1e-3);
  for (int i = -2; i <= 2; i++) for (int k = -1; k <= 1; k++) { double fr; double n = count_for(a, R * (1 + k * (1e-6 + 2e-7 * scale / R)), std::max(1e-9, m.full ? ang : ang + da * i / 2), m.z1 - m.z0, f, m.full, &fr); g.lo = std::min(g.lo, (long)n); g.hi = std::max(g.hi, (long)n); if (a.ver == "2.0.9.2" && R * ang > 300) { g.lo = std::min(g.lo, std::max(1L, (long)n - 1)); g.hi = std::max(g.hi, (long)n + 1); }   // the last partial segment is decided at 0.0001 mm, below float resolution for long arcs
      if (fr > 0) { g.flo = std::min(g.flo, fr); g.fhi = std::max(g.fhi, fr); } }
  return g;
}
// ------------------------------------------------------------------ oracle
struct SJudge { long arcs = 0, segs = 0; double n_max = 0; };
static double dec_of(const string& t) { size_t d = t.find('.'); return d == string::npos ? 0 : (double)(t.size() - d - 1); }
static bool judge_straight(Report& R, const vector<string>& src, const string& outdata, const SArgs& a, bool check_geometry, SJudge* sj) {
  vector<string> out = split_lines(outdata); size_t o = 0;
  // header
  auto starts = [&](const string& l, const char* q) { return l.rfind(q, 0) == 0; };
  if (out.empty() || !starts(out[0], "; Postprocessed by [ArcStraightener]")) { R.fail("P24", "header", "the output does not begin with the ArcStraightener header"); return false; }
  std::map<string, string> H; while (o < out.size() && !out[o].empty()) { if (out[o][0] != ';') { R.fail("P24", "header", "header line %zu is not a comment: '%s'", o + 1, out[o].c_str()); return false; } size_t e = out[o].find('='); if (e != string::npos) H[out[o].substr(2, e - 2)] = out[o].substr(e + 1); o++; }
  if (o >= out.size()) { R.fail("P24", "header", "the header is not followed by an empty line"); return false; }
  o++;
  auto want = [&](const char* k, const string& v) { if (!H.count(k) || H[k] != v) R.fail("P24", "header", "header has %s=%s, expected %s", k, H.count(k) ? H[k].c_str() : "(missing)", v.c_str()); };
  want("firmware_type", a.fw); want("firmware_version", a.ver == a.latest ? a.ver + " (LATEST_RELEASE)" : a.ver);
  for (char c : a.used) switch (c) {
    case 'm': want("mm_per_arc_segment", strf("%.2f", a.m)); break; case 'i': want("arc_segments_per_r", strf("%.2f", a.per_r)); break; case 's': want("arc_segments_per_sec", strf("%.2f", a.per_sec)); break;
    case 'r': want("min_arc_segments", strf("%d", a.r)); break; case 'b': want("min_arc_segment_mm", strf("%.2f", a.b)); break; case 'd': want("max_arc_segment_mm", strf("%.2f", a.d)); break; case 'a': want("min_circle_segments", strf("%d", a.a)); break;
    case 'n': want("min_mm_per_arc_segment", strf("%.2f", a.min_mm)); break; case 'c': want("n_arc_correction", strf("%d", a.c)); break; case 'e': want("mm_max_arc_error", strf("%.2f", a.err)); break; case 'g': want("g90_g91_influences_extruder", a.g90 ? "True" : "False"); break; }
  Printer S; S.g90e = a.g90; Printer O = S;
  for (size_t i = 0; i < src.size(); i++) {
    Cmd c = parse(src[i]); string at = strf("source line %zu '%s'", i + 1, src[i].c_str());
    if (!c.is_arc()) {
      if (o >= out.size()) { R.fail("P24", "dropped", "%s is missing at the end of the output", at.c_str()); return false; }
      if (out[o] != src[i]) { R.fail("P24", "verbatim", "%s appears as '%s' (output line %zu)", at.c_str(), out[o].c_str(), o + 1); return false; }
      o++; S.apply(c, nullptr); O.apply(c, nullptr);
      continue;
    }
    Printer B = S; Motion m; S.apply(c, &m); double scale = std::max({fabs(B.mx) + fabs(B.ox), fabs(B.my) + fabs(B.oy), fabs(S.mx), fabs(S.my), fabs(m.cx), fabs(m.cy), m.r, 1.0});
    // a run of adjacent arcs: find a division of the output lines among them in which everything fits
    struct ArcIn { Cmd c; Motion m; Printer B, S; Range g; double scale; string at; };
    vector<ArcIn> G; size_t e = i;
    { Printer p = B; while (e < src.size()) { ArcIn q; q.c = parse(src[e]); if (!q.c.is_arc()) break; q.B = p; p.apply(q.c, &q.m); q.S = p; q.at = strf("source line %zu '%s'", e + 1, src[e].c_str());
        q.scale = std::max({fabs(q.B.mx) + fabs(q.B.ox), fabs(q.B.my) + fabs(q.B.oy), fabs(q.S.mx), fabs(q.S.my), fabs(q.m.cx), fabs(q.m.cy), q.m.r, 1.0}); q.g = counts(a, q.m, q.scale); G.push_back(q); e++; } }
    (void)scale; bool has_next = e < src.size();
    auto tolxy = [&](const ArcIn& A, long) { return 0.0011 + A.scale * 4e-7 + (A.B.rel ? 0.0011 : 0); };
    auto tole = [&](const ArcIn& A, long n) { double ea = std::max(fabs(A.B.e()), fabs(A.S.e())); return 1.2e-5 + (ea + fabs(A.m.e1 - A.m.e0)) * 1.3e-7 * (n + 2) + (A.B.erel ? 1.1e-5 : 0); };
    auto arrives = [&](const ArcIn& A, const Printer& q, long n) { return fabs(q.x() - A.S.x()) <= tolxy(A, n) && fabs(q.y() - A.S.y()) <= tolxy(A, n) && fabs(q.z() - A.S.z()) <= tolxy(A, n); };
    auto follows = [&](size_t k, size_t at_line) { return k + 1 < G.size() ? at_line < out.size() && parse(out[at_line]).code == "G1" : has_next ? at_line < out.size() && out[at_line] == src[e] : at_line == out.size(); };
    auto check = [&](const ArcIn& A, const vector<Printer>& tr, const Printer& O, size_t o, long best, Report& R) {
      const Motion& m = A.m; const Printer &E = tr[best - 1], &S = A.S, &B = A.B; const string& at = A.at; const Range& g = A.g; double scale = A.scale; bool relx = B.rel;
      if (fabs((E.me - O.me) - (S.me - B.me)) > tole(A, best)) R.fail("P25", "extrude", "the %ld segments of %s feed %.5f mm of filament instead of %.5f", best, at.c_str(), E.me - O.me, S.me - B.me);
      if (fabs(E.f - S.f) > 0.51) R.fail("P25", "feed", "after %s the feed rate is %g instead of %g", at.c_str(), E.f, S.f);
      if (!check_geometry) return;
      double th = fabs(m.sweep) / best; if (g.fhi > 0) th = fabs(m.sweep) * g.fhi; bool skip = th > 1.0;
      double fr = g.fhi > 0 ? std::min(1.0, (g.flo + g.fhi) / 2) : 1.0 / best; double slack = g.fhi > 0 ? 3e-4 + (g.fhi - g.flo) * best * m.r * fabs(m.sweep) : 0;
      int K = std::min((long)std::max(a.c, 1), best) + 1; double rb = a.better() ? pow(th, 4) / 24 : pow(th, 4) / 8, ab = a.better() ? pow(th, 5) / 30 : pow(th, 3) / 6;
      if (a.c <= 1 && a.fw != "PRUSA" && a.fw != "REPETIER" && a.fw != "SMOOTHIEWARE") rb = ab = 0;
      double approx = m.r * ((pow(1 + rb, K) - 1) * 1.3 + K * ab * 1.3 + K * 4e-7);
      double a0 = atan2(m.y0 - m.cy, m.x0 - m.cx), sg = m.sweep < 0 ? -1 : 1;
      for (long k = 1; k < best; k++) {
        double t = std::min(1.0, fr * k), ex = m.cx + m.r * cos(a0 + sg * fabs(m.sweep) * t), ey = m.cy + m.r * sin(a0 + sg * fabs(m.sweep) * t), ez = m.z0 + (m.z1 - m.z0) * t;
        const Printer& P = tr[k - 1]; double tol = tolxy(A, k) + slack + scale * 3e-7 + m.r * 1e-6 + approx;
        if (!skip && hypot(P.x() - ex, P.y() - ey) > tol * 1.42) { R.fail("P26", "off-arc", "segment %ld of %ld of %s ends at (%.3f,%.3f), the arc passes (%.3f,%.3f); deviation %.4f, allowed %.4f", k, best, at.c_str(), P.x(), P.y(), ex, ey, hypot(P.x() - ex, P.y() - ey), tol * 1.42); break; }
        if (fabs(P.z() - ez) > 0.0011 + scale * 2e-7 + fabs(ez) * 1e-6 + best * fabs(ez) * 1.2e-7 + (relx ? 0.0011 : 0) + slack * fabs(m.z1 - m.z0) / std::max(0.02, m.r * fabs(m.sweep))) { R.fail("P26", "z", "segment %ld of %ld of %s is at Z %.3f instead of %.3f", k, best, at.c_str(), P.z(), ez); break; }
        double ee = (S.me - B.me) * t; if (fabs((P.me - O.me) - ee) > tole(A, best) + fabs(S.me - B.me) * (slack / std::max(0.02, m.r * fabs(m.sweep)) + 1e-5)) { R.fail("P26", "e", "segment %ld of %ld of %s has fed %.5f instead of %.5f", k, best, at.c_str(), P.me - O.me, ee); break; }
        if (fabs(P.f - S.f) > 0.51) { R.fail("P26", "feed", "segment %ld of %ld of %s moves at %g instead of %g", k, best, at.c_str(), P.f, S.f); break; }
      }
      for (long k = 0; k < best; k++) for (auto& pr : parse(out[o + k]).params) { int lim = pr.k == 'E' ? 5 : pr.k == 'F' ? 0 : 3; if (!strchr("XYZEF", pr.k) || dec_of(pr.text) > lim) { R.fail("P26", "format", "'%s' has an unexpected word %c%s", out[o + k].c_str(), pr.k, pr.text.c_str()); break; } }
    };
    auto carry = [](const Printer& E, const Printer& S) { Printer O = E; O.mx = S.mx; O.my = S.my; O.mz = S.mz; O.me = S.me; O.f = S.f; return O; };   // the next arc is judged from where this one should end
    std::set<std::pair<size_t, size_t>> dead; vector<long> pick(G.size()), deep; size_t deep_o = o; Printer deep_O = O; 
    std::function<bool(size_t, size_t, const Printer&)> fit = [&](size_t k, size_t o, const Printer& O) -> bool {
      if (k == G.size()) return true;
      if (dead.count({k, o})) return false;
      if (k > deep.size()) { deep.assign(pick.begin(), pick.begin() + k); deep_o = o; deep_O = O; }
      vector<Printer> tr; Printer q = O;
      for (long n = 1; n <= G[k].g.hi && o + n - 1 < out.size(); n++) {
        Cmd oc = parse(out[o + n - 1]); if (oc.code != "G1") break;
        q.apply(oc, nullptr); tr.push_back(q); if (n < G[k].g.lo || !arrives(G[k], q, n) || !follows(k, o + n)) continue;
        Report rep; check(G[k], tr, O, o, n, rep); if (!rep.viol.empty()) continue;
        pick[k] = n; if (fit(k + 1, o + n, carry(q, G[k].S))) return true;
      }
      dead.insert({k, o}); return false;
    };
    if (fit(0, o, O)) {
      for (size_t k = 0; k < G.size(); k++) { o += pick[k]; if (sj) { sj->arcs++; sj->segs += pick[k]; sj->n_max = std::max(sj->n_max, (double)pick[k]); } }
      Printer q = O; q.apply(Cmd(), nullptr); S = G.back().S; O = carry(O, S); O.rel = S.rel; O.erel = S.erel; i = e - 1; continue;
    }
    // no division fits: report against the arc that could not be matched
    { const ArcIn& A = G[deep.size()]; size_t k0 = deep.size(); o = deep_o; O = deep_O; vector<Printer> tr; Printer q = O; long in_range = -1, other = -1; bool arrived = false;
      for (long n = 1; o + n - 1 < out.size() && n < 70000; n++) {
        Cmd oc = parse(out[o + n - 1]); if (oc.code != "G1") break;
        q.apply(oc, nullptr); tr.push_back(q); if (!arrives(A, q, n) || (A.m.full && n < 3 && n < A.g.lo)) continue;
        if (n >= A.g.lo && n <= A.g.hi) { arrived = true; if (follows(k0, o + n) && in_range < 0) in_range = n; } else if (follows(k0, o + n) && other < 0) other = n;
      }
      if (in_range > 0) { size_t before = R.viol.size(); check(A, tr, O, o, in_range, R); if (R.viol.size() == before) R.fail("P26", "sequence", "no division of the output fits the adjacent arcs from %s on", A.at.c_str()); return false; }
      if (other > 0) { R.fail("P26", "count", "%s is divided into %ld segments, %s %s divides it into %ld..%ld", A.at.c_str(), other, a.fw.c_str(), a.ver.c_str(), A.g.lo, A.g.hi); return false; }
      string why = arrived ? strf("after the %ld..%ld segments of %s the output does not continue with the next source line", A.g.lo, A.g.hi, A.at.c_str()) : strf("no output line after %s arrives at its end (X%.3f Y%.3f Z%.3f)", A.at.c_str(), A.S.x(), A.S.y(), A.S.z());
      R.fail("P25", "arrive", "%s", why.c_str()); if (!arrived) R.fail("P26", "arrive", "%s", why.c_str()); return false; }
  }
  if (o != out.size()) { R.fail("P24", "extra", "the output has %zu lines more than expected, first '%s'", out.size() - o, out[o].c_str()); return false; }
  return true;
}
// programs whose arcs mean the same to every firmware: known start, known feed rate, no degenerate arc
static bool in_domain(const vector<string>& src, const SArgs& a) {
  Printer P; P.g90e = a.g90; bool kx = false, ky = false, kz = false, kf = false;
  for (auto& l : src) {
    Cmd c = parse(l); Motion m; Printer B = P;
    if (c.code == "G28") { bool any = c.has('X') || c.has('Y') || c.has('Z'); if (!any || c.has('X')) kx = false; if (!any || c.has('Y')) ky = false; if (!any || c.has('Z')) kz = false; }
    if (c.code == "G92") { kx |= c.has('X'); ky |= c.has('Y'); kz |= c.has('Z'); }
    if (c.code == "G20" || (c.code == "G92" && c.params.empty())) return false;
    bool mv = P.apply(c, &m); if (!mv) continue;
    if (c.has('F')) { kf = true; if (c.get('F') < 1 || c.get('F') != floor(c.get('F'))) return false; }
    if (c.is_arc()) {
      if (!kx || !ky || !kz || !kf || m.r < 0.05 || m.r > 20000) return false;
      if (m.full ? !a.full() : fabs(m.sweep) > 6.25 || hypot(m.x1 - m.x0, m.y1 - m.y0) < 0.02) return false;
      if (c.has('R') && (m.full || fabs(fabs(m.sweep) - M_PI) < 0.01 || fabs(c.get('R')) < 0.5001 * hypot(m.x1 - m.x0, m.y1 - m.y0))) return false;   // the center is not well defined
      if (m.r * fabs(m.sweep) < 0.02 || fabs(hypot(m.x1 - m.cx, m.y1 - m.cy) - m.r) > 0.01) return false;
      if (!a.helix() && m.z1 != m.z0) return false;
      if (fabs(P.e()) > 2000 || fabs(P.x()) > 5000 || fabs(P.y()) > 5000) return false;
      double fr; if (count_for(a, m.r, fabs(m.sweep), m.z1 - m.z0, m.f, m.full, &fr) > 20000) return false;
    } else { if (!P.rel || kx) kx |= c.has('X'); if (!P.rel || ky) ky |= c.has('Y'); if (!P.rel || kz) kz |= c.has('Z'); }
  }
  return true;
}
// ------------------------------------------------------------------ generator
static vector<string> gen_arcs(Rng& r, const SArgs& a, int n) {
  vector<string> L; Printer P; P.g90e = a.g90;
  auto emit = [&](const string& l) { L.push_back(l); P.apply(parse(l), nullptr); };
  auto num = [&](double v, int d) { string t = strf("%.*f", d, v); if (r.chance(0.2) && t.find('.') != string::npos) { while (t.back() == '0') t.pop_back(); if (t.back() == '.') t.pop_back(); } if (t == "-0" || t.rfind("-0.000", 0) == 0) return string("0"); return t; };
  auto q3 = [&](double v) { return strtod(strf("%.3f", v).c_str(), nullptr); };
  int style = r.range(0, 5);
  auto word = [&](string& l, char k, const string& v) { if (style == 1) l += string(1, k) + v; else if (style == 2 && r.chance(0.3)) l += string("  ") + k + v; else if (style == 3 && r.chance(0.2)) l += string(" ") + (char)tolower(k) + v; else l += string(" ") + k + v; };
  auto ew = [&](double de) { return num(P.erel ? de : P.e() + de, 5); };
  if (r.chance(0.3)) emit("; start"); if (r.chance(0.2)) emit("");
  if (r.chance(0.4)) emit("M104 S200"); if (r.chance(0.3)) emit("G28");
  emit("G90"); emit(r.chance(0.5) ? "M82" : "M83"); if (r.chance(0.7)) emit("G92 E0");
  emit(strf("G1 Z%.3f F%d", r.chance(0.1) ? r.uni(5, 900) : r.uni(0.1, 5), r.range(300, 1500)));
  emit(strf("G%d X%.3f Y%.3f F%d", r.range(0, 1), r.uni(-30, 180), r.chance(0.05) ? r.uni(-900, 2000) : r.uni(-30, 180), r.chance(0.1) ? r.range(20, 120) : r.range(600, 9000)));
  double Rmax = r.chance(0.1) ? 400 : 60;
  while ((int)L.size() < n) {
    int k = r.range(0, 15);
    if (k < 9) {
      double R0 = exp(r.uni(log(0.3), log(Rmax))), a0 = r.uni(0, 2 * M_PI), sw = r.uni(0.1, 6.1); int dir = r.chance(0.5) ? 1 : -1;
      if (r.chance(0.12)) a0 = M_PI / 2 * r.range(0, 3);
      int dd = r.chance(0.1) ? 5 : 3; double Q = pow(10, dd); auto qd = [&](double v) { return round(v * Q) / Q; };
      double I = qd(-R0 * cos(a0)), J = qd(-R0 * sin(a0)), rr = hypot(I, J); if (rr < 0.1) continue;
      double cx = P.x() + I, cy = P.y() + J; a0 = atan2(-J, -I);
      bool full = a.full() && r.chance(0.1), rform = r.chance(0.12);
      double ex = qd(cx + rr * cos(a0 + dir * sw)), ey = qd(cy + rr * sin(a0 + dir * sw));
      if (!full && hypot(ex - P.x(), ey - P.y()) < 0.05) continue;
      string l = r.chance(0.05) ? strf("G0%d", dir > 0 ? 3 : 2) : r.chance(0.05) ? strf("g%d", dir > 0 ? 3 : 2) : strf("G%d", dir > 0 ? 3 : 2);
      if (full) { if (r.chance(0.5)) { word(l, 'X', num(P.rel ? 0 : P.x(), 6)); word(l, 'Y', num(P.rel ? 0 : P.y(), 6)); } }
      else { word(l, 'X', num(P.rel ? ex - P.x() : ex, dd)); word(l, 'Y', num(P.rel ? ey - P.y() : ey, dd)); }
      if (a.helix() && r.chance(0.3)) { double z = q3(P.z() + (r.chance(0.15) ? -1 : 1) * r.uni(0.05, r.chance(0.1) ? 40 : 3)); word(l, 'Z', num(P.rel ? z - P.z() : z, 3)); }
      if (!full && rform && fabs(sw - M_PI) > 0.05) word(l, 'R', num(sw > M_PI ? -rr : rr, 6));
      else { if (fabs(I) > 0 || r.chance(0.5)) word(l, 'I', num(I, dd)); if (fabs(J) > 0 || r.chance(0.5)) word(l, 'J', num(J, dd)); }
      if (r.chance(0.75)) { double de = rr * (full ? 6.28 : sw) * r.uni(0.005, 0.06); if (r.chance(0.08)) de = -de; if (fabs(P.e() + de) < 1900) word(l, 'E', ew(de)); }
      if (r.chance(0.25)) word(l, 'F', strf("%d", r.range(300, 12000) * (r.chance(0.03) ? 100 : 1)));
      if (r.chance(0.06)) { static const vector<string> m = {"; wall", ";outer", " ; G2 X5 Y5", ";", "; a;b", " ;TYPE:WALL-OUTER", "*33"}; l += r.pick(m); if (r.chance(0.1)) l += string(r.range(100, 1200), 'x'); }
      emit(l);
    } else if (k == 9) { string l = strf("G%d", r.range(0, 1)); double x = q3(r.uni(-30, 190)), y = q3(r.uni(-30, 190)); word(l, 'X', num(P.rel ? x - P.x() : x, 3)); if (r.chance(0.8)) word(l, 'Y', num(P.rel ? y - P.y() : y, 3)); if (r.chance(0.2)) word(l, 'F', strf("%d", r.range(300, 12000))); emit(l); }
    else if (k == 10) { string l = "G1"; word(l, 'X', num(P.rel ? r.uni(-9, 9) : P.x() + r.uni(-9, 9), 3)); word(l, 'E', ew(r.uni(-1, 3))); emit(l + (r.chance(0.2) ? " ; wall" : "")); }
    else if (k == 11) { static const vector<string> m = {"M106 S128", "; comment", "", "M117 hi there G2 X1", "M204 S500", "G4 P10", ";LAYER:2", "  ; indented", "m105 ; lower", "M221 S95", "G2000 X5", "T0", ";G2 X1 Y1 I1 J1", "@pause", "M900 K0.1", "  ", "G21", "M400", "; G3 X5", "(a note)", "T3", "T12", "%", "\tM105", "M106 S1*37", "\xc3\xbc" "ber", "\xef\xbb\xbf; bom", "O1000"}; string l = r.pick(m); if (r.chance(0.03)) l = "; " + string(r.range(100, 3000), 'y'); emit(l); }
    else if (k == 12) { if (r.chance(0.7)) emit("G92 E0"); else if (r.chance(0.3)) emit(strf("G92 Z%.3f%s", q3(r.uni(-1, 9)), r.chance(0.4) ? strf(" X%.2f", r.uni(-5, 60)).c_str() : "")); else if (r.chance(0.15)) emit(r.pick(vector<string>{"G92", "G28", "G28 X", "G28 Y0", "G28 Z", "G28 X Y"})); else if (r.chance(0.5)) emit(strf("G92 X%.3f Y%.3f", q3(r.uni(-5, 60)), q3(r.uni(-5, 60)))); else emit(strf("G92 E%.3f", r.chance(0.2) ? r.uni(-1800, 1800) : r.uni(0, 9))); }
    else if (k == 13) { emit(P.erel ? "M82" : "M83"); if (!P.erel && r.chance(0.6)) emit("G92 E0"); }
    else if (k == 14) { emit(strf("G1 Z%s", num(P.rel ? 0.2 : P.z() + 0.2, 3).c_str())); }
    else if (k == 15 && r.chance(0.5)) { emit(P.rel ? "G90" : "G91"); }
  }
  if (r.chance(0.04)) { vector<string> q; int k = r.range(20, 400); for (int i = 0; i < k; i++) q.push_back(r.chance(0.3) ? "" : r.chance(0.5) ? ";" : "; thumbnail AAAAiVBORw0KGgo"); L.insert(L.begin() + r.range(0, (int)L.size()), q.begin(), q.end()); }
  if (r.chance(0.07)) for (auto& l : L) l += "\r";
  return L;
}
static Plan gen_straight(const string& prop, uint64_t seed, int) {
  Plan p; Rng r(seed); vector<string> a = gen_sargs(r); string s; for (auto& x : a) s += (s.empty() ? "" : "\x1f") + x; p.set("args", s); p.set("entry", "straight");
  PFile f; f.path = "in"; f.lines = gen_arcs(r, sargs(a), r.range(8, r.chance(0.008) ? 6000 : r.chance(0.1) ? 400 : 50)); f.nl = !r.chance(0.1); p.files.push_back(f); (void)prop;
  p.set("mode", MODES[r.below(r.chance(0.7) ? 4 : N_MODES)]); gen_env(p, r, 0.6);
  return p;
}
static void run_straight(const Plan& p, Report& R) {
  string mode = p.get("mode", "sep"); Names n = names(mode, "straight"); Job j = job_of(p, n); string data = p.files[0].data(); SArgs a = sargs(j.args);
  if (!a.ok || !in_domain(split_lines(data), a)) { R.count["outside_domain"] += 1; return; }
  sim::Sim s(cfg_of(p)); place(s, mode, n, data); Outcome o = run_one(s, j); R.absorb(s);
  if (o.crashed || o.threw || !o.ok) { R.fail("P25", "failed", "the conversion fails: %s %s", o.where().c_str(), o.what.c_str()); R.fail("P11", "failed", "valid arguments are refused: %s", o.out.substr(0, 300).c_str()); return; }
  SJudge sj; judge_straight(R, split_lines(data), s.get(s.resolve(n.ptgt)), a, true, &sj);
  if (!n.alias && s.get(s.resolve(n.src)) != data) R.fail("P10", "source", "the source file was changed");
  R.count["arcs"] += sj.arcs; R.count["segments"] += sj.segs; R.count["source_lines"] += split_lines(data).size(); R.nontrivial = sj.arcs > 0; R.count["runs_" + a.fw + "_" + a.ver] += 1;
  R.states.push_back(sim::mix(tag(p.get("args")), sj.segs));
}
// ------------------------------------------------------------------ round trip
static double seg_dist(double px, double py, double ax, double ay, double bx, double by) { double dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy, t = l > 0 ? ((px - ax) * dx + (py - ay) * dy) / l : 0; t = std::max(0.0, std::min(1.0, t)); return hypot(px - ax - t * dx, py - ay - t * dy); }
struct Trace { struct Anchor { string n; Printer p; size_t at; }; vector<Anchor> an; vector<std::pair<double, double>> pts; Printer fin; long moves = 0; };
static Trace trace(const vector<string>& L, bool g90e, size_t from) {
  Trace t; Printer p; p.g90e = g90e; t.pts.push_back({p.x(), p.y()});
  for (size_t i = from; i < L.size(); i++) {
    Cmd c = parse(L[i]); if (c.blank()) continue; Motion m;
    if (c.code.empty()) continue;
    if (c.is_line() || c.is_arc()) {
      bool was = p.apply(c, &m); t.moves++; (void)was;
      if (c.is_arc()) { int k = std::max(2, (int)(fabs(m.sweep) / std::min(0.1, sqrt(0.004 / std::max(m.r, 0.01))))); double a0 = atan2(m.y0 - m.cy, m.x0 - m.cx); for (int q = 1; q < k; q++) t.pts.push_back({m.cx + m.r * cos(a0 + m.sweep * q / k), m.cy + m.r * sin(a0 + m.sweep * q / k)}); }
      t.pts.push_back({p.x(), p.y()}); continue; }
    t.an.push_back({norm(L[i]), p, t.pts.size()}); p.apply(c, nullptr);
    if (c.code == "G92" || c.code == "G28") t.pts.push_back({p.x(), p.y()});
  }
  t.fin = p; return t;
}
static Plan gen_round(const string& prop, uint64_t seed, int) {
  Plan p; Rng r(seed); Settings s = gen::settings(r); s.arcs3d = s.arcs3d && r.chance(0.3); s.xyz_precision = std::max(3, s.xyz_precision); s.dynamic = false; if (s.resolution > 0.2) s.resolution = r.uni(0.01, 0.2);
  s.max_radius = std::min(s.max_radius, 1000.0); (void)prop;
  vector<string> a = gen_sargs(r, true); bool has = false; for (auto& x : a) has |= x.rfind("-g", 0) == 0 || x.rfind("--g90", 0) == 0; if (!has) a.push_back(string("-g=") + (s.g90e ? "TRUE" : "FALSE"));
  string t; for (auto& x : a) t += (t.empty() ? "" : "\x1f") + x; p.set("args", t); put_settings(p, s);
  gen::Profile pr; pr.lines = r.range(20, 150); pr.rel = r.chance(0.4); pr.abs_only = true; pr.arcs = true; pr.marker = false;
  PFile f; f.path = "in"; f.lines = gen::program(r, s, pr); f.nl = true; p.files.push_back(f); gen_env(p, r, 0.5);
  p.set("entry", r.chance(0.5) ? "lib" : "cli");
  return p;
}
static void run_round(const Plan& p, Report& R) {
  Names n; n.psrc = n.src = "/sim/w/in.gcode"; n.ptgt = n.tgt = "/sim/w/mid.gcode"; Job j = job_of(p, n); j.args.clear(); Settings st = j.s; string data = p.files[0].data();
  sim::Sim s(cfg_of(p)); s.put(n.src, data); Outcome o; int id = start(s, j, &o); s.run(); collect(s, id, j, o);
  if (!o.ok) { R.absorb(s); R.fail("P27", "failed", "welding fails: %s", o.w.message.c_str()); return; }
  string mid = s.get(n.ptgt);
  Job k; k.entry = "straight"; k.args = split_args(p.get("args")); k.src = n.ptgt; k.tgt = "/sim/w/out.gcode"; Outcome o2; id = start(s, k, &o2); s.run(); collect(s, id, k, o2); R.absorb(s);
  if (!o2.ok) { R.fail("P27", "failed", "straightening fails: %s", o2.out.substr(0, 200).c_str()); return; }
  SArgs a = sargs(k.args); string out = s.get(k.tgt); if (!a.ok) return;
  vector<string> L0 = split_lines(data), L1 = split_lines(mid), L2 = split_lines(out);
  if (!in_domain(L1, a)) { R.count["outside_domain"] += 1; return; }
  // arcs that end where they start are ambiguous for the emulated firmware
  Printer P; P.g90e = st.g90e; long arcs = 0; double skip = 0; bool rel = false;
  for (auto& l : L1) { Cmd c = parse(l); Motion m; if (P.apply(c, &m) && c.is_arc()) { arcs++; if (fabs(m.sweep) > 6.2 || hypot(m.x1 - m.x0, m.y1 - m.y0) < 0.02 || m.r < 0.05 || fabs(m.sweep) < 1e-3 || m.f < 1 || m.f != floor(m.f) || fabs(m.x0) > 2000 || fabs(m.y0) > 2000 || m.r * fabs(m.sweep) < 0.02 || fabs(P.e()) > 900) skip++; if (P.rel) rel = true; } }
  R.count["arcs"] += arcs; if (skip > 0 || rel) { R.count["skipped_ambiguous"] += 1; return; }
  if (a.g90 != st.g90e) return;
  size_t h = 0; while (h < L2.size() && !L2[h].empty()) h++;
  if (h >= L2.size()) { R.fail("P27", "header", "the straightened output has no header"); return; }
  Trace A = trace(L0, st.g90e, 0), B = trace(L2, st.g90e, h + 1);
  double tol = st.resolution + 0.025 + 2 * pow(10, -3), tz = st.resolution + 0.01; int nb = std::max(A.an.size(), B.an.size());
  for (int i = 0; i < nb; i++) {
    if (i >= (int)B.an.size() || i >= (int)A.an.size() || A.an[i].n != B.an[i].n) { R.fail("P27", "anchor", "command %d of the source '%s' corresponds to '%s' after the round trip", i + 1, i < (int)A.an.size() ? A.an[i].n.c_str() : "(none)", i < (int)B.an.size() ? B.an[i].n.c_str() : "(none)"); return; }
    Printer &x = A.an[i].p, &y = B.an[i].p; double te = 5e-4 + 1.1e-5 * arcs + arcs * 0.51 * pow(10, -st.e_precision) + fabs(x.e()) * 1e-6;
    if (hypot(x.mx - y.mx, x.my - y.my) > 0.003 || fabs(x.mz - y.mz) > tz) { R.fail("P27", "state", "at '%s' the machine is at (%.3f,%.3f,%.3f) instead of (%.3f,%.3f,%.3f)", A.an[i].n.c_str(), y.mx, y.my, y.mz, x.mx, x.my, x.mz); return; }
    if (fabs(x.me - y.me) > te) { R.fail("P27", "extrude", "at '%s' %.5f mm of filament have been fed instead of %.5f", A.an[i].n.c_str(), y.me, x.me); return; }
  }
  if (hypot(A.fin.mx - B.fin.mx, A.fin.my - B.fin.my) > 0.003 || fabs(A.fin.me - B.fin.me) > 5e-4 + 1.1e-5 * arcs + arcs * 0.51 * pow(10, -st.e_precision) + fabs(A.fin.e()) * 1e-6) { R.fail("P27", "state", "the program ends at (%.3f,%.3f) with %.5f mm fed instead of (%.3f,%.3f) with %.5f", B.fin.mx, B.fin.my, B.fin.me, A.fin.mx, A.fin.my, A.fin.me); return; }
  // path between consecutive commands
  auto dist = [&](const std::pair<double, double>& q, const Trace& t, size_t lo, size_t hi) { double d = 1e9; for (size_t i = lo; i + 1 <= hi && i + 1 < t.pts.size(); i++) d = std::min(d, seg_dist(q.first, q.second, t.pts[i].first, t.pts[i].second, t.pts[i + 1].first, t.pts[i + 1].second)); return d; };
  double worst = 0;
  for (int i = 0; i <= nb; i++) {
    size_t a0 = i ? A.an[i - 1].at - 1 : 0, a1 = i < nb ? A.an[i].at - 1 : A.pts.size() - 1, b0 = i ? B.an[i - 1].at - 1 : 0, b1 = i < nb ? B.an[i].at - 1 : B.pts.size() - 1;
    if (a1 == a0 && b1 == b0) continue;
    for (size_t q = a0; q <= a1; q++) { double d = a1 == a0 && b1 == b0 ? 0 : b1 > b0 ? dist(A.pts[q], B, b0, b1) : hypot(A.pts[q].first - B.pts[b0].first, A.pts[q].second - B.pts[b0].second); worst = std::max(worst, d); if (d > tol) { R.fail("P27", "path", "the point (%.3f,%.3f) of the source is missed by %.4f mm after the round trip (allowed %.4f)", A.pts[q].first, A.pts[q].second, d, tol); return; } }
    for (size_t q = b0; q <= b1; q++) { double d = a1 > a0 ? dist(B.pts[q], A, a0, a1) : hypot(B.pts[q].first - A.pts[a0].first, B.pts[q].second - A.pts[a0].second); worst = std::max(worst, d); if (d > tol) { R.fail("P27", "path", "the round trip passes (%.3f,%.3f), %.4f mm off the source path (allowed %.4f)", B.pts[q].first, B.pts[q].second, d, tol); return; } }
  }
  R.count["segments"] += B.moves; R.nontrivial = arcs > 0; R.states.push_back(sim::mix(tag(p.get("args")), sim::mix(arcs, B.moves)));
  { Report Q; judge_straight(Q, L1, out, a, true, nullptr); for (auto& v : Q.viol) R.fail(v.prop, (v.cat + "-rt").c_str(), "%s", v.what.c_str()); }
}
extern const Kind straight_kinds[]; const Kind straight_kinds[] = {{"straight", gen_straight, run_straight}, {"roundtrip", gen_round, run_round}};
extern const int n_straight_kinds; const int n_straight_kinds = 2;
