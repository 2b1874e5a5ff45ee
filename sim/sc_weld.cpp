// Scenarios: weld (one conversion under benign environment variation, judged by
// the reference model), cancel (stop request at an arbitrary callback), env
// (the same conversion in different environments).
#include "scen.h"
#include <math.h>
#include <string.h>
#include <algorithm>
using std::string; using std::vector;
using sim::Rng; using namespace model;

static const std::map<string, string>& cat_prop() {
  static const std::map<string, string> m = {{"header", "P16"}, {"state", "P12"}, {"path", "P13"}, {"extrude", "P14"}, {"eligible", "P17"}, {"limits", "P18"}, {"comment", "P19"}, {"align", "P15"}};
  return m;
}
static void verbatim_check(Report& R, const vector<string>& src, const vector<string>& tgt) {
  size_t s0 = 0, t0 = 0;
  if (!src.empty() && first_line_kept(src[0])) { s0 = 1; t0 = 1; }
  int h = header_len(tgt, t0); if (h > 0) t0 += h;
  struct E { string n; bool g01, arc; int no; };
  auto flat = [](const vector<string>& v, size_t from) { vector<E> o; for (size_t i = from; i < v.size(); i++) { Cmd c = parse(v[i]); if (c.blank()) continue; o.push_back({norm(v[i]), c.is_line(), c.is_arc(), (int)i}); } return o; };
  vector<E> S = flat(src, s0), T = flat(tgt, t0);
  // other lines: identical sequences
  vector<const E*> so, to; for (auto& e : S) if (!e.g01 && !e.arc) so.push_back(&e); for (auto& e : T) if (!e.g01 && !e.arc) to.push_back(&e);
  for (size_t i = 0; i < std::max(so.size(), to.size()); i++) {
    if (i >= to.size()) { R.fail("P15", "verbatim", "line %d '%s' is missing from the output", so[i]->no + 1, so[i]->n.c_str()); break; }
    if (i >= so.size()) { R.fail("P15", "verbatim", "output line %d '%s' has no counterpart in the source", to[i]->no + 1, to[i]->n.c_str()); break; }
    if (so[i]->n != to[i]->n) { R.fail("P15", "verbatim", "source line %d '%s' appears as '%s' (output line %d)", so[i]->no + 1, so[i]->n.c_str(), to[i]->n.c_str(), to[i]->no + 1); break; }
  }
  // everything in the output that is not a new arc is a subsequence of the source; every source arc and other line survives in order
  size_t i = 0; for (auto& e : T) { if (e.arc) continue; size_t k = i; while (k < S.size() && S[k].n != e.n) k++; if (k == S.size()) { R.fail("P15", "verbatim", "output line %d '%s' is not a source line in sequence", e.no + 1, e.n.c_str()); break; } i = k + 1; }
  i = 0; for (auto& e : S) { if (e.g01) continue; size_t k = i; while (k < T.size() && T[k].n != e.n) k++; if (k == T.size()) { R.fail("P15", "verbatim", "source line %d '%s' does not survive in sequence", e.no + 1, e.n.c_str()); break; } i = k + 1; }
}
void judge_weld(Report& R, const Plan& p, const vector<string>& src, const string& out, const Settings& s, Weld* wo) {
  vector<string> tgt = split_lines(out);
  Weld w = analyze_weld(src, tgt, s);
  verbatim_check(R, src, tgt);
  for (auto& i : w.issues) {
    auto it = cat_prop().find(i.cat); string pr = it == cat_prop().end() ? p.prop : it->second;
    R.fail(pr, i.cat, "%s", i.what.c_str());
    if (i.cat == "align" && pr != p.prop && p.prop >= "P12" && p.prop <= "P21") R.fail(p.prop, "align", "%s", i.what.c_str());
  }
  R.count["arcs"] += w.arcs.size(); R.count["points_welded"] += w.points_welded; R.count["lines"] += src.size(); R.count["verbatim_lines"] += w.verbatim;
  if (!w.arcs.empty()) R.nontrivial = true;
  if (wo) *wo = w;
}

// ------------------------------------------------------------------ statistics
static const double BUCKET[] = {0.002f, 0.005f, 0.01f, 0.05f, 0.1f, 0.5f, 1.0f, 5.0f, 10.0f, 20.0f, 50.0f, 100.0f};   // upper ends; the last row takes the rest
static const int N_BUCKETS = 13;
struct Cnt {
  int lo = 0, hi = 0; double len = 0; int blo[N_BUCKETS] = {0}, bhi[N_BUCKETS] = {0};
  void put(double from, double to, bool must) {   // one movement with a length in [from, to]
    hi++; lo += must; int a = 0, b = 0; while (a < 12 && BUCKET[a] <= from) a++; while (b < 12 && BUCKET[b] <= to) b++;
    for (int k = a; k <= b; k++) bhi[k]++; if (must && a == b) blo[a]++;
  }
};
struct Tally { Cnt seg, ret, trav; };
static Tally tally(Report& R, const vector<string>& lines, size_t from, const Settings& s, const std::set<int>* skip) {
  Tally t; Printer p; p.g90e = s.g90e; bool kx = false, ky = false; int n = 0;
  // coordinates that are whole quarters are exact in every sum, so that a length on the border of two rows belongs to the upper one
  auto whole = [](double v) { return v * 4 == floor(v * 4) && fabs(v) < 1e6; }; const char AX[] = "XYZ"; bool ex[3] = {true, true, true}, eo[3] = {true, true, true};
  for (size_t i = from; i < lines.size(); i++) {
    Cmd c = parse(lines[i]); Motion m; Printer b = p; bool known = kx && ky; bool e0 = ex[0] && ex[1] && ex[2];
    for (int a = 0; a < 3; a++) {
      if (c.code == "G28") ex[a] = true;
      if (c.code == "G92" && !ex[a]) eo[a] = eo[a] && c.has('E') && !c.has(AX[a]);     // alone it may set every axis
      if (!c.has(AX[a])) continue;
      if (c.code == "G92") { if (!whole(c.get(AX[a])) || !ex[a]) eo[a] = false; ex[a] = eo[a]; }
      else if (c.code.size() == 2 && c.code[0] == 'G' && c.code[1] <= '3') ex[a] = whole(c.get(AX[a])) && eo[a] && p.unit == 1 && (!p.rel || ex[a]);
    }
    if (c.code == "G28") { bool any = c.has('X') || c.has('Y') || c.has('Z'); if (!any || c.has('X')) kx = false; if (!any || c.has('Y')) ky = false; }
    if (c.code == "G92" && c.has('X')) kx = true; if (c.code == "G92" && c.has('Y')) ky = true;
    if (!p.apply(c, &m)) continue;
    if (!p.rel) { if (c.has('X')) kx = true; if (c.has('Y')) ky = true; }   // a relative move does not make an unknown position known
    if (skip && skip->count((int)i)) continue;
    double dxy = hypot(m.x1 - m.x0, m.y1 - m.y0), de = m.e1 - m.e0, len;
    bool may = dxy > 0 || c.is_arc() || !known, must = known && (dxy > 2e-5 || (m.full && m.r > 1e-3)); if (c.is_arc() && m.r == 0) must = false;
    if (!may) continue;
    double rise = 0;   // the length of a helix may be that of its circle when arcs are planar
    if (c.is_arc()) { len = fabs(m.sweep) * m.r; rise = hypot(len, m.z1 - m.z0) - len; len += rise; if (s.arcs3d) rise = 0; }
    else len = s.arcs3d ? hypot(dxy, m.z1 - m.z0) : dxy;
    Cnt* k = de > 1e-9 ? &t.seg : de < -1e-9 ? &t.ret : s.travel ? &t.trav : nullptr;
    if (!k) continue;
    double w = 1e-5 + 1e-6 * len + (c.has('R') ? 1e-3 + 1e-3 * len : 0); if (must && e0 && ex[0] && ex[1] && ex[2] && !c.is_arc()) { w = 0; R.count["exact_lengths"] += 1; if (len == floor(len)) R.count["lengths_on_whole_mm"] += 1; } if (must) { k->put(len - w - rise, len + w, true); k->len += len; } else k->put(0, 1e9, false); n++;
  }
  return t;
}
static void judge_counts(Report& R, const char* what, const char* side, int got, double glen, const vector<int>& hist, const Cnt& c, const Cnt& A, double slack) {
  int sum = 0; for (int h : hist) sum += h;
  if (sum != got) R.fail("P20", "stats", "%s statistics: the %s histogram adds up to %d, the total says %d", what, side, sum, got);
  if (got < c.lo + A.lo || got > c.hi + A.lo) R.fail("P20", "stats", "%s statistics count %d %s movements, there are %d", what, got, side, c.lo + A.lo);
  if ((int)hist.size() != N_BUCKETS) { R.fail("P20", "stats", "%s statistics have %zu rows", what, hist.size()); return; }
  for (int k = 0; k < N_BUCKETS; k++) { int lo = c.blo[k] + A.blo[k], hi = c.bhi[k] + A.bhi[k];
    if (hist[k] < lo || hist[k] > hi) { R.fail("P20", "stats", "%s statistics: %d %s movements are shorter than %g mm and in no row above, there are %d to %d", what, hist[k], side, k < 12 ? BUCKET[k] : INFINITY, lo, hi); break; } }
  R.count["stat_rows"] += N_BUCKETS;
  int arcs = A.lo; double alen = A.len, lo = c.len + alen; bool exact = c.lo == c.hi;
  if (glen < lo - slack - 1e-5 * (got + 1) || (exact && glen > lo + slack + 1e-5 * (got + 1))) R.fail("P20", "stats", "%s statistics give %.5f mm of %s movement, there are %.5f mm", what, glen, side, lo);
}
// what a conversion moved: in the source, in the target outside of its arcs, and along its arcs
struct Tallies { Tally st, rest, arcs; };
static Tallies tallies(Report& R, const vector<string>& part, const string& out, const Weld& w, const Settings& s) {
  size_t s0 = 0, t0 = 0; if (!part.empty() && first_line_kept(part[0])) s0 = t0 = 1;
  vector<string> tl = split_lines(out); int hl = header_len(tl, t0); if (hl > 0) t0 += hl;
  Tallies y; y.st = tally(R, part, s0, s, nullptr);
  std::set<int> welded_t, welded_s; for (auto& a : w.arcs) { welded_t.insert(a.t); for (int i = a.i0; i <= a.i1; i++) welded_s.insert(i); }
  // arcs: counted once each with the length of the shape (within the path tolerance)
  y.rest = tally(R, part, s0, s, &welded_s); Tally& arcs = y.arcs;
  { vector<double> fed(part.size(), 0); { Printer q; q.g90e = s.g90e; for (size_t k = s0; k < part.size(); k++) { Motion m; if (q.apply(parse(part[k]), &m)) fed[k] = m.e1 - m.e0; } }
    std::map<int, const Arc*> at; for (auto& q : w.arcs) at[q.t] = &q;
    Printer p; p.g90e = s.g90e; for (size_t i = t0; i < tl.size(); i++) { Cmd c = parse(tl[i]); Motion m; if (!p.apply(c, &m) || !welded_t.count((int)i)) continue;
      double len = fabs(m.sweep) * m.r; if (s.arcs3d) len = hypot(len, m.z1 - m.z0);
      double de = fed[at[(int)i]->i1];     // class by what the source moves did
      Cnt* k = de > 1e-9 ? &arcs.seg : de < -1e-9 ? &arcs.ret : s.travel ? &arcs.trav : nullptr; if (k) { double w = (s.path_tolerance + 0.002) * len + 8 * pow(10, -s.xyz_precision) + s.resolution + 1e-4; k->put(len - w, len + w, true); k->len += len; } } }
  return y;
}
static void judge_moves(Report& R, const char* what, const Prog::St& g, const Cnt& S, const Cnt& T, const Cnt& A, const Settings& s) {
  judge_counts(R, what, "source", g.cs, g.ls, g.hs, S, Cnt(), 0.002);
  judge_counts(R, what, "target", g.ct, g.lt, g.ht, T, A, (s.path_tolerance + 0.002) * A.len + A.lo * (8 * pow(10, -s.xyz_precision) + s.resolution) + 0.002);
}
// what the console program prints at the end
static bool read_table(const string& text, const char* title, Prog::St& o) {
  vector<string> L = split_lines(text); size_t at = 0; for (; at < L.size(); at++) if (L[at].find(title) != string::npos && L[at][0] == '|') break;
  bool tot = false; for (at++; at < L.size() && L[at].size() > 1 && (L[at][0] == '|' || L[at][0] == '+'); at++) {
    const string& l = L[at]; double v; char b[64]; int a, c; size_t m = l.find("mm", l.find(" to ") == string::npos ? 0 : l.find(" to "));
    if (l.find("mm to ") != string::npos || l.find(" >= ") != string::npos) { if (m != string::npos && sscanf(l.c_str() + m + 2, "%d%d", &a, &c) == 2) { o.hs.push_back(a); o.ht.push_back(c); } continue; }
    size_t q = l.find(':'), d = q == string::npos ? q : l.find_first_of("0123456789-", q); if (d == string::npos) continue; (void)b; v = atof(l.c_str() + d);
    if (l.find("distance:") != string::npos) o.ls = o.lt = v; else if (l.find("distance source:") != string::npos) o.ls = v; else if (l.find("distance target:") != string::npos) o.lt = v; else if (l.find("count source:") != string::npos) o.cs = (int)v; else if (l.find("count target:") != string::npos) { o.ct = (int)v; tot = true; }
  }
  return tot;
}
static Cnt operator+(Cnt a, const Cnt& b) { a.lo += b.lo; a.hi += b.hi; a.len += b.len; for (int k = 0; k < N_BUCKETS; k++) a.blo[k] += b.blo[k], a.bhi[k] += b.bhi[k]; return a; }
static void judge_console(Report& R, const vector<string>& src, const string& out, const Weld& w, const string& text, const Settings& s) {
  if (!w.aligned) return; Tallies y = tallies(R, src, out, w, s); Prog::St a, t;
  if (!read_table(text, "Target File Extrusion Statistics", a)) { R.fail("P20", "console", "the program prints no statistics of the extrusions"); return; }
  judge_moves(R, "printed extrusion", a, y.st.seg + y.st.ret, y.rest.seg + y.rest.ret, y.arcs.seg + y.arcs.ret, s); R.count["console_tables"] += 1;
  bool none = text.find("No travel arcs converted") != string::npos, tab = read_table(text, "Target File Travel Statistics", t);
  if (none + tab != (s.travel ? 1 : 0)) R.fail("P20", "console", "the program prints %d statistics of the travel, travel arcs are %s", none + tab, s.travel ? "allowed" : "not allowed");
  if (none && y.arcs.trav.lo) R.fail("P20", "console", "the program says that no travel arcs were converted, there are %d", y.arcs.trav.lo);
  if (tab) judge_moves(R, "printed travel", t, y.st.trav, y.rest.trav, y.arcs.trav, s);
  if (text.find("completed successfully") == string::npos) R.fail("P20", "console", "the program does not say that it is done");
}
// the printed tables say what the numbers say
static void judge_table(Report& R, const string& text, const string& title, const Prog::St& a, const Prog::St* b) {
  vector<string> L = split_lines(text); size_t at = 0; for (; at < L.size(); at++) if (L[at].find(title) != string::npos) break;
  if (at == L.size()) { R.fail("P20", "table", "there is no table '%s'", title.c_str()); return; }
  double tie = 0; auto change = [&](long v1, long v2) { return v1 == 0 ? (v2 > 0 ? string("INF") : string("0.0%")) : v1 == v2 ? string("0.0%") : strf("%.1f%%", 100.0 * ((double)v2 - (double)v1) / (double)v1 + tie); };
  auto norm = [](const string& t) { string o; for (char c : t) if (c != ' ' && c != '.') o += c; return o; };   // the padding of the cells is not judged
  auto is = [&](size_t i, const std::function<string()>& say) { string have = i < L.size() ? L[i] : "", want; bool ok = false; for (double t : {1e-9, -1e-9, 0.0}) { tie = t; want = say(); if (norm(have) == norm("|" + want + "|")) ok = true; } if (!ok) R.fail("P20", "table", "a row of '%s' reads '%s', it should say '%s'", title.c_str(), have.c_str(), want.c_str()); };
  size_t n = a.hs.size(); at += 4; long cs = a.cs + (b ? b->cs : 0), ct = a.ct + (b ? b->ct : 0); double ls = a.ls + (b ? b->ls : 0), lt = a.lt + (b ? b->lt : 0);
  for (size_t k = 0; k < n; k++) { long s = a.hs[k] + (b ? b->hs[k] : 0), t = a.ht[k] + (b ? b->ht[k] : 0); double lo = k ? BUCKET[k - 1] : 0;
    is(at++, [&] { return (k + 1 < n ? strf("%.3fmm to %.3fmm", lo, BUCKET[k]) : strf(">= %.3fmm", lo)) + strf(" %ld %ld %s", s, t, change(s, t).c_str()); }); }
  at++;
  if (L[std::min(at, L.size() - 1)].find("distance:") != string::npos) { if (fabs(ls - lt) > 0.00101) R.fail("P20", "table", "'%s' gives one total distance for %.5f and %.5f mm", title.c_str(), ls, lt); is(at++, [&] { return strf("Total distance:%.3fmm", ls); }); }
  else { if (fabs(ls - lt) < 0.00099) R.fail("P20", "table", "'%s' has no total distance", title.c_str()); is(at++, [&] { return strf("Total distance source:%.3fmm", ls); }); is(at++, [&] { return strf("Total distance target:%.3fmm", lt); }); }
  is(at++, [&] { return strf("Total count source:%ld", cs); }); is(at++, [&] { return strf("Total count target:%ld", ct); }); is(at++, [&] { return "Total percent change:" + change(cs, ct); }); R.count["tables"] += 1;
}
void judge_stats(Report& R, const vector<string>& src, const string& data, const string& out, const Weld& w, const WeldRes& r, const Settings& s, bool complete) {
  const char* P = "P20";
  auto sane = [&](const Prog& q, const char* when) {
    auto bad = [](double v) { return !std::isfinite(v); };
    if (bad(q.percent) || bad(q.elapsed) || bad(q.remaining) || bad(q.ratio) || bad(q.size_pct)) R.fail(P, "progress", "%s progress contains a value that is not a number (percent %g elapsed %g remaining %g ratio %g compression %g)", when, q.percent, q.elapsed, q.remaining, q.ratio, q.size_pct);
    if (q.percent < -1e-9 || q.percent > 100 + 1e-6) R.fail(P, "progress", "%s progress is %.3f percent", when, q.percent);
    if (q.elapsed < -1e-9 || q.remaining < -1e-9) R.fail(P, "progress", "%s progress has negative times %.3f / %.3f", when, q.elapsed, q.remaining);
    if (q.src_pos < 0 || q.src_pos > q.src_size) R.fail(P, "progress", "%s progress reports position %ld of %ld", when, q.src_pos, q.src_size);
    if (q.src_size != (long)data.size()) R.fail(P, "progress", "%s progress reports a source of %ld bytes, it has %zu", when, q.src_size, data.size());
    if (q.gcodes > q.lines || q.gcodes < 0 || q.lines > (int)src.size()) R.fail(P, "progress", "%s progress counts %d commands in %d lines of %zu", when, q.gcodes, q.lines, src.size());
    if (q.src_size > 0 && fabs(q.percent - 100.0 * q.src_pos / q.src_size) > 0.01) R.fail(P, "progress", "%s progress is %.4f percent at byte %ld of %ld", when, q.percent, q.src_pos, q.src_size);
    if (q.disk >= 0 && q.tgt_size < q.disk) R.fail(P, "progress", "%s progress claims %ld output bytes, %ld are on disk", when, q.tgt_size, q.disk);
    if (q.tgt_size > 0 && q.src_pos > 0) {
      if (fabs(q.ratio - (double)q.src_pos / q.tgt_size) > 1e-4 * q.ratio + 1e-6) R.fail(P, "progress", "%s compression ratio %.5f, should be %.5f", when, q.ratio, (double)q.src_pos / q.tgt_size);
      if (fabs(q.size_pct - 100.0 * (1 - (double)q.tgt_size / q.src_pos)) > 0.01 + 1e-4 * fabs(q.size_pct)) R.fail(P, "progress", "%s compression percent %.5f", when, q.size_pct);
    }
    if (q.text.find("nan") != string::npos || q.text.find("inf ") != string::npos || q.text.find("inf,") != string::npos || q.text.find("inf%") != string::npos) R.fail(P, "progress", "%s progress text contains a value that is not a number", when);
  };
  const Prog* prev = nullptr; size_t n = 0;
  for (auto& q : r.prog) {
    string when = strf("callback %zu", n++); sane(q, when.c_str());
    if (prev) {
      if (q.lines < prev->lines || q.gcodes < prev->gcodes || q.points < prev->points || q.arcs < prev->arcs || q.src_pos < prev->src_pos || q.tgt_size < prev->tgt_size || q.seg.cs < prev->seg.cs || q.seg.ct < prev->seg.ct || q.percent < prev->percent - 1e-9 || q.elapsed < prev->elapsed - 1e-9)
        R.fail(P, "progress", "callback %zu goes backwards (lines %d->%d arcs %d->%d points %d->%d position %ld->%ld output %ld->%ld)", n - 1, prev->lines, q.lines, prev->arcs, q.arcs, prev->points, q.points, prev->src_pos, q.src_pos, prev->tgt_size, q.tgt_size);
    }
    prev = &q;
  }
  sane(r.fin, "final");
  if (!w.aligned) return;
  const Prog& f = r.fin;
  if (f.arcs != (int)w.arcs.size()) R.fail(P, "stats", "reports %d arcs, the output has %zu", f.arcs, w.arcs.size());
  if (f.points != w.points_welded) R.fail(P, "stats", "reports %d compressed points, %d moves became %zu arcs", f.points, w.points_welded, w.arcs.size());
  if ((f.aborted && s.rate_variance == 0) || f.aborted < 0) R.fail(P, "stats", "reports %d arcs that ended by their flow rate, no limit is set", f.aborted);
  if ((f.fwcomp && !(s.min_arc_segments > 0 && s.mm_per_arc_segment > 0)) || f.fwcomp < 0) R.fail(P, "stats", "reports %d firmware compensations, there is no such limit", f.fwcomp);
  if ((f.lenexc && s.max_gcode_length <= 0) || f.lenexc < 0) R.fail(P, "stats", "reports %d commands that were too long, there is no such limit", f.lenexc);
  if (f.tgt_size != (long)out.size()) R.fail(P, "stats", "reports %ld output bytes, the file has %zu", f.tgt_size, out.size());
  if (complete) {
    if (f.lines != (int)src.size()) R.fail(P, "stats", "reports %d processed lines of %zu", f.lines, src.size());
    if (f.src_pos != (long)data.size()) R.fail(P, "stats", "final position %ld of %zu", f.src_pos, data.size());
    if (!r.prog.empty() && r.prog.back().percent < 100 - 1e-6) R.fail(P, "progress", "last callback is at %.3f percent", r.prog.back().percent);
  }
  if (f.trav.cs > 0) judge_table(R, r.detail, "Travel Statistics", f.trav, nullptr); else if (r.detail.find("Travel Statistics") != string::npos) R.fail(P, "table", "there is a table of no travel");
  judge_table(R, r.detail, "Extrusion/Retraction Statistics", f.seg, &f.ret);
  // movement statistics
  vector<string> part(src.begin(), src.begin() + std::min((int)src.size(), std::max(0, f.lines)));
  Tallies y = tallies(R, part, out, w, s);
  judge_moves(R, "extrusion", f.seg, y.st.seg, y.rest.seg, y.arcs.seg, s); judge_moves(R, "retraction", f.ret, y.st.ret, y.rest.ret, y.arcs.ret, s); judge_moves(R, "travel", f.trav, y.st.trav, y.rest.trav, y.arcs.trav, s);
}


// ------------------------------------------------------------------ compression
// Runs of moves in the source that must become one arc: they begin right after a line that can be part of no arc, follow one
// circle much more closely than the settings ask for, and keep well inside of every limit.
struct Run { int i0, i1; double r, sweep; int length; };      // length: no arc of the run has a longer command
static vector<Run> ideal_runs(const vector<string>& src, const Settings& s) {
  vector<Run> out;
  Printer p; p.g90e = s.g90e; size_t s0 = !src.empty() && first_line_kept(src[0]) ? 1 : 0; bool barrier = false; bool kx = false, ky = false, kz = false; double deficit = 0; const double u = pow(10, -s.xyz_precision);
  for (size_t i = s0; i < src.size(); i++) {
    Cmd c = parse(src[i]); Motion m; Printer b = p; bool ready = barrier && kx && ky && kz && !b.rel;
    if (c.code == "G28") kx = ky = kz = false; if (!b.rel) { if (c.is_line() || c.is_arc() || c.code == "G92") { kx |= c.has('X'); ky |= c.has('Y'); kz |= c.has('Z'); } }
    bool mv = p.apply(c, &m); barrier = !mv && (c.code == "G92" || c.code == "M106" || c.code == "M107"); if (c.code.size() > 1 && c.code[0] == 'T') deficit = 1e9;
    if (mv) { double d = m.e1 - m.e0; deficit = std::max(0.0, deficit - d); }
    if (!mv || !ready || !c.is_line()) continue;
    // collect the run
    struct Pt { double x, y, z; }; vector<Pt> pt = {{m.x0, m.y0, m.z0}}; vector<int> at; vector<double> de, len; size_t k = i; Printer q = b; double f = -1; bool ok = true; double def = 0;
    for (; k < src.size(); k++) {
      if (src[k].empty()) continue;  // an empty line ends nothing
      Cmd d = parse(src[k]); Motion n; if (!d.is_line() || (!d.comment.empty() && (d.comment[0] != ' ' || !feature_of(d.comment).empty())) || src[k].find_first_of("\t\r") != string::npos || (d.has('F') && k > i)) break; Printer before = q; if (!q.apply(d, &n)) break;
      if (k == i) f = q.f; if (q.f != f || f < 1) break; double dx = hypot(n.x1 - n.x0, n.y1 - n.y0), e = n.e1 - n.e0; if (dx < 20 * u) break; if (!s.arcs3d && n.z1 != n.z0) break;
      if (e < 0 || (e == 0) != (k == i ? e == 0 : de[0] == 0)) break; if (e == 0 && (!s.travel || d.has('E'))) break;
      at.push_back((int)k); pt.push_back({n.x1, n.y1, n.z1}); de.push_back(e); len.push_back(dx);
    }
    (void)def; size_t n = pt.size(); if (n < 6) { continue; }
    // retracted filament must be back before a move extrudes
    if (deficit > 0 && de[0] > 0) continue;
    // the circle through the first, the middle and the last point
    while (n >= 6) {
      ok = true; size_t a = 0, h = n / 2, z = n - 1; double ax = pt[h].x - pt[a].x, ay = pt[h].y - pt[a].y, bx = pt[z].x - pt[a].x, by = pt[z].y - pt[a].y, D = 2 * (ax * by - ay * bx);
      double cx = 0, cy = 0, r = 0, sweep = 0, total = 0, res = 0, smin = 1e9, smax = -1e9;
      if (fabs(D) < 1e-9) ok = false;
      else {
        double ux = (by * (ax * ax + ay * ay) - ay * (bx * bx + by * by)) / D, uy = (ax * (bx * bx + by * by) - bx * (ax * ax + ay * ay)) / D; cx = pt[a].x + ux; cy = pt[a].y + uy; r = hypot(ux, uy);
        for (size_t g = 0; g < n; g++) res = std::max(res, fabs(hypot(pt[g].x - cx, pt[g].y - cy) - r));
        for (size_t g = 1; g < n; g++) { double x0 = pt[g - 1].x - cx, y0 = pt[g - 1].y - cy, x1 = pt[g].x - cx, y1 = pt[g].y - cy, w = atan2(x0 * y1 - y0 * x1, x0 * x1 + y0 * y1); sweep += w; smin = std::min(smin, w); smax = std::max(smax, w); }
        if (!(smin > 0 || smax < 0)) ok = false; double dmin = std::min(fabs(smin), fabs(smax)), dmax = std::max(fabs(smin), fabs(smax));
        double err = std::max(res, u);
        if (dmax > 0.8 || dmax > 1.05 * dmin) ok = false;                                   // even steps
        if (r * (1 - cos(dmax / 2)) + 2 * err > 0.4 * s.resolution) ok = false;             // chords close to the arc
        if (dmax * dmax / 24 > 0.3 * s.path_tolerance) ok = false;                          // length of the chords
        if (r * (1 - cos(dmin)) < 40 * err) ok = false;                                     // the curvature of the first moves is not noise
        if (r > 0.5 * s.max_radius || fabs(sweep) > 6.0 || fabs(sweep) < 0.2) ok = false;
        for (double l : len) total += l; (void)total;
        if (s.min_arc_segments > 0 && s.mm_per_arc_segment > 0 && floor(0.85 * 2 * 3.14159265358979 * r / s.mm_per_arc_segment) < s.min_arc_segments) ok = false;   // the radius of the first fits is not exact
        // constant flow
        if (de[0] > 0 && s.rate_variance > 0) for (size_t g = 0; g + 1 < n; g++) if (fabs(de[g] / len[g] / (de[0] / len[0]) - 1) > 0.2 * s.rate_variance) ok = false;
        // a helix climbs evenly
        if (s.arcs3d) for (size_t g = 1; g < n; g++) if (fabs((pt[g].z - pt[g - 1].z) - (pt[1].z - pt[0].z)) > 1e-7) ok = false;
        if (s.arcs3d && 8 * err * fabs(pt[1].z - pt[0].z) / (r * r) > 0.5 * (s.dynamic ? 1e-6 : u)) ok = false;  // the welder compares the steps of Z per radius
        if (s.arcs3d && fabs(pt[n - 1].z - pt[0].z) > 0.2 * r * fabs(sweep)) ok = false;
      }
      int length = 2;
      if (ok) {
        int xd = s.dynamic ? 6 : s.xyz_precision, ed = s.dynamic ? 6 : s.e_precision; double un = pow(10, -xd);
        auto word = [&](double lo, double hi, int d) { double m = std::max(fabs(lo), fabs(hi)) + pow(10, -d); int g = 1; while (m >= 10) { m /= 10; g++; } length += 2 + (lo < 0 ? 1 : 0) + g + (d > 0 ? d + 1 : 0); };
        double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300, z0 = 1e300, z1 = -1e300; for (size_t g = 1; g < n; g++) { x0 = std::min(x0, pt[g].x); x1 = std::max(x1, pt[g].x); y0 = std::min(y0, pt[g].y); y1 = std::max(y1, pt[g].y); z0 = std::min(z0, pt[g].z); z1 = std::max(z1, pt[g].z); }
        // the center of the arcs on the way to the last one is a little elsewhere
        double di = std::max(50 * un, 0.2 * r); word(x0, x1, xd); word(y0, y1, xd); if (s.arcs3d && z1 != pt[0].z) word(z0, z1, xd); word(cx - pt[0].x - di, cx - pt[0].x + di, xd); word(cy - pt[0].y - di, cy - pt[0].y + di, xd);
        if (de[0] > 0) { double e = 0; for (size_t g = 0; g + 1 < n; g++) e += de[g]; double from = b.erel ? 0 : b.e(); word(std::min(from, from + e), std::max(from, from + e), ed); }
        if (parse(src[i]).has('F')) word(0, f + 1, 0);
        if (s.max_gcode_length > 0 && length > s.max_gcode_length) ok = false;
      }
      if (ok) { out.push_back({(int)i, at[n - 2], r, sweep, length}); break; }
      n = n * 3 / 4;
    }
  }
  return out;
}
static void judge_compress(Report& R, const vector<string>& src, const Weld& w, const Settings& s) {
  if (!w.aligned) return; auto runs = ideal_runs(src, s); R.count["ideal_runs"] += runs.size();
  for (auto& q : runs) {
    bool in = false; int touch = 0, left = 0; for (int i = q.i0; i <= q.i1; i++) { bool c = src[i].empty(); for (auto& a : w.arcs) if (a.i0 <= i && i <= a.i1) c = true; left += !c; }
    for (auto& a : w.arcs) { if (a.i0 <= q.i0 && a.i1 >= q.i1) in = true; if (a.i0 <= q.i1 && a.i1 >= q.i0) touch++; }
    if (!in) R.fail("P30", "missed", "the moves of source lines %d to %d ('%s' ...) follow a circle of radius %.3f over %.1f degrees, they become %d arcs and %d moves are left", q.i0 + 1, q.i1 + 1, src[q.i0].c_str(), q.r, q.sweep * 57.29578, touch, left);
  }
}

// ------------------------------------------------------------------ weld
static void gen_program(Plan& p, Rng& r, const Settings& s, int lo, int hi) {
  gen::Profile pr; pr.lines = (int)exp(r.uni(log((double)lo), log((double)hi)));
  if (r.chance(0.15)) { pr.weird = 0; pr.unknown = false; pr.rel = false; }
  if (r.chance(0.1)) pr.weird = 2;
  if (r.chance(0.002)) pr.lines = r.range(4000, 12000);
  PFile f; f.path = "in"; f.lines = gen::program(r, s, pr); f.nl = !r.chance(0.1);
  p.files.push_back(f);
}
static Plan gen_weld(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); Settings s = gen::settings(r);
  gen_program(p, r, s, 8, 260);
  p.set("entry", r.chance(0.25) ? "cli" : "lib");
  if (p.get("entry") == "cli") { static const vector<string> pr = {"NONE", "SIMPLE", "FULL"}, lv = {"NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"};
    if (r.chance(0.5)) p.set("args", "-p=" + r.pick(pr) + (r.chance(0.5) ? "\x1f-l=" + r.pick(lv) : "")); }
  p.set("mode", r.chance(0.6) ? "sep" : MODES[r.below(N_MODES)]);
  if (r.chance(0.2)) p.set("callback", 0L);
  gen_env(p, r, 0.8); put_settings(p, s);
  return p;
}

// ---- circle: programs with runs of moves that follow a circle
static void ideal_run(vector<string>& L, Rng& r, const Settings& s) {
  int xd = r.chance(0.7) ? s.xyz_precision : r.range(3, 6), ed = r.chance(0.6) ? 5 : r.range(4, 6); double u = pow(10, -xd); auto q = [&](double v) { return strf("%.*f", xd, v); };
  double rmax = std::min(0.49 * s.max_radius, r.chance(0.5) ? 30.0 : r.chance(0.7) ? 120.0 : 400.0), rad = 1, d = 0.5; double cx = r.uni(20, 180), cy = r.uni(20, 180), err = std::max(0.8 * u, pow(10, -s.xyz_precision));
  for (int t = 0; t < 40; t++) {
    rad = exp(r.uni(log(0.3), log(std::max(0.4, rmax)))); double hi = std::min(0.75, sqrt(7 * s.path_tolerance)), c = 1 - (0.38 * s.resolution - 2 * err) / rad; hi = std::min(hi, 2 * acos(std::max(-1.0, std::min(1.0, c)))); double lo = acos(std::max(-1.0, 1 - 44 * err / rad));
    d = hi; if (lo < hi) { d = r.uni(lo, hi); break; }
  }
  int n = r.range(6, r.chance(0.8) ? 60 : 300); n = std::max(6, std::min(n, (int)(5.9 / std::max(d, 0.001))));
  bool noisy = r.chance(0.3), cw = r.chance(0.5), erel = r.chance(0.5), travel = s.travel && r.chance(0.3); double a0 = r.chance(0.3) ? r.range(0, 7) * 0.78539816339 : r.uni(0, 6.28), z = r.range(1, 40) * 0.2, dz = s.arcs3d && r.chance(0.5) ? r.range(-30, 30) * std::max(u, 1e-5) : 0, flow = r.pick(vector<double>{0.033, 0.02, 0.05, 0.3, 1.5}), e = 0, x0, y0;
  if (r.chance(0.7)) L.push_back("G90"); else { L.push_back("G91"); L.push_back("G90"); } L.push_back(erel ? "M83" : "M82"); L.push_back("G92 E0"); L.push_back(strf("G1 E%d F1800", 30)); L.push_back("G92 E0");
  x0 = cx + rad * cos(a0); y0 = cy + rad * sin(a0); L.push_back(strf("G0 X%s Y%s Z%s F%d", q(x0).c_str(), q(y0).c_str(), q(z).c_str(), r.range(600, 9000))); L.push_back(r.pick(vector<string>{"M106 S255", "M107", "G92 E0"}));
  x0 = atof(q(x0).c_str()); y0 = atof(q(y0).c_str());
  for (int i = 1; i <= n; i++) {
    double a = a0 + (cw ? -1 : 1) * d * i, x = atof(q(cx + rad * cos(a)).c_str()), y = atof(q(cy + rad * sin(a)).c_str()); z += dz; string l = r.chance(0.9) ? "G1" : "G0"; l += " X" + q(x) + " Y" + q(y); if (dz != 0 || r.chance(0.02)) l += " Z" + q(z);
    if (!travel) { double de = flow * hypot(x - x0, y - y0); e += de; l += strf(" E%.*f", ed, erel ? de : e); } if (i == 1 && r.chance(0.7)) l += strf(" F%d", r.range(300, 6000));
    if (noisy && r.chance(0.2)) l += strf(" ; %s", r.pick(vector<string>{"wall", "move 1", "no", "x"}).c_str());
    L.push_back(l); x0 = x; y0 = y; if (noisy && r.chance(0.1)) L.push_back("");
  }
  int tail = r.below(8); for (int i = 0; i < tail % 3; i++) L.push_back(""); if (tail < 7) L.push_back(r.pick(vector<string>{"M106 S0", "G92 E0", "G1 Z50 F6000", "; end", "M400"}));
}
static Plan gen_circle(const string& prop, uint64_t seed, int) {
  Plan p; Rng r(seed); Settings s = gen::settings(r); s.max_gcode_length = 0; if (s.resolution < 0.05 && r.chance(0.5)) s.xyz_precision = r.range(4, 6); if (r.chance(0.6)) s.min_arc_segments = 0, s.mm_per_arc_segment = 0;
  vector<string> L; gen::Profile pr; if (r.chance(0.6)) { pr.lines = r.range(5, 60); L = gen::program(r, s, pr); for (auto& l : L) while (!l.empty() && l.back() == '\r') l.pop_back(); }
  int k = r.range(1, 3); for (int i = 0; i < k; i++) { ideal_run(L, r, s); if (r.chance(0.3)) { gen::Profile q; q.lines = r.range(5, 30); q.marker = false; q.preamble = false; auto M = gen::program(r, s, q); L.insert(L.end(), M.begin(), M.end()); } }
  // a limit of the length that the arcs of one of the runs just keep
  if (r.chance(0.3)) { auto q = ideal_runs(L, s); if (!q.empty()) s.max_gcode_length = std::max(31, q[r.below(q.size())].length + (r.chance(0.6) ? 0 : r.range(0, 4))); }
  PFile f; f.path = "in"; f.lines = L; f.nl = !r.chance(0.1); p.files.push_back(f);
  p.set("entry", r.chance(0.2) ? "cli" : "lib"); p.set("mode", "sep"); gen_env(p, r, 0.6); put_settings(p, s); (void)prop; return p;
}
static void run_weld_kind(const Plan& p, Report& R) {
  string mode = p.get("mode", "sep"), entry = p.get("entry", "lib"); Names n = names(mode, entry); Job j = job_of(p, n); j.watch = n.ptgt;
  if (n.alias) j.watch = "";
  string O = p.files[0].data(); vector<string> src = split_lines(O);
  sim::Sim s(cfg_of(p)); place(s, mode, n, O);
  Outcome o = run_one(s, j); R.absorb(s);
  if (o.threw || o.crashed || !o.ok) { R.fail(p.prop, "failed", "conversion of a healthy file ends with %s (%s%s)", o.where().c_str(), o.what.c_str(), o.w.message.c_str()); return; }
  string out = s.get(n.ptgt);
  Weld w; judge_weld(R, p, src, out, j.s, &w);
  judge_compress(R, src, w, j.s); if (p.kind == "circle") R.nontrivial = R.count["ideal_runs"] > 0;
  if (entry == "lib") { judge_stats(R, src, O, out, w, o.w, j.s, true); R.count["callbacks"] += o.w.prog.size(); }
  else { vector<string> a = split_args(p.get("args")); int lv = 3; for (auto& x : a) if (x.compare(0, 3, "-l=") == 0) lv = x == "-l=NOSET" || x == "-l=VERBOSE" || x == "-l=DEBUG" || x == "-l=INFO" ? 3 : 4; if (lv <= 3) judge_console(R, src, out, w, o.out, j.s); }
  R.states.push_back(sim::mix(tag(entry + mode), sim::mix(w.arcs.size() > 20 ? 20 : w.arcs.size(), (j.s.arcs3d << 0) | (j.s.travel << 1) | (j.s.dynamic << 2) | (j.s.g90e << 3) | ((j.s.max_gcode_length > 0) << 4) | ((j.s.min_arc_segments > 0) << 5) | ((j.s.rate_variance > 0) << 6))));
}

// ------------------------------------------------------------------ cancel
static Plan gen_cancel(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); Settings s = gen::settings(r);
  gen_program(p, r, s, 900, 4200);
  p.set("entry", "lib"); p.set("mode", r.chance(0.5) ? "inplace" : MODES[r.below(N_MODES)]);
  p.set("cancel_at", (long)r.range(0, 5));
  gen_env(p, r, 0.5); p.set("clock_mode", r.chance(0.8) ? 3L : 1L); p.set("clock_seed", (long)r.below(1 << 30)); s.notification = r.chance(0.5) ? 0 : 0.5;
  if (p.num("read_chunk") > 0 && p.num("read_chunk") < 64) p.set("read_chunk", 64L);
  if (p.num("write_chunk") > 0 && p.num("write_chunk") < 64) p.set("write_chunk", 64L);
  put_settings(p, s);
  return p;
}
static void run_cancel(const Plan& p, Report& R) {
  string mode = p.get("mode", "sep"), entry = p.get("entry", "lib"); Names n = names(mode, entry); Job j = job_of(p, n);
  if (!n.alias) j.watch = n.ptgt;
  string O = p.files[0].data(); vector<string> src = split_lines(O);
  string C = convert(p, j, O);
  sim::Sim s(cfg_of(p)); place(s, mode, n, O); auto before = s.list(); size_t links = s.links.size();
  s.after_op = [&](const sim::OpRec& r) {
    string cur = s.get(s.resolve(n.src));
    if (cur != O && !(n.alias && cur == C)) R.fail(n.alias ? "P01" : "P04", "torn", "after %s of %s the source holds %zu bytes that are neither the original nor the conversion", sim::op_names[r.op], r.path.c_str(), cur.size());
  };
  Outcome o = run_one(s, j); R.absorb(s); s.after_op = nullptr;
  if (o.threw || o.crashed) { R.fail(p.prop, "failed", "run ends with %s (%s)", o.where().c_str(), o.what.c_str()); return; }
  int ncb = (int)o.w.prog.size(); bool asked = j.cancel_at >= 0 && j.cancel_at < ncb - 1;      // the answer to the last callback has no effect: nothing is left to stop
  R.count["callbacks"] += ncb; if (asked) { R.count["cancels"] += 1; R.nontrivial = true; R.faults["cancel"]++; }
  string tgt = s.get(s.resolve(n.ptgt)); string srcnow = s.get(s.resolve(n.src));
  if (asked) {
    if (!o.cancelled || o.ok) R.fail("P03", "report", "stop was requested at callback %d, the result says success=%d cancelled=%d", j.cancel_at, o.ok, o.cancelled);
    if (ncb > j.cancel_at + 2) R.fail("P03", "late", "stop was requested at callback %d but %d more callbacks followed", j.cancel_at, ncb - 1 - j.cancel_at);
    if (o.w.fin.lines > o.w.prog[j.cancel_at].lines) R.fail("P03", "late", "stop was requested at line %d but lines up to %d were processed", o.w.prog[j.cancel_at].lines, o.w.fin.lines);
    if (srcnow != O) R.fail("P03", "source", "the source was changed although the conversion was cancelled");
    if (n.alias && tgt != O) R.fail("P03", "source", "the target was replaced although the conversion was cancelled");
    if (!n.alias) {
      vector<string> part(src.begin(), src.begin() + std::min((int)src.size(), std::max(0, o.w.fin.lines)));
      Report q; Weld w; judge_weld(q, p, part, tgt, j.s, &w);
      for (auto& v : q.viol) { R.fail("P21", "partial", "partial output: %s", v.what.c_str()); if (v.prop != "P21") R.viol.push_back(v); }
      for (auto& c : q.count) R.count[c.first] += c.second;
      judge_stats(R, part, O, tgt, w, o.w, j.s, false);
    }
  } else {
    if (!o.ok || o.cancelled) R.fail("P03", "report", "nobody asked to stop, the result says success=%d cancelled=%d (%s)", o.ok, o.cancelled, o.w.message.c_str());
    if (tgt != C) R.fail("P09", "env", "output differs from the undisturbed conversion (%zu / %zu bytes)", tgt.size(), C.size());
    Weld w; judge_weld(R, p, src, tgt, j.s, &w); judge_stats(R, src, O, tgt, w, o.w, j.s, true);
  }
  auto after = s.list();
  for (auto& f : after) if (std::find(before.begin(), before.end(), f) == before.end() && f != n.ptgt) R.fail("P05", "stray", "file %s was left behind", f.c_str());
  for (auto& f : before) if (!s.exists(f)) R.fail("P05", "lost", "file %s has disappeared", f.c_str());
  (void)links;
  R.states.push_back(sim::mix(tag(mode), (uint64_t)(asked ? 1 + j.cancel_at : 0) * 64 + std::min(ncb, 60)));
}

// ------------------------------------------------------------------ env
static const vector<string> STRAIGHT_FW = {"MARLIN_1", "MARLIN_2", "PRUSA", "REPETIER", "SMOOTHIEWARE"};
static Plan gen_env_kind(const string&, uint64_t seed, int) {
  Plan p; Rng r(seed); Settings s = gen::settings(r);
  bool st = r.chance(0.2);
  if (st) { PFile f; f.path = "in"; f.lines = gen::arc_program(r, r.range(20, 200), true, false); p.files.push_back(f); p.set("entry", "straight"); p.set("args", "-f=" + r.pick(STRAIGHT_FW)); }
  else { if (r.chance(0.15)) gen_program(p, r, s, 900, 2600); else gen_program(p, r, s, 10, 300); p.set("entry", r.chance(0.4) ? "cli" : "lib"); }
  if (gen::wild(r, p.files[0].lines)) p.set("wild", 1L);
  p.set("variants", (long)r.range(2, 4)); put_settings(p, s);
  // another program that the same process converts first
  Settings s2 = gen::settings(r); gen::Profile pr; pr.lines = r.range(8, 120); PFile f; f.path = "prior"; f.lines = gen::program(r, s2, pr); p.files.push_back(f); put_settings(p, s2, "prior.s.");
  return p;
}
static void run_env(const Plan& p, Report& R) {
  string entry = p.get("entry", "lib"); Names n0 = names("sep", entry); Job base = job_of(p, n0);
  string O = p.files[0].data(); bool ok; Outcome ro;
  string C = convert(p, base, O, &ro, &ok); R.hash = sim::mix(R.hash, tag(C));
  if (!ok) { R.fail("P09", "failed", "conversion of a healthy file fails (%s)", ro.w.message.c_str()); return; }
  if (base.entry != "straight" && C.find("\nG2") + C.find("\nG3") != 2 * string::npos) R.nontrivial = true;
  for (int v = 0; v < p.num("variants", 2); v++) {
    Rng r(sim::mix(p.seed, 500 + v)); Plan q = p; q.seed = sim::mix(p.seed, v);
    gen_env(q, r, 1.3); string mode = MODES[r.below(N_MODES)];
    string e2 = entry == "straight" ? entry : r.chance(0.5) ? "lib" : "cli"; Names n = names(mode, e2);
    Job j = base; j.entry = e2; j.src = n.src; j.tgt = n.tgt; j.callback = r.chance(0.5); j.s.notification = r.chance(0.5) ? 0 : 5;
    j.s.log_level = r.chance(0.4) ? r.range(0, 6) : 6; j.s.buffer_size = r.range(2, 60);
    if (e2 == "cli") { j.args.clear(); static const vector<string> pr = {"NONE", "SIMPLE", "FULL"}, lv = {"NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"};
      if (r.chance(0.6)) j.args.push_back("-p=" + r.pick(pr)); if (r.chance(0.5)) j.args.push_back("-l=" + r.pick(lv)); }
    int prior = r.chance(0.5) && p.files.size() > 1 && e2 == "lib" ? 1 : 0;
    if (prior && r.chance(0.5) && (mode == "sep" || mode == "inplace" || mode == "existing" || mode == "abs")) prior = 2 + r.range(0, 3);   // the same object is used for both
    if (prior == 4) j.callback = true;
    sim::Config c = cfg_of(q); sim::Sim s(c); place(s, mode, n, O);
    Outcome o, po; Job pj; pj.entry = "lib"; pj.s = get_settings(p, "prior.s."); pj.src = "/sim/w/prior.gcode"; pj.tgt = "/sim/w/prior_out.gcode";
    int id;
    if (prior > 1) {  // same object, after another or the same program, maybe after a cancelled or failed run
      if (prior != 2) s.put(n.psrc, p.files[1].data());
      if (prior == 5) { s.cfg.disk_free = r.range(0, 3000); R.faults["disk_full"]++; }
      string psrc = n.psrc; int cancel = prior == 4 ? 0 : -1;
      id = s.spawn("lib", [&, psrc, cancel]() -> int {
        WeldReq b; { sim::Outside x; b.s = j.s; b.src = j.src; b.tgt = j.tgt; b.callback = j.callback; b.cancel_at = cancel; }
        run_weld_twice(b, po.w, o.w, [&]() { s.cfg.disk_free = -1; s.put(psrc, O); });
        return 0; });
    } else if (prior) {     // same OS process, one conversion after the other
      s.put(pj.src, p.files[1].data());
      id = s.spawn("lib", [&]() -> int {
        WeldReq a; { sim::Outside x; a.s = pj.s; a.src = pj.src; a.tgt = pj.tgt; } run_weld(a, po.w);
        WeldReq b; { sim::Outside x; b.s = j.s; b.src = j.src; b.tgt = j.tgt; b.callback = j.callback; } run_weld(b, o.w);
        return 0; });
    } else id = start(s, j, &o);
    s.run(); collect(s, id, j, o); R.absorb(s);
    string got = s.get(n.ptgt);
    string how = strf("entry %s, mode %s, read_chunk %ld, write_chunk %ld, eintr %ld, junk %ld, clock %ld, level %d, callback %d, earlier conversion %d", e2.c_str(), mode.c_str(), q.num("read_chunk"), q.num("write_chunk"), q.num("eintr_every"), q.num("junk", -1), q.num("clock_mode"), j.s.log_level, j.callback, prior);
    if (o.threw || !o.ok) R.fail("P09", "failed", "conversion fails only in this environment (%s): %s%s", how.c_str(), o.what.c_str(), o.w.message.c_str());
    else if (got != C) {
      size_t k = 0; while (k < got.size() && k < C.size() && got[k] == C[k]) k++;
      R.fail("P09", "env", "output depends on the environment: %zu instead of %zu bytes, first difference at byte %zu (%s)", got.size(), C.size(), k, how.c_str());
    }
    else if (prior > 1) { R.count["same_object"] += 1; if (!p.num("wild")) { Weld w; vector<string> src = split_lines(O); judge_weld(R, p, src, got, j.s, &w); judge_stats(R, src, O, got, w, o.w, j.s, true); } }
    R.states.push_back(sim::mix(tag(e2 + mode), (uint64_t)q.num("clock_mode") * 1000 + (q.num("read_chunk") > 0) + 2 * (q.num("write_chunk") > 0) + 4 * (q.num("eintr_every") > 0) + 8 * prior + 16 * (q.num("junk", -1) >= 0) + 32 * j.callback + 64 * j.s.log_level));
  }
}
extern const Kind weld_kinds[]; const Kind weld_kinds[] = {{"weld", gen_weld, run_weld_kind}, {"cancel", gen_cancel, run_cancel}, {"env", gen_env_kind, run_env}, {"circle", gen_circle, run_weld_kind}};
extern const int n_weld_kinds; const int n_weld_kinds = 4;
