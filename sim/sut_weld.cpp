#include "arc_welder.h"
#include "logger.h"
#include "arc_interpolation.h"
#include "sim.h"
#include "sut.h"
#include <iostream>
#include <stdexcept>
#include <string.h>

void text_of(const arc_welder_progress& p, std::string& simple, std::string& line, std::string& detail); std::string html_of(const arc_welder_progress& p);      // sut_text.cpp
struct Ctx { const WeldReq* q; WeldRes* r; int n; };

static Prog snap(const arc_welder_progress& p) {
  Prog o;
  o.percent = p.percent_complete; o.elapsed = p.seconds_elapsed; o.remaining = p.seconds_remaining; o.ratio = p.compression_ratio; o.size_pct = p.compression_percent;
  o.gcodes = p.gcodes_processed; o.lines = p.lines_processed; o.points = p.points_compressed; o.arcs = p.arcs_created; o.aborted = p.arcs_aborted_by_flow_rate;
  o.fwcomp = p.num_firmware_compensations; o.lenexc = p.num_gcode_length_exceptions;
  o.src_pos = p.source_file_position; o.src_size = p.source_file_size; o.tgt_size = p.target_file_size;
  auto st = [](const source_target_segment_statistics& s) { Prog::St t; t.cs = s.total_count_source; t.ct = s.total_count_target; t.ls = s.total_length_source; t.lt = s.total_length_target;
    for (size_t i = 0; i < s.source_segments.size(); i++) t.hs.push_back(s.source_segments[i].count); for (size_t i = 0; i < s.target_segments.size(); i++) t.ht.push_back(s.target_segments[i].count); return t; };
  o.seg = st(p.segment_statistics); o.ret = st(p.segment_retraction_statistics); o.trav = st(p.travel_statistics);
  return o;
}
static bool on_cb(arc_welder_progress p, logger*, int) {
  Ctx* c = (Ctx*)sim::me()->user;
  Prog o = snap(p);
  { std::string a, b, d; text_of(p, a, b, d); sim::Outside out; o.text = a + "\n" + b + "\n" + d;
    if (!c->q->watch.empty() && sim::g->exists(c->q->watch)) o.disk = (long)sim::g->get(c->q->watch).size();
    c->r->prog.push_back(o); }
  return c->n++ != c->q->cancel_at;
}
static arc_welder_args mk(const WeldReq& q, logger* lg) {
  arc_welder_args a(q.src, q.tgt, lg);
  const model::Settings& s = q.s;
  a.resolution_mm = s.resolution; a.path_tolerance_percent = s.path_tolerance; a.max_radius_mm = s.max_radius; a.min_arc_segments = s.min_arc_segments;
  a.mm_per_arc_segment = s.mm_per_arc_segment; a.g90_g91_influences_extruder = s.g90e; a.allow_3d_arcs = s.arcs3d; a.allow_travel_arcs = s.travel; a.allow_dynamic_precision = s.dynamic;
  a.default_xyz_precision = (unsigned char)s.xyz_precision; a.default_e_precision = (unsigned char)s.e_precision; a.extrusion_rate_variance_percent = s.rate_variance;
  a.buffer_size = s.buffer_size; a.max_gcode_length = s.max_gcode_length; a.notification_period_seconds = s.notification;
  a.callback = q.callback ? on_cb : NULL;
  return a;
}
static void fill(WeldRes& r, const arc_welder_results& x) {
  { std::string a, b, d; text_of(x.progress, a, b, d); sim::Outside out; r.detail = d; (void)a; (void)b; }
  r.done = true; r.success = x.success; r.cancelled = x.cancelled; r.message = x.message; r.fin = snap(x.progress);
  r.fin.html = html_of(x.progress);
}
static const int level_values[] = {0, 5, 10, 20, 30, 40, 50};
static logger* mklog(const WeldReq& q) {
  std::vector<std::string> n; n.push_back(ARC_WELDER_LOGGER_NAME);
  std::vector<int> l; l.push_back((int)log_levels::DEBUG);
  logger* lg = new logger(n, l);
  lg->set_log_level_by_value(level_values[q.s.log_level % 7]);
  return lg;
}
void* make_logger(int level) { WeldReq q; q.s.log_level = level; return mklog(q); }
struct Recorder : logger {      // a logger of the host
  std::vector<std::pair<int, std::string>>* to;
  Recorder(const std::vector<std::string>& n, const std::vector<int>& l) : logger(n, l) {}
  void log(const int t, log_levels l, const std::string& m, bool x) override { if (!x && !is_log_level_enabled(t, l)) return; sim::Outside o; to->push_back(std::make_pair((int)l, m)); }
  void log(const int t, log_levels l, const std::string& m) override { log(t, l, m, false); }
  void log_exception(const int t, const std::string& m) override { log(t, log_levels::ERROR, m, true); }
};
void* make_recorder(int level, std::vector<std::pair<int, std::string>>* to) {
  Recorder* r = new Recorder(std::vector<std::string>(1, ARC_WELDER_LOGGER_NAME), std::vector<int>(1, (int)log_levels::DEBUG)); r->to = to; r->set_log_level((log_levels)level); return (logger*)r;
}
void free_logger(void* l) { delete (logger*)l; }
bool run_interp(const std::vector<std::string>& w, const std::string& src, const std::string& tgt) {
  arc_interpolation_args a; a.source_path = src; a.target_path = tgt; a.firmware_args.firmware_type = (firmware_types)(w.empty() ? 0 : atoi(w[0].c_str()) % 5);
  if (w.size() > 1 && !w[1].empty()) a.firmware_args.version = w[1];
  if (w.size() > 3) { a.firmware_args.n_arc_correction = atoi(w[2].c_str()); a.firmware_args.mm_per_arc_segment = atof(w[3].c_str()); }
  arc_interpolation i(a);
  return i.process();
}
void run_weld(const WeldReq& q, WeldRes& r) {
  Ctx c = {&q, &r, 0}; sim::me()->user = &c;
  std::unique_ptr<logger> lg(q.shared_logger ? nullptr : mklog(q));
  arc_welder w(mk(q, q.shared_logger ? (logger*)q.shared_logger : lg.get()));
  arc_welder_results x = w.process();
  fill(r, x);
}
void run_weld_twice(const WeldReq& q, WeldRes& ra, WeldRes& rb, const std::function<void()>& between) {
  Ctx c = {&q, &ra, 0}; sim::me()->user = &c;
  std::unique_ptr<logger> lg(mklog(q));
  arc_welder w(mk(q, lg.get()));
  fill(ra, w.process());
  { sim::Outside o; c.r = &rb; c.n = 1 << 30; between(); }
  fill(rb, w.process());
}
extern "C" int aw_console_main(int argc, char** argv);
extern "C" int as_console_main(int argc, char** argv);
static int call(int (*f)(int, char**), const char* name, const std::vector<std::string>& args) {
  std::vector<std::string> a; a.push_back(name); a.insert(a.end(), args.begin(), args.end());
  std::vector<char*> v; for (size_t i = 0; i < a.size(); i++) v.push_back(&a[i][0]); v.push_back(nullptr);
  return f((int)a.size(), v.data());
}
int cli_weld(const std::vector<std::string>& args) { return call(aw_console_main, "ArcWelder", args); }
int cli_straighten(const std::vector<std::string>& args) { return call(as_console_main, "ArcStraightener", args); }

// standard streams of each simulated process
struct ProcBuf : std::streambuf {
  bool error; ProcBuf(bool e) : error(e) {}
  int overflow(int c) override { if (c != EOF) { char b = (char)c; xsputn(&b, 1); } return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    sim::Proc* p = sim::me();
    if (p && p->out.size() < (64u << 20)) { sim::Outside o; p->out.append(s, (size_t)n); if (error) p->err.append(s, (size_t)n); }
    return n;
  }
};
void sut_init() {
  static bool done = false; if (done) return; done = true;
  std::ios::sync_with_stdio(false);
  static ProcBuf *b = new ProcBuf(false), *e = new ProcBuf(true);
  std::cout.rdbuf(b); std::cerr.rdbuf(e); std::clog.rdbuf(e);
}
static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.10g", v); return b; }
std::vector<std::string> cli_args(const model::Settings& s, const std::string& src, const std::string& tgt, const std::string& progress, const std::string& level) {
  std::vector<std::string> a;
  auto kv = [&](const char* k, const std::string& v) { a.push_back(std::string(k) + "=" + v); };
  kv("-r", num(s.resolution)); kv("-t", num(s.path_tolerance)); kv("-m", num(s.max_radius));
  kv("-x", std::to_string(s.xyz_precision)); kv("-e", std::to_string(s.e_precision)); kv("-v", num(s.rate_variance));
  if (s.mm_per_arc_segment > 0) kv("-s", num(s.mm_per_arc_segment));
  if (s.min_arc_segments > 0) kv("-a", std::to_string(s.min_arc_segments));
  if (s.max_gcode_length > 0) kv("-c", std::to_string(s.max_gcode_length));
  if (s.g90e) a.push_back("-g");
  if (s.arcs3d) a.push_back("-z");
  if (s.travel) a.push_back("-y");
  if (s.dynamic) a.push_back("-d");
  if (!progress.empty()) kv("-p", progress);
  if (!level.empty()) kv("-l", level);
  a.push_back(src);
  if (!tgt.empty()) a.push_back(tgt);
  return a;
}
