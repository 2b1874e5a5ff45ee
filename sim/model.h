// Reference model: an independent G-code reader, an executable printer model and
// the refinement oracles that compare a converted program with its source.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>

namespace model {

struct Param { char k; double v; std::string text; int decimals; };
std::string feature_of(std::string comment);
struct Cmd {
  std::string code;            // "G1", "M117", "T0", "" when there is none
  std::vector<Param> params;
  std::string comment;         // text after the first ';'
  std::string body;            // text before the first ';'
  bool has(char k) const; double get(char k, double d = 0) const; const Param* find(char k) const;
  bool is_line() const { return code == "G0" || code == "G1"; }
  bool is_arc() const { return code == "G2" || code == "G3"; }
  bool blank() const { return body.find_first_not_of(" \t\r") == std::string::npos && comment.empty(); }
};
Cmd parse(const std::string& line);
std::string norm(const std::string& line);      // canonical spelling used to compare passed-through lines
std::vector<std::string> split_lines(const std::string& data);
std::string join_lines(const std::vector<std::string>& l);

struct Motion {
  bool arc = false, cw = false, full = false;
  double x0, y0, z0, e0, x1, y1, z1, e1;      // logical XYZ; E is total filament fed (machine)
  double cx = 0, cy = 0, r = 0, sweep = 0;     // arcs: sweep signed (ccw positive)
  double f = 0;
};
struct Printer {
  bool g90e = false;
  // where the machine rests before the program moves it and after homing; a converted program must not depend on it
  double hx = -3.25, hy = 5.5, hz = 7.75;
  double mx = -11.5, my = 17.25, mz = 3.5, me = 0;       // machine position, total filament
  double ox = 0, oy = 0, oz = 0, oe = 0;       // logical = machine - offset
  bool rel = false, erel = false; double f = 0, unit = 1; int tool = 0;
  double x() const { return mx - ox; } double y() const { return my - oy; } double z() const { return mz - oz; } double e() const { return me - oe; }
  bool apply(const Cmd& c, Motion* m);         // true when the command was a motion
};

struct Settings {
  double resolution = 0.05, path_tolerance = 0.05, max_radius = 9999, mm_per_arc_segment = 0, rate_variance = 0.05;
  int min_arc_segments = 0, xyz_precision = 3, e_precision = 5, max_gcode_length = 0;
  bool g90e = false, arcs3d = false, travel = false, dynamic = false;
  int buffer_size = 10;
  double notification = 0.5; int log_level = 3;
};

struct Issue { std::string cat, what; };
struct Arc { int i0, i1, t; int nseg; };
struct Weld {
  std::vector<Issue> issues;
  std::vector<Arc> arcs;
  int points_welded = 0, verbatim = 0;
  bool aligned = false;
  void add(const std::string& c, const std::string& w) { if (issues.size() < 60) issues.push_back({c, w}); }
};
struct Expect { bool partial = false; };
// categories: header align state path extrude eligible limits comment blank
Weld analyze_weld(const std::vector<std::string>& src, const std::vector<std::string>& tgt, const Settings& s);
std::vector<std::string> header_of(const Settings& s);
int header_len(const std::vector<std::string>& tgt, size_t at);
bool first_line_kept(const std::string& l);
}
