// Entry points into the code under test.  Everything behind these functions is
// the real library / the real command line programs.
#pragma once
#include "model.h"
#include <functional>
#include <string>
#include <vector>

struct Prog {
  double percent = 0, elapsed = 0, remaining = 0, ratio = 0, size_pct = 0;
  int gcodes = 0, lines = 0, points = 0, arcs = 0, aborted = 0, fwcomp = 0, lenexc = 0;
  long src_pos = 0, src_size = 0, tgt_size = 0;
  struct St { int cs = 0, ct = 0; double ls = 0, lt = 0; std::vector<int> hs, ht; } seg, ret, trav;
  long disk = -1;                 // bytes of the target file on the simulated disk when the callback ran
  std::string text;               // rendered forms
  std::string html;               // final statistics tables in their HTML form
};
struct WeldReq {
  model::Settings s;
  std::string src, tgt;
  int cancel_at = -1;             // index of the progress callback that answers "stop"
  bool callback = true;
  std::string watch;              // simulated path whose size is sampled in callbacks
  void* shared_logger = nullptr;  // logger of several conversions, or own one
};
struct WeldRes {
  bool done = false, success = false, cancelled = false;
  std::string message;
  std::vector<Prog> prog;         // callbacks, in order
  Prog fin;                       // results.progress
  std::string detail;             // its statistics as printed
};
void run_weld(const WeldReq& q, WeldRes& r);                       // library entry, current simulated process
void run_weld_twice(const WeldReq& a, WeldRes& ra, WeldRes& rb, const std::function<void()>& between);   // same arc_welder object used twice; a.cancel_at is for the first use
int cli_weld(const std::vector<std::string>& args);                // ArcWelder main()
int cli_straighten(const std::vector<std::string>& args);          // ArcStraightener main()
bool run_interp(const std::vector<std::string>& a, const std::string& src, const std::string& tgt);    // straightener library: firmware, version, correction, mm per segment
void* make_logger(int level); void* make_recorder(int level, std::vector<std::pair<int, std::string>>* to); void free_logger(void*);
void sut_init();                                                   // once per OS process
std::vector<std::string> cli_args(const model::Settings& s, const std::string& src, const std::string& tgt, const std::string& progress, const std::string& level);
