// Options of the straightener and the values a run with them uses.
#pragma once
#include "sim.h"
#include <string>
#include <vector>
struct SArgs {
  std::string fw = "MARLIN_2", ver, latest; double m = 1, per_r = 0, per_sec = 0, min_mm = 0, b = 0.1, d = 1, err = 0.01; int r = 24, a = 72, c = 25; bool g90 = false;
  std::string used; bool ok = true;
  bool better() const { return fw == "MARLIN_2" || ver == "3.11.0" || ver == "1.0.5"; }
  bool helix() const { return fw != "REPETIER"; }
  bool full() const { return fw == "MARLIN_2" || fw == "SMOOTHIEWARE" || ver == "1.0.5"; }
};
SArgs sargs(const std::vector<std::string>& options);
std::vector<std::string> gen_sargs(sim::Rng& r, bool fine = false);
