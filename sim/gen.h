// Workload generator: slicer-like and adversarial G-code programs and settings.
#pragma once
#include "model.h"
#include "sim.h"
namespace gen {
struct Profile {
  int lines = 120;                  // rough size
  double weird = 0.3;               // share of interruptions inside curves
  bool vary_format = true;          // spacing, decimals, case
  bool preamble = true;
  bool z_moves = true, arcs = true, rel = true, flow = true, comments = true;
  bool unknown = true;              // unknown commands and odd whitespace
  bool only_curves = false;
  bool marker = true;               // slicer marker first lines
  bool abs_only = false;            // keep to G90 M82/M83 programs that stay in a bed
};
model::Settings settings(sim::Rng& r);
std::vector<std::string> program(sim::Rng& r, const model::Settings& s, const Profile& p);
std::vector<std::string> arc_program(sim::Rng& r, int n, bool g92, bool helix);   // G2/G3 programs for the straightener
bool wild(sim::Rng& r, std::vector<std::string>& L, double chance = 0.25);   // rare and damaged commands, where only executions are compared
std::string bytes(sim::Rng& r, int n);                              // arbitrary file contents
}
