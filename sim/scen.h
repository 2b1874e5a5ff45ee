// Shared parts of the scenarios: how a plan becomes a simulated world, how the
// programs under test are started, and what their outcome was.
#pragma once
#include "gen.h"
#include "plan.h"
#include "sim.h"
#include "sut.h"
#include <memory>

// source/target naming of one conversion, derived from the mode in the plan
struct Names {
  std::string src, tgt;          // as given to the program ("" target: option left out)
  std::string psrc, ptgt;        // paths used by the oracles
  bool alias = false;            // source and target are the same file
};
Names names(const std::string& mode, const std::string& entry, int k = 0);
void place(sim::Sim& s, const std::string& mode, const Names& n, const std::string& data);   // creates source, links, directories
void name_files(uint64_t seed);
extern const char* MODES[]; extern const int N_MODES;

sim::Config cfg_of(const Plan& p, int step = 0);
void gen_env(Plan& p, sim::Rng& r, double strength = 1);      // benign environment: chunking, EINTR, clocks, junk memory

struct Job {
  std::string entry;              // lib | cli | straight
  model::Settings s;
  std::string src, tgt;
  std::vector<std::string> args;  // straight: options; cli: extra options
  int cancel_at = -1; bool callback = true;
  std::string watch; void* shared_logger = nullptr;
};
struct Outcome {
  bool crashed = false, threw = false; std::string what;
  bool ok = false;                // reported success
  bool cancelled = false; int code = 0; WeldRes w, w2;
  std::string out;                // captured stdout+stderr
  std::string where() const { return crashed ? "crashed" : threw ? "threw" : ok ? "success" : "failure"; }
};
int start(sim::Sim& s, const Job& j, Outcome* o);              // spawns the job as a simulated process
void collect(sim::Sim& s, int id, const Job& j, Outcome& o);   // after run()
Outcome run_one(sim::Sim& s, const Job& j);
Job job_of(const Plan& p, const Names& n, const std::string& pre = "");
// the faultless conversion of data by this job
std::string convert(const Plan& p, const Job& j, const std::string& data, Outcome* o = nullptr, bool* ok = nullptr);
std::vector<std::string> split_args(const std::string& s);
std::vector<std::string> straight_args(sim::Rng& r, std::string* fw = nullptr);
uint64_t tag(const std::string& s);
bool hard_fault(const std::string& k);                      // a fault that may make a conversion fail
sim::Fault pick_fault(sim::Rng& r, const std::vector<sim::OpRec>& log, int proc, int crashiness);

// weld oracles
void judge_weld(Report& R, const Plan& p, const std::vector<std::string>& src, const std::string& out, const model::Settings& s, model::Weld* w = nullptr);
void judge_stats(Report& R, const std::vector<std::string>& src, const std::string& data, const std::string& out, const model::Weld& w, const WeldRes& r, const model::Settings& s, bool complete);
