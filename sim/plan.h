// A plan is one complete, serialisable execution: program, settings, fault
// sequence, schedule.  run(plan) is a pure function of the plan, so the text
// form of a plan is the replay file.
#pragma once
#include "model.h"
#include "sim.h"
#include <map>
#include <string>
#include <vector>

struct PFile { std::string path; std::vector<std::string> lines; bool nl = true; bool raw = false; std::string bytes;   // raw: bytes are used verbatim
  std::string data() const; };
struct PFault { int step = 0; sim::Fault f; };
struct Plan {
  std::string prop, kind; uint64_t seed = 0;
  std::map<std::string, std::string> kv;
  std::vector<PFile> files;
  std::vector<PFault> faults;
  std::vector<std::pair<long, int>> sched;
  std::string get(const std::string& k, const std::string& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  long num(const std::string& k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtol(i->second.c_str(), nullptr, 10); }
  double real(const std::string& k, double d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtod(i->second.c_str(), nullptr); }
  void set(const std::string& k, const std::string& v) { kv[k] = v; }
  void set(const std::string& k, long v) { kv[k] = std::to_string(v); }
  void setd(const std::string& k, double v);
  std::string text() const;
  bool parse(const std::string& t);
};
void put_settings(Plan& p, const model::Settings& s, const std::string& pre = "s.");
model::Settings get_settings(const Plan& p, const std::string& pre = "s.");

struct Viol { std::string prop, cat, what; };
struct Report {
  std::vector<Viol> viol;
  std::map<std::string, double> count;      // evidence counters, summed over runs
  std::map<std::string, long> faults;
  uint64_t hash = 1;
  std::vector<uint64_t> states;             // distinct-state keys of this run
  bool nontrivial = false;
  void fail(const std::string& prop, const std::string& cat, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
  void absorb(const sim::Sim& s);
  std::string text() const;
  void parse(const std::string& t);
};

struct Kind { const char* name; Plan (*gen)(const std::string& prop, uint64_t seed, int tier); void (*run)(const Plan&, Report&); };
const std::vector<Kind>& kinds();
struct PropDef { const char* id; std::vector<std::pair<const char*, int>> kinds; int quick, thorough; const char* flavour; };
const std::vector<PropDef>& props();
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
