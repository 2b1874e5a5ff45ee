#include "plan.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
using std::string;
string strf(const char* f, ...) { va_list ap; va_start(ap, f); char b[2048]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
string PFile::data() const {
  if (raw) return bytes;
  string d = model::join_lines(lines);
  if (!nl && !d.empty()) d.pop_back();
  return d;
}
static string esc(const string& s) {
  string o;
  for (unsigned char c : s) { if (c == '\\') o += "\\\\"; else if (c < 32 || c >= 127) o += strf("\\x%02x", c); else o += (char)c; }
  return o;
}
static string unesc(const string& s) {
  string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\\' && i + 1 < s.size()) {
      if (s[i + 1] == '\\') { o += '\\'; i++; }
      else if (s[i + 1] == 'x' && i + 3 < s.size()) { o += (char)strtol(s.substr(i + 2, 2).c_str(), nullptr, 16); i += 3; }
    } else o += s[i];
  }
  return o;
}
void Plan::setd(const string& k, double v) { kv[k] = strf("%.17g", v); }
string Plan::text() const {
  string o = "awsim-replay 1\nprop " + prop + "\nkind " + kind + strf("\nseed %llu\n", (unsigned long long)seed);
  for (auto& k : kv) o += "set " + k.first + " " + esc(k.second) + "\n";
  for (auto& f : faults) o += strf("fault %d %d %d %s %ld\n", f.step, f.f.proc, f.f.op, f.f.kind.c_str(), f.f.arg);
  for (auto& s : sched) o += strf("sched %ld %d\n", s.first, s.second);
  for (auto& f : files) {
    if (f.raw) { o += "rawfile " + esc(f.path) + "\n|" + esc(f.bytes) + "\n"; }
    else { o += strf("file %d ", f.nl ? 1 : 0) + esc(f.path) + "\n"; for (auto& l : f.lines) o += "|" + esc(l) + "\n"; }
  }
  return o + "end\n";
}
bool Plan::parse(const string& t) {
  bool ok = false;
  for (auto& l : model::split_lines(t)) {
    if (l.empty()) continue;
    if (l[0] == '|') { if (files.empty()) continue; PFile& f = files.back(); if (f.raw) f.bytes += unesc(l.substr(1)); else f.lines.push_back(unesc(l.substr(1))); continue; }
    size_t sp = l.find(' '); string k = l.substr(0, sp), v = sp == string::npos ? "" : l.substr(sp + 1);
    if (k == "awsim-replay") ok = true;
    else if (k == "prop") prop = v;
    else if (k == "kind") kind = v;
    else if (k == "seed") seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "set") { size_t q = v.find(' '); kv[v.substr(0, q)] = q == string::npos ? "" : unesc(v.substr(q + 1)); }
    else if (k == "fault") { PFault f; char kd[64]; if (sscanf(v.c_str(), "%d %d %d %63s %ld", &f.step, &f.f.proc, &f.f.op, kd, &f.f.arg) == 5) { f.f.kind = kd; faults.push_back(f); } }
    else if (k == "sched") { long a; int b; if (sscanf(v.c_str(), "%ld %d", &a, &b) == 2) sched.push_back({a, b}); }
    else if (k == "file") { PFile f; f.nl = v[0] == '1'; f.path = unesc(v.substr(2)); files.push_back(f); }
    else if (k == "rawfile") { PFile f; f.raw = true; f.path = unesc(v); files.push_back(f); }
  }
  return ok;
}
#define SETTINGS(D, I, B) D(resolution) D(path_tolerance) D(max_radius) D(mm_per_arc_segment) D(rate_variance) D(notification) I(min_arc_segments) I(xyz_precision) I(e_precision) I(max_gcode_length) I(buffer_size) I(log_level) B(g90e) B(arcs3d) B(travel) B(dynamic)
void put_settings(Plan& p, const model::Settings& s, const string& pre) {
#define D(n) p.setd(pre + #n, s.n);
#define I(n) p.set(pre + #n, (long)s.n);
  SETTINGS(D, I, I)
#undef D
#undef I
}
model::Settings get_settings(const Plan& p, const string& pre) {
  model::Settings s;
#define D(n) s.n = p.real(pre + #n, s.n);
#define I(n) s.n = (int)p.num(pre + #n, s.n);
#define B(n) s.n = p.num(pre + #n, s.n) != 0;
  SETTINGS(D, I, B)
#undef D
#undef I
#undef B
  return s;
}
void Report::fail(const string& prop, const string& cat, const char* fmt, ...) {
  if (viol.size() > 40) return;
  va_list ap; va_start(ap, fmt); char b[1500]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (auto& c : b) if (c == '\n' || c == '\r') c = ' ';
  viol.push_back({prop, cat, b});
}
void Report::absorb(const sim::Sim& s) {
  hash = sim::mix(hash, s.trace_hash);
  for (auto& f : s.dir) hash = sim::mix(hash, sim::fnv(f.second->data, sim::fnv(f.first)));
  for (auto& f : s.fault_count) faults[f.first] += f.second;
  count["sim_us"] += (double)s.sim_elapsed_us; count["switches"] += s.switches;
  for (auto& p : s.procs) { count["ops"] += p->ops; count["procs"] += 1; if (p->crashed) count["crashes"] += 1; for (char c : p->out) (void)c; hash = sim::mix(hash, sim::fnv(p->out) + p->exit_code); }
}
string Report::text() const {
  string o = strf("hash %llu\nnontrivial %d\n", (unsigned long long)hash, nontrivial);
  for (auto& v : viol) o += "viol " + v.prop + "\t" + v.cat + "\t" + v.what + "\n";
  for (auto& c : count) o += strf("count %.17g ", c.second) + c.first + "\n";
  for (auto& c : faults) o += strf("fault %ld ", c.second) + c.first + "\n";
  for (auto& s : states) o += strf("state %llu\n", (unsigned long long)s);
  return o + "done\n";
}
void Report::parse(const string& t) {
  for (auto& l : model::split_lines(t)) {
    size_t sp = l.find(' '); string k = l.substr(0, sp), v = sp == string::npos ? "" : l.substr(sp + 1);
    if (k == "hash") hash = strtoull(v.c_str(), nullptr, 10);
    else if (k == "nontrivial") nontrivial = v == "1";
    else if (k == "viol") { size_t a = v.find('\t'), b = v.find('\t', a + 1); viol.push_back({v.substr(0, a), v.substr(a + 1, b - a - 1), v.substr(b + 1)}); }
    else if (k == "count") { size_t a = v.find(' '); count[v.substr(a + 1)] += strtod(v.c_str(), nullptr); }
    else if (k == "fault") { size_t a = v.find(' '); faults[v.substr(a + 1)] += strtol(v.c_str(), nullptr, 10); }
    else if (k == "state") states.push_back(strtoull(v.c_str(), nullptr, 10));
  }
}
