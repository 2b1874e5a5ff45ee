#include "plan.h"
// Which scenarios decide which property, with their shares; quick and thorough run counts.
const std::vector<PropDef>& props() {
  static const std::vector<PropDef> v = {
    {"P01", {{"fault", 9}, {"cancel", 1}, {"alloc", 1}}, 20000, 400000, "plain"},
    {"P02", {{"fault", 9}, {"alloc", 1}}, 20000, 400000, "plain"},
    {"P03", {{"cancel", 1}}, 5000, 60000, "plain"},
    {"P04", {{"fault", 8}, {"cancel", 1}, {"alloc", 1}}, 20000, 400000, "plain"},
    {"P05", {{"fault", 8}, {"cancel", 1}}, 20000, 400000, "plain"},
    {"P06", {{"fault", 1}}, 15000, 300000, "plain"},
    {"P07", {{"procs", 1}}, 15000, 300000, "plain"},
    {"P08", {{"threads", 1}}, 20000, 300000, "race"},
    {"P09", {{"env", 8}, {"fault", 1}}, 12000, 200000, "plain"},
    {"P10", {{"fault", 9}, {"alloc", 1}}, 20000, 300000, "plain"},
    {"P11", {{"cli", 6}, {"fault", 1}}, 20000, 300000, "plain"},
    {"P12", {{"weld", 7}, {"circle", 2}, {"cancel", 1}}, 20000, 400000, "plain"},
    {"P13", {{"weld", 7}, {"circle", 2}, {"cancel", 1}}, 20000, 400000, "plain"},
    {"P14", {{"weld", 7}, {"circle", 2}, {"cancel", 1}}, 20000, 400000, "plain"},
    {"P15", {{"weld", 7}, {"circle", 2}, {"cancel", 1}}, 20000, 400000, "plain"},
    {"P16", {{"weld", 7}, {"circle", 2}, {"cancel", 1}}, 20000, 400000, "plain"},
    {"P17", {{"weld", 7}, {"circle", 2}, {"cancel", 1}}, 20000, 400000, "plain"},
    {"P18", {{"weld", 7}, {"circle", 2}, {"cancel", 1}}, 20000, 400000, "plain"},
    {"P19", {{"weld", 7}, {"circle", 2}, {"cancel", 1}}, 20000, 400000, "plain"},
    {"P20", {{"weld", 6}, {"circle", 2}, {"cancel", 2}}, 20000, 400000, "plain"},
    {"P21", {{"fault", 3}, {"cancel", 1}}, 15000, 300000, "plain"},
    {"P22", {{"bytes", 1}}, 10000, 200000, "asan"},
    {"P23", {{"cli", 1}}, 15000, 300000, "plain"},
    {"P24", {{"straight", 8}, {"roundtrip", 1}}, 20000, 300000, "plain"},
    {"P25", {{"straight", 8}, {"roundtrip", 1}}, 20000, 300000, "plain"},
    {"P26", {{"straight", 8}, {"roundtrip", 1}}, 20000, 300000, "plain"},
    {"P27", {{"roundtrip", 1}}, 20000, 300000, "plain"},
    {"P28", {{"py", 1}}, 20000, 300000, "py"},
    {"P29", {{"pos", 1}}, 20000, 300000, "plain"},
    {"P31", {{"parse", 1}}, 20000, 300000, "plain"},
    {"P32", {{"log", 3}, {"levels", 1}}, 20000, 300000, "plain"},
    {"P33", {{"report", 1}}, 20000, 300000, "plain"},
    {"P30", {{"circle", 4}, {"weld", 1}}, 20000, 300000, "plain"},
  };
  return v;
}
