// Functions of the library that live in its headers, called from a unit that is compiled like the library itself
// (in the thread flavour the race detector sees what they do).
#include "arc_welder.h"
void text_of(const arc_welder_progress& p, std::string& simple, std::string& line, std::string& detail) { simple = p.simple_progress_str(); line = p.str(); detail = p.detail_str(); }
std::string html_of(const arc_welder_progress& p) {
  return source_target_segment_statistics::add(p.segment_statistics, p.segment_retraction_statistics).str("", utilities::box_drawing::HTML) + "\x1e" + p.travel_statistics.str("", utilities::box_drawing::HTML);
}
