// Entry points into the Python module (PyArcWelder), run on a real embedded
// interpreter.  Only linked in the py flavours.
#pragma once
#include "sut.h"
#include <map>

// argument and return values travel as text: "i:5" int, "f:0.5" float, "s:text" str, "b:1" bool, "n:" None,
// "B:x" bytes, "S:" a str that has no UTF-8 form, "L:" list, "I:" an int beyond 64 bits
struct PyCall {
  std::map<std::string, std::string> args;     // the dictionary; "on_progress_received" = "cb" is the recording callback
  std::string form;                            // "" dict | "none" no argument | "two" | "list" | "str"
  std::string answers;                         // per callback: T N 1 5 F 0 Z - R(aises) S(tr) D(ouble) L(ist) C(onverts another file, then True); then T
  bool logger_raises = false;
  long alloc_fail = -1;                        // allocation of the first call that fails
  int repeat = 1;                              // the same call this many times
  PyCall* nested = nullptr;
};
struct PyDictRec { std::map<std::string, double> num; std::map<std::string, std::string> text; std::map<std::string, std::string> other; };
struct PyOut {
  bool import_failed = false, returned = false, raised = false; std::string exc, exc_text;
  bool leftover = false;                       // an exception is still set although a value was returned
  PyDictRec result, progress; std::vector<PyDictRec> cbs; std::vector<std::string> nested_err;
  std::vector<long> blocks, cb_refs, guid_refs, none_ok;
  long reported = 0, logged = 0;               // exceptions that reached sys.unraisablehook / sys.stderr, errors that reached the logger
  std::vector<std::pair<std::string, std::string>> records;      // method and text of the messages the last call gave to the host's logger
};
void py_convert(PyCall& c, PyOut& o, bool inner = false);                     // inside a simulated process
bool py_progress(const Prog& p, const std::string& guid, PyDictRec& d, bool with_text);      // the module's progress dictionary for these values
