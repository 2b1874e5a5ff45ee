#include <Python.h>
#include "py_arc_welder.h"
#include "arc_welder.h"
#undef ERROR
#include "py.h"
#include "sim.h"
#include <math.h>
#include <string.h>

extern "C" PyObject* PyInit_PyArcWelder(void);
static const char* BOOT = R"(
import sys, types, builtins
reported = [0]
logged = [0]
logger_raises = [False]
records = []
class Sink:
    def write(self, s):
        if s.strip(): reported[0] += 1
    def flush(self): pass
sys.stderr = sys.stdout = Sink()
def hook(u): reported[0] += 1
sys.unraisablehook = hook
class L:
    def _r(self, level, m):
        if not isinstance(m, str): raise TypeError('message')
        if level == 'error': logged[0] = 1
        if len(records) < 20000: records.append((level, m))
        if logger_raises[0]: raise RuntimeError('logger')
    def info(self, m): self._r('info', m)
    def warn(self, m): self._r('warn', m)
    warning = warn
    def error(self, m): self._r('error', m)
    critical = error
    def debug(self, m): self._r('debug', m)
    def verbose(self, m): self._r('verbose', m)
    def getEffectiveLevel(self): return 0
class LoggingConfigurator:
    def __init__(self, *a): pass
    def get_logger(self, name): return L()
pk = types.ModuleType('octoprint_arc_welder'); pk.__path__ = []
m = types.ModuleType('octoprint_arc_welder.log'); m.LoggingConfigurator = LoggingConfigurator
pk.log = m
sys.modules['octoprint_arc_welder'] = pk
sys.modules['octoprint_arc_welder.log'] = m
)";
static PyObject* boot_ns;
void py_boot() {
  PyImport_AppendInittab("PyArcWelder", PyInit_PyArcWelder);
  PyPreConfig pc; PyPreConfig_InitIsolatedConfig(&pc); pc.utf8_mode = 1; Py_PreInitialize(&pc);
  PyConfig c; PyConfig_InitIsolatedConfig(&c);
  c.use_hash_seed = 1; c.hash_seed = 0; c.install_signal_handlers = 0; c.site_import = 0; c.write_bytecode = 0; c.use_environment = 0;
  PyConfig_SetString(&c, &c.program_name, L"awsim");
  PyStatus st = Py_InitializeFromConfig(&c);
  if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg ? st.err_msg : "?"); exit(2); }
  PyConfig_Clear(&c);
  boot_ns = PyDict_New(); PyDict_SetItemString(boot_ns, "__builtins__", PyEval_GetBuiltins());
  PyObject* r = PyRun_String(BOOT, Py_file_input, boot_ns, boot_ns);
  if (!r) { PyErr_Print(); exit(2); }
  Py_DECREF(r);
}
static PyObject* val(const std::string& v) {
  std::string t = v.size() > 2 ? v.substr(2) : "";
  switch (v.empty() ? 'n' : v[0]) {
    case 'i': return PyLong_FromLong(strtol(t.c_str(), nullptr, 10));
    case 'f': return PyFloat_FromDouble(strtod(t.c_str(), nullptr));
    case 's': return PyUnicode_FromString(t.c_str());
    case 'b': return PyBool_FromLong(t == "1");
    case 'B': return PyBytes_FromString(t.c_str());
    case 'S': return PyUnicode_DecodeUTF8("/sim/w/\xff.gcode", 13, "surrogateescape");
    case 'L': return PyList_New(0);
    case 'I': return PyLong_FromString("1000000000000000000000000000000", nullptr, 10);
  }
  Py_RETURN_NONE;
}
static void rec(PyObject* d, PyDictRec& o) {
  PyObject *k, *v; Py_ssize_t pos = 0;
  if (!PyDict_Check(d)) { o.other["(not a dict)"] = Py_TYPE(d)->tp_name; return; }
  while (PyDict_Next(d, &pos, &k, &v)) {
    const char* s = PyUnicode_Check(k) ? PyUnicode_AsUTF8(k) : nullptr; std::string key = s ? s : "?";
    if (PyLong_Check(v)) o.num[key] = (double)PyLong_AsLongLong(v); else if (PyFloat_Check(v)) o.num[key] = PyFloat_AsDouble(v);
    else if (PyUnicode_Check(v)) { const char* t = PyUnicode_AsUTF8(v); o.text[key] = t ? t : "?"; } else o.other[key] = Py_TYPE(v)->tp_name;
  }
}
// interned names: the type attribute cache keeps other ones alive, which would look like a leak
static PyObject* attr(PyObject* o, const char* n) { PyObject* k = PyUnicode_InternFromString(n); PyObject* r = PyObject_GetAttr(o, k); Py_DECREF(k); return r; }
struct CbCtx { PyCall* c; PyOut* o; size_t n; PyObject* method; };
static PyObject* cb_fn(PyObject* self, PyObject* args) {
  CbCtx* x = (CbCtx*)PyCapsule_GetPointer(self, nullptr); char a;
  { sim::Outside out; PyDictRec d; if (PyTuple_Size(args) == 1) rec(PyTuple_GetItem(args, 0), d); else d.other["(arguments)"] = "wrong number";
    x->o->cbs.push_back(d); a = x->n < x->c->answers.size() ? x->c->answers[x->n] : 'T'; x->n++; }
  switch (a) {
    case 'T': Py_RETURN_TRUE; case 'F': Py_RETURN_FALSE; case 'N': Py_RETURN_NONE;
    case '1': return PyLong_FromLong(1); case '5': return PyLong_FromLong(5); case '0': case 'Z': return PyLong_FromLong(0); case '-': return PyLong_FromLong(-1);
    case 'S': return PyUnicode_FromString("yes"); case 'D': return PyFloat_FromDouble(1.5); case 'L': return PyList_New(0);
    case 'R': PyErr_SetString(PyExc_ValueError, "raised by the callback"); return nullptr;
    case 'X': PyErr_SetString(PyExc_SystemExit, "raised by the callback"); return nullptr;
    case 'C': if (x->c->nested) { PyOut* n; { sim::Outside out; n = new PyOut; } py_convert(*x->c->nested, *n, true); { sim::Outside out; if (n->raised || !n->returned) x->o->nested_err.push_back(n->exc + ": " + n->exc_text); else if (n->result.num["success"] != 1) x->o->nested_err.push_back("success is not 1: " + n->result.text["message"]); } } Py_RETURN_TRUE;
  }
  Py_RETURN_TRUE;
}
static PyMethodDef cb_def = {"progress", cb_fn, METH_VARARGS, nullptr};
static long boxed(const char* n) { PyObject* l = PyDict_GetItemString(boot_ns, n); return l ? PyLong_AsLong(PyList_GetItem(l, 0)) : -1; }
static void unbox(const char* n, PyObject* v) { PyList_SetItem(PyDict_GetItemString(boot_ns, n), 0, v); }
static void take_error(PyOut& o) {
  PyObject *t = nullptr, *v = nullptr, *b = nullptr; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
  std::string text; if (v) { PyObject* s = PyObject_Str(v); const char* c = s ? PyUnicode_AsUTF8(s) : nullptr; text = c ? c : "?"; Py_XDECREF(s); PyErr_Clear(); }
  { sim::Outside x; o.exc = t ? ((PyTypeObject*)t)->tp_name : ""; o.exc_text = text; }
  Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
}
void py_convert(PyCall& c, PyOut& o, bool inner) {
  PyObject* mod = PyImport_ImportModule("PyArcWelder");
  if (!mod) { take_error(o); o.import_failed = true; return; }
  PyObject* sys = PyImport_ImportModule("sys"); PyObject* gab = attr(sys, "getallocatedblocks");
  if (!inner) { unbox("logger_raises", PyBool_FromLong(c.logger_raises)); unbox("reported", PyLong_FromLong(0)); unbox("logged", PyLong_FromLong(0)); }
  CbCtx ctx = {&c, &o, 0, nullptr};
  PyObject* cap = PyCapsule_New(&ctx, nullptr, nullptr); PyObject* cb = PyCFunction_New(&cb_def, cap);
  PyObject* d = PyDict_New(); PyObject* guid = nullptr;
  for (auto& a : c.args) { PyObject* v; if (a.second == "cb") { v = cb; Py_INCREF(v); } else v = val(a.second); if (a.first == "guid") guid = v; PyDict_SetItemString(d, a.first.c_str(), v); Py_DECREF(v); }
  PyObject* fn = attr(mod, "ConvertFile");
  for (int k = 0; k < c.repeat; k++) {
    PyObject* recs = PyDict_GetItemString(boot_ns, "records"); if (!inner) PyList_SetSlice(recs, 0, PyList_Size(recs), nullptr);
    { sim::Outside x; ctx.n = 0; o.records.clear(); o.cbs.clear(); o.result = PyDictRec(); o.progress = PyDictRec(); o.returned = o.raised = false; }
    if (c.alloc_fail > 0 && k == 0) sim::g->cfg.alloc_fail_at = sim::me()->allocs + c.alloc_fail;
    PyObject* r;
    if (c.form == "none") r = PyObject_CallObject(fn, nullptr);
    else if (c.form == "two") r = PyObject_CallFunctionObjArgs(fn, d, d, nullptr);
    else if (c.form == "list") { PyObject* l = PyList_New(0); r = PyObject_CallFunctionObjArgs(fn, l, nullptr); Py_DECREF(l); }
    else if (c.form == "str") { PyObject* l = PyUnicode_FromString("guid"); r = PyObject_CallFunctionObjArgs(fn, l, nullptr); Py_DECREF(l); }
    else r = PyObject_CallFunctionObjArgs(fn, d, nullptr);
    if (r) {
      o.returned = true; { sim::Outside x; o.leftover = PyErr_Occurred() != nullptr; rec(r, o.result); }
      if (PyDict_Check(r)) { PyObject* p = PyDict_GetItemString(r, "progress"); sim::Outside x; if (p && p != Py_None) rec(p, o.progress); o.none_ok.push_back(p == Py_None); }
      Py_DECREF(r); PyErr_Clear();
    } else { o.raised = true; take_error(o); }
    if (!inner) for (Py_ssize_t i = 0; i < PyList_Size(recs); i++) { PyObject* q = PyList_GetItem(recs, i); const char *a = PyUnicode_AsUTF8(PyTuple_GetItem(q, 0)), *b = PyUnicode_AsUTF8(PyTuple_GetItem(q, 1)); sim::Outside x; o.records.push_back({a ? a : "?", b ? b : "?"}); }
    if (!inner) { PyErr_Clear(); PyList_SetSlice(recs, 0, PyList_Size(recs), nullptr); }
    PyObject* nb = PyObject_CallObject(gab, nullptr); long b = PyLong_AsLong(nb); Py_DECREF(nb);
    { sim::Outside x; o.blocks.push_back(b); o.cb_refs.push_back((long)Py_REFCNT(cb)); o.guid_refs.push_back(guid ? (long)Py_REFCNT(guid) : 0); }
  }
  o.reported = boxed("reported"); o.logged = boxed("logged");
  Py_DECREF(fn); Py_DECREF(d); Py_DECREF(cb); Py_DECREF(cap); Py_DECREF(gab); Py_DECREF(sys); Py_DECREF(mod);
}
bool py_progress(const Prog& q, const std::string& guid, PyDictRec& o, bool with_text) {
  arc_welder_progress p;
  p.percent_complete = q.percent; p.seconds_elapsed = q.elapsed; p.seconds_remaining = q.remaining; p.gcodes_processed = q.gcodes; p.lines_processed = q.lines; p.points_compressed = q.points; p.arcs_created = q.arcs;
  p.arcs_aborted_by_flow_rate = q.aborted; p.num_firmware_compensations = q.fwcomp; p.num_gcode_length_exceptions = q.lenexc; p.source_file_position = q.src_pos; p.source_file_size = q.src_size; p.target_file_size = q.tgt_size;
  p.compression_ratio = q.ratio; p.compression_percent = q.size_pct;
  p.segment_statistics.total_length_source = q.seg.ls; p.segment_statistics.total_length_target = q.seg.lt; p.segment_statistics.total_count_source = q.seg.cs; p.segment_statistics.total_count_target = q.seg.ct;
  p.travel_statistics.total_length_source = q.trav.ls; p.travel_statistics.total_length_target = q.trav.lt; p.travel_statistics.total_count_source = q.trav.cs; p.travel_statistics.total_count_target = q.trav.ct;
  PyObject* d = py_arc_welder::build_py_progress(p, guid, with_text);
  if (!d) { PyErr_Clear(); return false; }
  rec(d, o); Py_DECREF(d); return true;
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return "detect_leaks=0"; }     // the interpreter keeps memory until the end; leaks are judged by counting objects
#endif
