// The position tracker (gcode_parser + gcode_position) behind a plain interface.
#pragma once
#include <string>
#include <vector>
struct PosCfg {
  int buffer = 50, extruders = 1, def = 0; bool shared = true, zero_based = true, g90e = false, bound = false, circular = false;
  double hx = 0, hy = 0, hz = 0; bool nx = false, ny = false, nz = false;
  double priming = 0, minlayer = 0, hinc = 0, lim[6] = {0, 0, 0, 0, 0, 0};
  std::string xyz = "absolute", e = "absolute";
  std::vector<double> retr, lift, fx, fy;
};
struct PosExt { double e, e_rel, ext_len, total, retr_len; bool extruding, retracting, retracted; bool extr_start, retr_start, der, der_start, deretracted, primed, partly; double der_len; };
struct PosState {
  double x, y, z, gx, gy, gz, f, z_rel, height, last_h; bool xn, yn, zn, fn, xh, yh, zh, rel, reln, erel, ereln, changed, xy_changed, layer_change, primed, in_bounds, definite, ignored, xy_travel, xyz_travel, lhn;
  long layer, line, number, fpos; int tool, hinc; std::string command, gcode, comment; std::vector<PosExt> ext; bool zhop, hchange; int feature; std::vector<double> rest;
};
struct PosOp { char kind; std::string line; int n; };            // 'u' update with a line, 'z' undo n updates one by one, 'Z' undo n at once, 'g' grow the history to n, 's' a comment of the slicer that may begin or end a section
struct PosStep { bool parsed = true; int count = 0, max = 0; std::vector<PosState> hist; };    // hist[0] is the current position
void run_pos(const PosCfg& c, const std::vector<PosOp>& ops, int depth, std::vector<PosStep>& out);
// The parser alone.
struct ParsedParam { std::string name; char type = 0; double num = 0; int precision = 0; std::string text; };
struct ParseOp { char kind; std::string line; int precision = 0; double x = 0; };   // 'p' parse as it is, 'n' parse normalised, 'f' parse into a fresh command, 'd' write a number
struct ParseRes { bool known = false, empty = false; std::string code, text, comment, whole; std::vector<ParsedParam> params; };
void run_parse(const std::vector<ParseOp>& ops, std::vector<ParseRes>& out);
// The logger alone: 'm' message, 'x' exception, 'L'/'l' level of one/all loggers, 'V'/'v' the same by value, 'q' name of the level, 'e' is the level enabled
struct LogOp { char kind; int type = 0, level = 0; std::string text; };
struct LogRes { std::string out, err, text; bool enabled = false; long t0 = 0, t1 = 0; };
void run_log(const std::vector<std::string>& names, const std::vector<LogOp>& ops, std::vector<LogRes>& out);
