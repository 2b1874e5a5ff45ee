#include "gcode_parser.h"
#include "gcode_position.h"
#include "utilities.h"
#include "logger.h"
#include <time.h>
#include "pos.h"
#include "sim.h"
static PosState snap(position* p) {
  PosState s;
  s.x = p->x; s.y = p->y; s.z = p->z; s.gx = p->get_gcode_x(); s.gy = p->get_gcode_y(); s.gz = p->get_gcode_z(); s.f = p->f; s.z_rel = p->z_relative; s.height = p->height; s.last_h = p->last_extrusion_height;
  s.xn = p->x_null; s.yn = p->y_null; s.zn = p->z_null; s.fn = p->f_null; s.xh = p->x_homed; s.yh = p->y_homed; s.zh = p->z_homed; s.rel = p->is_relative; s.reln = p->is_relative_null; s.erel = p->is_extruder_relative; s.ereln = p->is_extruder_relative_null;
  s.changed = p->has_position_changed; s.xy_changed = p->has_xy_position_changed; s.layer_change = p->is_layer_change; s.primed = p->is_printer_primed; s.in_bounds = p->is_in_bounds; s.definite = p->has_definite_position; s.ignored = p->gcode_ignored; s.xy_travel = p->is_xy_travel; s.xyz_travel = p->is_xyz_travel; s.lhn = p->last_extrusion_height_null;
  s.layer = p->layer; s.line = p->file_line_number; s.number = p->gcode_number; s.fpos = p->file_position; s.tool = p->current_tool; s.hinc = p->height_increment; s.command = p->command.command; s.gcode = p->command.gcode; s.comment = p->command.comment;
  for (int i = 0; i < p->num_extruders; i++) { extruder& e = p->get_extruder(i); s.ext.push_back({e.e, e.e_relative, e.extrusion_length, e.extrusion_length_total, e.retraction_length, e.is_extruding, e.is_retracting, e.is_retracted, e.is_extruding_start, e.is_retracting_start, e.is_deretracting, e.is_deretracting_start, e.is_deretracted, e.is_primed, e.is_partially_retracted, e.deretraction_length}); }
  s.zhop = p->is_zhop; s.hchange = p->is_height_increment_change; s.feature = p->feature_type_tag; s.rest = {p->x_offset, p->y_offset, p->z_offset, p->x_firmware_offset, p->y_firmware_offset, p->z_firmware_offset, (double)p->is_metric, (double)p->is_metric_null, (double)p->height_increment_change_count, (double)p->is_height_increment_change, (double)p->is_height_change, (double)p->has_received_home_command, (double)p->is_empty, (double)p->is_in_position, (double)p->in_path_position};
  for (int i = 0; i < p->num_extruders; i++) { extruder& e = p->get_extruder(i); for (double v : {e.x_firmware_offset, e.y_firmware_offset, e.z_firmware_offset, e.e_offset}) s.rest.push_back(v); }
  return s;
}
void run_pos(const PosCfg& c, const std::vector<PosOp>& ops, int depth, std::vector<PosStep>& out) {
  gcode_position_args a; a.set_num_extruders(c.extruders); a.position_buffer_size = c.buffer; a.shared_extruder = c.shared; a.zero_based_extruder = c.zero_based; a.g90_influences_extruder = c.g90e; a.default_extruder = c.def;
  a.home_x = c.hx; a.home_y = c.hy; a.home_z = c.hz; a.home_x_none = c.nx; a.home_y_none = c.ny; a.home_z_none = c.nz; a.priming_height = c.priming; a.minimum_layer_height = c.minlayer; a.height_increment = c.hinc;
  a.is_bound_ = c.bound; a.is_circular_bed = c.circular; a.snapshot_x_min = c.lim[0]; a.snapshot_x_max = c.lim[1]; a.snapshot_y_min = c.lim[2]; a.snapshot_y_max = c.lim[3]; a.snapshot_z_min = c.lim[4]; a.snapshot_z_max = c.lim[5];
  a.xyz_axis_default_mode = c.xyz; a.e_axis_default_mode = c.e;
  for (int i = 0; i < c.extruders; i++) { a.retraction_lengths[i] = c.retr[i]; a.z_lift_heights[i] = c.lift[i]; a.x_firmware_offsets[i] = c.fx[i]; a.y_firmware_offsets[i] = c.fy[i]; }
  gcode_position_args b; b = a; gcode_position_args d(b);          // the arguments are copied on the way
  gcode_position g(d); gcode_parser p; long line = 0, number = 0, fpos = 0;
  auto record = [&](bool ok) { sim::Outside o; PosStep s; s.parsed = ok; s.count = g.get_num_positions(); s.max = g.get_max_positions(); for (int i = 0; i <= depth && i <= s.count && i < s.max; i++) s.hist.push_back(snap(g.get_position_ptr(i))); out.push_back(s); };
  record(true);
  for (auto& o : ops) {
    bool ok = true;
    if (o.kind == 'u') { parsed_command cmd; ok = p.try_parse_gcode(o.line.c_str(), cmd, true); line++; if (!cmd.command.empty()) number++; fpos += (long)o.line.size() + 1; g.update(cmd, line, number, fpos); }
    else if (o.kind == 'z') { for (int i = 0; i < o.n; i++) g.undo_update(); }
    else if (o.kind == 'Z') { position* q = g.undo_update(o.n); delete[] q; }
    else if (o.kind == 'g') g.grow_max_positions(o.n);
    else if (o.kind == 's') { std::string t = o.line; g.get_gcode_comment_processor()->update(t); }
    record(ok);
  }
}
void run_parse(const std::vector<ParseOp>& ops, std::vector<ParseRes>& out) {
  gcode_parser g; parsed_command cmd;
  for (auto& o : ops) {
    ParseRes r;
    if (o.kind == 'd') { std::string t = utilities::dtos(o.x, (unsigned char)o.precision); sim::Outside w; r.text = t; out.push_back(r); continue; }
    parsed_command fresh, *c = &cmd; bool ok;
    if (o.kind == 'f') { fresh = g.parse_gcode(o.line.c_str()); c = &fresh; ok = fresh.is_known_command; } else { cmd.clear(); ok = g.try_parse_gcode(o.line.c_str(), cmd, o.kind == 'p'); }
    std::string whole = c->to_string();
    sim::Outside w; r.known = ok && c->is_known_command; r.empty = c->is_empty; r.code = c->command; r.text = c->gcode; r.comment = c->comment; r.whole = whole;
    for (auto& q : c->parameters) { ParsedParam x; x.name = q.name; x.type = (char)q.value_type; x.num = q.value_type == 'U' ? (double)q.unsigned_long_value : q.double_value; x.precision = q.double_precision; x.text = q.string_value; r.params.push_back(x); }
    out.push_back(r);
  }
}
void run_log(const std::vector<std::string>& names, const std::vector<LogOp>& ops, std::vector<LogRes>& out) {
  std::vector<int> levels(names.size(), (int)log_levels::DEBUG); logger g(names, levels); logger& l = g;
  for (auto& o : ops) {
    LogRes r; size_t a = sim::me()->out.size(), b = sim::me()->err.size(); r.t0 = (long)time(nullptr);
    switch (o.kind) {
      case 'm': l.log(o.type, (log_levels)o.level, o.text); break;
      case 'x': l.log_exception(o.type, o.text); break;
      case 'L': l.set_log_level(o.type, (log_levels)o.level); break;
      case 'l': l.set_log_level((log_levels)o.level); break;
      case 'V': l.set_log_level_by_value(o.type, o.level); break;
      case 'v': l.set_log_level_by_value(o.level); break;
      case 'q': r.text = l.get_log_level_name(o.type >= 0 && o.type < (int)names.size() ? names[o.type] : "nobody"); break;
      case 'e': r.enabled = l.is_log_level_enabled(o.type, (log_levels)o.level); break;
    }
    r.t1 = (long)time(nullptr); sim::Outside w; sim::Proc* p = sim::g->procs[sim::g->cur].get(); std::string all = p->out.substr(a); r.err = p->err.substr(b);
    if (r.err.empty()) r.out = all; else if (all != r.err) r.out = "mixed: " + all;
    out.push_back(r);
  }
}
