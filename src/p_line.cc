// Transmission line: edit histories against a reference model.
#include <algorithm>
#include <cmath>
#include <memory>

#include "fixture.h"
#include "mc.h"
#include "models/transmissionline/transmission_line.h"

using mc::cat;
using mc::Ctx;
using std::string;
using std::vector;

namespace {

typedef vector<double> V;

// ---- catalog ----------------------------------------------------------------

struct Catalog {
  Structure base[3];
  Hardware hw[3];                          // 1 dead-end, 2 suspension
  Cable cable;
  WeatherLoadCase case_weather;
  LineStructure foreign;
  Catalog() {
    auto att = [](double l, double t, double v) {
      StructureAttachment a;
      a.offset_longitudinal = l;
      a.offset_transverse = t;
      a.offset_vertical_top = v;
      return a;
    };
    base[0].name = "A";
    base[0].height = 100;
    base[0].attachments = {att(-1, 2, -3), att(0, -4, 1), att(5, 3, -2)};
    base[1].name = "B";
    base[1].height = 60;
    base[1].attachments = {att(2, -6, 0)};
    base[2].name = "C";
    base[2].height = 80;
    base[2].attachments = {att(0, 7, -1), att(3, 0, -5), att(-2, -2, 0),
                           att(1, 1, 1)};
    for (int i = 0; i < 3; i++) {
      hw[i].name = "H";
      hw[i].area_cross_section = 1;
      hw[i].length = 5;
      hw[i].weight = 50;
      hw[i].type = i == 1 ? Hardware::HardwareType::kDeadEnd
                          : Hardware::HardwareType::kSuspension;
    }
    cable = fx::drake();
    case_weather = fx::weather("0-0-60", 0, 0, 0, 60);
    foreign.set_station(150);
    foreign.set_structure(&base[0]);
    for (int i = 0; i < 3; i++) foreign.AttachHardware(i, &hw[1]);
  }
};
Catalog& catalog() {
  static Catalog c;
  return c;
}

// ---- reference model ----------------------------------------------------------

struct RPoint { double station, elevation, rotation; };
struct RStruct {
  int uid;
  double station, offset, rotation, height;
  int base;
  vector<int> hw;                          // 0 none, 1 dead-end, 2 suspension
};
struct RConn { int uid, att; };
struct RCable { double tag; vector<RConn> conns; };

struct Ref {
  vector<RPoint> points;
  vector<RStruct> structs;
  vector<RCable> cables;
  double origin[3] = {-999999, -999999, -999999};
  int next_uid = 1;

  const RStruct* find(int uid) const {
    for (auto& s : structs) if (s.uid == uid) return &s;
    return nullptr;
  }
  int index(int uid) const {
    for (size_t i = 0; i < structs.size(); i++)
      if (structs[i].uid == uid) return i;
    return -1;
  }
  bool on_alignment(double st) const {
    return !points.empty() && points.front().station <= st &&
           st <= points.back().station;
  }
  int add_point(const RPoint& p) {
    size_t i = 0;
    while (i < points.size() && points[i].station < p.station) i++;
    if (i < points.size() && points[i].station == p.station) return -1;
    points.insert(points.begin() + i, p);
    return i;
  }
  bool valid_cable(const RCable& c) const {
    if (c.conns.size() < 2) return false;
    for (size_t k = 0; k < c.conns.size(); k++) {
      const RStruct* s = find(c.conns[k].uid);
      if (s == nullptr) return false;
      if (c.conns[k].att < 0 || c.conns[k].att >= (int)s->hw.size())
        return false;
      const int want = (k == 0 || k + 1 == c.conns.size()) ? 1 : 2;
      if (s->hw[c.conns[k].att] != want) return false;
    }
    return true;
  }
  bool has_connection(int uid, int att) const {
    for (auto& c : cables)
      for (auto& k : c.conns)
        if (k.uid == uid && k.att == att) return true;
    return false;
  }
  void drop_invalid() {
    cables.erase(std::remove_if(cables.begin(), cables.end(),
                                [&](const RCable& c) { return !valid_cable(c); }),
                 cables.end());
  }
  void drop_connections(int uid) {
    for (auto& c : cables)
      c.conns.erase(std::remove_if(c.conns.begin(), c.conns.end(),
                                   [&](const RConn& k) { return k.uid == uid; }),
                    c.conns.end());
  }
  void drop_outside() {
    for (size_t i = 0; i < structs.size();) {
      if (on_alignment(structs[i].station)) { i++; continue; }
      drop_connections(structs[i].uid);
      structs.erase(structs.begin() + i);
    }
    drop_invalid();
  }
  int add_cable(const RCable& c) {
    if (!valid_cable(c)) return -1;
    for (auto& k : c.conns) if (has_connection(k.uid, k.att)) return -1;
    auto rank = [&](const RCable& x) {
      return std::make_pair(index(x.conns[0].uid), x.conns[0].att);
    };
    size_t i = 0;
    while (i < cables.size() && rank(cables[i]) < rank(c)) i++;
    cables.insert(cables.begin() + i, c);
    return i;
  }

  // geometry
  static double rad(double deg) { return deg * M_PI / 180; }
  double heading(int segment) const {
    double h = 0;
    for (int i = 0; i <= segment; i++) h += points[i].rotation;
    return h;
  }
  V xyz(double station) const {
    double x = origin[0], y = origin[1], z = origin[2];
    for (size_t i = 0; i < points.size(); i++) {
      if (station <= points[i].station || i + 1 == points.size())
        return {x, y, z};
      const double d = std::min(station, points[i + 1].station)
                       - points[i].station;
      const double a = rad(heading(i));
      x += d * std::cos(a);
      y += d * std::sin(a);
      z += d * (points[i + 1].elevation - points[i].elevation)
           / (points[i + 1].station - points[i].station);
    }
    return {x, y, z};
  }
  double orientation(double station) const {
    const int n = points.size();
    if (n == 1) return 0;
    for (int i = 0; i < n; i++) {
      if (points[i].station == station) {
        if (i == 0) return heading(0);
        if (i == n - 1) return heading(n - 2);
        const double a = rad(heading(i - 1)), b = rad(heading(i));
        return std::atan2(std::sin(a) + std::sin(b), std::cos(a) + std::cos(b))
               * 180 / M_PI;
      }
    }
    int k = 0;
    while (k < n - 2 && points[k + 1].station < station) k++;
    return heading(k);
  }
  V xyz_attachment(const RStruct& s, int att) const {
    const StructureAttachment& a = catalog().base[s.base].attachments[att];
    const double r = rad(s.rotation);
    double lx = a.offset_longitudinal, ly = -a.offset_transverse;
    double x = lx * std::cos(r) - ly * std::sin(r);
    double y = lx * std::sin(r) + ly * std::cos(r) - s.offset;
    const double o = rad(orientation(s.station));
    V p = xyz(s.station);
    return {p[0] + x * std::cos(o) - y * std::sin(o),
            p[1] + x * std::sin(o) + y * std::cos(o),
            p[2] + s.height + catalog().base[s.base].height
                + a.offset_vertical_top};
  }
};

// ---- conversions ----------------------------------------------------------------

AlignmentPoint make(const RPoint& p) {
  AlignmentPoint a;
  a.station = p.station;
  a.elevation = p.elevation;
  a.rotation = p.rotation;
  return a;
}
LineStructure make(const RStruct& s) {
  LineStructure l;
  l.set_station(s.station);
  l.set_offset(s.offset);
  l.set_rotation(s.rotation);
  l.set_height_adjustment(s.height);
  l.set_structure(&catalog().base[s.base]);
  for (size_t i = 0; i < s.hw.size(); i++)
    if (s.hw[i]) l.AttachHardware(i, &catalog().hw[s.hw[i]]);
  return l;
}
RStruct rstruct(double station, int base, vector<int> hw, double offset = 0,
                double rotation = 0, double height = 0) {
  RStruct s;
  s.uid = 0;
  s.station = station;
  s.base = base;
  s.hw = hw;
  s.offset = offset;
  s.rotation = rotation;
  s.height = height;
  return s;
}

const LineStructure* nth(const TransmissionLine& t, int i) {
  return &*std::next(t.line_structures()->cbegin(), i);
}

struct CableSpec { double tag; vector<std::pair<int, int>> conns; bool foreign; };

LineCable make(const TransmissionLine& t, const CableSpec& c) {
  LineCable l;
  l.set_cable(&catalog().cable);
  CableConstraint con;
  con.limit = c.tag;
  con.case_weather = &catalog().case_weather;
  con.condition = CableConditionType::kInitial;
  con.type_limit = CableConstraint::LimitType::kHorizontalTension;
  l.set_constraint(con);
  l.set_spacing_attachments_ruling_span(Vector3d(c.tag, 0, 1));
  l.set_weathercase_stretch_creep(&catalog().case_weather);
  l.set_weathercase_stretch_load(&catalog().case_weather);
  for (auto& k : c.conns) {
    LineCableConnection conn;
    conn.line_structure = nth(t, k.first);
    conn.index_attachment = k.second;
    l.AddConnection(conn);
  }
  if (c.foreign) {
    LineCableConnection conn;
    conn.line_structure = &catalog().foreign;
    conn.index_attachment = 0;
    l.AddConnection(conn);
  }
  return l;
}

// ---- system under exploration -------------------------------------------------------

enum Aspect { kGeometry = 1, kLists = 2, kCables = 4 };

struct Sys {
  Ctx& ctx;
  int aspects;
  std::unique_ptr<TransmissionLine> t;
  Ref r;
  string history;
  Sys(Ctx& c, int a) : ctx(c), aspects(a), t(new TransmissionLine()) {}

  void ret(int aspect, double got, double want, const string& op) {
    if ((aspects & aspect) && got != want)
      ctx.fail("return:" + op, cat(op, " answered ", got, ", expected ", want));
  }

  // compares everything that can be observed
  uint64_t observe(int what) {
    uint64_t h = 7;
    Point3d<double> o;
    const TransmissionLine& l = *t;
    {
      V got, want;
      for (auto& p : *l.alignment()->points()) {
        got.push_back(p.station); got.push_back(p.elevation);
        got.push_back(p.rotation);
      }
      for (auto& p : r.points) {
        want.push_back(p.station); want.push_back(p.elevation);
        want.push_back(p.rotation);
      }
      MC_CHECK(ctx, !(what & kLists) || got == want, "alignment points",
                cat("alignment is ", got, ", expected ", want));
      h = mc::hash_vec(h, got);
      got.clear(); want.clear();
      for (auto& s : *l.line_structures()) {
        got.push_back(s.station()); got.push_back(s.offset());
        got.push_back(s.rotation()); got.push_back(s.height_adjustment());
        got.push_back(s.structure() - catalog().base);
        for (auto* w : *s.hardwares())
          got.push_back(w == nullptr ? 0 : w - catalog().hw);
      }
      for (auto& s : r.structs) {
        want.push_back(s.station); want.push_back(s.offset);
        want.push_back(s.rotation); want.push_back(s.height);
        want.push_back(s.base);
        for (int w : s.hw) want.push_back(w);
      }
      MC_CHECK(ctx, !(what & kLists) || got == want, "line structures",
                cat("structures are ", got, ", expected ", want));
      h = mc::hash_vec(h, got);
      o = l.origin();
      MC_CHECK(ctx, !(what & kLists) || o.x == r.origin[0] && o.y == r.origin[1] && o.z == r.origin[2],
                "origin", "origin differs");
    }
    {
      V got, want;
      for (auto& c : *l.line_cables()) {
        got.push_back(-7777);
        got.push_back(c.constraint().limit);
        got.push_back(c.spacing_attachments_ruling_span().x());
        got.push_back(c.cable() == &catalog().cable);
        for (auto& k : *c.connections()) {
          got.push_back(l.IndexLineStructure(k.line_structure));
          got.push_back(k.index_attachment);
        }
      }
      for (auto& c : r.cables) {
        want.push_back(-7777);
        want.push_back(c.tag);
        want.push_back(c.tag);
        want.push_back(1);
        for (auto& k : c.conns) {
          want.push_back(r.index(k.uid));
          want.push_back(k.att);
        }
      }
      MC_CHECK(ctx, !(what & kCables) || got == want, "line cables",
                cat("cables are ", got, ", expected ", want));
      h = mc::hash_vec(h, got);
      h = mc::hash_vec(h, {o.x, o.y, o.z});
      const int n = r.structs.size();
      if (what & kCables) for (int i = -1; i <= n; i++)
        for (int a = 0; a < 4; a++) {
          const bool w = i >= 0 && i < n && r.has_connection(r.structs[i].uid, a);
          MC_CHECK(ctx, l.HasConnection(i, a) == w, "occupied attachments",
                    cat("attachment ", a, " of structure ", i,
                        w ? " should be" : " should not be", " occupied"));
        }
    }
    if (what & kGeometry) {
      V got, want;
      const auto* pa = l.PointsXyzAlignment();
      MC_CHECK(ctx, pa != nullptr, "alignment coordinates", "no answer");
      for (auto& p : *pa) for (double d : fx::vec(p)) got.push_back(d);
      for (auto& p : r.points) for (double d : r.xyz(p.station)) want.push_back(d);
      MC_CHECK(ctx, mc::close(got, want, 1e-9, 1e-6), "alignment coordinates",
                cat("coordinates are ", got, ", expected ", want));
      h = mc::hash_vec(h, got);
      const auto* ps = l.PointsXyzLineStructures();
      MC_CHECK(ctx, ps != nullptr, "structure coordinates", "no answer");
      got.clear(); want.clear();
      for (auto& p : *ps) for (double d : fx::vec(p)) got.push_back(d);
      for (auto& s : r.structs) for (double d : r.xyz(s.station)) want.push_back(d);
      MC_CHECK(ctx, mc::close(got, want, 1e-9, 1e-6), "structure coordinates",
                cat("coordinates are ", got, ", expected ", want));
      h = mc::hash_vec(h, got);
      const int n = r.structs.size();
      const V none = fx::vec(Point3d<double>());
      for (int i = -1; i <= n; i++) {
        const bool ok = i >= 0 && i < n;
        V g = fx::vec(l.PointXyzLineStructure(i));
        V w = ok ? r.xyz(r.structs[i].station) : none;
        MC_CHECK(ctx, mc::close(g, w, 1e-9, 1e-6), "structure coordinate",
                  cat("structure ", i, " is at ", g, ", expected ", w));
        const int na = ok ? r.structs[i].hw.size() : 0;
        for (int a = -1; a <= na; a++) {
          g = fx::vec(l.PointXyzLineStructureAttachment(i, a));
          w = ok && a >= 0 && a < na ? r.xyz_attachment(r.structs[i], a) : none;
          MC_CHECK(ctx, mc::close(g, w, 1e-9, 1e-6), "attachment coordinate",
                    cat("attachment ", a, " of structure ", i, " is at ", g,
                        ", expected ", w));
        }
      }
      vector<double> stations = {-60, -20, 0, 37, 99.5, 100, 150, 200, 240.25,
                                 300, 399, 400, 450, 500, 700};
      for (double s : stations) {
        V g = fx::vec(l.PointXyzAlignment(s));
        V w = r.on_alignment(s) ? r.xyz(s) : none;
        MC_CHECK(ctx, mc::close(g, w, 1e-9, 1e-6), "station coordinate",
                  cat("station ", s, " is at ", g, ", expected ", w));
      }
    }
    ctx.eval();
    return h;
  }
};

struct Op {
  string name;
  std::function<void(Sys&)> run;
};

void op_add_point(Sys& s, const RPoint& p) {
  const int w = s.r.add_point(p);
  const int g = s.t->AddAlignmentPoint(make(p));
  if (w != -1) {}
  s.ret(kLists, g, w, "add alignment point");
}
void op_delete_point(Sys& s, int i) {
  const bool w = i >= 0 && i < (int)s.r.points.size();
  if (w) {
    s.r.points.erase(s.r.points.begin() + i);
    s.r.drop_outside();
  }
  s.ret(kLists, s.t->DeleteAlignmentPoint(i), w, "delete alignment point");
}
void op_modify_point(Sys& s, int i, RPoint p) {
  int w = -1;
  if (i >= 0 && i < (int)s.r.points.size()) {
    RPoint old = s.r.points[i];
    s.r.points.erase(s.r.points.begin() + i);
    w = s.r.add_point(p);
    if (w == -1) s.r.add_point(old);
    else s.r.drop_outside();
  }
  s.ret(kLists, s.t->ModifyAlignmentPoint(i, make(p)), w,
        "modify alignment point");
}
void op_add_struct(Sys& s, RStruct n) {
  int w = -1;
  if (s.r.on_alignment(n.station)) {
    size_t i = 0;
    while (i < s.r.structs.size() && s.r.structs[i].station < n.station) i++;
    if (i == s.r.structs.size() || s.r.structs[i].station != n.station) {
      w = i;
      n.uid = s.r.next_uid++;
      s.r.structs.insert(s.r.structs.begin() + i, n);
    }
  }
  s.ret(kLists, s.t->AddLineStructure(make(n)), w, "add line structure");
}
void op_delete_struct(Sys& s, int i) {
  const bool w = i >= 0 && i < (int)s.r.structs.size();
  if (w) {
    s.r.drop_connections(s.r.structs[i].uid);
    s.r.structs.erase(s.r.structs.begin() + i);
    s.r.drop_invalid();
  }
  s.ret(kLists, s.t->DeleteLineStructure(i), w, "delete line structure");
}
void op_modify_struct(Sys& s, int i, RStruct n) {
  bool w = false;
  const int k = s.r.structs.size();
  if (i >= 0 && i < k && s.r.on_alignment(n.station) &&
      (i == 0 || s.r.structs[i - 1].station < n.station) &&
      (i == k - 1 || n.station < s.r.structs[i + 1].station)) {
    w = true;
    n.uid = s.r.structs[i].uid;
    s.r.structs[i] = n;
    for (auto& c : s.r.cables)
      c.conns.erase(std::remove_if(c.conns.begin(), c.conns.end(),
                                   [&](const RConn& x) {
                                     return x.uid == n.uid &&
                                            x.att >= (int)n.hw.size();
                                   }),
                    c.conns.end());
    s.r.drop_invalid();
  }
  s.ret(kLists, s.t->ModifyLineStructure(i, make(n)), w,
        "modify line structure");
}
RCable rcable(const Sys& s, const CableSpec& c) {
  RCable x;
  x.tag = c.tag;
  for (auto& k : c.conns) {
    if (k.first >= (int)s.r.structs.size()) throw mc::SkipLeaf();
    x.conns.push_back({s.r.structs[k.first].uid, k.second});
  }
  if (c.foreign) x.conns.push_back({-5, 0});
  return x;
}
void op_add_cable(Sys& s, const CableSpec& c) {
  RCable x = rcable(s, c);
  LineCable l = make(*s.t, c);
  s.ret(kCables, s.t->AddLineCable(l), s.r.add_cable(x), "add line cable");
}
void op_delete_cable(Sys& s, int i) {
  const bool w = i >= 0 && i < (int)s.r.cables.size();
  if (w) s.r.cables.erase(s.r.cables.begin() + i);
  s.ret(kCables, s.t->DeleteLineCable(i), w, "delete line cable");
}
void op_modify_cable(Sys& s, int i, const CableSpec& c) {
  RCable x = rcable(s, c);
  LineCable l = make(*s.t, c);
  int w = -1;
  if (i >= 0 && i < (int)s.r.cables.size()) {
    RCable old = s.r.cables[i];
    s.r.cables.erase(s.r.cables.begin() + i);
    w = s.r.add_cable(x);
    if (w == -1) s.r.cables.insert(s.r.cables.begin() + i, old);
  }
  s.ret(kCables, s.t->ModifyLineCable(i, l), w, "modify line cable");
}
void op_origin(Sys& s, double x, double y, double z) {
  s.r.origin[0] = x; s.r.origin[1] = y; s.r.origin[2] = z;
  s.t->set_origin(Point3d<double>(x, y, z));
}

const vector<int> kHwA = {1, 2, 1};

vector<Op> ops_alignment(bool full) {
  vector<Op> o;
  const vector<RPoint> add = {{100, 7, 20}, {300, 3, -35}, {500, 9, 10},
                              {-50, 4, 5}, {200, 50, 50}};
  for (auto& p : add)
    o.push_back({cat("add alignment point at ", p.station),
                 [p](Sys& s) { op_add_point(s, p); }});
  for (int i : {-1, 0, 1, 2, 3})
    o.push_back({cat("delete alignment point ", i),
                 [i](Sys& s) { op_delete_point(s, i); }});
  const vector<RPoint> mod = {{0, 15, 90}, {150, 12, -60}, {200, 1, 45},
                              {250, 8, 0}, {400, 2, 30}, {600, 6, 0}};
  for (int i : {0, 1, 2})
    for (auto& p : mod)
      o.push_back({cat("modify alignment point ", i, " to station ", p.station,
                       " rotation ", p.rotation, " elevation ", p.elevation),
                   [i, p](Sys& s) { op_modify_point(s, i, p); }});
  o.push_back({"modify alignment point 5 to station 150",
               [](Sys& s) { op_modify_point(s, 5, {150, 0, 0}); }});
  o.push_back({"set origin", [](Sys& s) { op_origin(s, 1000, -2000, 30); }});
  (void)full;
  return o;
}

vector<Op> ops_structure(bool hardware) {
  vector<Op> o;
  for (double st : {0.0, 100.0, 250.0, 400.0, 500.0, -10.0})
    o.push_back({cat("add structure at ", st), [st](Sys& s) {
                   op_add_struct(s, rstruct(st, 0, kHwA, 3, 20, 2));
                 }});
  for (int i : {-1, 0, 1, 2, 3})
    o.push_back({cat("delete structure ", i),
                 [i](Sys& s) { op_delete_struct(s, i); }});
  for (int i : {0, 1, 2}) {
    o.push_back({cat("turn and offset structure ", i), [i](Sys& s) {
                   if (i >= (int)s.r.structs.size()) throw mc::SkipLeaf();
                   RStruct n = s.r.structs[i];
                   n.offset = -8; n.rotation = -75; n.height = 4;
                   op_modify_struct(s, i, n);
                 }});
    for (double st : {-0.5, 50.0, 200.0, 350.0, 400.0, 400.5})
      o.push_back({cat("move structure ", i, " to ", st), [i, st](Sys& s) {
                     if (i >= (int)s.r.structs.size()) throw mc::SkipLeaf();
                     RStruct n = s.r.structs[i];
                     n.station = st;
                     op_modify_struct(s, i, n);
                   }});
    if (hardware) {
      auto swap = [&](const string& name, int base, vector<int> hw) {
        o.push_back({cat(name, " on structure ", i), [i, base, hw](Sys& s) {
                       if (i >= (int)s.r.structs.size()) throw mc::SkipLeaf();
                       RStruct n = s.r.structs[i];
                       n.base = base; n.hw = hw;
                       op_modify_struct(s, i, n);
                     }});
      };
      swap("single attachment", 1, {1});
      swap("four attachments", 2, {1, 2, 1, 2});
      swap("detached hardware", 0, {0, 2, 1});
      swap("exchanged hardware", 0, {2, 1, 2});
    }
  }
  o.push_back({"modify structure 7", [](Sys& s) {
                 op_modify_struct(s, 7, rstruct(100, 0, kHwA));
               }});
  o.push_back({"modify structure -1", [](Sys& s) {
                 op_modify_struct(s, -1, rstruct(100, 0, kHwA));
               }});
  return o;
}

vector<CableSpec> cable_menu() {
  return {
      {11, {{0, 2}, {1, 0}}, false},
      {12, {{1, 2}, {2, 0}}, false},
      {13, {{0, 0}, {1, 1}, {2, 2}}, false},
      {14, {{0, 0}, {1, 0}}, false},
      {15, {{0, 2}, {2, 2}}, false},
      {16, {{0, 1}, {1, 2}}, false},       // suspension at the start
      {17, {{0, 0}, {1, 2}, {2, 0}}, false},  // dead-end inside
      {18, {{0, 0}}, false},               // not enough connections
      {19, {{1, 0}, {2, 5}}, false},       // no such attachment
      {20, {{0, 0}, {2, 0}}, true},        // structure of another line
      {21, {{0, 2}, {1, 1}, {2, 0}}, false},  // only the middle is shared
  };
}

vector<Op> ops_cable() {
  vector<Op> o;
  for (auto& c : cable_menu())
    o.push_back({cat("add cable ", c.tag),
                 [c](Sys& s) { op_add_cable(s, c); }});
  for (int i : {-1, 0, 1, 2})
    o.push_back({cat("delete cable ", i),
                 [i](Sys& s) { op_delete_cable(s, i); }});
  for (int i : {0, 1})
    for (auto& c : cable_menu())
      o.push_back({cat("modify cable ", i, " to ", c.tag),
                   [i, c](Sys& s) { op_modify_cable(s, i, c); }});
  o.push_back({"modify cable 4", [](Sys& s) {
                 op_modify_cable(s, 4, cable_menu()[0]);
               }});
  return o;
}

// edits whose argument is an item of the line itself
vector<Op> ops_own() {
  vector<Op> o;
  for (int i : {0, 1})
    for (int j : {0, 1}) {
      o.push_back({cat("modify alignment point ", i, " to own point ", j),
                   [i, j](Sys& s) {
                     const int n = s.r.points.size();
                     if (i >= n || j >= n) throw mc::SkipLeaf();
                     const int w = i == j ? i : -1;
                     auto p = std::next(s.t->alignment()->points()->begin(), j);
                     s.ret(kLists, s.t->ModifyAlignmentPoint(i, *p), w,
                           "modify alignment point to own point");
                   }});
      o.push_back({cat("modify structure ", i, " to own structure ", j),
                   [i, j](Sys& s) {
                     const int n = s.r.structs.size();
                     if (i >= n || j >= n) throw mc::SkipLeaf();
                     auto p = std::next(s.t->line_structures()->begin(), j);
                     s.ret(kLists, s.t->ModifyLineStructure(i, *p), i == j,
                           "modify line structure to own structure");
                   }});
      o.push_back({cat("modify cable ", i, " to own cable ", j),
                   [i, j](Sys& s) {
                     const int n = s.r.cables.size();
                     if (i >= n || j >= n) throw mc::SkipLeaf();
                     auto p = std::next(s.t->line_cables()->begin(), j);
                     s.ret(kCables, s.t->ModifyLineCable(i, *p),
                           i == j ? i : -1,
                           "modify line cable to own line cable");
                   }});
    }
  o.push_back({"add own items", [](Sys& s) {
                 if (!s.r.points.empty())
                   s.ret(kLists, s.t->AddAlignmentPoint(
                             s.t->alignment()->points()->back()), -1,
                         "add own alignment point");
                 if (!s.r.structs.empty())
                   s.ret(kLists, s.t->AddLineStructure(
                             s.t->line_structures()->front()), -1,
                         "add own structure");
                 if (!s.r.cables.empty())
                   s.ret(kCables, s.t->AddLineCable(
                             s.t->line_cables()->back()), -1,
                         "add own cable");
               }});
  return o;
}

// value semantics: the original and the copy never influence each other
vector<Op> ops_copy() {
  vector<Op> o;
  o.push_back({"copy, destroy the original, continue on the copy", [](Sys& s) {
                 std::unique_ptr<TransmissionLine> c(
                     new TransmissionLine(*s.t));
                 s.t = std::move(c);
               }});
  o.push_back({"copy, edit the original, continue on the copy", [](Sys& s) {
                 std::unique_ptr<TransmissionLine> c(
                     new TransmissionLine(*s.t));
                 s.t->set_origin(Point3d<double>(5, 5, 5));
                 s.t->DeleteLineStructure(1);
                 s.t->ModifyAlignmentPoint(0, make(RPoint{-5, 3, 77}));
                 s.t->PointsXyzLineStructures();
                 s.t = std::move(c);
               }});
  o.push_back({"copy, edit the copy, continue on the original", [](Sys& s) {
                 TransmissionLine c(*s.t);
                 c.PointsXyzAlignment();
                 c.DeleteLineCable(0);
                 c.DeleteLineStructure(0);
                 c.DeleteAlignmentPoint(0);
                 c.PointsXyzLineStructures();
               }});
  o.push_back({"assign to another line, continue on it", [](Sys& s) {
                 std::unique_ptr<TransmissionLine> c(new TransmissionLine());
                 c->AddAlignmentPoint(make(RPoint{0, 1, 0}));
                 c->AddAlignmentPoint(make(RPoint{90, 1, 0}));
                 c->AddLineStructure(make(rstruct(30, 1, {1})));
                 c->AddLineStructure(make(rstruct(60, 1, {1})));
                 CableSpec spec = {5, {{0, 0}, {1, 0}}, false};
                 c->AddLineCable(make(*c, spec));
                 c->PointsXyzLineStructures();
                 *c = *s.t;
                 s.t->DeleteAlignmentPoint(0);
                 s.t = std::move(c);
               }});
  o.push_back({"assign to itself", [](Sys& s) {
                 TransmissionLine& alias = *s.t;
                 *s.t = alias;
               }});
  return o;
}

vector<Op> ops_query() {
  vector<Op> o;
  o.push_back({"query alignment coordinates",
               [](Sys& s) { s.t->PointsXyzAlignment(); }});
  o.push_back({"query structure coordinates",
               [](Sys& s) { s.t->PointsXyzLineStructures(); }});
  o.push_back({"query attachment coordinate", [](Sys& s) {
                 s.t->PointXyzLineStructureAttachment(0, 0);
               }});
  o.push_back({"validate", [](Sys& s) { s.t->Validate(true, nullptr); }});
  return o;
}

// every second or third operation of a menu (for longer sequences)
vector<Op> thin(const vector<Op>& ops, int step) {
  vector<Op> o;
  for (size_t i = 0; i < ops.size(); i += step) o.push_back(ops[i]);
  return o;
}

// cables and edits of the long line
vector<CableSpec> large_cables() {
  return {
      {31, {{0, 0}, {1, 1}, {2, 1}, {3, 2}}, false},
      {32, {{3, 0}, {4, 1}, {5, 1}, {6, 1}, {7, 2}}, false},
      {33, {{0, 2}, {7, 0}}, false},
      {34, {{4, 0}, {6, 2}}, false},
      {35, {{4, 2}, {5, 0}}, false},          // behind 34
      {36, {{3, 0}, {5, 0}}, false},          // start of 32
      {37, {{2, 2}, {5, 1}, {7, 0}}, false},  // middle and end of others
      {38, {{1, 0}, {2, 0}, {6, 0}}, false},  // dead-end inside
      {39, {{0, 0}, {1, 1}, {2, 1}, {3, 1}}, false},
  };
}
vector<Op> ops_large() {
  vector<Op> o;
  for (double st : {150.0, 330.0, 800.0}) {
    o.push_back({cat("add alignment point at ", st),
                 [st](Sys& s) { op_add_point(s, {st, 9, -33}); }});
    o.push_back({cat("add structure at ", st), [st](Sys& s) {
                   op_add_struct(s, rstruct(st, 0, kHwA, 3, 20, 2));
                 }});
  }
  for (int i = 0; i < 7; i++) {
    o.push_back({cat("delete alignment point ", i),
                 [i](Sys& s) { op_delete_point(s, i); }});
    const vector<RPoint> mod = {{-60, 1, 15}, {150, 12, -60}, {400, 1, 45},
                                {210, 8, 0}, {650, 3, 75}, {800, 2, -120}};
    for (auto& p : mod)
      o.push_back({cat("modify alignment point ", i, " to station ", p.station),
                   [i, p](Sys& s) { op_modify_point(s, i, p); }});
  }
  for (int i = 0; i < 8; i++) {
    o.push_back({cat("delete structure ", i),
                 [i](Sys& s) { op_delete_struct(s, i); }});
    for (int how : {0, 1, 2, 3, 4})
      o.push_back({cat("edit ", how, " of structure ", i), [i, how](Sys& s) {
                     if (i >= (int)s.r.structs.size()) throw mc::SkipLeaf();
                     RStruct n = s.r.structs[i];
                     if (how == 0) { n.offset = 9; n.rotation = 40; n.height = 6; }
                     if (how == 1) n.station += 10;
                     if (how == 2) n.station += 60;
                     if (how == 3) { n.base = 0; n.hw = {1, 0, 1}; }
                     if (how == 4) { n.base = 1; n.hw = {1}; }
                     op_modify_struct(s, i, n);
                   }});
  }
  for (int i = 0; i < 4; i++)
    o.push_back({cat("delete cable ", i), [i](Sys& s) { op_delete_cable(s, i); }});
  for (auto& c : large_cables())
    o.push_back({cat("add cable ", c.tag), [c](Sys& s) { op_add_cable(s, c); }});
  for (int i : {0, 2, 3})
    for (auto& c : large_cables())
      o.push_back({cat("modify cable ", i, " to ", c.tag),
                   [i, c](Sys& s) { op_modify_cable(s, i, c); }});
  return o;
}

void start_line(Sys& s, int kind) {
  // kind 0: empty; 1: one segment; 2: full line with three cables; 3: long line
  if (kind == 0) return;
  op_origin(s, 10, 20, 5);
  if (kind == 3) {
    const vector<RPoint> points = {{-40, 5, 12}, {0, 10, 120}, {100, 25, -95},
                                   {200, -4, 40}, {260, 8, 140}, {400, 0, -150},
                                   {700, 30, 7}};
    for (int i : {3, 0, 6, 2, 4, 1, 5}) op_add_point(s, points[i]);
    const vector<double> stations = {-40, 0, 50, 100, 200, 260, 400, 700};
    for (int i : {4, 7, 1, 0, 6, 3, 2, 5})
      op_add_struct(s, rstruct(stations[i], 0, kHwA, i % 3, i - 4, i % 4));
    for (int i : {1, 3, 0, 2}) op_add_cable(s, large_cables()[i]);
    return;
  }
  if (kind == 1) {
    op_add_point(s, {0, 10, 15});
    op_add_point(s, {400, 30, 0});
    op_add_struct(s, rstruct(200, 0, kHwA, 1, 10, 0));
    return;
  }
  op_add_point(s, {400, 5, 25});
  op_add_point(s, {0, 10, -10});
  op_add_point(s, {200, 20, 40});
  op_add_struct(s, rstruct(400, 0, kHwA, 0, 5, 0));
  op_add_struct(s, rstruct(0, 0, kHwA, 2, 0, 1));
  op_add_struct(s, rstruct(200, 0, kHwA, -3, 0, 2));
  auto menu = cable_menu();
  op_add_cable(s, menu[2]);
  op_add_cable(s, menu[1]);
  op_add_cable(s, menu[0]);
}

vector<Op> join(std::initializer_list<vector<Op>> l) {
  vector<Op> o;
  for (auto& v : l) o.insert(o.end(), v.begin(), v.end());
  return o;
}

// every operation sequence of the given length, from every start; the line is
// fully observed at the end, and optionally before the first operation
void sequences(Ctx& ctx, const string& name, int aspects,
               const vector<Op>& ops, int depth, vector<int> starts) {
  ctx.explore(name, [&](mc::Chooser& ch) {
    const int start = starts[ch.choose(starts.size())];
    const bool warm = ch.choose(2) == 1;
    Sys s(ctx, aspects);
    start_line(s, start);
    s.history = cat("start ", start, warm ? " observed" : "", "; ");
    if (warm) s.observe(aspects);
    for (int d = 0; d < depth; d++) {
      const Op& op = ops[ch.choose(ops.size())];
      if (d == std::min(1, depth - 1)) ch.shard();
      s.history += op.name + "; ";
      ctx.describe(s.history);
      op.run(s);
      ctx.transition();
    }
    const uint64_t h = s.observe(aspects);
    ctx.state(h);
    ctx.outcome(h);
    ctx.sample(s.history);
  });
  ctx.note(cat(name, ": all sequences of ", depth, " of ", ops.size(),
               " operations, starts ", starts.size(), " x observed or not"), 0);
}

// all reachable states: the line is observed after every operation, and a
// history is cut when its observed state was already reached by one that is
// not longer
void reachable(Ctx& ctx, const string& name, int aspects,
               const vector<Op>& ops, int depth, int start) {
  std::map<uint64_t, std::pair<int, uint64_t>> seen;
  ctx.explore(name, [&](mc::Chooser& ch) {
    Sys s(ctx, aspects);
    start_line(s, start);
    s.history = cat("start ", start, "; ");
    s.observe(aspects);
    uint64_t path = 1;
    for (int d = 0; d < depth; d++) {
      const int k = ch.choose(ops.size());
      if (d == 0) ch.shard();
      s.history += ops[k].name + "; ";
      ctx.describe(s.history);
      ops[k].run(s);
      ctx.transition();
      const uint64_t h = s.observe(aspects);
      ctx.state(h);
      ctx.outcome(h);
      path = mc::hash_mix(path, k + 1);
      auto it = seen.find(h);
      if (it != seen.end() && it->second.first <= d + 1 &&
          it->second.second != path)
        break;
      seen[h] = std::make_pair(d + 1, path);
    }
    ctx.sample(s.history);
  });
  ctx.note(cat(name, ": reachable states to depth ", depth, " over ",
               ops.size(), " operations"), 0);
}
// connections of a single line cable
void connections(Ctx& ctx, int depth) {
  struct C { double st; int att; };
  LineStructure structs[4];
  for (int i = 0; i < 4; i++) {
    structs[i].set_station(100 * i);
    structs[i].set_structure(&catalog().base[0]);
    for (int a = 0; a < 3; a++) structs[i].AttachHardware(a, &catalog().hw[a % 2 + 1]);
  }
  // attachments 0 and 2 have dead-end hardware, attachment 1 suspension
  ctx.explore("connections", [&](mc::Chooser& ch) {
    LineCable cable;
    vector<C> ref;
    string history;
    auto add = [&](const C& c) {
      size_t i = 0;
      while (i < ref.size() && ref[i].st < c.st) i++;
      if (i < ref.size() && ref[i].st == c.st) return -1;
      ref.insert(ref.begin() + i, c);
      return static_cast<int>(i);
    };
    auto conn = [&](int k) {
      LineCableConnection c;
      if (k >= 0) c.line_structure = &structs[k];
      c.index_attachment = k % 2;          // 0, 1
      return c;
    };
    for (int d = 0; d < depth; d++) {
      const int op = ch.choose(5 + 4 + 4 * 5 + 1 + 2);
      if (d == 1) ch.shard();
      int got = 0, want = 0;
      if (op < 5) {
        const int k = op - 1;
        history += cat("add ", k, "; ");
        ctx.describe(history);
        got = cable.AddConnection(conn(k));
        want = k < 0 ? -1 : add({100.0 * k, k % 2});
      } else if (op < 9) {
        const int i = op - 6;              // -1..2
        history += cat("delete ", i, "; ");
        ctx.describe(history);
        got = cable.DeleteConnection(i);
        want = i >= 0 && i < (int)ref.size();
        if (want) ref.erase(ref.begin() + i);
      } else if (op < 29) {
        const int i = (op - 9) / 5 - 1, k = (op - 9) % 5 - 1;
        history += cat("modify ", i, " to ", k, "; ");
        ctx.describe(history);
        got = cable.ModifyConnection(i, conn(k));
        want = -1;
        if (i >= 0 && i < (int)ref.size() && k >= 0) {
          C old = ref[i];
          ref.erase(ref.begin() + i);
          want = add({100.0 * k, k % 2});
          if (want == -1) add(old);
        }
      } else if (op > 29) {
        const int i = op - 30, k = i == 0 ? 0 : ref.size() - 1;
        if (ref.empty()) throw mc::SkipLeaf();
        history += cat("modify ", k, " to itself; ");
        ctx.describe(history);
        got = cable.ModifyConnection(
            k, *std::next(cable.connections()->begin(), k));
        want = k;
      } else {
        history += "clear; ";
        cable.ClearConnections();
        ref.clear();
      }
      MC_CHECK(ctx, got == want, "connections:return", "answered ", got,
               ", expected ", want);
      ctx.transition();
    }
    V g, w;
    for (auto& c : *cable.connections()) {
      g.push_back(c.line_structure->station());
      g.push_back(c.index_attachment);
    }
    for (auto& c : ref) { w.push_back(c.st); w.push_back(c.att); }
    MC_CHECK(ctx, g == w, "connections:list", "list is ", g, ", expected ", w);
    bool ok = ref.size() >= 2;
    for (size_t i = 0; i < ref.size(); i++)
      if (ref[i].att != ((i == 0 || i + 1 == ref.size()) ? 0 : 1)) ok = false;
    MC_CHECK(ctx, cable.ValidateConnections(true, nullptr) == ok,
             "connections:validity", "validity should be ", ok);
    ctx.eval();
    const uint64_t h = mc::hash_vec(991, g);
    ctx.state(h);
    ctx.outcome(h);
  });
}

// hardware of a single line structure
void hardware(Ctx& ctx, int depth) {
  ctx.explore("hardware", [&](mc::Chooser& ch) {
    LineStructure s;
    int base = -1;
    vector<int> ref;
    string history;
    for (int d = 0; d < depth; d++) {
      const int op = ch.choose(6 * 2 + 6 + 4);
      if (d == 1) ch.shard();
      if (op < 12) {
        const int i = op / 2 - 1, h = op % 2 + 1;
        history += cat("attach ", h, " at ", i, "; ");
        ctx.describe(history);
        s.AttachHardware(i, &catalog().hw[h]);
        if (i >= 0 && i < (int)ref.size()) ref[i] = h;
      } else if (op < 18) {
        const int i = op - 13;
        history += cat("detach ", i, "; ");
        ctx.describe(history);
        s.DetachHardware(i);
        if (i >= 0 && i < (int)ref.size()) ref[i] = 0;
      } else {
        base = op - 19;
        history += cat("set structure ", base, "; ");
        ctx.describe(history);
        s.set_structure(base < 0 ? nullptr : &catalog().base[base]);
        ref.resize(base < 0 ? 0 : catalog().base[base].attachments.size(), 0);
      }
      ctx.transition();
    }
    V g, w;
    for (auto* h : *s.hardwares()) g.push_back(h ? h - catalog().hw : 0);
    for (int h : ref) w.push_back(h);
    MC_CHECK(ctx, g == w, "hardware:list", "hardware is ", g, ", expected ", w);
    ctx.eval();
    const uint64_t h = mc::hash_vec(992 + base, g);
    ctx.state(h);
    ctx.outcome(h);
  });
}

}  // namespace



static const vector<string> kLineAssumptions = {
    "stations, elevations, rotations, offsets, base structures and hardware "
    "come from small menus; at most 9 alignment points and 10 structures",
    "line structures have a base structure; no alignment turn is 180 degrees"};

static mc::Register r1({"L01", [](Ctx& ctx) {
  auto ops = join({ops_alignment(true), ops_structure(false), ops_query()});
  sequences(ctx, "geometry", kGeometry, ops, 3, {2});
  sequences(ctx, "geometry-small", kGeometry, ops, ctx.thorough ? 3 : 2, {0, 1});
  sequences(ctx, "geometry-long", kGeometry,
            join({ops_large(), ops_query()}), 2, {3});
  if (ctx.thorough) sequences(ctx, "geometry-deep", kGeometry,
                              join({thin(ops_alignment(true), 2),
                                    thin(ops_structure(false), 2), ops_query()}),
                              4, {2});
}, "Every sequence (3 operations; thorough 4) of edits of alignment points, "
   "structures and origin, queries and validation from a fully built line, and "
   "shorter ones from an empty and a one-segment line, with and without a "
   "prior query, and of 2 operations on a long line; afterwards every coordinate query is compared with a "
   "reference model. Non-trivial: distinct observed line states.",
   kLineAssumptions});

static mc::Register r2({"L02", [](Ctx& ctx) {
  auto ops = join({ops_alignment(true), ops_structure(true), ops_own()});
  sequences(ctx, "lists", kLists, ops, 3, {0, 1, 2});
  sequences(ctx, "lists-long", kLists, ops_large(), 2, {3});
  reachable(ctx, "lists-reachable", kLists, ops, 3, 2);
  if (ctx.thorough)
    reachable(ctx, "lists-reachable-deep", kLists, ops, 4, 2);
}, "Every sequence of 3 edits of alignment points, structures and origin from "
   "an empty, a one-segment and a fully built line, and every line state "
   "reachable by longer sequences; all return values and the sorted lists are "
   "compared with a reference model. Non-trivial: distinct observed states.",
   kLineAssumptions});

static mc::Register r3({"L03", [](Ctx& ctx) {
  auto ops = join({ops_cable(), ops_structure(true), ops_alignment(false),
                   ops_own()});
  sequences(ctx, "cables", kCables, ops, 3, {2});
  sequences(ctx, "cables-long", kLists | kCables, ops_large(), 2, {3});
  connections(ctx, ctx.thorough ? 5 : 4);
  hardware(ctx, ctx.thorough ? 5 : 4);
  reachable(ctx, "cables-reachable", kCables, ops, 3, 2);
  if (ctx.thorough)
    reachable(ctx, "cables-reachable-deep", kCables,
              join({thin(ops_cable(), 2), thin(ops_structure(true), 2),
                    thin(ops_alignment(false), 2)}), 4, 2);
}, "Every sequence of 3 edits of cables, structures and alignment points of a "
   "line with three cables, and every line state reachable by longer "
   "sequences; return values, cable order, connections and the occupied "
   "attachments are compared with a reference model. Non-trivial: distinct "
   "observed states.", kLineAssumptions});

static mc::Register r4({"L04", [](Ctx& ctx) {
  auto ops = join({ops_copy(), ops_query(), ops_cable(), ops_structure(true),
                   ops_alignment(false)});
  const int n_copy = ops_copy().size();
  const auto few = join({ops_copy(), ops_query(), thin(ops_cable(), 3),
                         thin(ops_structure(true), 3),
                         thin(ops_alignment(false), 3)});
  for (int depth = 2; depth <= (ctx.thorough ? 4 : 3); depth++)
  ctx.explore(cat("copies-", depth), [&](mc::Chooser& ch) {
    const int start = 2 - ch.choose(depth >= 3 ? 1 : 3);
    const int at = ch.choose(depth);       // position of the copy operation
    const auto& menu = depth == 4 ? few : ops;
    Sys s(ctx, kGeometry | kLists | kCables);
    start_line(s, start);
    s.history = cat("start ", start, "; ");
    for (int d = 0; d < depth; d++) {
      const Op& op = d == at ? ops[ch.choose(n_copy)]
                             : menu[ch.choose(menu.size())];
      if (d == 1) ch.shard();
      s.history += op.name + "; ";
      ctx.describe(s.history);
      op.run(s);
      ctx.transition();
    }
    const uint64_t h = s.observe(s.aspects);
    ctx.state(h);
    ctx.outcome(h);
    ctx.sample(s.history);
  });
  const auto large = join({ops_copy(), ops_query(), ops_large()});
  ctx.explore("copies-long", [&](mc::Chooser& ch) {
    Sys s(ctx, kGeometry | kLists | kCables);
    start_line(s, 3);
    s.history = "start 3; ";
    const int at = ch.choose(2);
    for (int d = 0; d < 2; d++) {
      const Op& op = d == at ? large[ch.choose(n_copy)]
                             : large[ch.choose(large.size())];
      if (d == 1) ch.shard();
      s.history += op.name + "; ";
      ctx.describe(s.history);
      op.run(s);
      ctx.transition();
    }
    const uint64_t h = s.observe(s.aspects);
    ctx.state(h);
    ctx.outcome(h);
    ctx.sample(s.history);
  });
}, "Every operation sequence of fixed length in which at least one operation "
   "copies or assigns the line (2 operations from three starts; 3, thorough 4, "
   "from a fully built line); afterwards everything observable is compared with "
   "the reference model of the surviving line. Non-trivial: distinct observed "
   "states.", kLineAssumptions});
