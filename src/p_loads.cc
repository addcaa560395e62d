// Cable loads, attachment equilibrium and cable positions on a line.
#include <algorithm>
#include <list>
#include <memory>

#include "fixture.h"
#include "mc.h"
#include "models/transmissionline/cable_attachment_equilibrium_solver.h"
#include "models/transmissionline/cable_position_locator.h"
#include "models/transmissionline/cable_unit_load_solver.h"
#include "models/transmissionline/catenary.h"
#include "models/transmissionline/transmission_line.h"

namespace {

using mc::cat;
using mc::Chooser;
using mc::close;
using mc::Ctx;

typedef AxisDirectionType Dir;
const double kRad = M_PI / 180;

struct V3 { double x, y, z; };
V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
V3 operator*(double s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
double norm(V3 a) { return std::sqrt(dot(a, a)); }
V3 v3(const Point3d<double>& p) { return {p.x, p.y, p.z}; }
V3 v3(const Vector3d& p) { return {p.x(), p.y(), p.z()}; }
V3 turn(V3 v, double deg) {
  const double c = std::cos(deg * kRad), s = std::sin(deg * kRad);
  return {v.x * c - v.y * s, v.x * s + v.y * c, v.z};
}
std::string show(V3 a) { return cat("(", a.x, ", ", a.y, ", ", a.z, ")"); }
double pick(Chooser& ch, const std::vector<double>& v) {
  return v[ch.choose(static_cast<int>(v.size()))];
}

// C05 -------------------------------------------------------------------------
Catenary3d curve(double a, double b, double h, double wy, double wz, Dir dir) {
  Catenary3d c;
  c.set_direction_transverse(dir);
  c.set_spacing_endpoints(Vector3d(a, 0, b));
  c.set_tension_horizontal(h);
  c.set_weight_unit(Vector3d(0, wy, wz));
  return c;
}

void c05(Ctx& ctx) {
  ctx.explore("unit loads", [&](Chooser& ch) {
    double d = pick(ch, {0.02, 0.0923, 0.2}), w = pick(ch, {0.1, 1.094, 4});
    ch.shard();
    const WeatherLoadCase wc = fx::weather("", pick(ch, {0, 0.02, 0.0833, 0.2}),
        pick(ch, {0, 37, 57}), pick(ch, {0, 0.5, 4, 40}), pick(ch, {0, 60, 200}));
    CableUnitLoadSolver s;
    s.set_diameter_cable(&d);
    s.set_weight_unit_cable(&w);
    for (int i = 0; i < 2; i++) {
      const double di = d + 2 * wc.thickness_ice;
      const V3 want = {0, di * wc.pressure_wind,
          w + wc.density_ice * M_PI / 4 * (di * di - d * d)};
      const V3 got = v3(s.UnitCableLoad(wc));
      ctx.eval();
      ctx.describe(cat("diameter ", d, " weight ", w, " ice ", wc.thickness_ice,
                       " density ", wc.density_ice, " wind ", wc.pressure_wind));
      MC_CHECK(ctx, norm(got - want) < 1e-9 * norm(want), "unit-load", "load ",
               show(got), " but should be ", show(want));
      ctx.state(mc::hash_string(ctx.description));
      // the cable is referenced, not copied
      d *= 1.5;
      w *= 2;
    }
    ctx.transition();
  });

  ctx.explore("attachment equilibrium", [&](Chooser& ch) {
    const bool t = ctx.thorough;
    const double wz = 1.094, wy = pick(ch, {0, 0.5, 3});
    const Dir wind = ch.choose(2) ? Dir::kNegative : Dir::kPositive;
    ch.shard();
    const std::vector<double> s1 = t ? std::vector<double>{200, 450, 1000, 1500}
                                     : std::vector<double>{300, 1000};
    const std::vector<double> e1 = t ? std::vector<double>{0, 30, -30, 150, -150}
                                     : std::vector<double>{0, 80, -80};
    const double ba = pick(ch, s1), bb = pick(ch, e1), bh = pick(ch, {4000, 6000});
    const double aa = pick(ch, s1), ab = pick(ch, e1), ah = pick(ch, {4000, 6000});
    const double angle = pick(ch, t ? std::vector<double>{180, 179.99, 179.2, 178, 150, 120, 90, 45, 10, 3}
                                    : std::vector<double>{180, 179.2, 150, 90, 20});
    const double hardware = pick(ch, t ? std::vector<double>{180, 165, 150, 120, 100, 90}
                                       : std::vector<double>{180, 150, 100});
    const Dir side = ch.choose(2) ? Dir::kNegative : Dir::kPositive;
    ctx.describe(cat("back ", ba, ",", bb, " H", bh, " ahead ", aa, ",", ab, " H", ah,
        " wind ", wy, wind == Dir::kPositive ? "+" : "-", " angle ", angle,
        " hardware ", hardware, side == Dir::kPositive ? " left" : " right"));
    const Catenary3d back = curve(ba, bb, bh, wy, wz, wind);
    const Catenary3d ahead = curve(aa, ab, ah, wy, wz, wind);
    CableAttachmentEquilibriumSolver s;
    s.set_angle_catenaries(angle);
    s.set_angle_hardware(hardware);
    s.set_catenary_ahead(&ahead);
    s.set_catenary_back(&back);
    s.set_direction_catenaries(side);
    // tensions in a frame with x along the bisected path and y to the left
    const double half = (180 - angle) / 2 * (side == Dir::kPositive ? 1 : -1);
    const V3 f = turn(v3(back.Tension(1, Dir::kNegative)), -half) +
                 turn(v3(ahead.Tension(0, Dir::kPositive)), half);
    const double sign = side == Dir::kPositive ? 1 : -1;
    double eq = std::atan2(sign * f.y, f.z) / kRad;
    if (eq < 0) eq += 360;
    const double off = std::fabs(s.AngleEquilibrium() - eq);
    MC_CHECK(ctx, off < 1e-4 || std::fabs(off - 360) < 1e-4, "equilibrium-angle",
             "equilibrium angle ", s.AngleEquilibrium(), " but the cable pulls at ",
             eq);
    const V3 u = {0, sign * std::sin(hardware * kRad), std::cos(hardware * kRad)};
    const double imbalance = norm(f - norm(f) * u);
    MC_CHECK(ctx, close(s.TensionImbalance(), imbalance, 1e-5, 1e-3 * norm(f) * 1e-2),
             "imbalance", "imbalance ", s.TensionImbalance(), " but should be ",
             imbalance);
    MC_CHECK(ctx, s.Validate(), "validate", "valid inputs are reported invalid");
    // the equilibrium angle balances everything but the pull along the path
    if (eq <= 180) {
      s.set_angle_hardware(s.AngleEquilibrium());
      const V3 e = {0, sign * std::sin(eq * kRad), std::cos(eq * kRad)};
      MC_CHECK(ctx, close(s.TensionImbalance(), norm(f - norm(f) * e), 1e-4,
                          1e-4 * norm(f)), "balanced", "imbalance ",
               s.TensionImbalance(), " remains at the equilibrium angle");
    }
    ctx.eval(3);
    ctx.transition();
    ctx.state(mc::hash_string(ctx.description));
    ctx.outcome(mc::hash_double(eq));
    ctx.sample(ctx.description + cat(": ", eq, " deg, ", imbalance));
  });

  // the curves are objects of the caller, edited in place and set again
  struct S {
    Catenary3d back, ahead;
    CableAttachmentEquilibriumSolver s;
    S() {}
    S(const S& o) : back(o.back), ahead(o.ahead), s(o.s) { own(); }
    void operator=(const S& o) { back = o.back; ahead = o.ahead; s = o.s; own(); }
    void own() { s.set_catenary_back(&back); s.set_catenary_ahead(&ahead); }
  };
  static const Catenary3d curves[] = {
      curve(300, 0, 4000, 0.5, 1, Dir::kPositive),
      curve(300, 0, 4002, 0.5, 1, Dir::kPositive),
      curve(900, 80, 4000, 0.5, 1, Dir::kPositive),
      curve(600, -20, 6000, 0, 1, Dir::kPositive)};
  mc::HistSpec<S> h;
  h.name = "attachment equilibrium";
  auto an = [](double v) { return [v](S& s) { s.s.set_angle_catenaries(v); }; };
  auto ha = [](double v) { return [v](S& s) { s.s.set_angle_hardware(v); }; };
  auto ba = [](int i) { return [i](S& s) { s.back = curves[i]; s.s.set_catenary_back(&s.back); }; };
  auto ah = [](int i) { return [i](S& s) { s.ahead = curves[i]; s.s.set_catenary_ahead(&s.ahead); }; };
  auto di = [](Dir d) { return [d](S& s) { s.s.set_direction_catenaries(d); }; };
  h.inputs = {{"angle", {{"180", an(180)}, {"120", an(120)}, {"180.2", an(180.2)}, {"190", an(190)}}},
              {"hardware", {{"180", ha(180)}, {"180.2", ha(180.2)}, {"130", ha(130)}}},
              {"back", {{"0", ba(0)}, {"0 near", ba(1)}, {"1", ba(2)}, {"2", ba(3)}}},
              {"ahead", {{"0", ah(0)}, {"0 near", ah(1)}, {"1", ah(2)}, {"2", ah(3)}}},
              {"direction", {{"+", di(Dir::kPositive)}, {"-", di(Dir::kNegative)}}}};
  h.queries = {
      {"AngleEquilibrium", [](const S& s) { return std::vector<double>{s.s.AngleEquilibrium()}; }},
      {"TensionImbalance", [](const S& s) { return std::vector<double>{s.s.TensionImbalance()}; }},
      {"Validate", [](const S& s) { return std::vector<double>{double(s.s.Validate())}; }}};
  const auto near_back = [](S& s, double sx, double sz, double t, double y, double z) {
    s.back = curve(sx, sz, t, y, z, Dir::kPositive); s.s.set_catenary_back(&s.back); };
  const auto near_ahead = [](S& s, double sx, double sz, double t, double y, double z) {
    s.ahead = curve(sx, sz, t, y, z, Dir::kPositive); s.s.set_catenary_ahead(&s.ahead); };
  h.near = {
      {"back span", [=](S& s, double f) { near_back(s, 300 * f, 0, 4000, 0.5, 1); }},
      {"back tension", [=](S& s, double f) { near_back(s, 300, 0, 4000 * f, 0.5, 1); }},
      {"back load", [=](S& s, double f) { near_back(s, 300, 0, 4000, 0.5, f); }},
      {"ahead rise", [=](S& s, double f) { near_ahead(s, 300, 300 * (f - 1), 4000, 0.5, 1); }},
      {"ahead tension", [=](S& s, double f) { near_ahead(s, 300, 0, 4000 * f, 0.5, 1); }},
      {"ahead wind", [=](S& s, double f) { near_ahead(s, 300, 0, 4000, 0.5 * f, 1); }},
      {"angle", [](S& s, double f) { s.s.set_angle_catenaries(180 * f); }},
      {"hardware", [](S& s, double f) { s.s.set_angle_hardware(180 * f); }}};
  h.with_copy = true;
  mc::explore_histories(ctx, h, ctx.thorough ? 6 : 5);
}

// C06 -------------------------------------------------------------------------
struct Spec {
  double heading;              // of the first segment
  double turn[32];              // line angles (left positive)
  double height[32];            // structure height adjustments
  double length[32];            // spans
  double offset[32];            // structure offsets of the intermediate structures
  double ox, oy, oz;
  int n;                       // structures
  int hardware[32];             // of the intermediate structures, see Kind
};
enum Kind { kSuspension, kShort };

struct World {
  Structure base;
  Hardware dead, suspension, suspension_short;
  Cable cable;
  WeatherLoadCase wc;
  TransmissionLine line;
  const Hardware* hardware(int k) const {
    return k == kShort ? &suspension_short : &suspension;
  }
  explicit World(const Spec& s) {
    base.name = "S";
    base.height = 100;
    StructureAttachment a;
    a.offset_longitudinal = 0;
    a.offset_transverse = 0;
    a.offset_vertical_top = 0;
    base.attachments = {a};
    a.offset_transverse = 6;
    a.offset_longitudinal = 1;
    a.offset_vertical_top = -4;
    base.attachments.push_back(a);
    for (Hardware* h : {&dead, &suspension, &suspension_short}) {
      h->name = "H";
      h->area_cross_section = 1;
      h->length = h == &dead ? 5 : h == &suspension ? 8 : 3.5;
      h->weight = 50;
    }
    dead.type = Hardware::HardwareType::kDeadEnd;
    suspension.type = Hardware::HardwareType::kSuspension;
    suspension_short.type = Hardware::HardwareType::kSuspension;
    cable = fx::drake();
    wc = fx::weather("w", 0, 0, 0, 60);
    double station = 1000;
    const int last = s.n - 1;
    for (int i = 0; i <= last; i++) {
      AlignmentPoint p;
      p.station = station;
      p.elevation = 0;
      p.rotation = i == 0 ? s.heading : (i < last ? s.turn[i - 1] : 0);
      line.AddAlignmentPoint(p);
      if (i < last) station += s.length[i];
    }
    Point3d<double> o;
    o.x = s.ox; o.y = s.oy; o.z = s.oz;
    line.set_origin(o);
    station = 1000;
    for (int i = 0; i <= last; i++) {
      LineStructure l;
      l.set_station(station);
      l.set_height_adjustment(s.height[i]);
      l.set_offset(0 < i && i < last ? s.offset[i - 1] : 0);
      l.set_rotation(0);
      l.set_structure(&base);
      const Hardware* h = i == 0 || i == last ? &dead : hardware(s.hardware[i - 1]);
      l.AttachHardware(0, h);
      l.AttachHardware(1, h);
      line.AddLineStructure(l);
      if (i < last) station += s.length[i];
    }
    for (int att = 0; att < 2; att++) {
      LineCable c;
      c.set_cable(&cable);
      CableConstraint con;
      con.limit = 6000;
      con.case_weather = &wc;
      con.condition = CableConditionType::kInitial;
      con.note = "n";
      con.type_limit = CableConstraint::LimitType::kHorizontalTension;
      c.set_constraint(con);
      c.set_spacing_attachments_ruling_span(Vector3d(1000, 0, 0));
      c.set_weathercase_stretch_creep(&wc);
      c.set_weathercase_stretch_load(&wc);
      for (auto i = line.line_structures()->cbegin();
           i != line.line_structures()->cend(); i++) {
        LineCableConnection k;
        k.line_structure = &*i;
        k.index_attachment = att;
        c.AddConnection(k);
      }
      line.AddLineCable(c);
    }
  }
};

struct Answer {
  std::vector<V3> attachments;
  std::vector<std::vector<V3>> spans;
};

Answer locate(const World& w, int cable, double h, const Vector3d& load, Dir dir) {
  const int spans = w.line.line_structures()->size() - 1;
  CablePositionLocator l;
  l.set_direction_wind(dir);
  l.set_index_line_cable(cable);
  l.set_tension_horizontal(h);
  l.set_transmission_line(&w.line);
  l.set_weight_unit(&load);
  Answer a;
  if (auto* p = l.PointsCableAttachment())
    for (auto& q : *p) a.attachments.push_back(v3(q));
  for (int i = 0; i < spans; i++) {
    a.spans.push_back({});
    for (auto& q : l.PointsCable(i, 9)) a.spans.back().push_back(v3(q));
  }
  return a;
}

void check_line(Ctx& ctx, Spec s, int cable, double h, double wy, Dir dir, const std::string& d,
                const std::vector<double>& headings) {
  const Vector3d load(0, wy, 1.1);
  Answer first;
  for (size_t k = 0; k < headings.size(); k++) {
    s.heading = headings[k];
    s.ox = k * 137.0; s.oy = -50.0 * k; s.oz = 10.0 * k;
    ctx.describe(d + cat(" heading ", s.heading));
    const World w(s);
    MC_CHECK(ctx, w.line.line_cables()->size() == 2, "setup", "cable refused");
    const Answer a = locate(w, cable, h, load, dir);
    if (a.attachments.empty() && h > 9000) {
      // the iteration may not settle when a tight cable holds the hardware
      // against its weight, which has to be said and not answered
      CablePositionLocator l;
      l.set_direction_wind(dir);
      l.set_index_line_cable(cable);
      l.set_tension_horizontal(h);
      l.set_transmission_line(&w.line);
      l.set_weight_unit(&load);
      MC_CHECK(ctx, !l.Validate(), "unsolved", "no attachment points but valid");
      for (auto& sp : a.spans) MC_CHECK(ctx, sp.empty(), "unsolved", "span points without attachment points");
      return;
    }
    MC_CHECK(ctx, static_cast<int>(a.attachments.size()) == s.n, "unsolved", "no attachment points");
    ctx.eval();
    // attachments of the structures
    std::vector<V3> att;
    for (int i = 0; i < s.n; i++) {
      const Point3d<double> p = w.line.PointXyzLineStructureAttachment(i, cable);
      att.push_back(v3(p));
    }
    const auto fixed = [&](int i) { return i == 0 || i == s.n - 1; };
    for (int i = 0; i < s.n; i++)
      if (fixed(i)) MC_CHECK(ctx, norm(a.attachments[i] - att[i]) < 1e-6, "dead-end",
               "dead-end ", i, " is at ", show(a.attachments[i]), " but the "
               "structure attachment is at ", show(att[i]));
    // spans
    for (int i = 0; i < s.n - 1; i++) {
      const V3 p = a.attachments[i], q = a.attachments[i + 1];
      const double hx = q.x - p.x, hy = q.y - p.y, len = std::hypot(hx, hy);
      const Catenary3d c = curve(len, q.z - p.z, h, wy, 1.1, dir);
      MC_CHECK(ctx, a.spans[i].size() == 9, "span-points", "span ", i, " has ",
               a.spans[i].size(), " points");
      for (int j = 0; j < 9; j++) {
        const V3 k3 = v3(c.Coordinate(j / 8.0));
        const V3 want = p + V3{(k3.x * hx - k3.y * hy) / len,
                               (k3.x * hy + k3.y * hx) / len, k3.z};
        MC_CHECK(ctx, norm(a.spans[i][j] - want) < 1e-3, "span-points", "point ",
                 j, " of span ", i, " is ", show(a.spans[i][j]),
                 " but should be ", show(want));
      }
    }
    // suspension hardware: length, plane and force balance
    for (int i = 1; i < s.n - 1; i++) {
      if (fixed(i)) continue;
      const V3 arm = a.attachments[i] - att[i];
      MC_CHECK(ctx, close(norm(arm), w.hardware(s.hardware[i - 1])->length, 1e-6), "hardware-length",
               "hardware ", i, " has length ", norm(arm));
      auto unit = [](V3 v) { const double n = std::hypot(v.x, v.y);
                             return V3{v.x / n, v.y / n, 0}; };
      const V3 sb = unit(att[i] - att[i - 1]), sa = unit(att[i + 1] - att[i]);
      const V3 path = unit(sa + sb);
      MC_CHECK(ctx, std::fabs(dot(arm, path)) < 1e-3, "hardware-plane",
               "hardware ", i, " leaves the bisecting plane");
      const V3 hb = unit(a.attachments[i] - a.attachments[i - 1]);
      const V3 ha = unit(a.attachments[i + 1] - a.attachments[i]);
      auto tension = [&](int from, V3 e, double pos, Dir td) {
        const V3 p = a.attachments[from], q = a.attachments[from + 1];
        const Catenary3d c = curve(std::hypot(q.x - p.x, q.y - p.y), q.z - p.z, h,
                                   wy, 1.1, dir);
        const V3 t = v3(c.Tension(pos, td));
        return V3{t.x * e.x - t.y * e.y, t.x * e.y + t.y * e.x, t.z};
      };
      const V3 f = tension(i - 1, hb, 1, Dir::kNegative) +
                   tension(i, ha, 0, Dir::kPositive);
      const V3 left = {-path.y, path.x, 0};
      const double fl = dot(f, left), fz = f.z;
      const double mag = std::hypot(fl, fz);
      const double cross = (dot(arm, left) * fz - arm.z * fl) / norm(arm);
      const double along = (dot(arm, left) * fl + arm.z * fz) / norm(arm);
      MC_CHECK(ctx, std::fabs(cross) < 12 + 0.002 * mag && along > 0,
               "equilibrium", "hardware ", i, " points along ", show(arm),
               " but the cable pulls with ", show(f), " (unbalanced ", cross, ")");
      ctx.eval(4);
    }
    // same answer in the frame of the line, whatever the heading and origin
    Answer local = a;
    auto to_local = [&](V3 p) {
      return turn(p - V3{s.ox, s.oy, s.oz}, -s.heading);
    };
    for (auto& p : local.attachments) p = to_local(p);
    for (auto& v : local.spans) for (auto& p : v) p = to_local(p);
    if (k == 0) { first = local; }
    for (int i = 0; i < s.n; i++)
      MC_CHECK(ctx, norm(local.attachments[i] - first.attachments[i]) < 0.05,
               "heading", "attachment ", i, " moves to ",
               show(local.attachments[i]), " from ", show(first.attachments[i]),
               " when the line is turned");
    ctx.transition();
    uint64_t hs = mc::hash_string(ctx.description);
    ctx.state(hs);
    for (auto& p : local.attachments)
      hs = mc::hash_mix(hs, mc::hash_double(p.x + 3 * p.y + 7 * p.z));
    ctx.outcome(hs);
  }
  ctx.sample(d + cat(": ", show(first.attachments[1])));
}

void c06(Ctx& ctx) {
  ctx.explore("cable on a line", [&](Chooser& ch) {
    const bool th = ctx.thorough;
    Spec s = {};
    s.n = 4;
    s.turn[0] = pick(ch, th ? mc::refine({0, 2, -2, 40, -40, 85, -85}, 1)
                            : std::vector<double>{0, 20, -20, 85});
    s.turn[1] = pick(ch, th ? std::vector<double>{0, 2, -2, 40, -40, -85}
                            : std::vector<double>{0, 3, -30});
    ch.shard();
    const int shape = ch.choose(th ? 4 : 3);
    const double heights[4][4] = {{0, 0, 0, 0}, {0, 15, 25, 5}, {0, -10, 0, 20},
                                  {-5, 4, 0, 6}};
    const double lengths[4][3] = {{1000, 1000, 1000}, {700, 1100, 900},
                                  {1000, 600, 1000}, {1200, 800, 500}};
    for (int i = 0; i < 4; i++) s.height[i] = heights[shape][i];
    for (int i = 0; i < 3; i++) s.length[i] = lengths[shape][i];
    s.offset[0] = shape == 2 ? 3 : 0;
    s.offset[1] = shape == 1 ? -5 : 0;
    const double wy = pick(ch, th ? mc::refine({0, 0.3, 1, 2.5}, 1)
                                  : std::vector<double>{0, 0.8, 2.5});
    const Dir dir = ch.choose(2) ? Dir::kNegative : Dir::kPositive;
    const double h = pick(ch, th ? std::vector<double>{3000, 4500, 6000, 9000, 14000}
                                 : std::vector<double>{4000, 8000});
    const int cable = ch.choose(2);
    const std::string d = cat("turns ", s.turn[0], ",", s.turn[1], " shape ", shape,
        " wind ", wy, dir == Dir::kPositive ? "+" : "-", " H ", h, " cable ", cable);
    check_line(ctx, s, cable, h, wy, dir, d, th ?
        std::vector<double>{0, 30, 77, 90, 135, 180, 210, 270, 300, 345} :
        std::vector<double>{0, 90, 200, 345});
  });
  ctx.explore("hardware and number of spans", [&](Chooser& ch) {
    const bool th = ctx.thorough;
    Spec s = {};
    s.n = 2 + ch.choose(4);
    const int inner = s.n - 2;
    std::string d = cat(s.n, " structures, hardware");
    for (int i = 0; i < inner; i++) {
      s.hardware[i] = ch.choose(2);
      d += (s.hardware[i] == kShort ? " short" : " long");
    }
    ch.shard();
    for (int i = 0; i < inner; i++) s.turn[i] = pick(ch, i == 0 || th ? std::vector<double>{0, 15, -40} :
                                                        std::vector<double>{0, -8});
    const int shape = ch.choose(th ? 3 : 2);
    const double heights[3][5] = {{0, 0, 0, 0, 0}, {0, 12, 20, 15, 4}, {-3, 6, 4, 9, -5}};
    const double lengths[3][4] = {{900, 900, 900, 900}, {1000, 700, 1100, 800}, {500, 1200, 900, 1000}};
    for (int i = 0; i < s.n; i++) s.height[i] = heights[shape][i];
    for (int i = 0; i < s.n - 1; i++) s.length[i] = lengths[shape][i];
    for (int i = 0; i < inner; i++) s.offset[i] = shape == 1 ? i - 1 : 0;
    const double wy = pick(ch, th ? std::vector<double>{0, 0.8, 2.5} : std::vector<double>{0, 0.8});
    const Dir dir = wy > 0 && ch.choose(2) ? Dir::kNegative : Dir::kPositive;
    const double h = pick(ch, th ? std::vector<double>{4000, 8000} : std::vector<double>{5000});
    const int cable = ch.choose(2);
    d += cat(" turns ", s.turn[0], ",", s.turn[1], ",", s.turn[2], " shape ", shape, " wind ", wy,
             dir == Dir::kPositive ? "+" : "-", " H ", h, " cable ", cable);
    check_line(ctx, s, cable, h, wy, dir, d, {0, 200});
  });
  ctx.explore("long section", [&](Chooser& ch) {
    const int sizes[] = {7, 11, 16, 30};
    Spec s = {};
    s.n = sizes[ch.choose(4)];
    const int bend = ch.choose(4), shape = ch.choose(3), cable = ch.choose(2);
    ch.shard();
    for (int i = 0; i < s.n; i++) {
      s.height[i] = shape == 0 ? 0 : shape == 1 ? i * 7 % 11 : i * 5 % 13 * 0.8;
      s.length[i] = shape == 0 ? 900 : 700 + i * 3 % 7 * 70;
      if (i == s.n - 2) break;
      // straight, a curve to one side, both sides, one bend near the end
      s.turn[i] = bend == 0 ? 0 : bend == 1 ? 4 : bend == 2 ? (i % 2 ? -20 : 25) : i == s.n - 4 ? -50 : 0;
      s.offset[i] = shape == 2 ? i % 3 - 1 : 0;
      s.hardware[i] = shape == 2 && i % 3 == 1 ? kShort : kSuspension;
    }
    s.height[s.n - 1] = shape == 0 ? 0 : 6;
    const double wy = pick(ch, {0, 0.8});
    const Dir dir = wy > 0 && ch.choose(2) ? Dir::kNegative : Dir::kPositive;
    const double h = pick(ch, {4000, 6000});
    check_line(ctx, s, cable, h, wy, dir,
               cat(s.n, " structures, bend ", bend, " shape ", shape, " wind ", wy,
                   dir == Dir::kPositive ? "+" : "-", " H ", h, " cable ", cable), {0, 200});
  });

  // queries out of range, and history of the inputs
  static World* worlds[2] = {nullptr, nullptr};
  Spec s = {0, {30, -10}, {0, 10, 0, 0}, {1000, 900, 800}, {0, 2}, 0, 0, 0, 4, {kSuspension, kShort}};
  worlds[0] = new World(s);
  s.turn[0] = -20;
  s.heading = 100;
  worlds[1] = new World(s);
  static const Vector3d loads[] = {Vector3d(0, 0, 1.1), Vector3d(0, 1, 1.1)};
  typedef CablePositionLocator L;
  mc::HistSpec<L> h;
  h.name = "cable locator";
  auto ln = [](int i) { return [i](L& l) { l.set_transmission_line(&worlds[i]->line); }; };
  auto ca = [](int i) { return [i](L& l) { l.set_index_line_cable(i); }; };
  auto te = [](double v) { return [v](L& l) { l.set_tension_horizontal(v); }; };
  auto lo = [](int i) { return [i](L& l) { l.set_weight_unit(&loads[i]); }; };
  auto di = [](Dir d) { return [d](L& l) { l.set_direction_wind(d); }; };
  h.inputs = {{"line", {{"0", ln(0)}, {"1", ln(1)}}},
              {"cable", {{"0", ca(0)}, {"1", ca(1)}, {"-1", ca(-1)}, {"2", ca(2)}}},
              {"H", {{"6000", te(6000)}, {"6002", te(6002)}, {"3000", te(3000)}}},
              {"load", {{"0", lo(0)}, {"1", lo(1)}}},
              {"wind", {{"+", di(Dir::kPositive)}, {"-", di(Dir::kNegative)}}}};
  auto span = [](int i) {
    return [i](const L& l) {
      std::vector<double> v;
      for (auto& p : l.PointsCable(i, 3)) { v.push_back(p.x); v.push_back(p.y); v.push_back(p.z); }
      return v;
    };
  };
  h.queries = {
      {"attachments", [](const L& l) {
         std::vector<double> v;
         if (auto* a = l.PointsCableAttachment())
           for (auto& p : *a) { v.push_back(p.x); v.push_back(p.y); v.push_back(p.z); }
         return v; }},
      {"span0", span(0)}, {"span2", span(2)}, {"span-1", span(-1)}, {"span3", span(3)},
      {"Validate", [](const L& l) { return std::vector<double>{double(l.Validate())}; }}};
  h.near = {{"H", [](L& l, double f) { l.set_tension_horizontal(6000 * f); }}};
  h.with_copy = true;
  h.rel = 1e-9;
  mc::explore_histories(ctx, h, 5);
  {
    // a line and a load that are edited in place and set again
    struct LH {
      Spec s;
      std::shared_ptr<World> w;
      Vector3d load;
      L l;
      void structure(double height, int hw) {
        LineStructure x = *std::next(w->line.line_structures()->begin());
        x.set_height_adjustment(height);
        for (int i = 0; i < 2; i++) { x.DetachHardware(i); x.AttachHardware(i, w->hardware(hw)); }
        w->line.ModifyLineStructure(1, x);
        l.set_transmission_line(&w->line);
      }
      void turn(double angle) {
        AlignmentPoint p = *std::next(w->line.alignment()->points()->begin());
        p.rotation = angle;
        w->line.ModifyAlignmentPoint(1, p);
        l.set_transmission_line(&w->line);
      }
    };
    mc::HistSpec<LH> e;
    e.name = "cable locator with edited line";
    e.init = [s](LH& x) {
      x.s = s;
      x.w.reset(new World(s));
      x.l.set_transmission_line(&x.w->line);
      x.l.set_index_line_cable(0);
      x.l.set_tension_horizontal(6000);
      x.l.set_direction_wind(Dir::kPositive);
    };
    const auto st = [](double height, int hw) { return [=](LH& x) { x.structure(height, hw); }; };
    const auto tu = [](double angle) { return [=](LH& x) { x.turn(angle); }; };
    const auto we = [](double y, double z) { return [=](LH& x) {
      x.load = Vector3d(0, y, z); x.l.set_weight_unit(&x.load); }; };
    e.inputs = {{"structure", {{"10 long", st(10, kSuspension)}, {"10.1 long", st(10.1, kSuspension)},
                               {"10 short", st(10, kShort)}}},
                {"turn", {{"20", tu(20)}, {"20.1", tu(20.1)}, {"-5", tu(-5)}}},
                {"load", {{"0,1.1", we(0, 1.1)}, {"0,1.101", we(0, 1.101)}, {"0.4,1.1", we(0.4, 1.1)}}}};
    const auto sp = [](int i) { return [i](const LH& x) {
      std::vector<double> v;
      for (auto& p : x.l.PointsCable(i, 3)) { v.push_back(p.x); v.push_back(p.y); v.push_back(p.z); }
      return v; }; };
    e.queries = {
        {"attachments", [](const LH& x) {
           std::vector<double> v;
           if (auto* a = x.l.PointsCableAttachment())
             for (auto& p : *a) { v.push_back(p.x); v.push_back(p.y); v.push_back(p.z); }
           return v; }},
        {"span1", sp(1)},
        {"Validate", [](const LH& x) { return std::vector<double>{double(x.l.Validate())}; }}};
    e.near = {{"height", [](LH& x, double f) { x.structure(10 * f, kSuspension); }},
              {"turn", [](LH& x, double f) { x.turn(20 * f); }},
              {"weight", [](LH& x, double f) { x.load = Vector3d(0, 0, 1.1 * f); x.l.set_weight_unit(&x.load); }},
              {"wind", [](LH& x, double f) { x.load = Vector3d(0, f - 1, 1.1); x.l.set_weight_unit(&x.load); }},
              {"H", [](LH& x, double f) { x.l.set_tension_horizontal(6000 * f); }}};
    e.rel = 1e-9;
    mc::explore_histories(ctx, e, ctx.thorough ? 6 : 5);
  }
  ctx.explore("number of points", [&](Chooser& ch) {
    const int w = ch.choose(2), cable = ch.choose(2), sp = ch.choose(3);
    const Dir dir = ch.choose(2) ? Dir::kNegative : Dir::kPositive;
    const int n = pick(ch, std::vector<double>{2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 25, 50, 64, 99, 100, 101,
                                            256, 500, 1000, 1001, 2500, 5000, 20000});
    L l;
    l.set_direction_wind(dir);
    l.set_index_line_cable(cable);
    l.set_tension_horizontal(5000);
    l.set_transmission_line(&worlds[w]->line);
    l.set_weight_unit(&loads[1]);
    const std::string d = cat("line ", w, " cable ", cable, " span ", sp, " points ", n);
    ctx.describe(d);
    const auto* at = l.PointsCableAttachment();
    MC_CHECK(ctx, at && at->size() == 4, "points", "no attachments");
    const V3 a = v3((*at)[sp]), b = v3((*at)[sp + 1]);
    const double e = std::hypot(b.x - a.x, b.y - a.y);
    const Catenary3d c = curve(e, b.z - a.z, 5000, 1, 1.1, dir);
    const auto points = l.PointsCable(sp, n);
    MC_CHECK(ctx, static_cast<int>(points.size()) == n, "points", "got ", points.size());
    int i = -1;
    for (const auto& p : points) {
      i++;
      const V3 q = v3(c.Coordinate(double(i) / (n - 1)));
      const V3 want = {a.x + (q.x * (b.x - a.x) - q.y * (b.y - a.y)) / e,
                       a.y + (q.x * (b.y - a.y) + q.y * (b.x - a.x)) / e, a.z + q.z};
      MC_CHECK(ctx, norm(v3(p) - want) < 1e-6, "points", "point ", i, " is ",
               show(v3(p)), " but the cable is at ", show(want));
    }
    ctx.eval(n);
    ctx.transition();
    ctx.state(mc::hash_string(d));
  });
  ctx.explore("range of spans and cables", [&](Chooser& ch) {
    const int cable = ch.choose(5) - 1, sp = ch.choose(7) - 2, n = ch.choose(4);
    L l;
    l.set_direction_wind(Dir::kPositive);
    l.set_index_line_cable(cable);
    l.set_tension_horizontal(6000);
    l.set_transmission_line(&worlds[0]->line);
    l.set_weight_unit(&loads[1]);
    ctx.describe(cat("cable ", cable, " span ", sp, " points ", n));
    const bool good = 0 <= cable && cable < 2;
    MC_CHECK(ctx, (l.PointsCableAttachment() != nullptr) == good, "range",
             "attachment points for an invalid cable (or none for a valid one)");
    const size_t want = good && 0 <= sp && sp < 3 ? n : 0;
    MC_CHECK(ctx, l.PointsCable(sp, n).size() == want, "range", "got ",
             l.PointsCable(sp, n).size(), " points");
    MC_CHECK(ctx, l.Validate() == good, "validate", "validity of cable ", cable);
    ctx.eval(3);
    ctx.state(mc::hash_string(ctx.description));
  });
}

mc::Register r5({"C05", c05,
  "every combination of cable, ice, wind; every pair of spans x line angle x hardware angle x side; every input history",
  {"tensions of a single span are decided by C01/C02"}});
mc::Register r6({"C06", c06,
  "every four-structure line of the grid (line angles, heights, offsets, load, tension) in every heading; every line of two to five structures with every combination of hardware; lines of 7, 11, 16 and 30 structures; every input history",
  {"suspension hardware moves in the vertical plane bisecting the line angle, as documented",
   "lines are without uplift: every suspension carries a substantial part of the cable weight", "force balance is required up to the iteration precision"}});

}  // namespace
