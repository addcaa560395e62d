// Catenary curves, catenary solving and their history independence.
#include <algorithm>
#include <list>

#include "fixture.h"
#include "mc.h"
#include "models/transmissionline/catenary.h"
#include "models/transmissionline/catenary_solver.h"

namespace {

using mc::cat;
using mc::Chooser;
using mc::close;
using mc::Ctx;

const double kRad = M_PI / 180;

typedef AxisDirectionType Dir;

// One point of the parameter grid: spans, height differences, loads and
// catenary constants (as multiples of the chord).
struct Span {
  double a, b, h, wy, wz;
  Dir dir;
};

std::vector<double> spans(int t) {
  return mc::refine({20, 61.5, 140, 300, 777.7, 1000, 1900, 3300}, t);
}
std::vector<double> slopes(int t) {
  return mc::refine({0, 0.00002, -0.00002, 0.0003, -0.0003, 0.001, -0.001, 0.02, -0.02, 0.13, -0.13, 0.4, -0.4, 0.75,
                 -0.75}, t);
}
std::vector<double> constants(bool t) {        // H/w in chords
  (void)t;
  return {0.5000001, 0.55, 0.7, 1, 1.7, 3, 6, 12, 40, 100, 400};
}
std::vector<double> weights(int t) {
  return mc::refine({0.06, 0.5, 1.094, 5, 18}, t);
}

double pick(Chooser& ch, const std::vector<double>& v) {
  return v[ch.choose(static_cast<int>(v.size()))];
}

// C01 -------------------------------------------------------------------------
void check_2d(Ctx& ctx, const Catenary2d& c, double a, double b, double h,
              double w, int n) {
  const double k = h / w;
  const double chord = std::hypot(a, b);
  const double len = std::sqrt(b * b + std::pow(2 * k * std::sinh(a / (2 * k)),
                                                2));
  const double tol = 1e-7 * chord;
  MC_CHECK(ctx, c.Validate(true, nullptr), "valid",
           "a curve in range is reported invalid");
  MC_CHECK(ctx, close(c.Constant(), k, 1e-12), "constant", "constant ",
           c.Constant(), " should be ", k);
  MC_CHECK(ctx, close(c.Length(), len, 1e-9), "length", "length ", c.Length(),
           " should be ", len);
  MC_CHECK(ctx, close(c.LengthSlack(), len - chord, 1e-9, 1e-9 * chord), "slack",
           "slack ", c.LengthSlack(), " should be ", len - chord);
  // left end, found by bisection of the height difference
  double lo = -60 * k - a, hi = 60 * k;
  for (int i = 0; i < 200; i++) {
    const double x = (lo + hi) / 2;
    const double rise = 2 * k * std::sinh((x + a / 2) / k) *
                        std::sinh(a / (2 * k));
    if (rise < b) lo = x; else hi = x;
  }
  const double xl = (lo + hi) / 2, xr = xl + a;
  auto shape = [&](double x) { return k * (std::cosh(x / k) - 1); };
  double sag_max = -1, tension_max = 0, integral = 0;
  Point2d<double> last;
  const Point2d<double> p0 = c.Coordinate(0);
  for (int i = 0; i <= n; i++) {
    const double f = static_cast<double>(i) / n;
    // independent location of the point at arc length f * len
    const double s = k * std::sinh(xl / k) + f * len;
    const double x = k * std::asinh(s / k), y = shape(x);
    const Point2d<double> p = c.Coordinate(f), ps = c.Coordinate(f, true);
    MC_CHECK(ctx, close(p.x, x, 1e-9, tol) && close(p.y, y, 1e-9, tol),
             "coordinate", "point at ", f, " is ", p.x, ",", p.y,
             " but should be ", x, ",", y);
    MC_CHECK(ctx, close(ps.x, x - xl, 1e-9, tol) &&
             close(ps.y, y - shape(xl), 1e-9, tol), "coordinate-shifted",
             "shifted point at ", f, " is ", ps.x, ",", ps.y);
    if (i == n)
      MC_CHECK(ctx, close(ps.x, a, 1e-9, tol) && close(ps.y, b, 1e-9, tol),
               "endpoint", "the curve ends at ", ps.x, ",", ps.y);
    const double chord_y = shape(xl) + b * (x - xl) / a;
    const Point2d<double> q = c.CoordinateChord(f), qs = c.CoordinateChord(f, true);
    MC_CHECK(ctx, close(q.x, x, 1e-9, tol) && close(q.y, chord_y, 1e-9, tol),
             "chord", "chord point at ", f, " is ", q.x, ",", q.y);
    MC_CHECK(ctx, close(qs.x, x - xl, 1e-9, tol) &&
             close(qs.y, chord_y - shape(xl), 1e-9, tol), "chord-shifted",
             "shifted chord point at ", f, " is ", qs.x, ",", qs.y);
    const double sag = c.Sag(f);
    MC_CHECK(ctx, close(sag, chord_y - y, 1e-9, tol), "sag", "sag at ", f, " is ",
             sag, " but should be ", chord_y - y);
    sag_max = std::max(sag_max, sag);
    const double t = h + w * y;
    MC_CHECK(ctx, close(c.Tension(f), t, 1e-9, 1e-9 * h), "tension", "tension at ",
             f, " is ", c.Tension(f), " but should be ", t);
    tension_max = std::max(tension_max, c.Tension(f));
    integral += t * ((i == 0 || i == n) ? 1 : (i % 2 ? 4 : 2));
    const double angle = std::atan(std::sinh(x / k)) / kRad;
    const double ap = c.TangentAngle(f, Dir::kPositive);
    const double an = c.TangentAngle(f, Dir::kNegative);
    MC_CHECK(ctx, close(ap, angle, 1e-8, 1e-7) && close(an, -angle, 1e-8, 1e-7),
             "tangent-angle", "tangent angles at ", f, " are ", ap, " and ", an,
             " but should be +-", angle);
    const Vector2d vp = c.TangentVector(f, Dir::kPositive);
    const Vector2d vn = c.TangentVector(f, Dir::kNegative);
    const double ux = std::cos(angle * kRad), uy = std::sin(angle * kRad);
    MC_CHECK(ctx, close(vp.x(), ux, 0, 1e-8) && close(vp.y(), uy, 0, 1e-8) &&
             close(vn.x(), -ux, 0, 1e-8) && close(vn.y(), -uy, 0, 1e-8),
             "tangent-vector", "tangent vectors at ", f, " are ", vp.x(), ",",
             vp.y(), " and ", vn.x(), ",", vn.y());
    const Vector2d tp = c.Tension(f, Dir::kPositive);
    MC_CHECK(ctx, close(tp.x(), h, 1e-7) && close(tp.y(), t * uy, 1e-7, 1e-7 * h),
             "tension-vector", "tension vector at ", f, " is ", tp.x(), ",",
             tp.y());
    const double back = c.PositionFraction(ap);
    MC_CHECK(ctx, close(back, f, 1e-6, 1e-6 * (1 + k / chord)), "position-inverse",
             "the position with the tangent angle of ", f, " is ", back);
    ctx.eval(12);
    if (i) {
      const double step = std::hypot(p.x - last.x, p.y - last.y);
      MC_CHECK(ctx, step <= len / n * (1 + 1e-6) + 1e-9, "arc-length",
               "points ", i - 1, " and ", i, " are further apart than the arc");
    }
    last = p;
  }
  (void)p0;
  MC_CHECK(ctx, close(c.TangentAngle(c.PositionFractionOrigin(), Dir::kPositive),
                      0, 0, 1e-6), "origin", "the low point is not level");
  MC_CHECK(ctx, close(c.TangentAngle(c.PositionFractionSagPoint(), Dir::kPositive),
                      std::atan2(b, a) / kRad, 1e-6, 1e-6), "sag-point",
           "the curve is not parallel to the chord at the sag point");
  MC_CHECK(ctx, c.Sag() >= sag_max - tol && close(c.Sag(),
           c.Sag(c.PositionFractionSagPoint()), 1e-9, tol), "sag-max", "sag ",
           c.Sag(), " is not the largest sag ", sag_max);
  MC_CHECK(ctx, close(c.TensionMax(), tension_max, 1e-9), "tension-max",
           "max tension ", c.TensionMax(), " but the curve reaches ",
           tension_max);
  integral /= 3.0 * n;
  MC_CHECK(ctx, close(c.TensionAverage(0), integral, 1e-3), "tension-average",
           "average tension ", c.TensionAverage(0), " but the mean along the "
           "curve is ", integral);
  const double exact = h * h / (2 * w * len) *
      (std::sinh(xr / k) * std::cosh(xr / k) -
       std::sinh(xl / k) * std::cosh(xl / k) + a / k);
  MC_CHECK(ctx, close(c.TensionAverage(0), exact, 1e-6), "tension-average",
           "average tension ", c.TensionAverage(0), " but the mean along the "
           "curve is ", exact);
  for (int m : {1, 2, 7}) {
    double sum = 0;
    for (int i = 0; i <= m; i++) sum += c.Tension(static_cast<double>(i) / m);
    MC_CHECK(ctx, close(c.TensionAverage(m), sum / (m + 1), 1e-9),
             "tension-average", "average tension of ", m, " intervals");
  }
  MC_CHECK(ctx, close(c.TensionAverage(), exact, 0.02), "tension-average",
           "sampled average tension ", c.TensionAverage(), " vs ", exact);
  const Vector2d t0 = c.Tension(0, Dir::kNegative), t1 = c.Tension(1, Dir::kPositive);
  MC_CHECK(ctx, close(t0.x() + t1.x(), 0, 0, 1e-7 * h) &&
           close(t0.y() + t1.y(), w * len, 1e-6, 1e-7 * h), "equilibrium",
           "end tensions do not balance the cable weight: ", t0.x() + t1.x(),
           ",", t0.y() + t1.y(), " vs ", w * len);
  uint64_t hs = mc::hash_double(a);
  for (double v : {b, h, w, c.Length(), c.Sag(), c.TensionMax()})
    hs = mc::hash_mix(hs, mc::hash_double(v));
  ctx.state(hs);
  ctx.outcome(hs);
  ctx.transition(n);
}

void c01(Ctx& ctx) {
  ctx.explore("planar curve", [&](Chooser& ch) {
    const int t = ctx.level;
    const double a = pick(ch, mc::refine(spans(1), t));
    const double b = a * pick(ch, mc::refine(slopes(1), t));
    ch.shard();
    const double w = pick(ch, weights(t));
    const double h = std::hypot(a, b) * pick(ch, mc::refine(constants(t), t)) * w;
    if (std::fabs(b) >= 2000) throw mc::SkipLeaf();
    const std::string d = cat("span ", a, ",", b, " H ", h, " w ", w);
    ctx.describe(d);
    Catenary2d c;
    c.set_spacing_endpoints(Vector2d(a, b));
    c.set_tension_horizontal(h);
    c.set_weight_unit(w);
    check_2d(ctx, c, a, b, h, w, 200);
    ctx.sample(d + cat(": length ", c.Length(), " sag ", c.Sag()));
  });
}

// C02 -------------------------------------------------------------------------
struct V3 { double x, y, z; };
V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
V3 operator*(double s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
double norm(V3 a) { return std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }
V3 v3(const Point3d<double>& p) { return {p.x, p.y, p.z}; }
V3 v3(const Vector3d& p) { return {p.x(), p.y(), p.z()}; }
std::string show(V3 a) { return cat("(", a.x, ", ", a.y, ", ", a.z, ")"); }

Catenary3d make3(const Span& s) {
  Catenary3d c;
  c.set_direction_transverse(s.dir);
  c.set_spacing_endpoints(Vector3d(s.a, 0, s.b));
  c.set_tension_horizontal(s.h);
  c.set_weight_unit(Vector3d(0, s.wy, s.wz));
  return c;
}

Span pick_span(Ctx& ctx, Chooser& ch) {
  Span s;
  s.a = pick(ch, spans(ctx.thorough));
  s.b = s.a * pick(ch, slopes(ctx.thorough));
  if (std::fabs(s.b) >= 2000) throw mc::SkipLeaf();
  ch.shard();
  s.wz = pick(ch, weights(ctx.thorough));
  s.wy = s.wz * pick(ch, mc::refine({0, 0.01, 0.2, 0.6, 1, 2.5, 9}, ctx.thorough));
  s.dir = ch.choose(2) ? Dir::kNegative : Dir::kPositive;
  s.h = std::hypot(s.a, s.b) * std::hypot(s.wy, s.wz) *
        pick(ch, constants(ctx.thorough));
  ctx.describe(cat("span (", s.a, ",0,", s.b, ") H ", s.h, " load (0,", s.wy, ",",
                   s.wz, ") ", s.dir == Dir::kNegative ? "-" : "+"));
  return s;
}

void c02(Ctx& ctx) {
  // the blown out curve is the planar curve of the resultant load, laid into
  // space
  ctx.explore("curve in space", [&](Chooser& ch) {
    const Span s = pick_span(ctx, ch);
    const Catenary3d c = make3(s);
    const double w = std::hypot(s.wy, s.wz), chord = std::hypot(s.a, s.b);
    const double b2 = s.b * s.wz / w, a2 = std::sqrt(chord * chord - b2 * b2);
    Catenary2d p;
    p.set_spacing_endpoints(Vector2d(a2, b2));
    p.set_tension_horizontal(s.h);
    p.set_weight_unit(w);
    const double tol = 1e-6 * chord;
    const double swing = std::atan2(s.wy, s.wz) *
                         (s.dir == Dir::kNegative ? -1 : 1);
    const double tilt = std::atan2(s.b, s.a) - std::atan2(b2, a2);
    MC_CHECK(ctx, c.Validate(true, nullptr), "valid",
             "a curve in range is reported invalid");
    MC_CHECK(ctx, close(c.SwingAngle(), std::fabs(swing) / kRad, 1e-7, 1e-6),
             "swing", "swing angle ", c.SwingAngle(), " but the load is at ",
             std::fabs(swing) / kRad);
    MC_CHECK(ctx, close(c.Constant(), s.h / w, 1e-9), "scalar", "constant");
    MC_CHECK(ctx, close(c.Length(), p.Length(), 1e-9), "scalar", "length ",
             c.Length(), " vs planar ", p.Length());
    MC_CHECK(ctx, close(c.LengthSlack(), p.LengthSlack(), 1e-9, tol), "scalar",
             "slack");
    MC_CHECK(ctx, close(c.Sag(), p.Sag(), 1e-9, tol), "scalar", "sag");
    MC_CHECK(ctx, close(c.TensionMax(), p.TensionMax(), 1e-9), "scalar",
             "max tension");
    for (int m : {0, 3, 100})
      MC_CHECK(ctx, close(c.TensionAverage(m), p.TensionAverage(m), 1e-9),
               "scalar", "average tension");
    MC_CHECK(ctx, close(c.PositionFractionOrigin(), p.PositionFractionOrigin(),
                        1e-7, 1e-7), "scalar", "low point position");
    MC_CHECK(ctx, close(c.PositionFractionSagPoint(),
                        p.PositionFractionSagPoint(), 1e-7, 1e-7), "scalar",
             "sag point position");
    // documented construction: chord direction in the vertical plane of the
    // span, offset from the chord swung about the span axis
    const int n = 40;
    for (int i = 0; i <= n; i++) {
      const double f = static_cast<double>(i) / n;
      const Point2d<double> q = p.CoordinateChord(f, true);
      const double r = std::hypot(q.x, q.y) * (q.x < 0 ? -1 : 1);
      const V3 on_chord = {r * s.a / chord, 0, r * s.b / chord};
      const V3 gc = v3(c.CoordinateChord(f));
      MC_CHECK(ctx, norm(gc - on_chord) < tol, "chord", "chord point at ", f,
               " is ", show(gc), " but should be ", show(on_chord));
      const double sag = p.Sag(f);
      MC_CHECK(ctx, close(c.Sag(f), sag, 1e-9, tol), "sag", "sag at ", f);
      const V3 want = on_chord + V3{sag * std::sin(tilt),
          sag * std::cos(tilt) * std::sin(swing),
          -sag * std::cos(tilt) * std::cos(swing)};
      const V3 got = v3(c.Coordinate(f));
      MC_CHECK(ctx, norm(got - want) < tol, "coordinate", "point at ", f, " is ",
               show(got), " but should be ", show(want));
      if (i == 0)
        MC_CHECK(ctx, norm(got) < tol, "endpoint", "the curve starts at ",
                 show(got));
      if (i == n)
        MC_CHECK(ctx, norm(got - V3{s.a, 0, s.b}) < tol, "endpoint",
                 "the curve ends at ", show(got));
      MC_CHECK(ctx, close(c.Tension(f), p.Tension(f), 1e-9), "tension",
               "tension at ", f);
      for (Dir d : {Dir::kPositive, Dir::kNegative}) {
        const Vector2d t2 = p.TangentVector(f, d);
        const V3 tilted = {t2.x() * std::cos(tilt) - t2.y() * std::sin(tilt), 0,
                           t2.x() * std::sin(tilt) + t2.y() * std::cos(tilt)};
        const V3 t = {tilted.x, -tilted.z * std::sin(swing),
                      tilted.z * std::cos(swing)};
        const V3 g = v3(c.TangentVector(f, d));
        MC_CHECK(ctx, norm(g - t) < 1e-6, "tangent", "tangent at ", f, " is ",
                 show(g), " but should be ", show(t));
        const V3 gt = v3(c.Tension(f, d));
        MC_CHECK(ctx, norm(gt - p.Tension(f) * t) < 1e-6 * p.Tension(f),
                 "tension-vector", "tension vector at ", f, " is ", show(gt));
        const double av = std::atan2(t.z, std::fabs(t.x)) / kRad;
        MC_CHECK(ctx, close(c.TangentAngleVertical(f, d), av, 1e-6, 1e-4),
                 "tangent-vertical", "vertical tangent angle at ", f, " is ",
                 c.TangentAngleVertical(f, d), " but should be ", av);
        const double at = std::atan2(std::fabs(t.y), std::fabs(t.z)) / kRad;
        if (std::hypot(t.y, t.z) > 1e-4)
          MC_CHECK(ctx, close(c.TangentAngleTransverse(f, d), at, 1e-5, 1e-1),
                   "tangent-transverse", "transverse tangent angle at ", f,
                   " is ", c.TangentAngleTransverse(f, d), " but should be ",
                   at);
        ctx.eval(5);
      }
    }
    // statics: exact when the span is level or there is no transverse load
    if (s.b == 0 || s.wy == 0) {
      const V3 sum = v3(c.Tension(0, Dir::kNegative)) +
                     v3(c.Tension(1, Dir::kPositive));
      const V3 load = c.Length() * V3{0, s.wy * (s.dir == Dir::kNegative ? -1 : 1),
                                      -s.wz};
      MC_CHECK(ctx, norm(sum + load) < 1e-5 * norm(load) + 1e-6 * s.h,
               "equilibrium", "end tensions ", show(sum),
               " do not balance the load ", show(load));
    }
    const uint64_t hs = mc::hash_string(ctx.description);
    ctx.state(hs);
    ctx.outcome(mc::hash_mix(hs, mc::hash_double(c.Sag())));
    ctx.transition(n);
    ctx.sample(ctx.description + cat(" swing ", c.SwingAngle(), " sag ", c.Sag()));
  });
  // the curve must run along its tangents
  ctx.explore("tangents follow the curve", [&](Chooser& ch) {
    const Span s = pick_span(ctx, ch);
    const Catenary3d c = make3(s);
    const bool simple = s.b == 0 || s.wy == 0;
    const double d = 1e-4;
    for (double f : {0.1, 0.5, 0.83}) {
      const V3 p = v3(c.Coordinate(f - d)), q = v3(c.Coordinate(f + d));
      const V3 slope = (1 / (2 * d * c.Length())) * (q - p);
      const V3 t = v3(c.TangentVector(f, Dir::kPositive));
      ctx.eval();
      MC_CHECK(ctx, norm(slope - t) < 2e-4,
               simple ? "tangent-slope" : "tangent-slope:inclined+transverse",
               "the curve at ", f, " runs along ", show(slope),
               " but its tangent is ", show(t));
    }
    ctx.state(mc::hash_string(ctx.description));
  });
}

// C03 -------------------------------------------------------------------------
mc::HistSpec<Catenary2d> spec_2d(bool thorough) {
  mc::HistSpec<Catenary2d> s;
  s.name = "planar curve";
  auto sp = [](double a, double b) {
    return [a, b](Catenary2d& c) { c.set_spacing_endpoints(Vector2d(a, b)); };
  };
  s.inputs = {
    // some share a component, the magnitude or (with H) the constant H/w
    {"spacing", {{"1000,0", sp(1000, 0)}, {"1000,100", sp(1000, 100)},
                 {"800,-600", sp(800, -600)}, {"1000.4,0", sp(1000.4, 0)}}},
    {"H", {{"1000", [](Catenary2d& c) { c.set_tension_horizontal(1000); }},
           {"1000.4", [](Catenary2d& c) { c.set_tension_horizontal(1000.4); }},
           {"2400", [](Catenary2d& c) { c.set_tension_horizontal(2400); }}}},
    {"w", {{"0.5", [](Catenary2d& c) { c.set_weight_unit(0.5); }},
           {"0.5002", [](Catenary2d& c) { c.set_weight_unit(0.5002); }},
           {"1.2", [](Catenary2d& c) { c.set_weight_unit(1.2); }}}}};
  typedef const Catenary2d& R;
  s.queries = {
    {"Coordinate", [](R c) { auto p = c.Coordinate(0.3);
                             return std::vector<double>{p.x, p.y}; }},
    {"CoordinateChord", [](R c) { auto p = c.CoordinateChord(0.3, true);
                             return std::vector<double>{p.x, p.y}; }},
    {"Length", [](R c) { return std::vector<double>{c.Length(), c.LengthSlack()}; }},
    {"Position", [](R c) { return std::vector<double>{c.PositionFraction(3),
                     c.PositionFractionOrigin(), c.PositionFractionSagPoint()}; }},
    {"Sag", [](R c) { return std::vector<double>{c.Sag(), c.Sag(0.2)}; }},
    {"Tangent", [](R c) { auto v = c.TangentVector(0.7, Dir::kNegative);
        return std::vector<double>{c.TangentAngle(0.7, Dir::kPositive), v.x(), v.y()}; }},
    {"Tension", [](R c) { auto v = c.Tension(0, Dir::kNegative);
        return std::vector<double>{c.Tension(1), c.TensionMax(), v.x(), v.y()}; }},
    {"TensionAverage", [](R c) { return std::vector<double>{c.TensionAverage(0), c.TensionAverage(5)}; }},
    {"Validate", [](R c) { return std::vector<double>{double(c.Validate())}; }}};
  s.near = {
    {"span", [](Catenary2d& c, double f) { c.set_spacing_endpoints(Vector2d(1000 * f, 0)); }},
    {"rise", [](Catenary2d& c, double f) { c.set_spacing_endpoints(Vector2d(1000, 1e3 * (f - 1))); }},
    {"H", [](Catenary2d& c, double f) { c.set_tension_horizontal(1000 * f); }},
    {"w", [](Catenary2d& c, double f) { c.set_weight_unit(0.5 * f); }}};
  s.with_copy = true;
  (void)thorough;
  return s;
}

mc::HistSpec<Catenary3d> spec_3d() {
  mc::HistSpec<Catenary3d> s;
  s.name = "curve in space";
  auto sp = [](double a, double b) {
    return [a, b](Catenary3d& c) { c.set_spacing_endpoints(Vector3d(a, 0, b)); };
  };
  auto we = [](double y, double z) {
    return [y, z](Catenary3d& c) { c.set_weight_unit(Vector3d(0, y, z)); };
  };
  s.inputs = {
    {"spacing", {{"1000,0", sp(1000, 0)}, {"800,600", sp(800, 600)},
                 {"800,90", sp(800, 90)}, {"1000.4,0.2", sp(1000.4, 0.2)}}},
    {"H", {{"1000", [](Catenary3d& c) { c.set_tension_horizontal(1000); }},
           {"1000.4", [](Catenary3d& c) { c.set_tension_horizontal(1000.4); }},
           {"2000", [](Catenary3d& c) { c.set_tension_horizontal(2000); }}}},
    // the same magnitude, the same vertical, and twice the load
    {"w", {{"0,0.5", we(0, 0.5)}, {"0.4,0.3", we(0.4, 0.3)},
           {"0.3,0.4", we(0.3, 0.4)}, {"0.3,0.3", we(0.3, 0.3)}, {"0.3001,0.4002", we(0.3001, 0.4002)}}},
    {"wind", {{"+", [](Catenary3d& c) { c.set_direction_transverse(Dir::kPositive); }},
              {"-", [](Catenary3d& c) { c.set_direction_transverse(Dir::kNegative); }}}}};
  typedef const Catenary3d& R;
  s.queries = {
    {"Constant", [](R c) { return std::vector<double>{c.Constant()}; }},
    {"Coordinate", [](R c) { auto p = c.Coordinate(0.3);
                             return std::vector<double>{p.x, p.y, p.z}; }},
    {"CoordinateChord", [](R c) { auto p = c.CoordinateChord(0.3);
                             return std::vector<double>{p.x, p.y, p.z}; }},
    {"Length", [](R c) { return std::vector<double>{c.Length()}; }},
    {"LengthSlack", [](R c) { return std::vector<double>{c.LengthSlack()}; }},
    {"PositionOrigin", [](R c) { return std::vector<double>{c.PositionFractionOrigin()}; }},
    {"PositionSag", [](R c) { return std::vector<double>{c.PositionFractionSagPoint()}; }},
    {"Sag", [](R c) { return std::vector<double>{c.Sag()}; }},
    {"SagAt", [](R c) { return std::vector<double>{c.Sag(0.2)}; }},
    {"Swing", [](R c) { return std::vector<double>{c.SwingAngle()}; }},
    {"Tangent", [](R c) { auto v = c.TangentVector(0.7, Dir::kNegative);
        return std::vector<double>{v.x(), v.y(), v.z()}; }},
    {"TangentV", [](R c) { return std::vector<double>{c.TangentAngleVertical(0.1, Dir::kPositive)}; }},
    {"TangentT", [](R c) { return std::vector<double>{c.TangentAngleTransverse(0.1, Dir::kPositive)}; }},
    {"Tension", [](R c) { return std::vector<double>{c.Tension(1)}; }},
    {"TensionVector", [](R c) { auto v = c.Tension(0, Dir::kNegative);
        return std::vector<double>{v.x(), v.y(), v.z()}; }},
    {"TensionMax", [](R c) { return std::vector<double>{c.TensionMax()}; }},
    {"TensionAverage", [](R c) { return std::vector<double>{c.TensionAverage(0)}; }},
    {"Validate", [](R c) { return std::vector<double>{double(c.Validate())}; }}};
  s.near = {
    {"span", [](Catenary3d& c, double f) { c.set_spacing_endpoints(Vector3d(1000 * f, 0, 0)); }},
    {"rise", [](Catenary3d& c, double f) { c.set_spacing_endpoints(Vector3d(1000, 0, 1e3 * (f - 1))); }},
    {"H", [](Catenary3d& c, double f) { c.set_tension_horizontal(1000 * f); }},
    {"wy", [](Catenary3d& c, double f) { c.set_weight_unit(Vector3d(0, f - 1, 0.5)); }},
    {"wz", [](Catenary3d& c, double f) { c.set_weight_unit(Vector3d(0, 0, 0.5 * f)); }}};
  s.with_copy = true;
  return s;
}

// C04 -------------------------------------------------------------------------
typedef CatenarySolver::TargetType TT;

mc::HistSpec<CatenarySolver> spec_solver() {
  mc::HistSpec<CatenarySolver> s;
  s.name = "curve solver";
  auto sp = [](double a, double b) {
    return [a, b](CatenarySolver& c) { c.set_spacing_endpoints(Vector3d(a, 0, b)); };
  };
  auto we = [](double y, double z) {
    return [y, z](CatenarySolver& c) { c.set_weight_unit(Vector3d(0, y, z)); };
  };
  auto ty = [](TT t) { return [t](CatenarySolver& c) { c.set_type_target(t); }; };
  auto va = [](double v) { return [v](CatenarySolver& c) { c.set_value_target(v); }; };
  auto po = [](double v) { return [v](CatenarySolver& c) { c.set_position_target(v); }; };
  s.inputs = {
    {"spacing", {{"1000,0", sp(1000, 0)}, {"900,150", sp(900, 150)},
                 {"2500,0", sp(2500, 0)}, {"1000.3,0.2", sp(1000.3, 0.2)},
                 {"900,2000", sp(900, 2000)}}},
    {"type", {{"constant", ty(TT::kConstant)}, {"length", ty(TT::kLength)},
              {"sag", ty(TT::kSag)}, {"tension", ty(TT::kTension)},
              {"null", ty(TT::kNull)}}},
    {"value", {{"1020", va(1020)}, {"120", va(120)}, {"3000", va(3000)},
               {"1020.3", va(1020.3)}, {"-5", va(-5)}}},
    {"weight", {{"0,1", we(0, 1)}, {"0.6,0.8", we(0.6, 0.8)},
                {"0.5,1", we(0.5, 1)}, {"0,1.001", we(0, 1.001)}}},
    {"position", {{"-1", po(-1)}, {"0.4", po(0.4)}, {"0.405", po(0.405)}}}};
  typedef const CatenarySolver& R;
  s.queries = {
    {"H", [](R c) { return std::vector<double>{c.TensionHorizontal()}; }},
    {"Catenary", [](R c) { Catenary3d k = c.Catenary();
        return std::vector<double>{k.tension_horizontal(), k.spacing_endpoints().x(),
          k.spacing_endpoints().z(), k.weight_unit().y(), k.weight_unit().z()}; }},
    {"Validate", [](R c) { return std::vector<double>{double(c.Validate())}; }}};
  s.near = {
    {"span", [](CatenarySolver& c, double f) { c.set_spacing_endpoints(Vector3d(1000 * f, 0, 0)); }},
    {"rise", [](CatenarySolver& c, double f) { c.set_spacing_endpoints(Vector3d(1000, 0, 1e3 * (f - 1))); }},
    {"value", [](CatenarySolver& c, double f) { c.set_value_target(1020 * f); }},
    {"wy", [](CatenarySolver& c, double f) { c.set_weight_unit(Vector3d(0, f - 1, 1)); }},
    {"wz", [](CatenarySolver& c, double f) { c.set_weight_unit(Vector3d(0, 0, f)); }},
    {"length", [](CatenarySolver& c, double f) { c.set_type_target(TT::kLength); c.set_value_target(1020 * f); }},
    {"sag", [](CatenarySolver& c, double f) { c.set_type_target(TT::kSag); c.set_value_target(30 * f); }},
    {"tension", [](CatenarySolver& c, double f) { c.set_type_target(TT::kTension); c.set_position_target(0.4); c.set_value_target(2000 * f); }}};
  s.factors = {1 + 1e-4, 1 - 1e-4, 1 + 1e-2};
  s.with_copy = true;
  s.rel = 1e-6;
  return s;
}

void c03(Ctx& ctx) {
  mc::explore_histories(ctx, spec_2d(ctx.thorough), ctx.thorough ? 6 : 5);
  mc::explore_histories(ctx, spec_3d(), ctx.thorough ? 5 : 4);
  mc::explore_histories(ctx, spec_solver(), ctx.thorough ? 5 : 4);
}

double measure(const Catenary3d& c, TT type, double pos) {
  switch (type) {
    case TT::kConstant: return c.Constant();
    case TT::kLength: return c.Length();
    case TT::kSag: return pos == -1 ? c.Sag() : c.Sag(pos);
    case TT::kTension: return pos == -1 ? c.TensionMax() : c.Tension(pos);
    default: return -999999;
  }
}

void c04(Ctx& ctx) {
  const char* names[] = {"constant", "length", "sag", "tension"};
  const TT types[] = {TT::kConstant, TT::kLength, TT::kSag, TT::kTension};
  ctx.explore("attainable targets", [&](Chooser& ch) {
    const Span s = pick_span(ctx, ch);
    if (s.dir == Dir::kNegative) throw mc::SkipLeaf();
    const Catenary3d c = make3(s);
    const int t = ch.choose(4);
    const double pos = pick(ch, {-1, 0.5, 0.1, 0.95, 0, 1});
    if (types[t] == TT::kSag && (pos == 0 || pos == 1)) throw mc::SkipLeaf();
    if ((t < 2) && pos != -1) throw mc::SkipLeaf();
    const double target = measure(c, types[t], pos);
    ctx.describe(ctx.description + cat(" target ", names[t], " ", target, " at ",
                                       pos));
    CatenarySolver solver;
    solver.set_spacing_endpoints(Vector3d(s.a, 0, s.b));
    solver.set_weight_unit(Vector3d(0, s.wy, s.wz));
    solver.set_type_target(types[t]);
    solver.set_position_target(pos);
    solver.set_value_target(target);
    std::list<ErrorMessage> m;
    const double h = solver.TensionHorizontal();
    ctx.eval();
    ctx.note(cat("solved ", names[t], " targets"), h != -999999);
    ctx.note(cat("unsolved attainable ", names[t], " targets"), h == -999999);
    MC_CHECK(ctx, h != -999999, cat("unsolved-", names[t]),
             "no catenary is found for an attainable target");
    const Catenary3d r = solver.Catenary();
    MC_CHECK(ctx, close(r.spacing_endpoints().x(), s.a, 1e-12) &&
             close(r.spacing_endpoints().z(), s.b, 1e-12) &&
             close(r.weight_unit().z(), s.wz, 1e-12) &&
             close(r.weight_unit().y(), s.wy, 1e-12), "inputs",
             "the catenary has other spacing or load than requested");
    MC_CHECK(ctx, close(r.tension_horizontal(), h, 1e-12), "inconsistent",
             "two answers of one solver differ");
    const double got = measure(r, types[t], pos);
    // the tension is solved to 0.01
    Catenary3d r2 = r;
    r2.set_tension_horizontal(h + 0.05);
    const double slack = 1e-9 * target + std::fabs(measure(r2, types[t], pos) - got);
    MC_CHECK(ctx, std::fabs(got - target) <= slack, cat("off-target-", names[t]),
             "the catenary has ", got, " (H ", h, ")");
    MC_CHECK(ctx, solver.Validate(true, &m) && m.empty(), "validate",
             "a solved target is reported invalid");
    ctx.state(mc::hash_string(ctx.description));
    ctx.outcome(mc::hash_mix(mc::hash_double(h), t));
    ctx.transition();
    ctx.sample(ctx.description + cat(" H ", h));
  });
  ctx.explore("unattainable targets", [&](Chooser& ch) {
    Span s = pick_span(ctx, ch);
    if (s.dir == Dir::kNegative) throw mc::SkipLeaf();
    const int t = ch.choose(4);
    const double chord = std::hypot(s.a, s.b), w = std::hypot(s.wy, s.wz);
    s.h = chord / 2 * w;
    const Catenary3d lowest = make3(s);
    const double pos = pick(ch, {-1, 0.5, 0.3});
    double target;
    switch (t) {
      case 0: target = chord * 0.49; break;
      case 1: target = ch.choose(2) ? chord * 0.999 : lowest.Length() * 1.001; break;
      case 2: target = measure(lowest, types[t], pos) * 1.001; break;
      default: target = measure(lowest, types[t], pos) * 0.999; break;
    }
    ctx.describe(ctx.description + cat(" unattainable ", names[t], " ", target,
                                       " at ", pos));
    CatenarySolver solver;
    solver.set_spacing_endpoints(Vector3d(s.a, 0, s.b));
    solver.set_weight_unit(Vector3d(0, s.wy, s.wz));
    solver.set_type_target(types[t]);
    solver.set_position_target(pos);
    solver.set_value_target(target);
    for (int i = 0; i < 2; i++) {
      const double h = solver.TensionHorizontal();
      ctx.eval();
      MC_CHECK(ctx, h == -999999, cat("false-", names[t]), "query ", i + 1,
               " returns H ", h, " for an unattainable target");
    }
    MC_CHECK(ctx, solver.Catenary().tension_horizontal() == -999999,
             cat("false-", names[t]), "a catenary is returned");
    MC_CHECK(ctx, !solver.Validate(), "validate",
             "an unattainable target is reported valid");
    ctx.state(mc::hash_string(ctx.description));
  });
}

mc::Register r1({"C01", c01,
  "every curve of the span x height x load x tension grid, sampled at every position of a fixed partition",
  {"the range of curves is the documented valid range"}, true});
mc::Register r2({"C02", c02,
  "every curve of the span x height x vertical load x transverse ratio x direction x tension grid",
  {"inclined spans under transverse load follow the construction fixed by the existing tests"}});
mc::Register r3({"C03", c03,
  "every sequence of input changes, queries and copies up to the depth, compared with a fresh object",
  {}});
mc::Register r4({"C04", c04,
  "every target type and position on every curve of the grid; targets just outside the attainable range",
  {"sag targets at the supports are excluded (every tension has zero sag there)"}});

}  // namespace
