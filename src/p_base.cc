// Base library: unit conversions, vectors, polynomials, text helpers.
#include <algorithm>
#include <cstdlib>
#include <limits>
#include <list>

#include "fixture.h"
#include "mc.h"
#include "models/base/geometric_shapes.h"
#include "models/base/helper.h"
#include "models/base/polynomial.h"

namespace {

using mc::cat;
using mc::Chooser;
using mc::close;
using mc::Ctx;
typedef std::vector<double> V;
const double kRad = M_PI / 180;

double pick(Chooser& ch, const V& v) {
  return v[ch.choose(static_cast<int>(v.size()))];
}

// B01 ---------------------------------------------------------------------------
typedef units::AngleConversionType A;
typedef units::ForceConversionType F;
typedef units::LengthConversionType L;
typedef units::StressConversionType S;
typedef units::TemperatureConversionType T;

struct Conversion {
  const char* name;
  double factor;                       // size of the old unit in the new unit
  std::function<double(double, int, bool)> convert, back;
};
#define CONV(fn, type, fwd, rev, factor) \
  {#fwd, factor, [](double v, int e, bool n) { return units::fn(v, type::fwd, e, n); }, \
   [](double v, int e, bool n) { return units::fn(v, type::rev, e, n); }}, \
  {#rev, 1.0 / (factor), [](double v, int e, bool n) { return units::fn(v, type::rev, e, n); }, \
   [](double v, int e, bool n) { return units::fn(v, type::fwd, e, n); }}

void b01(Ctx& ctx) {
  const double inch = 0.0254, lb = 4.4482216152605;
  static const std::vector<Conversion> all = {
      CONV(ConvertAngle, A, kDegreesToRadians, kRadiansToDegrees, kRad),
      CONV(ConvertForce, F, kPoundsToNewtons, kNewtonsToPounds, lb),
      CONV(ConvertLength, L, kCentimetersToMeters, kMetersToCentimeters, 0.01),
      CONV(ConvertLength, L, kFeetToInches, kInchesToFeet, 12),
      CONV(ConvertLength, L, kFeetToMeters, kMetersToFeet, 12 * inch),
      CONV(ConvertLength, L, kFeetToMiles, kMilesToFeet, 1.0 / 5280),
      CONV(ConvertLength, L, kKilometersToMeters, kMetersToKilometers, 1000),
      CONV(ConvertLength, L, kMillimetersToMeters, kMetersToMillimeters, 0.001),
      CONV(ConvertStress, S, kMegaPascalToPascal, kPascalToMegaPascal, 1e6),
      CONV(ConvertStress, S, kPsfToPascal, kPascalToPsf, lb / (144 * inch * inch)),
      CONV(ConvertStress, S, kPsiToPsf, kPsfToPsi, 144)};
  const V values = V{-1e9, -12345.678, -273.15, -100, -40, -1, -1e-6, 0, 1e-9, 0.3, 1, 2, 12, 32, 144, 459.67, 1000, 5280, 1e6, 1e12};
  ctx.explore("scale", [&](Chooser& ch) {
    const Conversion& c = all[ch.choose(static_cast<int>(all.size()))];
    const int e = ch.choose(9) - 4;
    const bool numerator = ch.choose(2);
    ch.shard();
    for (double v : values) {
      ctx.describe(cat(c.name, " of ", v, numerator ? " per unit^" : " unit^", e));
      const double got = c.convert(v, e, numerator);
      const double want = v * std::pow(c.factor, numerator ? e : -e);
      MC_CHECK(ctx, close(got, want, 3e-7 * (1 + std::abs(e))), "factor", got, " not ", want);
      MC_CHECK(ctx, close(c.back(got, e, numerator), v, 1e-12), "inverse", "converted back to ",
               c.back(got, e, numerator));
      // a unit in the denominator is the inverse of the numerator
      MC_CHECK(ctx, close(c.convert(v, e, !numerator), c.convert(v, -e, numerator), 1e-12),
               "denominator", "denominator differs from the negative exponent");
      // squared units are units twice
      if (e == 2)
        MC_CHECK(ctx, close(got, c.convert(c.convert(v, 1, numerator), 1, numerator), 1e-12),
                 "exponent", "the squared unit differs from converting twice");
      ctx.eval(4);
      ctx.transition();
      ctx.outcome(mc::hash_double(got));
      ctx.state(mc::hash_string(ctx.description));
    }
    ctx.sample(ctx.description);
  });
  ctx.explore("temperature", [&](Chooser& ch) {
    const double v = pick(ch, V{-459.67, -273.15, -100, -40, -17.8, 0, 25, 32, 75, 100, 212, 500, 1000, 5000});
    ch.shard();
    ctx.describe(cat("temperature ", v));
    // each scale as a function of Kelvin
    const auto kelvin = [](int s, double x) {
      return s == 0 ? x : s == 1 ? x + 273.15 : s == 2 ? (x + 459.67) / 1.8 : x / 1.8; };
    struct Step { int from, to; T type; };
    const Step steps[] = {{1, 2, T::kCelsiusToFahrenheit}, {1, 0, T::kCelsiusToKelvin},
                          {2, 1, T::kFahrenheitToCelsius}, {2, 3, T::kFahrenheitToRankine},
                          {0, 1, T::kKelvinToCelsius}, {0, 3, T::kKelvinToRankine},
                          {3, 2, T::kRankineToFahrenheit}, {3, 0, T::kRankineToKelvin}};
    // all chains of conversions keep the physical temperature
    std::function<void(int, double, int)> walk = [&](int scale, double x, int depth) {
      MC_CHECK(ctx, close(kelvin(scale, x), kelvin(1, v), 1e-12, 1e-9), "scale", "the temperature is ",
               kelvin(scale, x), " K instead of ", kelvin(1, v));
      ctx.eval();
      ctx.transition();
      ctx.outcome(mc::hash_double(x));
      if (depth == 0) return;
      for (const Step& s : steps)
        if (s.from == scale) walk(s.to, units::ConvertTemperature(x, s.type), depth - 1);
    };
    walk(1, v, ctx.thorough ? 14 : 9);
    ctx.state(mc::hash_string(ctx.description));
  });
  ctx.explore("null", [&](Chooser& ch) {
    const double v = pick(ch, values);
    ctx.describe(cat("null conversion of ", v));
    for (int e = -2; e <= 2; e++)
      for (int n = 0; n < 2; n++)
        MC_CHECK(ctx, units::ConvertAngle(v, A::kNull, e, n) == -999999 &&
                      units::ConvertForce(v, F::kNull, e, n) == -999999 &&
                      units::ConvertLength(v, L::kNull, e, n) == -999999 &&
                      units::ConvertStress(v, S::kNull, e, n) == -999999 &&
                      units::ConvertTemperature(v, T::kNull, e, n) == -999999, "null",
                 "null conversion returns a value");
    MC_CHECK(ctx, close(units::kPi, M_PI, 1e-14) && close(units::kGravityImperial, 32.174, 1e-4) &&
                  close(units::kGravityMetric, 9.80665, 1e-4), "constant", "wrong constant");
    ctx.eval(20);
    ctx.state(mc::hash_string(ctx.description));
    ctx.transition();
    ctx.outcome(1);
  });
}

// B02 ---------------------------------------------------------------------------
void b02(Ctx& ctx) {
  const bool th = ctx.thorough;
  const V comp{-1e4, -700, -3, -1, -1e-3, -1e-9, 0, 1e-9, 1e-3, 0.5, 1, 4, 250, 1e4};
  V turns{-720, -400, -359.999, -270, -180, -135, -90, -45, -30, -1e-3, -1e-5, 0, 1e-5, 1e-4, 1e-3,
          0.1, 1, 30, 45, 89.999, 90, 90.001, 135, 180, 225, 270, 315, 360, 540, 1000};
  if (th)
    for (int i = -96; i <= 96; i++) turns.push_back(i * 7.5 + 0.3);
  const auto wrapped = [](double got, double want) { return std::fabs(std::remainder(got - want, 360)); };
  ctx.explore("planar", [&](Chooser& ch) {
    const double x = pick(ch, comp), y = pick(ch, comp);
    ch.shard();
    ctx.describe(cat("vector ", V{x, y}));
    const Vector2d v(x, y);
    MC_CHECK(ctx, v.x() == x && v.y() == y, "component", "components ", V{v.x(), v.y()});
    const double m = std::hypot(x, y);
    MC_CHECK(ctx, close(v.Magnitude(), m, 1e-12), "magnitude", "magnitude ", v.Magnitude());
    for (int neg = 0; neg < 2; neg++) {
      const double a = v.Angle(neg);
      ctx.eval();
      if (m == 0) {
        MC_CHECK(ctx, a == -999999, "angle", "angle ", a, " of no direction");
        continue;
      }
      MC_CHECK(ctx, wrapped(a, std::atan2(y, x) / kRad) < 1e-8, "angle", "angle ", a, " not ",
               std::atan2(y, x) / kRad);
      MC_CHECK(ctx, neg ? a > -180 - 1e-9 && a <= 180 + 1e-9 : a >= 0 && a <= 360, "range",
               "angle ", a, neg ? " with" : " without", " negative angles");
      ctx.outcome(mc::hash_double(a));
    }
    for (double t : turns) {
      ctx.describe(cat("vector ", V{x, y}, " turned ", t));
      Vector2d r = v;
      r.Rotate(t);
      const double c = std::cos(t * kRad), s = std::sin(t * kRad);
      // turns of less than 0.00005 degrees are not applied
      MC_CHECK(ctx, close(V{r.x(), r.y()}, V{x * c - y * s, x * s + y * c}, 0, 1e-9 * m + (std::fabs(t) < 6e-5 ? 1.1e-6 * m : 0)),
               "rotate", "turned to ", V{r.x(), r.y()});
      MC_CHECK(ctx, close(r.Magnitude(), m, 1e-9), "rotate", "magnitude changed to ", r.Magnitude());
      r.Rotate(-t);
      MC_CHECK(ctx, close(V{r.x(), r.y()}, V{x, y}, 0, 1e-9 * m), "rotate", "turned back to ", V{r.x(), r.y()});
      Vector2d k = v;
      k.Scale(t);
      MC_CHECK(ctx, close(V{k.x(), k.y()}, V{x * t, y * t}, 1e-12, 1e-300), "scale", "scaled to ",
               V{k.x(), k.y()});
      ctx.eval(4);
      ctx.transition();
      ctx.outcome(mc::hash_vec(2, V{r.x(), r.y()}));
      ctx.state(mc::hash_string(ctx.description));
    }
  });
  const V comp3 = V{-700, -3, -1, -1e-3, 0, 0.5, 1, 40, 1e4};
  ctx.explore("spatial", [&](Chooser& ch) {
    const double c3[3] = {pick(ch, comp3), pick(ch, comp3), pick(ch, comp3)};
    ch.shard();
    struct Plane { Plane2dType type; int a, b; const char* name; };
    const Plane planes[] = {{Plane2dType::kXy, 0, 1, "xy"}, {Plane2dType::kXz, 0, 2, "xz"},
                            {Plane2dType::kYx, 1, 0, "yx"}, {Plane2dType::kYz, 1, 2, "yz"},
                            {Plane2dType::kZx, 2, 0, "zx"}, {Plane2dType::kZy, 2, 1, "zy"},
                            {Plane2dType::kNull, 0, 0, "null"}};
    const Vector3d v(c3[0], c3[1], c3[2]);
    const double m = std::sqrt(c3[0] * c3[0] + c3[1] * c3[1] + c3[2] * c3[2]);
    MC_CHECK(ctx, close(v.Magnitude(), m, 1e-12), "magnitude", "magnitude ", v.Magnitude());
    for (const Plane& p : planes) {
      ctx.describe(cat("vector ", V{c3[0], c3[1], c3[2]}, " in plane ", p.name));
      for (int neg = 0; neg < 2; neg++) {
        const double a = v.Angle(p.type, neg);
        ctx.eval();
        if (p.type == Plane2dType::kNull || (c3[p.a] == 0 && c3[p.b] == 0)) {
          MC_CHECK(ctx, a == -999999, "angle", "angle ", a, " of no direction");
          continue;
        }
        MC_CHECK(ctx, wrapped(a, std::atan2(c3[p.b], c3[p.a]) / kRad) < 1e-8, "angle", "angle ", a);
        MC_CHECK(ctx, neg ? a > -180 - 1e-9 && a <= 180 + 1e-9 : a >= 0 && a <= 360, "range",
                 "angle ", a);
      }
      for (double t : turns) {
        Vector3d r = v;
        r.Rotate(p.type, t);
        V want{c3[0], c3[1], c3[2]};
        if (p.type != Plane2dType::kNull) {
          const double c = std::cos(t * kRad), s = std::sin(t * kRad);
          want[p.a] = c3[p.a] * c - c3[p.b] * s;
          want[p.b] = c3[p.a] * s + c3[p.b] * c;
        }
        MC_CHECK(ctx, close(fx::vec(r), want, 0, 1e-9 * m + (std::fabs(t) < 6e-5 ? 1.1e-6 * m : 0)),
                 "rotate", "turned ", t, " to ", fx::vec(r), " not ", want);
        Vector3d k = v;
        k.Scale(t);
        MC_CHECK(ctx, close(fx::vec(k), V{c3[0] * t, c3[1] * t, c3[2] * t}, 1e-12, 1e-300), "scale",
                 "scaled to ", fx::vec(k));
        ctx.eval(2);
        ctx.transition();
        ctx.outcome(mc::hash_vec(3, fx::vec(r)));
        ctx.state(mc::hash_vec(mc::hash_string(ctx.description), V{t}));
      }
    }
  });
}

// B03 ---------------------------------------------------------------------------
double horner(const V& c, double x) {
  double y = 0;
  for (size_t i = c.size(); i-- > 0;) y = y * x + c[i];
  return y;
}
double slope(const V& c, double x) {
  double y = 0;
  for (size_t i = c.size(); i-- > 1;) y = y * x + i * c[i];
  return y;
}
double size_terms(const V& c, double x) {
  double y = 0;
  for (size_t i = 0; i < c.size(); i++) y += (1 + i) * std::fabs(c[i]) * std::pow(std::fabs(x) + 1, i);
  return y;
}

void b03(Ctx& ctx) {
  const bool th = ctx.thorough;
  ctx.explore("polynomial", [&](Chooser& ch) {
    // higher degrees with fewer values
    const int n_full = th ? 5 : 4;
    int n = 1 + ch.choose(n_full + 2);
    const bool is_high = n > n_full;
    if (is_high) n = n == n_full + 1 ? 6 : 8;
    V c;
    for (int i = 0; i < n; i++)
      c.push_back(is_high ? pick(ch, i == 0 ? V{-3, 0.5} : V{0, 2.5})
                          : pick(ch, V{-250, -2, -1e-3, 0, 1, 30}));
    ch.shard();
    Polynomial p;
    p.set_coefficients(&c);
    ctx.describe(cat("polynomial ", c));
    MC_CHECK(ctx, p.OrderMax() == n - 1, "order", "order ", p.OrderMax());
    MC_CHECK(ctx, p.Validate(true, nullptr), "validate", "polynomial reported invalid");
    const Polynomial d = p.Derivative();
    const Polynomial copy = p;
    for (double x : V{-1000, -20, -1.5, -1, -0.1, 0, 1e-3, 0.5, 1, 3, 40, 1000}) {
      const double tol = 1e-12 * size_terms(c, x);
      MC_CHECK(ctx, close(p.Y(x), horner(c, x), 0, tol), "y", "y ", p.Y(x), " at ", x, " not ", horner(c, x));
      MC_CHECK(ctx, close(p.Slope(x), slope(c, x), 0, tol), "slope", "slope ", p.Slope(x), " at ", x,
               " not ", slope(c, x));
      MC_CHECK(ctx, close(d.Y(x), slope(c, x), 0, tol), "derivative", "derivative ", d.Y(x), " at ", x);
      MC_CHECK(ctx, copy.Y(x) == p.Y(x) && copy.Slope(x) == p.Slope(x), "copy", "a copy differs at ", x);
      ctx.eval(4);
      ctx.outcome(mc::hash_double(p.Y(x)));
    }
    // a solution for x is a solution
    bool rising = n > 1;
    for (int i = 1; i < n; i++) rising = rising && c[i] >= 0;
    rising = rising && n > 1 && *std::max_element(c.begin() + 1, c.end()) > 0;
    for (int digits : {1, 4, 6})
      for (double y : V{-1000, -1, 0, 1e-4, 2, 30, 5000})
        for (double guess : V{-50, -1, 0, 1e-6, 0.3, 2, 100}) {
          const double x = p.X(y, digits, guess);
          ctx.eval();
          ctx.transition();
          ctx.describe(cat("polynomial ", c, " solved for ", y, " from ", guess, " to ", digits, " digits"));
          const double tol = std::pow(10, -digits);
          if (x == -999999) {
            // Newton's method can't fail on a line, or on a convex rising
            // curve from the right of the solution
            const bool line = n == 2 && c[1] != 0;
            const bool convex = rising && guess >= 0 && horner(c, guess) >= y && c[0] <= y;
            const double rounding = 1e-15 * (std::fabs(y) + size_terms(c, guess));
            MC_CHECK(ctx, !(line || convex) || rounding > tol, "unsolved", "no solution is found");
            ctx.note("unsolved");
            continue;
          }
          MC_CHECK(ctx, std::fabs(horner(c, x) - y) <= tol * (1 + 1e-9) + 1e-12 * size_terms(c, x), "x",
                   "x ", x, " has y ", horner(c, x));
          ctx.outcome(mc::hash_double(x));
        }
    ctx.state(mc::hash_string(ctx.description));
    ctx.sample(cat(c));
  });
  {
    struct Hist {
      V a, b;
      Polynomial p;
    };
    mc::HistSpec<Hist> h;
    h.name = "Polynomial";
    const auto set = [](V v) { return [v](Hist& t) { t.a = v; t.p.set_coefficients(&t.a); }; };
    const auto other = [](V v) { return [v](Hist& t) { t.b = v; t.p.set_coefficients(&t.b); }; };
    h.inputs = {{"coefficients", {{"1 2", set({1, 2})}, {"1 2 3", set({1, 2, 3})}, {"1 5 3", set({1, 5, 3})},
                                  {"other 4 3", other({4, 3})}, {"other 4", other({4})}}}};
    h.queries = {{"Y", [](const Hist& t) { return V{t.p.Y(0.5), t.p.Y(-2)}; }},
                 {"Slope", [](const Hist& t) { return V{t.p.Slope(0.5), t.p.Slope(-2)}; }},
                 {"Derivative", [](const Hist& t) { const Polynomial d = t.p.Derivative(); return V{d.Y(0.5), double(d.OrderMax())}; }},
                 {"X", [](const Hist& t) { return V{t.p.X(10, 6, 1)}; }},
                 {"OrderMax", [](const Hist& t) { return V{double(t.p.OrderMax())}; }}};
    h.near = {{"first", [=](Hist& t, double f) { set({f, 2})(t); }},
              {"last", [=](Hist& t, double f) { set({1, 2, 3 * f})(t); }}};
    mc::explore_histories(ctx, h, th ? 8 : 6);
    // copies share the coefficients but not the derivative
    static V va{1, 2, 3}, vb{1, 5, 3}, vc{4, 3}, vd{7};
    mc::HistSpec<Polynomial> c;
    c.name = "Polynomial copies";
    const auto setp = [](V* v) { return [v](Polynomial& t) { t.set_coefficients(v); }; };
    c.inputs = {{"coefficients", {{"1 2 3", setp(&va)}, {"4 3", setp(&vc)}, {"1 5 3", setp(&vb)}, {"7", setp(&vd)}}}};
    c.queries = {{"Y", [](const Polynomial& t) { return V{t.Y(0.5), t.Y(-2)}; }},
                 {"Slope", [](const Polynomial& t) { return V{t.Slope(0.5), t.Slope(-2)}; }},
                 {"Derivative", [](const Polynomial& t) { const Polynomial d = t.Derivative(); return V{d.Y(0.5), double(d.OrderMax())}; }},
                 {"X", [](const Polynomial& t) { return V{t.X(10, 6, 1)}; }}};
    c.with_copy = true;
    mc::explore_histories(ctx, c, th ? 7 : 6);
  }
}

// B04 ---------------------------------------------------------------------------
bool ref_numeric(const std::string& s) {
  size_t i = 0;
  const auto digits = [&]() { size_t n = 0; while (i < s.size() && isdigit(s[i])) { i++; n++; } return n; };
  const auto space = [&]() { while (i < s.size() && s[i] == ' ') i++; };
  space();
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
  size_t n = digits();
  if (i < s.size() && s[i] == '.') { i++; n += digits(); }
  if (n == 0) return false;
  if (i < s.size() && s[i] == 'e') {
    i++;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
    if (digits() == 0) return false;
  }
  space();
  return i == s.size();
}

std::string pick_string(Chooser& ch, const std::string& alphabet, int max) {
  std::string s;
  for (int i = 0; i < max; i++) {
    const int k = ch.choose(static_cast<int>(alphabet.size()) + 1);
    if (k == 0) break;
    s += alphabet[k - 1];
  }
  return s;
}

void b04(Ctx& ctx) {
  const int th = ctx.level;
  std::vector<std::string> words = {""};
  for (size_t i = 0; i < words.size(); i++)
    if (words[i].size() < (3 + th))
      for (char c : std::string("aAbB1 ")) words.push_back(words[i] + c);
  ctx.explore("compare", [&](Chooser& ch) {
    const std::string a = pick_string(ch, "aAbB1 ", 3 + th);
    ch.shard();
    for (const std::string& b : words) {
      std::string x = a, y = b;
      for (char& c : x) c = tolower(c);
      for (char& c : y) c = tolower(c);
      const int want = x < y ? -1 : x > y ? 1 : 0;
      const int got = helper::CompareStrings(a, b);
      ctx.eval();
      ctx.describe(cat("\"", a, "\" with \"", b, "\""));
      MC_CHECK(ctx, got == want, "compare", "comparison is ", got, " not ", want);
    }
    ctx.transition(words.size());
    ctx.outcome(mc::hash_string(a));
    ctx.state(mc::hash_string(a));
  });
  ctx.explore("numeric", [&](Chooser& ch) {
    const std::string s = pick_string(ch, "05.-+e ax", 5 + th);
    if (s.size() > 2) { /* shard below */ }
    ch.shard();
    const bool got = helper::IsNumeric(s);
    ctx.eval();
    ctx.describe(cat("\"", s, "\""));
    // the exponent may overflow
    if (ref_numeric(s) && s.find('e') != std::string::npos && std::fabs(std::strtod(s.c_str(), nullptr)) > 1e300)
      throw mc::SkipLeaf();
    MC_CHECK(ctx, got == ref_numeric(s), "numeric", got ? "is" : "is not", " numeric");
    ctx.outcome(got);
    ctx.state(mc::hash_string(s));
    ctx.transition();
  });
  ctx.explore("parse", [&](Chooser& ch) {
    const std::string s = pick_string(ch, "a ,;", 6 + 2 * th);
    ch.shard();
    for (char d : std::string(",; ")) {
      ctx.describe(cat("\"", s, "\" by '", std::string(1, d), "'"));
      std::vector<std::string> want(1);
      for (char c : s)
        if (c == d) want.push_back("");
        else want.back() += c;
      if (want.back().empty()) want.pop_back();
      const std::list<std::string> got = helper::Parse(s, d);
      ctx.eval();
      MC_CHECK(ctx, std::vector<std::string>(got.begin(), got.end()) == want, "parse", got.size(),
               " parts instead of ", want.size());
    }
    ctx.outcome(mc::hash_string(s));
    ctx.state(mc::hash_string(s));
    ctx.transition();
  });
  ctx.explore("long strings", [&](Chooser& ch) {
    const int sizes[] = {17, 33, 64, 127, 128, 129, 254, 255, 256, 257, 511, 600, 5000};
    const int n = sizes[ch.choose(13)], m = sizes[ch.choose(13)];
    ch.shard();
    ctx.describe(cat("strings of ", n, " and ", m, " characters"));
    const std::string a(n, 'x'), b(m, 'X');
    const int got = helper::CompareStrings(a, b);
    MC_CHECK(ctx, got == (n < m ? -1 : n > m), "compare", "comparison is ", got);
    const int least = std::min(n, m);
    for (int at : {0, 1, 15, 16, 31, 32, 63, 64, 100, 126, 127, 128, 200, 253, 254, 255, 256, least / 2, least - 1}) {
      if (at >= least) continue;
      std::string c = b;
      c[at] = 'Y';
      MC_CHECK(ctx, helper::CompareStrings(a, c) == -1 && helper::CompareStrings(c, a) == 1, "compare",
               "a difference at ", at, " is not seen");
      c[at] = ';';
      const std::list<std::string> parts = helper::Parse(c, ';');
      const std::string front(at, 'X'), back(m - at - 1, 'X');
      std::vector<std::string> want = {front};
      if (!back.empty()) want.push_back(back);
      MC_CHECK(ctx, std::vector<std::string>(parts.begin(), parts.end()) == want, "parse", "divided at ", at);
      ctx.eval(3);
    }
    std::string many, number(n < 300 ? n : 300, '1');
    for (int i = 0; i < n; i++) many += "a,";
    MC_CHECK(ctx, helper::Parse(many, ',').size() == size_t(n), "parse", "fewer than ", n, " parts");
    MC_CHECK(ctx, helper::IsNumeric(number) && helper::IsNumeric("0." + number) && !helper::IsNumeric(number + "x"),
             "numeric", "a number of ", number.size(), " digits");
    ctx.transition();
    ctx.outcome(n * 10000 + m);
    ctx.state(n * 10000 + m);
  });
  ctx.explore("number", [&](Chooser& ch) {
    const double base = pick(ch, V{0, 1, 2.5, 3.14159265, 9.995, 0.05, 123.456789, 99999.5, 0.000123456, 54321, 3e9});
    const double sign = pick(ch, V{-1, 1});
    const int digits = ch.choose(7 + 2 * th);
    const double add = pick(ch, V{0, 0.5, 0.25, 1e-3, 7});
    ch.shard();
    const double v = sign * (base + add);
    ctx.describe(cat(v, " with ", digits, " digits"));
    const double unit = std::pow(10, -digits);
    const double r = helper::Round(v, digits);
    MC_CHECK(ctx, std::fabs(r - v) <= unit * 0.5 * (1 + 1e-9) + 1e-15 * std::fabs(v), "round", "rounded to ", r);
    MC_CHECK(ctx, close(r / unit, std::round(r / unit), 1e-12, 1e-7), "round", r, " has more digits");
    MC_CHECK(ctx, helper::Round(-v, digits) == -r && helper::Round(r, digits) == r, "round",
             "rounding is not symmetric or not final");
    if (digits == 0 && add == 0.5 && base == std::floor(base))
      MC_CHECK(ctx, r == sign * (base + 1), "round", "half is rounded to ", r);
    const std::string fixed = helper::DoubleToString(v, digits, true);
    MC_CHECK(ctx, std::fabs(std::strtod(fixed.c_str(), nullptr) - v) <= unit * 0.5 * (1 + 1e-9) + 1e-12 + 1e-15 * std::fabs(v), "text", fixed);
    const size_t dot = fixed.find('.');
    MC_CHECK(ctx, (dot == std::string::npos ? 0 : fixed.size() - dot - 1) == size_t(digits), "text",
             fixed, " has the wrong number of decimals");
    if (digits > 0) {
      const std::string s = helper::DoubleToString(v, digits);
      const double got = std::strtod(s.c_str(), nullptr);
      const double order = v == 0 ? 1 : std::pow(10, std::floor(std::log10(std::fabs(v))) + 1 - digits);
      MC_CHECK(ctx, std::fabs(got - v) <= 0.5 * order * (1 + 1e-9), "text", s);
      MC_CHECK(ctx, helper::IsNumeric(s) && helper::IsNumeric(fixed), "text", s, " is not numeric");
    }
    ctx.eval(7);
    ctx.transition();
    ctx.outcome(mc::hash_double(r));
    ctx.state(mc::hash_string(ctx.description));
    ctx.sample(ctx.description + " " + fixed);
  });
  ctx.explore("line and cylinder", [&](Chooser& ch) {
    const V g = {-100, -1, 0, 0.5, 3, 1000};
    const double x1 = pick(ch, g), y1 = pick(ch, g), x2 = pick(ch, g), y2 = pick(ch, g), x = pick(ch, g);
    ch.shard();
    ctx.describe(cat("line ", V{x1, y1, x2, y2}, " at ", x));
    if (x1 != x2) {
      const double want = (y1 * (x2 - x) + y2 * (x - x1)) / (x2 - x1);
      MC_CHECK(ctx, close(helper::LinearY(x1, y1, x2, y2, x), want, 1e-9, 1e-6), "line", "y ",
               helper::LinearY(x1, y1, x2, y2, x), " not ", want);
      MC_CHECK(ctx, close(helper::LinearY(x2, y2, x1, y1, x), want, 1e-9, 1e-6), "line", "order of points");
      ctx.outcome(mc::hash_double(want));
    }
    Cylinder c;
    c.set_diameter(x1);
    c.set_length(y1);
    MC_CHECK(ctx, close(c.AreaCrossSection(), M_PI * x1 * x1 / 4, 1e-12) &&
                  close(c.Volume(), M_PI * x1 * x1 / 4 * y1, 1e-12), "cylinder", "area ", c.AreaCrossSection(),
             " volume ", c.Volume());
    MC_CHECK(ctx, c.Validate() == (x1 > 0 && y1 > 0), "cylinder", "validation");
    ctx.eval(5);
    ctx.transition();
    ctx.state(mc::hash_string(ctx.description));
  });
}

mc::Register r1({"B01", b01,
  "every conversion, exponent from -4 to 4, position and value of the grid; every chain of temperature conversions",
  {"exponents and denominators only apply to conversions that are a scale"}});
mc::Register r2({"B02", b02,
  "every vector with components of the grid, every plane and every rotation of the grid",
  {"rotations below 0.00005 degrees are not applied, as documented"}, true});
mc::Register r3({"B03", b03,
  "every polynomial with up to four (five thorough) coefficients of the grid, solved for every value, guess and precision; every history of changes, queries and copies",
  {"coefficients that are edited in place are set again"}});
mc::Register r4({"B04", b04,
  "every pair of strings of up to four characters, every numeric string of up to six and every parsed string of up to eight characters; strings of up to 5000 characters; grids of numbers",
  {"ASCII text"}, true});

}  // namespace
