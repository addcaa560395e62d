// Cable elongation, straining, reloading and sagging.
#include <algorithm>
#include <list>
#include <memory>

#include "fixture.h"
#include "mc.h"
#include "models/sagtension/cable_component_elongation_model.h"
#include "models/sagtension/cable_elongation_model.h"
#include "models/sagtension/cable_strainer.h"
#include "models/sagtension/catenary_cable_reloader.h"
#include "models/sagtension/catenary_cable_unloader.h"
#include "models/sagtension/line_cable_reloader.h"
#include "models/sagtension/line_cable_sagger.h"
#include "models/sagtension/line_cable_unloader.h"
#include "ref_elong.h"

namespace {

using mc::cat;
using mc::Chooser;
using mc::close;
using mc::Ctx;

typedef SagTensionCableComponent::PolynomialType PT;
typedef CableElongationModel::ComponentType CT;

double pick(Chooser& ch, const std::vector<double>& v) {
  return v[ch.choose(static_cast<int>(v.size()))];
}
PT pt(ref::Poly p) { return p == ref::kCreep ? PT::kCreep : PT::kLoadStrain; }
const char* name(ref::Poly p) { return p == ref::kCreep ? "creep" : "load-strain"; }

void rescale(CableComponent* c, double f) {
  c->scale_polynomial_y = f;
  c->load_limit_polynomial_creep *= f;
  c->load_limit_polynomial_loadstrain *= f;
  c->modulus_compression_elastic_area *= f;
  c->modulus_tension_elastic_area *= f;
}

const int kCables = 5;
const int kPartial = 3;                  // cables where only a part carries load
const char* kCableNames[kCables + kPartial] = {"ACSR", "ACSR without compression", "AAC",
                                    "ACSR in newtons", "ACSR, compressible core",
                                    "ACSR without core load-strain curve",
                                    "ACSR without core creep curve",
                                    "ACSR without shell creep curve"};
const Cable& cable(int i) {
  static std::vector<Cable> v;
  if (v.empty()) {
    v.assign(kCables + kPartial, fx::drake());
    v[1].component_shell.modulus_compression_elastic_area = 0;
    v[2] = fx::arbutus();
    rescale(&v[3].component_core, 4.4482216);
    rescale(&v[3].component_shell, 4.4482216);
    v[3].strength_rated *= 4.4482216;
    v[3].weight_unit *= 4.4482216;
    v[4].component_core.modulus_compression_elastic_area = 2000000;
    v[5].component_core.coefficients_polynomial_loadstrain.assign(5, 0);
    v[6].component_core.coefficients_polynomial_creep.assign(5, 0);
    v[7].component_shell.coefficients_polynomial_creep.assign(5, 0);
  }
  return v[i];
}
double force(int cable) { return cable == 3 ? 4.4482216 : 1; }

// Validates and tells the first message.
template <class T> std::string invalid(const T& o) {
  std::list<ErrorMessage> messages;
  if (o.Validate(false, &messages)) return "";
  return messages.empty() ? "no message" : messages.front().description;
}

// S01 -------------------------------------------------------------------------
struct CompCase {
  const char* name;
  int cable;
  bool core;
};
const CompCase kComps[] = {{"core", 0, true}, {"shell", 0, false},
    {"shell without compression", 1, false}, {"AAC shell", 2, false},
    {"core in newtons", 3, true}, {"shell in newtons", 3, false},
    {"compressible core", 4, true}};

double cb_modulus(const CompCase& cc, const Cable& cb) {
  return (cc.core ? cb.component_core : cb.component_shell).modulus_tension_elastic_area;
}

void s01(Ctx& ctx) {
  ctx.explore("component", [&](Chooser& ch) {
    const int th = ctx.level;
    const CompCase& cc = kComps[ch.choose(7)];
    const Cable& cb = cable(cc.cable);
    const double f = force(cc.cable);
    const double ts = pick(ch, mc::refine({-60, -20, 0, 32, 70, 120, 212, 392}, 3 * th));
    ch.shard();
    const ref::Poly type = static_cast<ref::Poly>(ch.choose(2));
    ref::Stretch s;
    s.load = f * pick(ch, mc::refine({0, 50, 500, 1500, 3000, 5000, 7000, 9000, 12000, 14000, 17000,
                                  20000}, 3 * th));
    s.temperature = pick(ch, mc::refine({0, 60, 140}, th));
    s.type = static_cast<ref::Poly>(ch.choose(2));
    const std::string d = cat(cc.name, " at ", ts, " on ", name(type),
        " stretched to ", s.load, " on ", name(s.type), " at ", s.temperature);
    ctx.describe(d);
    const ref::Component r(cc.core ? cb.component_core : cb.component_shell,
                           cb.temperature_properties_components);
    const ref::Component::Points p = r.points(type, s);
    const double th_s = r.thermal(ts);
    // the elastic line may run along the other curve: the intersection is then
    // not determined
    const double res = r.transfer_resolution(s.type, type, s.load, 0.02 * std::max(1.0, f));
    if (res > 4e-6) {
      ctx.note("skipped: stretch transfer is ambiguous");
      throw mc::SkipLeaf();
    }
    const double dx = 4e-7 + res;

    SagTensionCable sc;
    sc.set_cable_base(&cb);
    CableState state;
    state.temperature = ts;
    state.type_polynomial = pt(type);
    CableStretchState stretch;
    stretch.load = s.load;
    stretch.temperature = s.temperature;
    stretch.type_polynomial = pt(s.type);
    CableComponentElongationModel m;
    m.set_component_cable(cc.core ? sc.component_core() : sc.component_shell());
    m.set_state(&state);
    m.set_state_stretch(&stretch);
    m.set_temperature_reference(sc.temperature_properties_components());

    const double tol = 0.1 * f;                 // load
    MC_CHECK(ctx, m.Validate(false, nullptr), "validate", "valid model is rejected");
    MC_CHECK(ctx, close(m.StrainThermal(), th_s, 1e-9, 1e-15), "thermal",
             "thermal strain ", m.StrainThermal(), " should be ", th_s);
    const std::vector<Point2d<double>> pts = m.PointsRegions();
    MC_CHECK(ctx, pts.size() == 3, "points", "number of region points");
    const double px[3] = {p.x0 + th_s, p.x1 + th_s, p.x2 + th_s};
    const double py[3] = {0, p.y1, r.limit(type)};
    for (int i = 0; i < 3; i++)
      MC_CHECK(ctx, close(pts[i].x, px[i], 0, dx) &&
                   close(pts[i].y, py[i], 1e-9,
                         tol + res * cb_modulus(cc, cb)),
               "points", "region point ", i, " is ", pts[i].x, ", ", pts[i].y,
               " but should be ", px[i], ", ", py[i]);
    std::vector<double> xs = {px[0], px[1], px[2]};
    const int n = 120;
    for (int i = 0; i <= n; i++) xs.push_back(-0.004 + 0.024 * i / n);
    for (int i = 0; i < 3; i++) for (double e : {1e-6, -1e-6, 1e-4, -1e-4})
      xs.push_back(px[i] + e);
    std::sort(xs.begin(), xs.end());
    double last = -1e300;
    for (double x : xs) {
      const double want = r.load(type, ts, p, x), got = m.Load(x);
      const double k0 = r.slope(type, ts, p, x);
      double k = k0;
      for (double e : {-dx, dx}) k = std::max(k, r.slope(type, ts, p, x + e));
      // positions are resolved to the load tolerance of the curve
      MC_CHECK(ctx, close(got, want, 1e-6, tol + dx * k), "load", "load at strain ", x,
               " is ", got, " but should be ", want);
      MC_CHECK(ctx, got >= last - tol, "monotonic", "load falls to ", got, " from ",
               last, " at strain ", x);
      last = got;
      bool corner = false;
      for (int i = 0; i < 3; i++) if (std::fabs(x - px[i]) < dx + 1e-7) corner = true;
      if (!corner) {
        const double slope = m.Slope(x);
        MC_CHECK(ctx, close(slope, k0, 1e-5, 1), "slope", "slope at strain ", x, " is ",
                 slope, " but should be ", k0);
      }
      // strain is the inverse where the load determines it
      if (k0 > 0) {
        const double back = m.Strain(want);
        const double err = r.load(type, ts, p, back) - want;
        MC_CHECK(ctx, std::fabs(err) <= tol + dx * k, "strain", "strain at load ", want,
                 " is ", back, " but should be ", x);
      } else {
        const double back = m.Strain(-100);
        MC_CHECK(ctx, close(back, px[0], 0, dx), "strain-compressed",
                 "a component without compressive ability has strain ", back,
                 " when compressed");
      }
      ctx.eval(3);
      ctx.transition();
      ctx.state(mc::hash_mix(mc::hash_string(d), mc::hash_double(x)));
    }
    ctx.outcome(mc::hash_mix(mc::hash_double(px[0]), mc::hash_double(p.y1)));
    ctx.sample(d + cat(": stretch load ", p.y1, ", unloaded strain ", px[0]));
  });
}

mc::Register r1({"S01", s01,
  "every component x state temperature x polynomial x stretch load x stretch temperature x stretch polynomial, at every strain of a grid and around each region boundary",
  {"polynomials are increasing up to their limit, as the warnings of Validate demand"}, true});

// S02 -------------------------------------------------------------------------
const SagTensionCable& sag_cable(int i) {
  static std::map<int, SagTensionCable> m;
  if (m.count(i) == 0) m[i].set_cable_base(&cable(i));
  return m[i];
}
struct Elong {
  CableElongationModel model;
  explicit Elong(int i) { model.set_cable(&sag_cable(i)); }
};
CableState state_of(double t, ref::Poly p) {
  CableState s;
  s.temperature = t;
  s.type_polynomial = pt(p);
  return s;
}
CableStretchState stretch_of(const ref::Stretch& r) {
  CableStretchState s;
  s.load = r.load;
  s.temperature = r.temperature;
  s.type_polynomial = pt(r.type);
  return s;
}
// strain resolution of the stretch of both components; negative: undetermined
double resolution(const ref::CableModel& r, ref::Poly type, ref::Poly from, double f) {
  const double tol = 0.02 * std::max(1.0, f);
  double res = 0;
  if (r.core.enabled)
    res = std::max(res, r.core.transfer_resolution(from, type, r.stretch_core, tol));
  if (r.shell.enabled)
    res = std::max(res, r.shell.transfer_resolution(from, type, r.stretch_shell, tol));
  return res > 4e-6 ? -1 : res;
}

void s02(Ctx& ctx) {
  ctx.explore("cable", [&](Chooser& ch) {
    const bool th = ctx.thorough;
    const int ci = ch.choose(kCables + kPartial);
    const Cable& cb = cable(ci);
    const double f = force(ci);
    const double ts = pick(ch, mc::refine({-60, -20, 0, 32, 60, 70, 120, 212, 300, 392}, th ? 2 : 0));
    const ref::Poly type = static_cast<ref::Poly>(ch.choose(2));
    ch.shard();
    ref::Stretch s;
    s.load = f * pick(ch, mc::refine({0, 50, 500, 1500, 3000, 5000, 7000, 9000, 12000, 17000, 22000,
                                  26000, 30000}, th ? 2 : 0));
    const bool partial = ci >= kCables;
    if (partial && s.load > 9000) throw mc::SkipLeaf();
    s.temperature = pick(ch, mc::refine({0, 60, 140}, th ? 1 : 0));
    s.type = static_cast<ref::Poly>(ch.choose(2));
    const std::string d = cat(kCableNames[ci], " at ", ts, " on ", name(type),
        " stretched to ", s.load, " on ", name(s.type), " at ", s.temperature);
    ctx.describe(d);
    ref::CableModel r(cb);
    r.set(type, ts, s);
    const double res = resolution(r, type, s.type, f);
    if (res < 0) {
      ctx.note("skipped: stretch transfer is ambiguous");
      throw mc::SkipLeaf();
    }
    Elong e(ci);
    e.model.set_state(state_of(ts, type));
    e.model.set_state_stretch(stretch_of(s));
    std::list<ErrorMessage> messages;
    const bool is_valid = e.model.Validate(false, &messages);
    MC_CHECK(ctx, is_valid, "validate", "valid model is rejected: ",
             messages.empty() ? "" : messages.front().description);
    const double dx = 6e-7 + res, tol = 0.1 * f;

    std::vector<double> xs;
    const int n = 200;
    for (int i = 0; i <= n; i++) xs.push_back(-0.006 + 0.026 * i / n);
    const double x0 = r.strain(0);
    for (double v : {-1e-4, -1e-5, 0.0, 1e-5, 1e-4}) xs.push_back(x0 + v);
    std::sort(xs.begin(), xs.end());
    double last = -1e300;
    for (double x : xs) {
      const double want[3] = {r.load(x), r.load_core(x), r.load_shell(x)};
      const CT types[3] = {CT::kCombined, CT::kCore, CT::kShell};
      const char* names[3] = {"cable", "core", "shell"};
      double k = 0;
      for (double v : {-dx, 0.0, dx}) k = std::max(k, r.slope(x + v));
      double got[3], slope[3];
      for (int i = 0; i < 3; i++) {
        got[i] = e.model.Load(types[i], x);
        slope[i] = e.model.Slope(types[i], x);
        MC_CHECK(ctx, close(got[i], want[i], 1e-6, tol + dx * k), cat("load-", names[i]),
                 names[i], " load at strain ", x, " is ", got[i], " but should be ", want[i]);
      }
      MC_CHECK(ctx, close(got[0], got[1] + got[2], 1e-9, 1e-9), "load-sum",
               "cable load ", got[0], " is not the sum of ", got[1], " and ", got[2]);
      MC_CHECK(ctx, close(slope[0], slope[1] + slope[2], 1e-9, 1e-9), "slope-sum",
               "cable slope ", slope[0], " is not the sum of ", slope[1], " and ", slope[2]);
      // the slope jumps at region boundaries
      double s0 = 1e300, s1 = 0;
      for (double v : {-2 * dx, -dx, -1e-12, 0.0, 1e-12, dx, 2 * dx}) {
        s0 = std::min(s0, r.slope(x + v));
        s1 = std::max(s1, r.slope(x + v));
      }
      if (s1 > s0 * 1.01)   // up to the elastic slope, at the end of a stretch
        s1 = std::max(s1, cb.component_core.modulus_tension_elastic_area +
                          cb.component_shell.modulus_tension_elastic_area);
      MC_CHECK(ctx, slope[0] >= s0 * (1 - 1e-3) - 1 && slope[0] <= s1 * (1 + 1e-3) + 1,
               "slope", "slope at strain ", x, " is ", slope[0], " but should be from ", s0,
               " to ", s1);
      MC_CHECK(ctx, got[0] >= last - tol, "monotonic", "load falls to ", got[0], " from ",
               last, " at strain ", x);
      last = got[0];
      ctx.eval(4);
      ctx.transition();
      ctx.state(mc::hash_mix(mc::hash_string(d), mc::hash_double(x)));
    }
    // inverse
    std::vector<double> loads = {-500, -20, -1, 1, 20};
    const int m = 60;
    for (int i = 1; i <= m; i++) loads.push_back((partial ? 12000.0 : 32000.0) * i / m);
    loads.push_back(s.load / f);
    loads.push_back(s.load / f * 0.5);
    for (double p : loads) {
      p *= f;
      const double lo = r.strain(p);
      if (std::fabs(r.load(lo) - p) > 1e-3) {   // cable cannot be compressed
        const double g = e.model.Strain(CT::kCombined, p);
        MC_CHECK(ctx, g > -0.1 && g < 0.1, "strain-compressed", "strain at load ", p,
                 " of a cable without compressive ability is ", g);
        continue;
      }
      const double g = e.model.Strain(CT::kCombined, p);
      double k = 0;
      for (double v : {-dx, 0.0, dx}) k = std::max(k, r.slope(lo + v));
      MC_CHECK(ctx, std::fabs(r.load(g) - p) <= tol + dx * k, "strain", "strain at load ", p,
               " is ", g, " (load ", r.load(g), ") but should be ", lo);
      ctx.eval();
      ctx.transition();
    }
    // validation does not change answers, a copy answers alike
    const double xq = x0 + 0.002, a = e.model.Load(CT::kCombined, xq),
                 b = e.model.Load(CT::kCore, xq);
    e.model.Validate(true, nullptr);
    MC_CHECK(ctx, e.model.Load(CT::kCombined, xq) == a && e.model.Load(CT::kCore, xq) == b,
             "validate-effect", "validating changes the load at strain ", xq, " from ", a,
             " to ", e.model.Load(CT::kCombined, xq));
    ctx.outcome(mc::hash_mix(mc::hash_double(x0), mc::hash_double(r.stretch_core)));
    ctx.sample(d + cat(": core stretch ", r.stretch_core, ", shell stretch ",
                       r.stretch_shell, ", unloaded strain ", x0));
  });
}

mc::Register r2({"S02", s02,
  "every cable x state temperature x polynomial x stretch load x stretch temperature x stretch polynomial, at every strain and load of a grid and around the unloaded point",
  {"polynomials are increasing up to their limit",
   "scenarios whose stretch transfer has several intersections are left out (counted)"}});

// curve whose average tension is that of the catenary class, which samples it
struct Curve : ref::Curve {
  mutable Catenary3d c;
  Curve(double x, double z, double wy, double wz) : ref::Curve(x, z, wy, wz) {
    c.set_spacing_endpoints(Vector3d(x, 0, z));
    c.set_weight_unit(Vector3d(0, wy, wz));
    c.set_direction_transverse(AxisDirectionType::kPositive);
  }
  double tension_average(double h) const {
    c.set_tension_horizontal(h);
    return c.TensionAverage();
  }
};

// S03 -------------------------------------------------------------------------
struct ModelSpec {
  const char* name;
  double t;
  ref::Poly type;
  double stretch;          // pounds
  double t_stretch;
  ref::Poly type_stretch;
};
const ModelSpec kModels[] = {
    {"60 initial", 60, ref::kLoadStrain, 0, 0, ref::kLoadStrain},
    {"0 loaded at 12000", 0, ref::kLoadStrain, 12000, 0, ref::kLoadStrain},
    {"212 crept at 5000", 212, ref::kLoadStrain, 5000, 60, ref::kCreep},
    {"60 on creep", 60, ref::kCreep, 0, 0, ref::kCreep},
    {"-20 crept at 9000", -20, ref::kLoadStrain, 9000, 60, ref::kCreep},
    {"120 initial", 120, ref::kLoadStrain, 0, 0, ref::kLoadStrain},
    {"392 loaded at 20000", 392, ref::kLoadStrain, 20000, 0, ref::kLoadStrain},
    {"0 on creep, loaded at 8000", 0, ref::kCreep, 8000, 0, ref::kLoadStrain},
};
const int kModelCount = sizeof(kModels) / sizeof(kModels[0]);

// a cable model of the tree and its reference
struct Pair {
  Elong e;
  ref::CableModel r;
  double res;
  Pair(int ci, const ModelSpec& m) : e(ci), r(cable(ci)) {
    ref::Stretch s;
    s.load = m.stretch * force(ci);
    s.temperature = m.t_stretch;
    s.type = m.type_stretch;
    r.set(m.type, m.t, s);
    res = resolution(r, m.type, s.type, force(ci));
    e.model.set_state(state_of(m.t, m.type));
    e.model.set_state_stretch(stretch_of(s));
  }
};

void s03(Ctx& ctx) {
  const bool th = ctx.thorough;
  ctx.explore("strainer", [&](Chooser& ch) {
    const int ci = ch.choose(kCables);
    const double f = force(ci);
    const ModelSpec& m0 = kModels[ch.choose(kModelCount)];
    ch.shard();
    const ModelSpec& m1 = kModels[ch.choose(kModelCount)];
    const std::vector<double> ls = mc::refine({0, 100, 1000, 4000, 8000, 14000, 24000}, th);
    const double p0 = f * pick(ch, ls), p1 = f * pick(ch, ls);
    const double length = pick(ch, {1, 1200});
    const std::string d = cat(kCableNames[ci], ": ", length, " from ", p0, " at ", m0.name,
                              " to ", p1, " at ", m1.name);
    ctx.describe(d);
    Pair a(ci, m0), b(ci, m1);
    if (a.res < 0 || b.res < 0) throw mc::SkipLeaf();
    CableStrainer s;
    s.set_length_start(length);
    s.set_load_start(p0);
    s.set_load_finish(p1);
    s.set_model_start(&a.e.model);
    s.set_model_finish(&b.e.model);
    MC_CHECK(ctx, invalid(s) == "", "strainer-validate", "valid strainer is rejected: ", invalid(s));
    const double e0 = a.r.strain(p0), e1 = b.r.strain(p1);
    // strain is not determined where the cable has no stiffness
    const double k0 = std::min(a.r.slope(e0 - 1e-6), a.r.slope(e0 + 1e-6)),
                 k1 = std::min(b.r.slope(e1 - 1e-6), b.r.slope(e1 + 1e-6));
    const double tol = a.res + b.res + 1e-6 + (k0 > 0 && p0 != 0 ? 0.1 * f / k0 : 3e-6) +
                       (k1 > 0 && p1 != 0 ? 0.1 * f / k1 : 3e-6);
    const double got = s.LengthFinish(), want = ref::restrained(length, e0, e1);
    MC_CHECK(ctx, close(got, want, tol), "length", "strained length ", got, " should be ", want);
    CableStrainer back;
    back.set_length_start(got);
    back.set_load_start(p1);
    back.set_load_finish(p0);
    back.set_model_start(&b.e.model);
    back.set_model_finish(&a.e.model);
    MC_CHECK(ctx, close(back.LengthFinish(), length, 1e-12), "round-trip", "straining back gives ",
             back.LengthFinish(), " instead of ", length);
    ctx.eval(2);
    ctx.transition(2);
    ctx.state(mc::hash_string(d));
    ctx.outcome(mc::hash_double(got));
    ctx.sample(d + cat(": ", got));
  });

  struct Span { double x, z; };
  const std::vector<Span> spans = th ? std::vector<Span>{{1200, 0}, {1000, 200}, {700, -350}, {250, 10}, {3000, 0}, {5000, -900}, {80, 0}, {1800, 700}}
                                     : std::vector<Span>{{1200, 0}, {1000, 200}, {700, -350}, {3000, 0}};
  struct Wt { double y, z; };
  const std::vector<Wt> wts = {{0, 1.096}, {0, 2.4}, {0.8, 1.3}, {2.5, 1.1}};
  ctx.explore("catenary", [&](Chooser& ch) {
    const int ci = ch.choose(kCables);
    const double f = force(ci);
    const Span sp = spans[ch.choose(static_cast<int>(spans.size()))];
    const int i0 = ch.choose(kModelCount);
    ch.shard();
    const int i1 = ch.choose(kModelCount);
    const Wt w0 = wts[ch.choose(th ? 4 : 2) * (th ? 1 : 2)];
    const double h0 = f * pick(ch, th ? std::vector<double>{700, 1200, 2000, 3000, 4500, 6000, 8000}
                                      : std::vector<double>{1500, 6000});
    const Wt w1 = wts[ch.choose(4)];
    const AxisDirectionType dir = w0.y == 0 && w1.y == 0 ? AxisDirectionType::kPositive
        : (ch.choose(2) ? AxisDirectionType::kPositive : AxisDirectionType::kNegative);
    const std::string d = cat(kCableNames[ci], ": span ", sp.x, ", ", sp.z, " at ", h0, " under ",
        w0.y, ", ", w0.z, " at ", kModels[i0].name, " reloaded to ", w1.y, ", ", w1.z, " at ",
        kModels[i1].name, dir == AxisDirectionType::kNegative ? " negative" : "");
    ctx.describe(d);
    const Curve c0(sp.x, sp.z, w0.y * f, w0.z * f), c1(sp.x, sp.z, w1.y * f, w1.z * f);
    Pair a(ci, kModels[i0]), b(ci, kModels[i1]);
    if (a.res < 0 || b.res < 0) throw mc::SkipLeaf();
    const double l0 = c0.length(h0), t0 = c0.tension_average(h0);
    const double rts = cable(ci).strength_rated;
    if (t0 > rts || h0 < 0.3 * c0.chord() * c0.w) throw mc::SkipLeaf();
    const double e0 = a.r.strain(t0);
    const auto excess = [&](double h) {
      return ref::restrained(l0, e0, b.r.strain(c1.tension_average(h))) - c1.length(h);
    };
    const double h_min = 0.26 * c1.chord() * c1.w, h_max = 1.3 * rts;
    if (excess(h_min) > 0 || excess(h_max) < 0) {
      ctx.note("skipped: reloaded tension out of range");
      throw mc::SkipLeaf();
    }
    const double h1 = ref::bisect(excess, h_min, h_max);
    if (h1 > rts || h1 < 0.35 * c1.chord() * c1.w) throw mc::SkipLeaf();
    // tension per unit of strain
    const double dh = 1e-4 * h1;
    const double k = 2 * dh / ((excess(h1 + dh) - excess(h1 - dh)) / l0);
    const double tol = 0.03 * std::max(1.0, f) + k * (a.res + b.res + 6e-7) + 2e-5 * h1;

    const Catenary3d cat0 = [&] {
      Catenary3d c;
      c.set_direction_transverse(dir);
      c.set_spacing_endpoints(Vector3d(sp.x, 0, sp.z));
      c.set_tension_horizontal(h0);
      c.set_weight_unit(Vector3d(0, w0.y * f, w0.z * f));
      return c;
    }();
    if (!cat0.Validate(false, nullptr)) throw mc::SkipLeaf();
    const Vector3d w(0, w1.y * f, w1.z * f);
    CatenaryCableReloader r;
    r.set_catenary(&cat0);
    r.set_model_reference(&a.e.model);
    r.set_model_reloaded(&b.e.model);
    r.set_weight_unit_reloaded(&w);
    MC_CHECK(ctx, invalid(r) == "", "reload-unsolved", "the reloaded tension ", h1,
             " is not solved: ", invalid(r));
    const Catenary3d c = r.CatenaryReloaded();
    const double h = c.tension_horizontal();
    MC_CHECK(ctx, close(h, h1, 0, tol), "reload-tension", "reloaded tension ", h, " should be ",
             h1, " within ", tol);
    MC_CHECK(ctx, r.TensionHorizontal() == h, "reload-query", "TensionHorizontal ",
             r.TensionHorizontal(), " is not that of the catenary ", h);
    const Vector3d s1 = c.spacing_endpoints(), wr = c.weight_unit();
    MC_CHECK(ctx, s1.x() == sp.x && s1.y() == 0 && s1.z() == sp.z && wr.x() == 0 &&
                  wr.y() == w.y() && wr.z() == w.z() && c.direction_transverse() == dir,
             "reload-geometry", "end points, unit weight or transverse direction differ");
    // the material of the cable is conserved
    const double lf = ref::restrained(l0, e0, b.r.strain(c.TensionAverage()));
    MC_CHECK(ctx, close(c.Length(), lf, 1e-6 + 2 * tol / k), "reload-length", "catenary length ",
             c.Length(), " is not the strained length ", lf);

    CatenaryCableUnloader u;
    u.set_catenary(&cat0);
    u.set_model_reference(&a.e.model);
    u.set_model_unloaded(&b.e.model);
    MC_CHECK(ctx, invalid(u) == "", "unload-validate", "valid unloader is rejected: ", invalid(u));
    const double lu = ref::restrained(l0, e0, b.r.strain(0));
    MC_CHECK(ctx, close(u.LengthUnloaded(), lu, 6e-6 + a.res + b.res), "unload-length",
             "unloaded length ", u.LengthUnloaded(), " should be ", lu);
    MC_CHECK(ctx, close(r.LengthUnloaded(), ref::restrained(l0, e0, a.r.strain(0)),
                        6e-6 + a.res), "reload-unloaded-length", "unloaded length ",
             r.LengthUnloaded(), " should be ", ref::restrained(l0, e0, a.r.strain(0)));
    ctx.eval(7);
    ctx.transition(2);
    ctx.state(mc::hash_string(d));
    ctx.outcome(mc::hash_double(h));
    ctx.sample(d + cat(": ", h));
  });
}

mc::Register r3({"S03", s03,
  "every cable x pair of cable states x loads x length (strainer); every cable x span x pair of states x pair of unit loads x tension x transverse direction (reloader, unloader)",
  {"tension up to the rated strength and sag up to about 0.4 of the span"}});

// S04 -------------------------------------------------------------------------
const int kWeathers = 6;
const WeatherLoadCase& weather(int i) {
  static std::vector<WeatherLoadCase> v;
  if (v.empty()) {
    v = {fx::weather("60 bare", 0, 0, 0, 60),
         fx::weather("0 heavy", 0.5 / 12, 57.3, 8, 0),
         fx::weather("212 bare", 0, 0, 0, 212),
         fx::weather("-20 bare", 0, 0, 0, -20),
         fx::weather("60 extreme wind", 0, 0, 21, 60),
         fx::weather("32 extreme ice", 1.0 / 12, 57.3, 0, 32),
         fx::weather("160 extreme wind", 0, 0, 25, 160)};  // a stretch case only
  }
  return v[i];
}
const CableConditionType kConditions[] = {CableConditionType::kInitial,
    CableConditionType::kCreep, CableConditionType::kLoad};
const char* kConditionNames[] = {"initial", "creep", "load"};

// Reference of a line cable in the ruling span.
class RefLine {
 public:
  // cables 0-2 and 4 (pounds)
  RefLine(int ci, double x, double z, int creep, int load)
      : cable_(cable(ci)), x_(x), z_(z), creep_(creep), load_(load),
        constraint_(cable_), model_(cable_) {}
  void unit_load(int w, double* y, double* z) const {
    const WeatherLoadCase& c = weather(w);
    const double d = cable_.diameter, o = d + 2 * c.thickness_ice;
    *y = o * c.pressure_wind;
    *z = cable_.weight_unit + 3.14159265358979 / 4 * (o * o - d * d) * c.density_ice;
  }
  Curve curve(int w, double x, double z) const {
    double wy, wz;
    unit_load(w, &wy, &wz);
    return Curve(x, z, wy, wz);
  }
  Curve curve(int w) const { return curve(w, x_, z_); }
  // false when the scenario is out of the bounds of the property
  bool constrain(int w, int condition, double h) {
    const Curve c = curve(w);
    if (!usable(c, h)) return false;
    length_ = c.length(h);
    tension_ = c.tension_average(h);
    w_ = w;
    ref::Stretch s;
    s.load = 0;
    s.type = condition == 1 ? ref::kCreep : ref::kLoadStrain;
    s.temperature = condition == 0 ? 0 : weather(condition == 1 ? creep_ : load_).temperature_cable;
    const double rts = cable_.strength_rated;
    if (condition != 0) {
      const int ws = condition == 1 ? creep_ : load_;
      bool ok = true;
      const auto diff = [&](double stretch) {
        s.load = stretch;
        set_constraint(s);
        double t;
        if (!stretch_tension(ws, s.type, &t)) { ok = false; return 0.0; }
        return stretch - t;
      };
      if (diff(0) > 0 || diff(rts) < 0 || !ok) return false;
      s.load = ref::bisect(diff, 0, rts);
      if (!ok) return false;
    }
    set_constraint(s);
    // stretch of the other conditions
    for (int k = 1; k < 3; k++) {
      ref::Stretch& o = stretch_[k];
      if (condition == k) {
        o = s;
        continue;
      }
      const int ws = k == 1 ? creep_ : load_;
      o.temperature = weather(ws).temperature_cable;
      o.type = k == 1 ? ref::kCreep : ref::kLoadStrain;
      if (!stretch_tension(ws, o.type, &o.load)) return false;
    }
    stretch_[0] = ref::Stretch();
    return true;
  }
  bool reload(int w, int condition, double* h) {
    set_model(ref::kLoadStrain, weather(w).temperature_cable, stretch_[condition]);
    return solve(w, h);
  }
  const ref::CableModel& model() const { return model_; }
  double unloaded(double t, int condition, double x, double z, double h) {
    const Curve c = curve(w_, x, z);
    set_model(ref::kLoadStrain, t, stretch_[condition]);
    return ref::restrained(c.length(h), constraint_.strain(c.tension_average(h)), model_.strain(0));
  }
  const ref::Stretch& stretch(int k) const { return stretch_[k]; }
  bool ambiguous = false;

 private:
  bool usable(const Curve& c, double h) const {
    return h > 0.52 * c.chord() * c.w && h < cable_.strength_rated;
  }
  void set_constraint(const ref::Stretch& s) {
    constraint_.set(ref::kLoadStrain, weather(w_).temperature_cable, s);
    if (resolution(constraint_, ref::kLoadStrain, s.type, 1) < 0) ambiguous = true;
    strain_ = constraint_.strain(tension_);
  }
  void set_model(ref::Poly p, double t, const ref::Stretch& s) {
    model_.set(p, t, s);
    if (resolution(model_, p, s.type, 1) < 0) ambiguous = true;
  }
  bool stretch_tension(int w, ref::Poly p, double* t) {
    set_model(p, weather(w).temperature_cable, ref::Stretch());
    double h;
    if (!solve(w, &h)) return false;
    *t = curve(w).tension_average(h);
    return true;
  }
  bool solve(int w, double* h) const {
    const Curve c = curve(w);
    double lo = 0.26 * c.chord() * c.w, hi = 1.2 * cable_.strength_rated;
    const auto excess = [&](double v) {
      return ref::restrained(length_, strain_, model_.strain(c.tension_average(v))) - c.length(v);
    };
    if (excess(lo) > 0 || excess(hi) < 0) return false;
    for (int i = 0; i < 60 && hi - lo > 1e-7; i++) {
      const double m = (lo + hi) / 2;
      if (excess(m) < 0) lo = m; else hi = m;
    }
    *h = (lo + hi) / 2;
    return usable(c, *h);
  }
  const Cable& cable_;
  double x_, z_;
  int creep_, load_, w_ = 0;
  double length_ = 0, tension_ = 0, strain_ = 0;
  ref::CableModel constraint_, model_;
  ref::Stretch stretch_[3];
};

// line cable between two attachments
struct Line {
  Structure structure;
  Hardware hardware;
  LineStructure ends[2];
  LineCable line;
  Line(int ci, double x, double z, int creep, int load) {
    structure.name = "S";
    structure.height = 100;
    structure.attachments.resize(1);
    structure.attachments[0].offset_longitudinal = 0;
    structure.attachments[0].offset_transverse = 0;
    structure.attachments[0].offset_vertical_top = 0;
    hardware.name = "H";
    hardware.area_cross_section = 1;
    hardware.length = 0;
    hardware.weight = 0;
    hardware.type = Hardware::HardwareType::kDeadEnd;
    line.set_cable(&cable(ci));
    for (int i = 0; i < 2; i++) {
      ends[i].set_station(1000 * i);
      ends[i].set_structure(&structure);
      ends[i].AttachHardware(0, &hardware);
      LineCableConnection c;
      c.line_structure = &ends[i];
      c.index_attachment = 0;
      line.AddConnection(c);
    }
    line.set_spacing_attachments_ruling_span(Vector3d(x, 0, z));
    line.set_weathercase_stretch_creep(&weather(creep));
    line.set_weathercase_stretch_load(&weather(load));
  }
  Line(const Line&) = delete;
};

typedef CableConstraint::LimitType LT;
// The limit which describes a horizontal tension.
double limit_of(LT type, const Catenary3d& c) {
  switch (type) {
    case LT::kHorizontalTension: return c.tension_horizontal();
    case LT::kCatenaryConstant: return c.Constant();
    case LT::kLength: return c.Length();
    case LT::kSag: return c.Sag();
    default: return std::max(c.Tension(0), c.Tension(1));
  }
}
const LT kLimits[] = {LT::kHorizontalTension, LT::kCatenaryConstant, LT::kSupportTension,
                      LT::kLength, LT::kSag};
const char* kLimitNames[] = {"horizontal tension", "constant", "support tension", "length", "sag"};
Catenary3d catenary_of(const Curve& c, double h) {
  Catenary3d k = c.c;
  k.set_tension_horizontal(h);
  return k;
}

struct Span2 { double x, z; };
const std::vector<Span2> kSpans = {{1200, 0}, {700, 150}, {400, -30}, {2500, -100}};

void s04(Ctx& ctx) {
  const bool th = ctx.thorough;
  ctx.explore("line cable", [&](Chooser& ch) {
    const int ci = std::vector<int>{0, 2, 1, 4}[ch.choose(4)];
    const Span2 sp = kSpans[ch.choose(th ? 4 : 3)];
    const int creep = std::vector<int>{0, 2, 4}[ch.choose(3)];
    const int load = std::vector<int>{1, 5, 4, 6}[ch.choose(4)];
    const int w0 = ch.choose(kWeathers);
    const int k0 = ch.choose(3);
    ch.shard();
    const double h0 = pick(ch, th ? std::vector<double>{1500, 2000, 3000, 4000, 5200, 6500, 8000} : std::vector<double>{3000, 6000});
    const int lt = th ? ch.choose(5) : (w0 + k0) % 5;
    if (th && lt != 0 && (lt != (w0 + k0 + creep + load) % 5)) throw mc::SkipLeaf();
    const std::string d = cat(kCableNames[ci], " span ", sp.x, ", ", sp.z, ", creep at ",
        weather(creep).description, ", load at ", weather(load).description, ", constraint ", h0,
        " lb at ", weather(w0).description, " ", kConditionNames[k0], " by ", kLimitNames[lt]);
    ctx.describe(d);
    RefLine r(ci, sp.x, sp.z, creep, load);
    if (!r.constrain(w0, k0, h0) || r.ambiguous) {
      ctx.note("skipped: constraint out of range or ambiguous stretch");
      throw mc::SkipLeaf();
    }
    Line l(ci, sp.x, sp.z, creep, load);
    CableConstraint c;
    c.case_weather = &weather(w0);
    c.condition = kConditions[k0];
    c.type_limit = kLimits[lt];
    c.limit = limit_of(kLimits[lt], catenary_of(r.curve(w0), h0));
    l.line.set_constraint(c);

    LineCableReloader re;
    re.set_line_cable(&l.line);
    re.set_condition_reloaded(CableConditionType::kInitial);
    re.set_weathercase_reloaded(&weather(0));
    const CableStretchState creep_state = re.StretchStateCreep(), load_state = re.StretchStateLoad();
    const double tol = 0.5 + 2e-4 * h0;
    const double tol_stretch = 5 * tol;
    MC_CHECK(ctx, close(creep_state.load, r.stretch(1).load, 1e-4, tol_stretch), "stretch-creep",
             "creep stretch ", creep_state.load, " should be ", r.stretch(1).load);
    MC_CHECK(ctx, close(load_state.load, r.stretch(2).load, 1e-4, tol_stretch), "stretch-load",
             "load stretch ", load_state.load, " should be ", r.stretch(2).load);
    MC_CHECK(ctx, creep_state.temperature == weather(creep).temperature_cable &&
                  creep_state.type_polynomial == PT::kCreep &&
                  load_state.temperature == weather(load).temperature_cable &&
                  load_state.type_polynomial == PT::kLoadStrain,
             "stretch-state", "temperature or polynomial of the stretch states");

    for (int w1 = 0; w1 < kWeathers; w1++) {
      for (int k1 = 0; k1 < 3; k1++) {
        double h1;
        if (!r.reload(w1, k1, &h1) || r.ambiguous) {
          r.ambiguous = false;
          ctx.note("skipped: reload out of range or ambiguous stretch");
          continue;
        }
        const std::string q = cat(" at ", weather(w1).description, " ", kConditionNames[k1]);
        re.set_weathercase_reloaded(&weather(w1));
        re.set_condition_reloaded(kConditions[k1]);
        MC_CHECK(ctx, invalid(re) == "", "reload-unsolved", "the tension ", h1, q,
                 " is not solved: ", invalid(re));
        const Catenary3d k = re.CatenaryReloaded();
        MC_CHECK(ctx, close(k.tension_horizontal(), h1, 3e-4, tol), "reload", "the tension",
                 q, " is ", k.tension_horizontal(), " but should be ", h1);
        if (w1 == w0 && k1 == k0)
          MC_CHECK(ctx, close(k.tension_horizontal(), h0, 1e-4, 0.1), "round-trip",
                   "reloading to the constraint gives ", k.tension_horizontal());
        MC_CHECK(ctx, re.TensionHorizontal() == k.tension_horizontal(), "reload-query",
                 "TensionHorizontal", q, " is ", re.TensionHorizontal());
        double wy, wz;
        r.unit_load(w1, &wy, &wz);
        const Vector3d s1 = k.spacing_endpoints(), wr = k.weight_unit();
        MC_CHECK(ctx, s1.x() == sp.x && s1.y() == 0 && s1.z() == sp.z && wr.x() == 0 &&
                      close(wr.y(), wy, 1e-9) && close(wr.z(), wz, 1e-9),
                 "reload-geometry", "end points or unit load", q);
        const CableState st = re.StateReloaded();
        MC_CHECK(ctx, st.temperature == weather(w1).temperature_cable &&
                      st.type_polynomial == PT::kLoadStrain, "reload-state", "state", q);
        // components share the tension
        const double ta = k.TensionAverage(), e = r.model().strain(ta);
        const double core = re.TensionAverageComponent(CT::kCore),
                     shell = re.TensionAverageComponent(CT::kShell);
        MC_CHECK(ctx, close(core + shell, ta, 1e-6, 0.1) &&
                      close(re.TensionAverageComponent(CT::kCombined), ta, 1e-6, 0.1),
                 "component-sum", "core ", core, " and shell ", shell, q, " do not add up to ", ta);
        MC_CHECK(ctx, close(core, r.model().load_core(e), 1e-3, 3 * tol) &&
                      close(shell, r.model().load_shell(e), 1e-3, 3 * tol),
                 "component", "core and shell tension", q, " are ", core, " and ", shell,
                 " but should be ", r.model().load_core(e), " and ", r.model().load_shell(e));
        const double ratio = k.tension_horizontal() / ta;
        MC_CHECK(ctx, close(re.TensionHorizontalComponent(CT::kCore), core * ratio, 1e-9, 1e-9) &&
                      close(re.TensionHorizontalComponent(CT::kShell), shell * ratio, 1e-9, 1e-9),
                 "component-horizontal", "horizontal component tensions", q);
        ctx.eval(8);
        ctx.transition();
        ctx.state(mc::hash_string(d + q));
        ctx.outcome(mc::hash_double(k.tension_horizontal()));
      }
    }

    LineCableUnloader u;
    u.set_line_cable(&l.line);
    for (const Span2& us : {sp, Span2{sp.x * 0.8, 25}}) {
      for (int k1 = 0; k1 < 3; k1++) {
        for (double t : {0.0, 212.0}) {
          const double want = r.unloaded(t, k1, us.x, us.z, h0);
          if (r.ambiguous) {
            r.ambiguous = false;
            continue;
          }
          u.set_spacing_attachments(Vector3d(us.x, 0, us.z));
          u.set_condition_unloaded(kConditions[k1]);
          u.set_temperature_unloaded(t);
          MC_CHECK(ctx, invalid(u) == "", "unload-invalid", "valid unloader is rejected: ", invalid(u));
          MC_CHECK(ctx, close(u.LengthUnloaded(), want, 2e-5), "unload", "unloaded length for span ",
                   us.x, ", ", us.z, " at ", t, " ", kConditionNames[k1], " is ",
                   u.LengthUnloaded(), " but should be ", want);
          ctx.eval();
          ctx.transition();
        }
      }
    }
    ctx.sample(d + cat(": creep stretch ", creep_state.load, ", load stretch ", load_state.load));
  });
}

mc::Register r4({"S04", s04,
  "every cable x ruling span x stretch weather cases x constraint (weather, condition, tension, limit type), reloaded to every weather and condition and unloaded at every condition",
  {"tension up to the rated strength and sag up to about 0.3 of the span",
   "scenarios whose stretch transfer has several intersections are left out (counted)"}});

// S05 -------------------------------------------------------------------------
void s05(Ctx& ctx) {
  const bool th = ctx.thorough;
  struct Design { int w, k, lt; double f; };   // f: fraction of the rated strength
  const std::vector<Design> all = {
      {1, 0, 2, 0.5}, {0, 1, 0, 0.2}, {3, 1, 1, 0.2}, {0, 0, 0, 0.25},
      {4, 2, 2, 0.45}, {2, 2, 1, 0.12}, {1, 2, 0, 0.4}, {5, 0, 2, 0.6},
      {0, 0, 1, 0.26}, {1, 0, 0, 0.47}, {2, 1, 4, 0.21}};    // cases of others, of another type
  const int n_all = all.size();
  // tensions of a cable sagged to a design constraint, at another state
  std::map<std::vector<int>, std::pair<bool, double>> memo;
  const auto tension_of = [](int ci, const Span2& sp, const Design& v) {
    const double t = v.f * cable(ci).strength_rated;
    if (v.lt != 2) return t;
    const Curve c = RefLine(ci, sp.x, sp.z, 0, 1).curve(v.w);
    return ref::bisect([&](double y) {
      return limit_of(LT::kSupportTension, catenary_of(c, y)) - t; }, 0.1 * t, t);
  };
  const auto at = [&](int ci, int si, int di, int w, int k, double* y) {
    const std::vector<int> key = {ci, si, di, w, k};
    auto it = memo.find(key);
    if (it == memo.end()) {
      const Span2& sp = kSpans[si];
      RefLine r(ci, sp.x, sp.z, 0, 1);
      double v = 0;
      const bool ok = r.constrain(all[di].w, all[di].k, tension_of(ci, sp, all[di])) &&
                      r.reload(w, k, &v) && !r.ambiguous;
      it = memo.emplace(key, std::make_pair(ok, v)).first;
    }
    *y = it->second.second;
    return it->second.first;
  };
  ctx.explore("sagger", [&](Chooser& ch) {
    const int ci = std::vector<int>{0, 2}[ch.choose(2)];
    const int si = ch.choose(3);
    const Span2 sp = kSpans[si];
    const int wl = std::vector<int>{0, 2, 1, 3}[ch.choose(4)], kl = ch.choose(3);
    const int lt = ch.choose(5);
    ch.shard();
    // larger collections: every order of three of five, and all of them
    // starting at each in both directions
    const bool is_large = lt == 0 && (th || si == 0);
    int n = 1 + ch.choose((th ? 3 : 2) + (is_large ? 2 : 0));
    const int large = n - (th ? 3 : 2);
    std::vector<Design> ds;
    std::vector<int> is;
    if (large == 1) {
      const std::vector<int> few = {0, 1, 3, 5, 9};
      n = 3;
      for (int i = 0; i < n; i++) {
        is.push_back(few[ch.choose(few.size())]);
        if (std::count(is.begin(), is.end(), is.back()) > 1) throw mc::SkipLeaf();
      }
    } else if (large == 2) {
      n = n_all;
      const int first = ch.choose(n_all), step = ch.choose(2) ? 1 : n_all - 1;
      for (int i = 0; i < n; i++) is.push_back((first + i * step) % n_all);
    }
    for (int j : is) ds.push_back(all[j]);
    for (int i = 0; i < n && large < 1; i++) {
      const int j = n == 3 && i > 0 ? (ch.choose(4) * 2 + i * 3 + is[0]) % n_all
                                    : ch.choose(n_all);
      is.push_back(j);
      ds.push_back(all[j]);
    }
    std::string d = cat(kCableNames[ci], " span ", sp.x, ", ", sp.z, " sagged at ",
        weather(wl).description, " ", kConditionNames[kl], " by ", kLimitNames[lt], ":");
    for (const Design& v : ds)
      d += cat(" [", weather(v.w).description, " ", kConditionNames[v.k], " ", kLimitNames[v.lt],
               " ", v.f, "]");
    ctx.describe(d);
    const double rts = cable(ci).strength_rated;
    std::vector<double> h, hl;
    const RefLine r(ci, sp.x, sp.z, 0, 1);
    for (int i = 0; i < n; i++) {
      double y;
      if (!at(ci, si, is[i], wl, kl, &y)) {
        ctx.note("skipped: tension out of range or ambiguous stretch");
        throw mc::SkipLeaf();
      }
      h.push_back(tension_of(ci, sp, ds[i]));
      hl.push_back(y);
    }
    const int control = std::min_element(hl.begin(), hl.end()) - hl.begin();
    Line l(ci, sp.x, sp.z, 0, 1);
    std::vector<CableConstraint> cs;
    for (int i = 0; i < n; i++) {
      CableConstraint c;
      c.case_weather = &weather(ds[i].w);
      c.condition = kConditions[ds[i].k];
      c.type_limit = kLimits[ds[i].lt];
      c.limit = limit_of(c.type_limit, catenary_of(r.curve(ds[i].w), h[i]));
      cs.push_back(c);
    }
    CableConstraint c;
    c.case_weather = &weather(wl);
    c.condition = kConditions[kl];
    c.type_limit = kLimits[lt];
    c.limit = limit_of(c.type_limit, catenary_of(r.curve(wl), 3000));
    l.line.set_constraint(c);
    LineCableSagger sg;
    sg.set_line_cable(&l.line);
    sg.set_constraints_design(&cs);
    MC_CHECK(ctx, invalid(sg) == "", "sagger-unsolved", "valid design constraints are rejected: ",
             invalid(sg));
    const int got = sg.IndexConstraintControlling();
    const double tol = 1.0 + 4e-4 * hl[control];
    MC_CHECK(ctx, got >= 0 && got < n && hl[got] <= hl[control] + tol, "controlling",
             "constraint ", got, " controls instead of ", control);
    const CableConstraint line = l.line.constraint();
    MC_CHECK(ctx, line.case_weather == c.case_weather && line.condition == c.condition &&
                  line.type_limit == c.type_limit, "constraint-kind",
             "sagging changes the weather, condition or type of the line cable constraint");
    MC_CHECK(ctx, sg.LimitConstraintSaggedLineCable() == line.limit, "limit-query",
             "reported limit ", sg.LimitConstraintSaggedLineCable(), " is not ", line.limit);
    const double sagged = l.line.CatenaryRulingSpan().tension_horizontal();
    MC_CHECK(ctx, close(sagged, hl[control], 0, tol), "sagged", "the line cable is sagged to ",
             sagged, " but should be to ", hl[control]);
    for (int i = 0; i < n; i++) {
      double a;
      const bool ok = at(ci, si, is[control], ds[i].w, ds[i].k, &a);
      const double cap = sg.CapacityAllowable(i), ta = sg.TensionHorizontalActual(i);
      if (ok)
        MC_CHECK(ctx, close(ta, a, 1e-3, 3), "actual", "actual tension at design constraint ", i,
                 " is ", ta, " but should be ", a);
      const Catenary3d k = catenary_of(r.curve(ds[i].w), ta);
      MC_CHECK(ctx, close(sg.CatenaryConstantActual(i), k.Constant(), 1e-9) &&
                    close(sg.TensionSupportActual(i), limit_of(LT::kSupportTension, k), 1e-6),
               "actual-query", "constant or support tension at design constraint ", i);
      const double ratio = limit_of(cs[i].type_limit, k) / cs[i].limit;
      ctx.eval(2);
      // the use of a limit of sag or length is not defined
      if (ds[i].lt > 2) continue;
      MC_CHECK(ctx, close(cap, ratio, 1e-6), "capacity", "capacity at design constraint ", i,
               " is ", cap, " but should be ", ratio);
      MC_CHECK(ctx, cap <= 1.003, "exceeded", "design constraint ", i, " is exceeded: ", cap);
      if (i == got)
        MC_CHECK(ctx, close(cap, 1, 3e-3), "not-reached", "controlling constraint is used to ", cap);
      ctx.eval(5);
    }
    ctx.transition(n + 1);
    if (n > 2) ctx.note(cat("collections of ", n));
    ctx.state(mc::hash_string(d));
    ctx.outcome(mc::hash_double(sagged));
    ctx.sample(d + cat(": ", sagged, " controlled by ", got));
  });
}

mc::Register r5({"S05", s05,
  "every cable x ruling span x line cable constraint (weather, condition, limit type) x collection of design constraints",
  {"tension up to the rated strength and sag up to about 0.3 of the span"}});

// S06 -------------------------------------------------------------------------
typedef std::vector<double> V;
V state_vec(const CableStretchState& s) {
  return {s.load, s.temperature, static_cast<double>(s.type_polynomial)};
}
V catenary_vec(const Catenary3d& c) {
  return {c.tension_horizontal(), c.Length(), c.spacing_endpoints().x(), c.spacing_endpoints().z(),
          c.weight_unit().y(), c.weight_unit().z(),
          static_cast<double>(c.direction_transverse())};
}
// Objects whose inputs are passed by address, and are edited in place.
struct HistComponent {
  CableComponentElongationModel m;
  CableState state;
  CableStretchState stretch;
};
struct HistReloader {
  CatenaryCableReloader r;
  Catenary3d catenary;
  CableElongationModel m0, m1;
  Vector3d weight;
};
struct HistLine {
  LineCable line;
  WeatherLoadCase w, creep, load;
  LineCableReloader r;
};
struct HistUnloader {
  LineCable line;
  LineCableUnloader u;
};
struct HistSagger {
  LineCable line;
  std::vector<CableConstraint> cs;
  LineCableSagger s;
};
struct HistCatenaryUnloader {
  Catenary3d catenary;
  CatenaryCableUnloader u;
};
CableConstraint constraint(int w, int k, LT type, double limit) {
  CableConstraint c;
  c.case_weather = &weather(w);
  c.condition = kConditions[k];
  c.type_limit = type;
  c.limit = limit;
  return c;
}
Catenary3d cat3(double x, double z, double h, double wy, double wz, bool pos) {
  Catenary3d c;
  c.set_direction_transverse(pos ? AxisDirectionType::kPositive : AxisDirectionType::kNegative);
  c.set_spacing_endpoints(Vector3d(x, 0, z));
  c.set_tension_horizontal(h);
  c.set_weight_unit(Vector3d(0, wy, wz));
  return c;
}
const CableElongationModel& static_model(int i) {
  static std::vector<CableElongationModel> v;
  if (v.empty()) {
    v.resize(kModelCount);
    for (int k = 0; k < kModelCount; k++) {
      ref::Stretch s;
      s.load = kModels[k].stretch;
      s.temperature = kModels[k].t_stretch;
      s.type = kModels[k].type_stretch;
      v[k].set_cable(&sag_cable(0));
      v[k].set_state(state_of(kModels[k].t, kModels[k].type));
      v[k].set_state_stretch(stretch_of(s));
    }
  }
  return v[i];
}
LineCable& static_line(int i) {
  static std::vector<LineCable> v;
  if (v.empty()) {
    static Line ends(0, 1000, 0, 0, 1);
    v.resize(2);
    for (int k = 0; k < 2; k++) {
      v[k] = ends.line;
      v[k].set_cable(&cable(k == 0 ? 0 : 2));
      v[k].set_spacing_attachments_ruling_span(k == 0 ? Vector3d(1200, 0, 0) : Vector3d(700, 0, 80));
      v[k].set_weathercase_stretch_creep(&weather(0));
      v[k].set_weathercase_stretch_load(&weather(1));
      v[k].set_constraint(constraint(0, k, LT::kHorizontalTension, k == 0 ? 5000 : 2500));
    }
  }
  return v[i];
}
ref::Stretch rs(double load, double t, ref::Poly p) {
  ref::Stretch s;
  s.load = load;
  s.temperature = t;
  s.type = p;
  return s;
}

void s06(Ctx& ctx) {
  const bool th = ctx.thorough;
  {
    mc::HistSpec<HistComponent> sp;
    sp.name = "CableComponentElongationModel";
    sp.init = [](HistComponent& h) {
      h.m.set_temperature_reference(sag_cable(0).temperature_properties_components());
    };
    sp.inputs = {
        {"component", {{"core", [](HistComponent& h) { h.m.set_component_cable(sag_cable(0).component_core()); }},
                       {"shell", [](HistComponent& h) { h.m.set_component_cable(sag_cable(0).component_shell()); }},
                       {"AAC shell", [](HistComponent& h) { h.m.set_component_cable(sag_cable(2).component_shell()); }}}},
        {"state", {{"60 load-strain", [](HistComponent& h) { h.state = state_of(60, ref::kLoadStrain); h.m.set_state(&h.state); }},
                   {"60 creep", [](HistComponent& h) { h.state = state_of(60, ref::kCreep); h.m.set_state(&h.state); }},
                   {"60.2 load-strain", [](HistComponent& h) { h.state = state_of(60.2, ref::kLoadStrain); h.m.set_state(&h.state); }},
                   {"212 load-strain", [](HistComponent& h) { h.state = state_of(212, ref::kLoadStrain); h.m.set_state(&h.state); }}}},
        {"stretch", {{"none", [](HistComponent& h) { h.stretch = stretch_of(rs(0, 0, ref::kLoadStrain)); h.m.set_state_stretch(&h.stretch); }},
                     {"3000 creep", [](HistComponent& h) { h.stretch = stretch_of(rs(3000, 60, ref::kCreep)); h.m.set_state_stretch(&h.stretch); }},
                     {"3001 creep", [](HistComponent& h) { h.stretch = stretch_of(rs(3001, 60, ref::kCreep)); h.m.set_state_stretch(&h.stretch); }},
                     {"3000 load-strain", [](HistComponent& h) { h.stretch = stretch_of(rs(3000, 60, ref::kLoadStrain)); h.m.set_state_stretch(&h.stretch); }},
                     {"3000 creep at 0", [](HistComponent& h) { h.stretch = stretch_of(rs(3000, 0, ref::kCreep)); h.m.set_state_stretch(&h.stretch); }},
                     {"7000 load-strain", [](HistComponent& h) { h.stretch = stretch_of(rs(7000, 0, ref::kLoadStrain)); h.m.set_state_stretch(&h.stretch); }}}},
        {"reference", {{"71", [](HistComponent& h) { h.m.set_temperature_reference(sag_cable(0).temperature_properties_components()); }},
                       {"20", [](HistComponent& h) { static const double t = 20; h.m.set_temperature_reference(&t); }}}}};
    sp.queries = {{"Load", [](const HistComponent& h) { return V{h.m.Load(0.001), h.m.Load(0.004)}; }},
                  {"Strain", [](const HistComponent& h) { return V{h.m.Strain(2000), h.m.Strain(8000)}; }},
                  {"Slope", [](const HistComponent& h) { return V{h.m.Slope(0.001), h.m.Slope(0.004)}; }},
                  {"PointsRegions", [](const HistComponent& h) { V v; for (auto& p : h.m.PointsRegions()) { v.push_back(p.x); v.push_back(p.y); } return v; }},
                  {"StrainThermal", [](const HistComponent& h) { return V{h.m.StrainThermal()}; }},
                  {"Validate", [](const HistComponent& h) { std::list<ErrorMessage> m; return V{double(h.m.Validate(false, &m)), double(m.size())}; }}};
    typedef HistComponent H;
    sp.near = {{"temperature", [](H& h, double f) { h.state = state_of(60 * f, ref::kLoadStrain); h.m.set_state(&h.state); }},
               {"stretch load", [](H& h, double f) { h.stretch = stretch_of(rs(3000 * f, 60, ref::kCreep)); h.m.set_state_stretch(&h.stretch); }},
               {"stretch temperature", [](H& h, double f) { h.stretch = stretch_of(rs(3000, 60 * f, ref::kCreep)); h.m.set_state_stretch(&h.stretch); }},
               {"reference", [](H& h, double f) { static double t; t = 71 * f; h.m.set_temperature_reference(&t); }}};
    mc::explore_histories(ctx, sp, th ? 5 : 4);
  }
  {
    mc::HistSpec<CableElongationModel> sp;
    sp.name = "CableElongationModel";
    sp.with_copy = true;
    typedef CableElongationModel M;
    sp.inputs = {
        {"cable", {{"ACSR", [](M& m) { m.set_cable(&sag_cable(0)); }},
                   {"AAC", [](M& m) { m.set_cable(&sag_cable(2)); }}}},
        {"state", {{"60", [](M& m) { m.set_state(state_of(60, ref::kLoadStrain)); }},
                   {"60 creep", [](M& m) { m.set_state(state_of(60, ref::kCreep)); }},
                   {"60.2", [](M& m) { m.set_state(state_of(60.2, ref::kLoadStrain)); }},
                   {"212", [](M& m) { m.set_state(state_of(212, ref::kLoadStrain)); }}}},
        {"stretch", {{"none", [](M& m) { m.set_state_stretch(stretch_of(rs(0, 0, ref::kLoadStrain))); }},
                     {"5000 creep", [](M& m) { m.set_state_stretch(stretch_of(rs(5000, 60, ref::kCreep))); }},
                     {"5001 creep", [](M& m) { m.set_state_stretch(stretch_of(rs(5001, 60, ref::kCreep))); }},
                     {"5000 load", [](M& m) { m.set_state_stretch(stretch_of(rs(5000, 60, ref::kLoadStrain))); }},
                     {"5000 creep at 0", [](M& m) { m.set_state_stretch(stretch_of(rs(5000, 0, ref::kCreep))); }},
                     {"12000 load", [](M& m) { m.set_state_stretch(stretch_of(rs(12000, 0, ref::kLoadStrain))); }}}}};
    sp.queries = {{"Load", [](const M& m) { return V{m.Load(CT::kCombined, 0.002), m.Load(CT::kCore, 0.002), m.Load(CT::kShell, 0.002)}; }},
                  {"Strain", [](const M& m) { return V{m.Strain(CT::kCombined, 4000), m.Strain(CT::kCore, 2000), m.Strain(CT::kShell, 2000)}; }},
                  {"Slope", [](const M& m) { return V{m.Slope(CT::kCombined, 0.002), m.Slope(CT::kCore, 0.002)}; }},
                  {"Validate", [](const M& m) { std::list<ErrorMessage> l; return V{double(m.Validate(true, &l)), double(l.size())}; }}};
    sp.near = {{"temperature", [](M& m, double f) { m.set_state(state_of(60 * f, ref::kLoadStrain)); }},
               {"stretch load", [](M& m, double f) { m.set_state_stretch(stretch_of(rs(5000 * f, 60, ref::kCreep))); }},
               {"stretch temperature", [](M& m, double f) { m.set_state_stretch(stretch_of(rs(5000, 60 * f, ref::kCreep))); }}};
    mc::explore_histories(ctx, sp, th ? 6 : 5);
  }
  {
    mc::HistSpec<HistReloader> sp;
    typedef HistReloader H;
    sp.name = "CatenaryCableReloader";
    sp.inputs = {
        {"catenary", {{"1200", [](H& h) { h.catenary = cat3(1200, 0, 5000, 0, 1.1, true); h.r.set_catenary(&h.catenary); }},
                      {"1200 near", [](H& h) { h.catenary = cat3(1200, 0, 5001, 0, 1.1, true); h.r.set_catenary(&h.catenary); }},
                      {"1200 tight", [](H& h) { h.catenary = cat3(1200, 0, 7000, 0, 1.1, false); h.r.set_catenary(&h.catenary); }},
                      {"700", [](H& h) { h.catenary = cat3(700, 100, 4000, 0.7, 1.1, false); h.r.set_catenary(&h.catenary); }}}},
        {"reference", {{"0", [](H& h) { h.m0 = static_model(0); h.r.set_model_reference(&h.m0); }},
                       {"3", [](H& h) { h.m0 = static_model(3); h.r.set_model_reference(&h.m0); }}}},
        {"reloaded", {{"1", [](H& h) { h.m1 = static_model(1); h.r.set_model_reloaded(&h.m1); }},
                      {"2", [](H& h) { h.m1 = static_model(2); h.r.set_model_reloaded(&h.m1); }}}},
        {"weight", {{"bare", [](H& h) { h.weight = Vector3d(0, 0, 1.1); h.r.set_weight_unit_reloaded(&h.weight); }},
                    {"bare near", [](H& h) { h.weight = Vector3d(0, 0, 1.1005); h.r.set_weight_unit_reloaded(&h.weight); }},
                    {"tilted", [](H& h) { h.weight = Vector3d(0, 0.66, 0.88); h.r.set_weight_unit_reloaded(&h.weight); }},
                    {"ice", [](H& h) { h.weight = Vector3d(0, 1, 2.5); h.r.set_weight_unit_reloaded(&h.weight); }}}}};
    sp.queries = {{"CatenaryReloaded", [](const H& h) { return catenary_vec(h.r.CatenaryReloaded()); }},
                  {"LengthUnloaded", [](const H& h) { return V{h.r.LengthUnloaded()}; }},
                  {"TensionHorizontal", [](const H& h) { return V{h.r.TensionHorizontal()}; }},
                  {"Validate", [](const H& h) { std::list<ErrorMessage> l; return V{double(h.r.Validate(false, &l)), double(l.size())}; }}};
    sp.rel = 1e-6;
    sp.near = {{"H", [](H& h, double f) { h.catenary = cat3(1200, 0, 5000 * f, 0, 1.1, true); h.r.set_catenary(&h.catenary); }},
               {"span", [](H& h, double f) { h.catenary = cat3(1200 * f, 0, 5000, 0, 1.1, true); h.r.set_catenary(&h.catenary); }},
               {"catenary weight", [](H& h, double f) { h.catenary = cat3(1200, 0, 5000, 0, 1.1 * f, true); h.r.set_catenary(&h.catenary); }},
               {"weight", [](H& h, double f) { h.weight = Vector3d(0, 0, 1.1 * f); h.r.set_weight_unit_reloaded(&h.weight); }},
               {"wind", [](H& h, double f) { h.weight = Vector3d(0, 0.66 * f, 0.88); h.r.set_weight_unit_reloaded(&h.weight); }}};
    sp.factors = {1 + 1e-4, 1 - 1e-4, 1 + 1e-2};
    mc::explore_histories(ctx, sp, th ? 5 : 4);
  }
  {
    mc::HistSpec<HistCatenaryUnloader> sp;
    typedef HistCatenaryUnloader H;
    sp.name = "CatenaryCableUnloader";
    sp.inputs = {
        {"catenary", {{"1200", [](H& h) { h.catenary = cat3(1200, 0, 5000, 0, 1.1, true); h.u.set_catenary(&h.catenary); }},
                      {"1200 near", [](H& h) { h.catenary = cat3(1200, 0, 5001, 0, 1.1, true); h.u.set_catenary(&h.catenary); }},
                      {"1200 tight", [](H& h) { h.catenary = cat3(1200, 0, 9000, 0, 1.1, true); h.u.set_catenary(&h.catenary); }},
                      {"700", [](H& h) { h.catenary = cat3(700, 100, 4000, 0.7, 1.1, false); h.u.set_catenary(&h.catenary); }}}},
        {"reference", {{"0", [](H& h) { h.u.set_model_reference(&static_model(0)); }},
                       {"3", [](H& h) { h.u.set_model_reference(&static_model(3)); }}}},
        {"unloaded", {{"1", [](H& h) { h.u.set_model_unloaded(&static_model(1)); }},
                      {"2", [](H& h) { h.u.set_model_unloaded(&static_model(2)); }}}}};
    sp.queries = {{"LengthUnloaded", [](const H& h) { return V{h.u.LengthUnloaded()}; }},
                  {"Validate", [](const H& h) { std::list<ErrorMessage> l; return V{double(h.u.Validate(false, &l)), double(l.size())}; }}};
    sp.near = {{"H", [](H& h, double f) { h.catenary = cat3(1200, 0, 5000 * f, 0, 1.1, true); h.u.set_catenary(&h.catenary); }},
               {"span", [](H& h, double f) { h.catenary = cat3(1200 * f, 0, 5000, 0, 1.1, true); h.u.set_catenary(&h.catenary); }},
               {"rise", [](H& h, double f) { h.catenary = cat3(1200, 1e3 * (f - 1), 5000, 0, 1.1, true); h.u.set_catenary(&h.catenary); }},
               {"weight", [](H& h, double f) { h.catenary = cat3(1200, 0, 5000, 0, 1.1 * f, true); h.u.set_catenary(&h.catenary); }}};
    mc::explore_histories(ctx, sp, th ? 6 : 5);
  }
  {
    mc::HistSpec<CableStrainer> sp;
    typedef CableStrainer H;
    sp.name = "CableStrainer";
    sp.with_copy = true;
    sp.inputs = {
        {"length", {{"1000", [](H& h) { h.set_length_start(1000); }}, {"1000.05", [](H& h) { h.set_length_start(1000.05); }}, {"500", [](H& h) { h.set_length_start(500); }}}},
        {"load start", {{"5000", [](H& h) { h.set_load_start(5000); }}, {"5001", [](H& h) { h.set_load_start(5001); }}, {"100", [](H& h) { h.set_load_start(100); }}}},
        {"load finish", {{"0", [](H& h) { h.set_load_finish(0); }}, {"9000", [](H& h) { h.set_load_finish(9000); }}, {"9001", [](H& h) { h.set_load_finish(9001); }}}},
        {"start", {{"0", [](H& h) { h.set_model_start(&static_model(0)); }}, {"3", [](H& h) { h.set_model_start(&static_model(3)); }}}},
        {"finish", {{"1", [](H& h) { h.set_model_finish(&static_model(1)); }}, {"2", [](H& h) { h.set_model_finish(&static_model(2)); }}}}};
    sp.queries = {{"LengthFinish", [](const H& h) { return V{h.LengthFinish()}; }},
                  {"Validate", [](const H& h) { std::list<ErrorMessage> l; return V{double(h.Validate(false, &l)), double(l.size())}; }}};
    sp.near = {{"length", [](H& h, double f) { h.set_length_start(1000 * f); }},
               {"load start", [](H& h, double f) { h.set_load_start(5000 * f); }},
               {"load finish", [](H& h, double f) { h.set_load_finish(9000 * f); }}};
    mc::explore_histories(ctx, sp, th ? 5 : 4);
  }
  {
    mc::HistSpec<LineCableReloader> sp;
    typedef LineCableReloader H;
    sp.name = "LineCableReloader";
    sp.with_copy = true;
    sp.inputs = {
        {"line", {{"ACSR", [](H& h) { h.set_line_cable(&static_line(0)); }},
                  {"AAC", [](H& h) { h.set_line_cable(&static_line(1)); }}}},
        {"weather", {{"heavy", [](H& h) { h.set_weathercase_reloaded(&weather(1)); }},
                     {"hot", [](H& h) { h.set_weathercase_reloaded(&weather(2)); }},
                     {"60", [](H& h) { h.set_weathercase_reloaded(&weather(0)); }},
                     {"60 wind", [](H& h) { h.set_weathercase_reloaded(&weather(4)); }}}},
        {"condition", {{"initial", [](H& h) { h.set_condition_reloaded(kConditions[0]); }},
                       {"creep", [](H& h) { h.set_condition_reloaded(kConditions[1]); }},
                       {"load", [](H& h) { h.set_condition_reloaded(kConditions[2]); }}}}};
    sp.queries = {{"CatenaryReloaded", [](const H& h) { return catenary_vec(h.CatenaryReloaded()); }},
                  {"TensionHorizontalComponent", [](const H& h) { return V{h.TensionHorizontalComponent(CT::kCore), h.TensionHorizontalComponent(CT::kShell)}; }},
                  {"TensionAverageComponent", [](const H& h) { return V{h.TensionAverageComponent(CT::kCore), h.TensionAverageComponent(CT::kShell)}; }},
                  {"StretchStates", [](const H& h) { V v = state_vec(h.StretchStateCreep()); V b = state_vec(h.StretchStateLoad()); v.insert(v.end(), b.begin(), b.end()); return v; }},
                  {"TensionHorizontal", [](const H& h) { return V{h.TensionHorizontal()}; }},
                  {"StateReloaded", [](const H& h) { return V{h.StateReloaded().temperature}; }}};
    sp.rel = 1e-6;
    mc::explore_histories(ctx, sp, th ? 4 : 3);
  }
  {
    mc::HistSpec<HistLine> sp;
    typedef HistLine H;
    sp.name = "LineCableReloader with edited inputs";
    sp.init = [](H& h) {
      h.line = static_line(0);
      h.w = weather(1);
      h.creep = weather(0);
      h.load = weather(1);
      h.line.set_weathercase_stretch_creep(&h.creep);
      h.line.set_weathercase_stretch_load(&h.load);
      h.r.set_condition_reloaded(kConditions[1]);
      h.r.set_weathercase_reloaded(&h.w);
      h.r.set_line_cable(&h.line);
    };
    sp.inputs = {
        {"weather", {{"heavy", [](H& h) { h.w = weather(1); h.r.set_weathercase_reloaded(&h.w); }},
                     {"hot", [](H& h) { h.w = weather(2); h.r.set_weathercase_reloaded(&h.w); }},
                     {"60 wind", [](H& h) { h.w = weather(4); h.r.set_weathercase_reloaded(&h.w); }}}},
        {"constraint", {{"5000", [](H& h) { h.line.set_constraint(constraint(0, 0, LT::kHorizontalTension, 5000)); h.r.set_line_cable(&h.line); }},
                        {"5001", [](H& h) { h.line.set_constraint(constraint(0, 0, LT::kHorizontalTension, 5001)); h.r.set_line_cable(&h.line); }},
                        {"5000 creep", [](H& h) { h.line.set_constraint(constraint(0, 1, LT::kHorizontalTension, 5000)); h.r.set_line_cable(&h.line); }},
                        {"5000 constant", [](H& h) { h.line.set_constraint(constraint(0, 0, LT::kCatenaryConstant, 5000)); h.r.set_line_cable(&h.line); }},
                        {"6000 load, heavy", [](H& h) { h.line.set_constraint(constraint(1, 2, LT::kHorizontalTension, 6000)); h.r.set_line_cable(&h.line); }}}},
        {"ruling span", {{"1200", [](H& h) { h.line.set_spacing_attachments_ruling_span(Vector3d(1200, 0, 0)); h.r.set_line_cable(&h.line); }},
                         {"1200 inclined", [](H& h) { h.line.set_spacing_attachments_ruling_span(Vector3d(1200, 0, 200)); h.r.set_line_cable(&h.line); }}}},
        {"creep weather", {{"60", [](H& h) { h.creep = weather(0); h.r.set_line_cable(&h.line); }},
                           {"60 wind", [](H& h) { h.creep = weather(4); h.r.set_line_cable(&h.line); }}}},
        {"cable", {{"ACSR", [](H& h) { h.line.set_cable(&cable(0)); h.r.set_line_cable(&h.line); }},
                   {"ACSR without compression", [](H& h) { h.line.set_cable(&cable(1)); h.r.set_line_cable(&h.line); }}}},
        {"stretch weather", {{"heavy", [](H& h) { h.load = weather(1); h.r.set_line_cable(&h.line); }},
                             {"extreme ice", [](H& h) { h.load = weather(5); h.r.set_line_cable(&h.line); }}}}};
    sp.queries = {{"TensionHorizontal", [](const H& h) { return V{h.r.TensionHorizontal()}; }},
                  {"StretchStates", [](const H& h) { V v = state_vec(h.r.StretchStateCreep()); V b = state_vec(h.r.StretchStateLoad()); v.insert(v.end(), b.begin(), b.end()); return v; }},
                  {"StateReloaded", [](const H& h) { return V{h.r.StateReloaded().temperature}; }}};
    sp.rel = 1e-6;
    sp.near = {{"limit", [](H& h, double f) { h.line.set_constraint(constraint(0, 0, LT::kHorizontalTension, 5000 * f)); h.r.set_line_cable(&h.line); }},
               {"ruling span", [](H& h, double f) { h.line.set_spacing_attachments_ruling_span(Vector3d(1200 * f, 0, 0)); h.r.set_line_cable(&h.line); }},
               {"ice", [](H& h, double f) { h.w = weather(1); h.w.thickness_ice *= f; h.r.set_weathercase_reloaded(&h.w); }},
               {"wind", [](H& h, double f) { h.w = weather(1); h.w.pressure_wind *= f; h.r.set_weathercase_reloaded(&h.w); }},
               {"temperature", [](H& h, double f) { h.w = weather(1); h.w.temperature_cable = 10 * f; h.r.set_weathercase_reloaded(&h.w); }},
               {"creep temperature", [](H& h, double f) { h.creep = weather(0); h.creep.temperature_cable *= f; h.r.set_line_cable(&h.line); }},
               {"stretch ice", [](H& h, double f) { h.load = weather(5); h.load.thickness_ice *= f; h.r.set_line_cable(&h.line); }}};
    sp.factors = {1 + 1e-4, 1 - 1e-4, 1 + 1e-2};
    mc::explore_histories(ctx, sp, th ? 5 : 4);
  }
  {
    mc::HistSpec<HistUnloader> sp;
    typedef HistUnloader H;
    sp.name = "LineCableUnloader";
    sp.init = [](H& h) { h.line = static_line(0); };
    sp.inputs = {
        {"line", {{"5000", [](H& h) { h.line.set_constraint(constraint(0, 0, LT::kHorizontalTension, 5000)); h.u.set_line_cable(&h.line); }},
                  {"5000 creep", [](H& h) { h.line.set_constraint(constraint(0, 1, LT::kHorizontalTension, 5000)); h.u.set_line_cable(&h.line); }},
                  {"static", [](H& h) { h.u.set_line_cable(&static_line(0)); }}}},
        {"spacing", {{"1000", [](H& h) { h.u.set_spacing_attachments(Vector3d(1000, 0, 0)); }},
                     {"1000.3", [](H& h) { h.u.set_spacing_attachments(Vector3d(1000.3, 0, 0)); }},
                     {"1000 inclined", [](H& h) { h.u.set_spacing_attachments(Vector3d(1000, 0, 150)); }},
                     {"900", [](H& h) { h.u.set_spacing_attachments(Vector3d(900, 0, 50)); }}}},
        {"temperature", {{"0", [](H& h) { h.u.set_temperature_unloaded(0); }},
                         {"0.2", [](H& h) { h.u.set_temperature_unloaded(0.2); }},
                         {"120", [](H& h) { h.u.set_temperature_unloaded(120); }}}},
        {"condition", {{"initial", [](H& h) { h.u.set_condition_unloaded(kConditions[0]); }},
                       {"creep", [](H& h) { h.u.set_condition_unloaded(kConditions[1]); }},
                       {"load", [](H& h) { h.u.set_condition_unloaded(kConditions[2]); }}}}};
    sp.queries = {{"LengthUnloaded", [](const H& h) { return V{h.u.LengthUnloaded()}; }},
                  {"StretchStates", [](const H& h) { V v = state_vec(h.u.StretchStateCreep()); V b = state_vec(h.u.StretchStateLoad()); v.insert(v.end(), b.begin(), b.end()); return v; }}};
    sp.rel = 1e-6;
    sp.near = {{"limit", [](H& h, double f) { h.line.set_constraint(constraint(0, 0, LT::kHorizontalTension, 5000 * f)); h.u.set_line_cable(&h.line); }},
               {"spacing", [](H& h, double f) { h.u.set_spacing_attachments(Vector3d(1000 * f, 0, 0)); }},
               {"rise", [](H& h, double f) { h.u.set_spacing_attachments(Vector3d(1000, 0, 100 * f)); }},
               {"temperature", [](H& h, double f) { h.u.set_temperature_unloaded(60 * f); }}};
    sp.factors = {1 + 1e-4, 1 - 1e-4, 1 + 1e-2};
    mc::explore_histories(ctx, sp, th ? 5 : 4);
  }
  {
    mc::HistSpec<HistSagger> sp;
    typedef HistSagger H;
    sp.name = "LineCableSagger";
    sp.init = [](H& h) { h.line = static_line(0); };
    const auto line = [](int k, LT type) { return [k, type](H& h) {
      h.line.set_constraint(constraint(0, k, type, 3000));
      h.s.set_line_cable(&h.line); }; };
    const auto set = [](std::vector<CableConstraint> v) { return [v](H& h) {
      h.cs = v;
      h.s.set_constraints_design(&h.cs); }; };
    sp.inputs = {
        {"line", {{"initial", line(0, LT::kHorizontalTension)}, {"creep", line(1, LT::kCatenaryConstant)}}},
        {"constraints", {{"heavy 12000", set({constraint(1, 0, LT::kSupportTension, 12000)})},
                         {"heavy 12002", set({constraint(1, 0, LT::kSupportTension, 12002)})},
                         {"heavy creep 12000", set({constraint(1, 1, LT::kSupportTension, 12000)})},
                         {"heavy 12000 horizontal", set({constraint(1, 0, LT::kHorizontalTension, 12000)})},
                         {"heavy 9000, bare 4000", set({constraint(1, 2, LT::kSupportTension, 9000), constraint(0, 1, LT::kHorizontalTension, 4000)})},
                         {"bare 9000, heavy 6000", set({constraint(0, 0, LT::kHorizontalTension, 9000), constraint(1, 0, LT::kHorizontalTension, 6000)})},
                         {"bare 3000, cold 8000", set({constraint(0, 0, LT::kHorizontalTension, 3000), constraint(3, 0, LT::kHorizontalTension, 8000)})}}}};
    sp.queries = {{"IndexConstraintControlling", [](const H& h) { return V{double(h.s.IndexConstraintControlling())}; }},
                  {"Limit", [](const H& h) { return V{h.s.LimitConstraintSaggedLineCable()}; }},
                  {"CapacityAllowable", [](const H& h) { return V{h.s.CapacityAllowable(0)}; }},
                  {"Actual", [](const H& h) { return V{h.s.CatenaryConstantActual(0), h.s.TensionHorizontalActual(0), h.s.TensionSupportActual(0)}; }}};
    sp.rel = 1e-6;
    sp.near = {{"limit", [=](H& h, double f) { set({constraint(1, 0, LT::kSupportTension, 12000 * f)})(h); }},
               {"ruling span", [](H& h, double f) { h.line.set_spacing_attachments_ruling_span(Vector3d(1200 * f, 0, 0)); h.s.set_line_cable(&h.line); }}};
    sp.factors = {1 + 1e-4, 1 - 1e-4, 1 + 1e-2};
    mc::explore_histories(ctx, sp, th ? 4 : 3);
  }
}

mc::Register r6({"S06", s06,
  "every history of setter calls, queries and copies up to the depth, on every class of the library; inputs passed by address are also edited in place and set again",
  {"an input that is passed by address is set again after it has been edited"}});

}  // namespace
