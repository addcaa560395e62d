// Warnings about conductor data (V04).
#include "fixture.h"
#include "mc.h"
#include "models/sagtension/cable_component_elongation_model.h"
#include "models/sagtension/cable_elongation_model.h"
#include "models/sagtension/cable_strainer.h"
#include "models/sagtension/catenary_cable_reloader.h"
#include "models/sagtension/catenary_cable_unloader.h"
#include "ref_elong.h"

namespace {

using mc::Chooser;
using mc::Ctx;
using mc::cat;
typedef std::list<ErrorMessage> Messages;
typedef SagTensionCableComponent::PolynomialType PT;

// A curve: load over its limit as a polynomial of strain over a unit strain.
struct Shape {
  const char* name;
  double c[5];
  double f;                                // mean slope / elastic slope
  double shift;                            // strain without load
};
const Shape kShapes[] = {
    {"straight", {0, 1}, 0.6, 0},
    {"steep at its end", {0, 0.4, 0, 0, 0.6}, 0.6, 0},
    {"steep at its start", {0, 2.8, -3.6, 2.4, -0.6}, 0.6, 0},
    {"steep after its end", {0, 0.85, 0, 0, 0.15}, 0.6, 0},
    {"steep before its start", {0, 1.5, -1.35, 0.9, -0.225}, 0.6, 0},
    {"falling in the middle", {0, 1.4, -3, 2}, 0.25, 0},
    {"falling near its start", {0, 0.035, -0.9, 2}, 0.15, 0},
    {"falling after its end", {0, 1.3, -0.3}, 0.6, 0},
    {"shifted by 0.0002", {0, 1}, 0.6, 0.0002},
    {"shifted by -0.0002", {0, 1}, 0.6, -0.0002},
    {"shifted by 0.002", {0, 1}, 0.6, 0.002},
    {"shifted by -0.002", {0, 1}, 0.6, -0.002},
    {"shifted by 0.00007", {0, 1}, 0.6, 0.00007},
    {"shifted by -0.00007", {0, 1}, 0.6, -0.00007},
    {"steep", {0, 1}, 1.1, 0},
    {"barely less than steep", {0, 1}, 0.97, 0},
    {"flat", {0, 1}, 0.05, 0}};
const int kShapeCount = sizeof(kShapes) / sizeof(kShapes[0]);

const double kE = 4e6;

std::vector<double> coefficients(const Shape& s, double limit, double sx, double sy) {
  const double unit = limit / (s.f * kE);
  std::vector<double> v(5, 0);
  double k = limit / sy;
  for (int i = 0; i < 5; i++, k *= sx / unit) v[i] = k * s.c[i];
  if (s.shift != 0) v[0] -= v[1] * s.shift / sx;   // straight shapes
  return v;
}

// Whether a curve is doubtful: 1, in order: 0, too close to tell: -1
int judge(const CableComponent& c, ref::Poly p);
int doubtful(const CableComponent& c, ref::Poly p) {
  static std::map<std::vector<double>, int> memo;
  std::vector<double> key = p == ref::kCreep ? c.coefficients_polynomial_creep
                                             : c.coefficients_polynomial_loadstrain;
  for (double v : {ref::Component(c, 70).limit(p), c.scale_polynomial_x, c.scale_polynomial_y})
    key.push_back(v);
  const auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  return memo[key] = judge(c, p);
}
int judge(const CableComponent& c, ref::Poly p) {
  const ref::Component r(c, 70);
  const double limit = r.limit(p), step = limit / kE / 500;
  // strain with no load next to zero, first strain after it with the limit
  double x0 = 0, x1;
  const bool falls = r.curve(p, 0) > 0;
  while (x0 > -0.01 && x0 < 0.01 && r.curve(p, x0) != 0 && (r.curve(p, x0) > 0) == falls)
    x0 += falls ? -step : step;
  for (x1 = x0; r.curve(p, x1) < limit; x1 += step)
    if (x1 > 0.5) return -1;
  if (std::fabs(std::fabs(x0) - 0.0001) < 2e-5) return -1;
  if (std::fabs(x0) > 0.0001) return 1;
  int bad = 0, close = 0;
  const double w = x1 - x0;
  for (int i = -20; i < 1020; i++) {
    const double s = r.curve_slope(p, x0 + w * i / 1000);
    const bool is_bad = s < 0 || s > c.modulus_tension_elastic_area;
    if (is_bad && i > 0 && i < 1000) bad++;
    else if (is_bad) close++;
  }
  return bad >= 50 ? 1 : bad + close == 0 ? 0 : -1;
}

template <class T> void verdicts(Ctx& ctx, const std::string& what, const T& o, bool ok) {
  for (const bool warn : {false, true, true}) {
    Messages m;
    const bool want = ok || !warn;
    const bool got = o.Validate(warn, &m);
    ctx.eval();
    MC_CHECK(ctx, got == want, cat(want ? "warned:" : "silent:", what), what, warn ? " with" : " without",
             " warnings is ", got ? "accepted" : "rejected", ", but the data is ",
             want ? "in order" : "doubtful", m.empty() ? "" : ": " + m.front().description);
    MC_CHECK(ctx, got == m.empty(), "messages:" + what, what, ": verdict ", got, " and ", m.size(),
             " messages");
    for (const ErrorMessage& e : m)
      MC_CHECK(ctx, !e.title.empty() && !e.description.empty(), "empty-message:" + what, what,
               ": a message without text");
    MC_CHECK(ctx, o.Validate(warn, nullptr) == got, "message-list:" + what, what,
             ": the verdict depends on whether messages are collected");
  }
}

CableComponent component(const Shape& creep, const Shape& load, double l_creep, double l_load,
                         double sx, double sy) {
  CableComponent c = fx::drake().component_shell;
  c.scale_polynomial_x = sx;
  c.scale_polynomial_y = sy;
  c.load_limit_polynomial_creep = l_creep;
  c.load_limit_polynomial_loadstrain = l_load;
  c.modulus_tension_elastic_area = kE;
  c.modulus_compression_elastic_area = 0;
  c.coefficients_polynomial_creep = coefficients(creep, l_creep, sx, sy);
  c.coefficients_polynomial_loadstrain = coefficients(load, l_load, sx, sy);
  return c;
}

void v04(Ctx& ctx) {
  ctx.explore("component", [&](Chooser& ch) {
    const Shape& creep = kShapes[ch.choose(kShapeCount)];
    const Shape& load = kShapes[ch.choose(kShapeCount)];
    ch.shard();
    const int l = ch.choose(3), sc = ch.choose(ctx.thorough ? 4 : 2);
    const double lc = l == 1 ? 3000 : 10000, ll = l == 2 ? 3000 : 10000;
    const double sx = sc == 1 ? 0.001 : 0.01, sy = sc == 2 ? 1000 : sc == 3 ? 0.5 : 1;
    const int type = ch.choose(2), stretched = ch.choose(2);
    const double t = ch.choose(2) ? 212 : 70;
    const CableComponent c = component(creep, load, lc, ll, sx, sy);
    const std::string d = cat("creep curve ", creep.name, " up to ", lc, ", load-strain curve ",
        load.name, " up to ", ll, ", scales ", sx, " ", sy, ", on ", type ? "load-strain" : "creep",
        stretched ? " stretched" : "", " at ", t);
    ctx.describe(d);
    const int a = doubtful(c, ref::kCreep), b = doubtful(c, ref::kLoadStrain);
    if (a < 0 || b < 0) {
      ctx.note("skipped: close to a limit");
      throw mc::SkipLeaf();
    }
    SagTensionCableComponent sc_component;
    sc_component.set_component_base(&c);
    CableState state;
    state.temperature = t;
    state.type_polynomial = type ? PT::kLoadStrain : PT::kCreep;
    CableStretchState stretch;
    stretch.load = stretched ? 1000 : 0;
    stretch.temperature = 60;
    stretch.type_polynomial = state.type_polynomial;
    const double t_ref = 70;
    CableComponentElongationModel m;
    m.set_component_cable(&sc_component);
    m.set_state(&state);
    m.set_state_stretch(&stretch);
    m.set_temperature_reference(&t_ref);
    verdicts(ctx, "component model", m, !a && !b);
    ctx.state(mc::hash_string(d));
    ctx.outcome(mc::hash_mix(a, b));
    ctx.sample(d + (a || b ? ": doubtful" : ": in order"));
  });
  // whole conductors
  static const int kUsed[] = {0, 1, 2, 12, 13, 8, -1};
  struct Conductor {
    Cable cable;
    SagTensionCable sag_tension;
    CableElongationModel model;
    bool ok;
  };
  const auto make = [](Conductor* o, int core, int creep_core, int shell, int creep_shell,
                       int limits, int strength, int type, double t, double load) {
    Cable& c = o->cable = fx::drake();
    const double l1 = limits == 0 ? 10000 : 5000, l2 = limits == 1 ? 10000 : 5000;
    const double k = limits == 3 ? 0.4 : 1;   // limits of creep
    const auto set = [&](CableComponent* p, int s, int sc, double limit) {
      if (s < 0) {
        p->coefficients_polynomial_creep.assign(5, 0);
        p->coefficients_polynomial_loadstrain.assign(5, 0);
        p->load_limit_polynomial_creep = p->load_limit_polynomial_loadstrain = 0;
      } else {
        const double expansion = p->coefficient_expansion_linear_thermal;
        *p = component(kShapes[sc], kShapes[s], k * limit, limit, 0.01, 1);
        p->coefficient_expansion_linear_thermal = expansion;
      }
    };
    set(&c.component_core, core, creep_core, l1);
    set(&c.component_shell, shell, creep_shell, l2);
    const ref::Component r[2] = {ref::Component(c.component_core, 70),
                                 ref::Component(c.component_shell, 70)};
    // the loads at which the components reach their limits
    double low = 1e9, high = 0;
    for (int i = 0; i < 2; i++) {
      if (!r[i].enabled) continue;
      const double x = r[i].inverse(ref::kLoadStrain, r[i].limit(ref::kLoadStrain));
      double p = 0;
      for (const ref::Component& q : r)
        if (q.enabled) p += std::max(0.0, q.unstretched(ref::kLoadStrain, x));
      low = std::min(low, p);
      high = std::max(high, p);
    }
    c.strength_rated = strength == 0 ? low * 0.93 : strength == 1 ? (low + high) / 2 : high * 1.07;
    if (strength == 1 && high < low * 1.1) throw mc::SkipLeaf();
    bool ok = strength == 0;
    double zero[2];
    for (int i = 0; i < 2; i++) {
      if (!r[i].enabled) continue;
      for (const ref::Poly p : {ref::kCreep, ref::kLoadStrain}) {
        const int b = doubtful(r[i].base(), p);
        if (b < 0) throw mc::SkipLeaf();
        ok = ok && !b;
      }
      zero[i] = r[i].inverse(ref::kLoadStrain, 0);
    }
    if (r[0].enabled && r[1].enabled) ok = ok && std::fabs(zero[0] - zero[1]) < 0.0001;
    o->ok = ok;
    o->sag_tension.set_cable_base(&c);
    o->model.set_cable(&o->sag_tension);
    CableState state;
    state.temperature = t;
    state.type_polynomial = type ? PT::kLoadStrain : PT::kCreep;
    CableStretchState stretch;
    stretch.load = load;
    stretch.temperature = 60;
    stretch.type_polynomial = state.type_polynomial;
    o->model.set_state(state);
    o->model.set_state_stretch(stretch);
  };
  ctx.explore("conductor", [&](Chooser& ch) {
    int k[4];
    for (int& i : k) i = kUsed[ch.choose(7)];
    ch.shard();
    // a component has both curves or none
    if ((k[0] < 0) != (k[1] < 0) || (k[2] < 0) != (k[3] < 0) || (k[0] < 0 && k[2] < 0))
      throw mc::SkipLeaf();
    const int strength = ch.choose(3), limits = ch.choose(4), type = ch.choose(2);
    // which limit counts is only certain on the load-strain curve
    if (limits == 3 && type == 0) throw mc::SkipLeaf();
    const double t = ch.choose(2) ? 212 : 70, load = ch.choose(2) ? 2000 : 0;
    const auto name = [](int i) { return i < 0 ? "none" : kShapes[i].name; };
    const std::string d = cat("core ", name(k[0]), " / creep ", name(k[1]), ", shell ", name(k[2]),
        " / creep ", name(k[3]), ", limits ", limits, ", strength ", strength, ", type ", type,
        " at ", t, ", stretch ", load);
    ctx.describe(d);
    Conductor o;
    make(&o, k[0], k[1], k[2], k[3], limits, strength, type, t, load);
    verdicts(ctx, "cable model", o.model, o.ok);
    const CableElongationModel copy = o.model;
    verdicts(ctx, "copy of a cable model", copy, o.ok);
    ctx.state(mc::hash_string(d));
    ctx.outcome(mc::hash_mix(mc::hash_string(d), o.ok));
    ctx.sample(d + (o.ok ? ": in order" : ": doubtful"));
  });
  // users of conductors
  ctx.explore("users", [&](Chooser& ch) {
    const int a = ch.choose(7), b = ch.choose(7), strong = ch.choose(3);
    ch.shard();
    const int core = kUsed[a], shell = kUsed[b];
    if (core < 0 && shell < 0) throw mc::SkipLeaf();
    const std::string d = cat("core ", a, ", shell ", b, ", strength ", strong);
    ctx.describe(d);
    Conductor o;
    make(&o, core, core, shell, shell, 2, strong, 1, 70, 0);
    const bool ok = o.ok;
    CableElongationModel other = o.model;
    CableState hot;
    hot.temperature = 212;
    hot.type_polynomial = PT::kLoadStrain;
    other.set_state(hot);
    CableStrainer s;
    s.set_length_start(1000);
    s.set_load_start(2000);
    s.set_load_finish(0);
    s.set_model_start(&o.model);
    s.set_model_finish(&other);
    verdicts(ctx, "strainer", s, ok);
    Catenary3d c;
    c.set_direction_transverse(AxisDirectionType::kPositive);
    c.set_spacing_endpoints(Vector3d(1000, 0, 0));
    c.set_tension_horizontal(2000);
    c.set_weight_unit(Vector3d(0, 0, 1));
    CatenaryCableUnloader u;
    u.set_catenary(&c);
    u.set_model_reference(&o.model);
    u.set_model_unloaded(&other);
    verdicts(ctx, "unloader", u, ok);
    CatenaryCableReloader r;
    r.set_catenary(&c);
    r.set_model_reference(&o.model);
    r.set_model_reloaded(&other);
    const Vector3d weight(0, 0, 1);
    r.set_weight_unit_reloaded(&weight);
    verdicts(ctx, "reloader", r, ok);
    ctx.state(mc::hash_string(d));
    ctx.outcome(ok);
    ctx.sample(d);
  });
}

mc::Register r4({"V04", v04,
  "component elongation models with every pair of curve shapes, limits, scales, states and stretches; cable elongation models with every combination of curves of core and shell, component limits and rated strengths; the classes that use cable elongation models",
  {"data close to one of the limits is not judged",
   "with a creep state, component limits of creep and load-strain are equal"}, true});

}  // namespace
