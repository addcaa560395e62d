// Thermal rating: heat terms, steady current and temperature, transient
// temperature, solar radiation, and their history independence.
#include <algorithm>
#include <list>

#include "fixture.h"
#include "mc.h"
#include "models/thermalrating/cable_heat_transfer_solver.h"
#include "models/thermalrating/solar_radiation_solver.h"
#include "models/thermalrating/steady_cable_current_solver.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"
#include "models/thermalrating/transient_cable_temperature_solver.h"

namespace {

using mc::cat;
using mc::Chooser;
using mc::close;
using mc::Ctx;
typedef std::vector<double> V;
typedef units::UnitSystem US;
typedef AtmosphereQualityType AQ;

const double kRad = M_PI / 180;

double pick(Chooser& ch, const V& v) {
  return v[ch.choose(static_cast<int>(v.size()))];
}

// cables ------------------------------------------------------------------------
// resistance points per length, temperature in Celsius
struct CableSpec {
  const char* name;
  double diameter, absorptivity, emissivity, core, shell;
  V temperatures, resistances;
};
const CableSpec kCables[] = {
    {"drake", 1.108 / 12, 0.8, 0.8, 74.4, 324.4, {25, 75}, {0.1166 / 5280, 0.1390 / 5280}},
    {"three points", 1.108 / 12, 0.5, 0.23, 74.4, 324.4, {20, 75, 200},
     {0.11 / 5280, 0.14 / 5280, 0.26 / 5280}},
    {"thin", 0.25 / 12, 0.9, 0.91, 10, 20, {20, 50, 75, 100}, {1.1 / 5280, 1.2 / 5280, 1.25 / 5280, 1.5 / 5280}},
    {"thick", 2.0 / 12, 0.2, 0.2, 0, 900, {0, 250}, {0.03 / 5280, 0.05 / 5280}},
};
const double kFoot = 0.3048;

struct Set {
  Cable base;
  ThermalRatingCable cable;
  ThermalRatingWeather weather;
  US units;
  Set() { base = fx::drake(); }
  Set(const Set&) {}
  // cables are kept in feet
  void set_cable(int k, US u) {
    const CableSpec& s = kCables[k];
    const double l = u == US::kImperial ? 1 : kFoot;
    base.diameter = s.diameter * l;
    base.absorptivity = s.absorptivity;
    base.emissivity = s.emissivity;
    base.component_core.capacity_heat = s.core / l;
    base.component_shell.capacity_heat = s.shell / l;
    base.resistances_ac.clear();
    for (size_t i = 0; i < s.temperatures.size(); i++) {
      Cable::ResistancePoint p;
      p.temperature = s.temperatures[i];
      p.resistance = s.resistances[i] / l;
      base.resistances_ac.push_back(p);
    }
    cable.set_cable_base(&base);
    units = u;
  }
};

// reference of IEEE Std 738 -------------------------------------------------------
double ref_resistance(const Cable& c, double t) {
  std::vector<Cable::ResistancePoint> p(c.resistances_ac.begin(), c.resistances_ac.end());
  size_t i = 0;
  while (i + 2 < p.size() && t > p[i + 1].temperature) i++;
  const double f = (t - p[i].temperature) / (p[i + 1].temperature - p[i].temperature);
  return p[i].resistance * (1 - f) + p[i + 1].resistance * f;
}

double ref_convection(const Cable& c, const ThermalRatingWeather& w, US u, double t) {
  const bool imp = u == US::kImperial;
  const double film = 0.5 * (t + w.temperature_air), e = w.elevation;
  const double k = imp ? 7.388e-3 + film * (2.279e-5 - film * 1.343e-9)
                       : 2.424e-2 + film * (7.477e-5 - film * 4.407e-9);
  const double rho = (imp ? 0.080695 + e * (-2.901e-6 + e * 3.7e-11)
                          : 1.293 + e * (-1.525e-4 + e * 6.379e-9)) / (1 + 0.00367 * film);
  const double mu = (imp ? 0.00353 / 3600 : 1.458e-6) * (film + 273) * std::sqrt(film + 273) /
                    (film + 383.4);
  const double re = c.diameter * rho * w.speed_wind / mu;
  const double a = w.angle_wind * kRad;
  const double dir = 1.194 - std::cos(a) + 0.194 * std::cos(2 * a) + 0.368 * std::sin(2 * a);
  const double d = t - w.temperature_air, ad = std::fabs(d);
  const double low = 1.01 + 1.35 * std::pow(re, 0.52), high = 0.754 * std::pow(re, 0.6);
  const double forced = dir * std::max(low, high) * k * ad;
  const double natural = (imp ? 1.825 : 3.645) * std::sqrt(rho) * std::pow(c.diameter, 0.75) *
                         std::pow(ad, 1.25);
  const double q = std::max(forced, natural);
  return d > 0 ? -q : q;
}

double ref_radiation(const Cable& c, const ThermalRatingWeather& w, US u, double t) {
  const auto p4 = [](double x) { x = (x + 273) / 100; return x * x * x * x; };
  return -(u == US::kImperial ? 1.656 : 17.8) * c.diameter * c.emissivity *
         (p4(t) - p4(w.temperature_air));
}

double ref_solar(const Cable& c, const ThermalRatingWeather& w) {
  return c.absorptivity * w.radiation_solar * c.diameter;
}

// signed current that keeps the cable at the temperature
double ref_current(const Cable& c, const ThermalRatingWeather& w, US u, double t) {
  const double q = -(ref_convection(c, w, u, t) + ref_radiation(c, w, u, t) + ref_solar(c, w));
  const double i = std::sqrt(std::fabs(q) / ref_resistance(c, t));
  return q < 0 ? -i : i;
}

ThermalRatingWeather pick_weather(Chooser& ch, US u, int th, std::string* text, bool few = false) {
  ThermalRatingWeather w;
  const bool imp = u == US::kImperial;
  const double l = imp ? 1 : kFoot;
  if (few) {
    w.temperature_air = pick(ch, V{-40, 25, 40});
    w.speed_wind = pick(ch, V{0, 2, 50}) * l;
    w.angle_wind = pick(ch, V{0, 35, 90});
    w.elevation = pick(ch, V{0, 10000}) * l;
    w.radiation_solar = pick(ch, V{0, 95}) / (l * l);
  } else {
  w.temperature_air = pick(ch, th ? V{-60, -40, -20, 0, 10, 25, 40, 60} : V{-40, 0, 25, 40, 60});
  w.speed_wind = pick(ch, th ? mc::refine({0, 0.1, 0.5, 1, 2, 5, 10, 50, 200}, th - 1) : V{0, 0.5, 2, 10, 50}) * l;
  w.angle_wind = pick(ch, th ? mc::refine({0, 20, 35, 45, 55, 70, 90}, th - 1) : V{0, 20, 45, 70, 90});
  w.elevation = pick(ch, th ? V{0, 1000, 5000, 10000, 15000} : V{0, 1000, 10000}) * l;
  w.radiation_solar = pick(ch, V{0, 40, 120}) / (l * l);
  }
  *text = cat(imp ? "imperial" : "metric", ", air ", w.temperature_air, ", wind ", w.speed_wind,
              " at ", w.angle_wind, ", elevation ", w.elevation, ", sun ", w.radiation_solar);
  return w;
}

// T01 ---------------------------------------------------------------------------
void t01(Ctx& ctx) {
  const int th = ctx.level;
  static Set set[2];
  ctx.explore("heat terms", [&](Chooser& ch) {
    const int k = ch.choose(4);
    const US u = ch.choose(2) ? US::kMetric : US::kImperial;
    std::string text;
    set[0].set_cable(k, u);
    set[0].weather = pick_weather(ch, u, th, &text);
    ch.shard();
    const double t = set[0].weather.temperature_air +
        pick(ch, th ? mc::refine({-60, -30, -10, -1, -0.01, 0, 0.01, 1, 5, 10, 30, 60, 100, 150, 200, 350}, th - 1)
                    : V{-60, -10, -1, -0.01, 0, 0.01, 1, 10, 30, 60, 100, 200, 350});
    const double current = pick(ch, V{-500, 0, 700, 2000});
    ctx.describe(cat(kCables[k].name, " at ", t, ", ", current, " A, ", text));
    const Cable& c = set[0].base;
    const ThermalRatingWeather& w = set[0].weather;
    CableHeatTransferSolver s;
    s.set_cable(&set[0].cable);
    s.set_units(u);
    s.set_weather(&w);
    MC_CHECK(ctx, s.Validate(true, nullptr), "validate", "valid input is reported invalid");
    const double conv = s.HeatConvection(t), rad = s.HeatRadiation(t), sun = s.HeatSolar(),
                 res = s.HeatResistance(t, current);
    ctx.eval(5);
    ctx.transition();
    const double scale = 1e-9;
    MC_CHECK(ctx, close(conv, ref_convection(c, w, u, t), 1e-9, scale), "convection",
             "convection ", conv, " not ", ref_convection(c, w, u, t));
    MC_CHECK(ctx, close(rad, ref_radiation(c, w, u, t), 1e-9, scale), "radiation",
             "radiation ", rad, " not ", ref_radiation(c, w, u, t));
    MC_CHECK(ctx, close(sun, ref_solar(c, w), 1e-9, scale), "solar", "solar heat ", sun, " not ",
             ref_solar(c, w));
    const double r = set[0].cable.Resistance(t);
    MC_CHECK(ctx, close(r, ref_resistance(c, t), 1e-9), "resistance", "resistance ", r, " not ",
             ref_resistance(c, t));
    MC_CHECK(ctx, close(res, current * current * ref_resistance(c, t), 1e-9, scale), "resistive",
             "resistive heat ", res, " not ", current * current * ref_resistance(c, t));
    MC_CHECK(ctx, close(s.HeatStored(res + sun, conv + rad), res + sun + conv + rad, 1e-12, 1e-12),
             "stored", "stored heat is not the sum");
    // heat flows from warm to cool
    MC_CHECK(ctx, t > w.temperature_air ? conv < 0 : t < w.temperature_air ? conv > 0 : conv == 0,
             "direction", "convection ", conv, " in the wrong direction");
    MC_CHECK(ctx, t > w.temperature_air ? rad < 0 : t < w.temperature_air ? rad > 0 : rad == 0,
             "direction", "radiation ", rad, " in the wrong direction");
    // the same cable in the other unit system
    {
      const US o = u == US::kMetric ? US::kImperial : US::kMetric;
      const double l = o == US::kMetric ? kFoot : 1 / kFoot;
      set[1].set_cable(k, o);
      set[1].weather = w;
      set[1].weather.speed_wind *= l;
      set[1].weather.elevation *= l;
      set[1].weather.radiation_solar /= l * l;
      CableHeatTransferSolver m;
      m.set_cable(&set[1].cable);
      m.set_units(o);
      m.set_weather(&set[1].weather);
      const double conv2 = m.HeatConvection(t) * l, rad2 = m.HeatRadiation(t) * l;
      MC_CHECK(ctx, close(conv, conv2, 0.02, 1e-3), "units", "convection ", conv,
               " in the other unit system is ", conv2);
      MC_CHECK(ctx, close(rad, rad2, 0.01, 1e-3), "units", "radiation ", rad,
               " in the other unit system is ", rad2);
      MC_CHECK(ctx, close(res, m.HeatResistance(t, current) * l, 1e-9, scale) &&
                    close(sun, m.HeatSolar() * l, 1e-9, scale), "units",
               "resistive or solar heat differs in the other unit system");
      ctx.eval(4);
    }
    ctx.state(mc::hash_string(ctx.description));
    ctx.outcome(mc::hash_vec(1, V{conv, rad, sun, res}));
    ctx.sample(ctx.description + cat(": ", V{conv, rad, res, sun}));
  });
  // resistance of all short lists of points
  ctx.explore("resistance", [&](Chooser& ch) {
    const int sizes[] = {0, 1, 2, 3, 4, 8, 30};
    const int n = sizes[ch.choose(7)];
    ch.shard();
    Cable c = fx::drake();
    c.resistances_ac.clear();
    double at = -50;
    std::string text;
    for (int i = 0; i < n; i++) {
      Cable::ResistancePoint p;
      // long lists continue in one way
      at += n > 4 ? i % 3 ? 20 : 75 : pick(ch, V{20, 75});
      p.temperature = at;
      p.resistance = n > 4 && i > 1 ? 1e-6 * (i * i % 11) + 1e-5 : pick(ch, V{1e-5, 3e-5, 4e-5});
      c.resistances_ac.push_back(p);
      text += cat("(", at, " ", p.resistance, ")");
    }
    ThermalRatingCable t;
    t.set_cable_base(&c);
    for (double x = -120; x <= std::max(300.0, at + 60); x += 2.5) {
      ctx.describe(cat(text, " at ", x));
      const double got = t.Resistance(x);
      ctx.eval();
      if (n < 2) {
        MC_CHECK(ctx, got == -999999, "points", "resistance ", got, " of ", n, " points");
        continue;
      }
      MC_CHECK(ctx, close(got, ref_resistance(c, x), 1e-9, 1e-15), "resistance", "resistance ",
               got, " not ", ref_resistance(c, x));
      ctx.outcome(mc::hash_double(got));
    }
    ctx.transition();
    ctx.state(mc::hash_string(text));
  });
}

// T02 ---------------------------------------------------------------------------
void t02(Ctx& ctx) {
  const bool th = ctx.thorough;
  static Set set;
  ctx.explore("steady", [&](Chooser& ch) {
    const int k = ch.choose(4);
    const US u = ch.choose(2) ? US::kMetric : US::kImperial;
    std::string text;
    set.set_cable(k, u);
    set.weather = pick_weather(ch, u, th, &text);
    ch.shard();
    const Cable& c = set.base;
    const ThermalRatingWeather& w = set.weather;
    const double air = w.temperature_air;
    SteadyCableCurrentSolver s;
    s.set_cable(&set.cable);
    s.set_units(u);
    s.set_weather(&w);
    SteadyCableTemperatureSolver b;
    b.set_cable(&set.cable);
    b.set_units(u);
    b.set_weather(&w);
    double before = -1e99;
    // extreme cooling and a steep resistance let the current fall again: then
    // several temperatures have the same current
    bool is_rising = true;
    for (double t = air - 60, i = -1e99; t < 1200 && is_rising; t += 3) {
      const double next = ref_current(c, w, u, t);
      is_rising = next >= i;
      i = next;
    }
    if (!is_rising) ctx.note("several temperatures for one current");
    for (double d : V{-40, -5, 0, 0.5, 2, 5, 9, 10, 11, 15, 25, 40, 60, 90, 130, 190, 250, 350}) {
      const double t = air + d;
      ctx.describe(cat(kCables[k].name, " at ", t, ", ", text));
      s.set_temperature_cable(t);
      const double i = s.Current();
      const double want = ref_current(c, w, u, t);
      ctx.eval(3);
      ctx.transition();
      MC_CHECK(ctx, close(i, want, 1e-9, 1e-3), "current", "current ", i, " not ", want);
      MC_CHECK(ctx, s.Validate(true, nullptr), "validate", "valid input is reported invalid");
      const CableHeatTransferState h = s.StateHeatTransfer();
      MC_CHECK(ctx, close(h.heat_convection, ref_convection(c, w, u, t), 1e-9, 1e-9) &&
                    close(h.heat_radiation, ref_radiation(c, w, u, t), 1e-9, 1e-9) &&
                    close(h.heat_solar, ref_solar(c, w), 1e-9, 1e-9) && h.heat_storage == 0,
               "state", "heat transfer state differs from the terms");
      MC_CHECK(ctx, close(h.heat_resistance + h.heat_convection + h.heat_radiation + h.heat_solar,
                          0, 0, 1e-9), "balance", "heat is not balanced");
      if (!is_rising) continue;
      MC_CHECK(ctx, i >= before, "monotone", "current ", i, " falls from ", before,
               " as the temperature rises");
      before = i;
      // and back
      b.set_current(i);
      const double back = b.TemperatureCable();
      MC_CHECK(ctx, close(back, t, 0, 0.005), "temperature", "temperature ", back, " of ", i,
               " A, which is the current at ", t);
      const CableHeatTransferState g = b.StateHeatTransfer();
      const double q = std::fabs(ref_resistance(c, t)) * (i * i) + std::fabs(h.heat_solar);
      MC_CHECK(ctx, close(g.heat_resistance + g.heat_convection + g.heat_radiation + g.heat_solar,
                          0, 0, 1e-6 + 1e-3 * q), "balance", "heat is not balanced");
      MC_CHECK(ctx, close(g.heat_convection, h.heat_convection, 2e-3, 2e-2) &&
                    close(g.heat_radiation, h.heat_radiation, 2e-3, 2e-2) &&
                    close(g.heat_solar, h.heat_solar, 1e-9) && g.heat_storage == 0, "state",
               "heat transfer state of the temperature solver differs");
      MC_CHECK(ctx, b.Validate(true, nullptr) == (i >= 0), "validate",
               "temperature solver for current ", i, " reported ", i >= 0 ? "invalid" : "valid");
      ctx.outcome(mc::hash_double(i));
    }
    // round currents
    if (!is_rising) return;
    double warm = -1e99;
    for (double i : V{0, 1, 50, 200, 541.43, 1000, 1500, 3000}) {
      ctx.describe(cat(kCables[k].name, " with ", i, " A, ", text));
      // reference
      double lo = air, hi = air + 1;
      while (ref_current(c, w, u, hi) < i && hi < 3000) hi += hi - lo;
      if (hi >= 3000) continue;
      for (int n = 0; n < 80; n++) {
        const double m = 0.5 * (lo + hi);
        (ref_current(c, w, u, m) < i ? lo : hi) = m;
      }
      b.set_current(i);
      const double t = b.TemperatureCable();
      ctx.eval();
      MC_CHECK(ctx, close(t, lo, 0, 0.005), "temperature", "temperature ", t, " not ", lo);
      MC_CHECK(ctx, t > warm - 0.01, "monotone", "temperature falls with current");
      warm = t;
      ctx.outcome(mc::hash_double(t));
    }
    ctx.state(mc::hash_string(text + kCables[k].name));
    ctx.sample(ctx.description);
  });
}

// T03 ---------------------------------------------------------------------------
void t03(Ctx& ctx) {
  const bool th = ctx.thorough;
  static Set set;
  ctx.explore("transient", [&](Chooser& ch) {
    const int k = ch.choose(4);
    const US u = ch.choose(2) ? US::kMetric : US::kImperial;
    std::string text;
    set.set_cable(k, u);
    set.weather = pick_weather(ch, u, th, &text, true);
    ch.shard();
    const double steady = pick(ch, th ? V{0, 100, 500, 1000} : V{0, 500});
    const double step = pick(ch, th ? V{0, 100, 500, 800, 1200, 2000} : V{0, 500, 1200});
    int duration = static_cast<int>(pick(ch, th ? V{0, 1, 60, 3600} : V{0, 1, 300}));
    // a day (thorough: a week) for one step of each cable
    if (duration == 300 && step == 500 && steady == 0 && u == US::kMetric) duration = 86400;
    if (duration == 3600 && step == 800 && steady == 0 && u == US::kMetric && ch.choose(2)) duration = 604800;
    ctx.describe(cat(kCables[k].name, " ", steady, " A to ", step, " A for ", duration, " s, ", text));
    const Cable& c = set.base;
    const ThermalRatingWeather& w = set.weather;
    TransientCableTemperatureSolver s;
    s.set_cable(&set.cable);
    s.set_units(u);
    s.set_weather(&w);
    s.set_current_steady(steady);
    s.set_current_step(step);
    s.set_duration(duration);
    SteadyCableTemperatureSolver b;
    b.set_cable(&set.cable);
    b.set_units(u);
    b.set_weather(&w);
    b.set_current(steady);
    const double t0 = b.TemperatureCable();
    if (t0 == -999999 || t0 > 600) throw mc::SkipLeaf();
    b.set_current(step);
    const double t1 = b.TemperatureCable();
    const std::list<TemperaturePoint>* p = s.PointsTemperature();
    ctx.eval();
    MC_CHECK(ctx, p != nullptr, "unsolved", "no points");
    MC_CHECK(ctx, static_cast<int>(p->size()) == duration + 1, "points", p->size(), " points for ",
             duration, " s");
    const double capacity = c.component_core.capacity_heat + c.component_shell.capacity_heat;
    double t = t0;
    int time = 0;
    const bool stable = t1 != -999999 && t1 < 600;
    for (const TemperaturePoint& x : *p) {
      MC_CHECK(ctx, x.time == time, "points", "time ", x.time, " not ", time);
      if (time) {
        const double q = ref_convection(c, w, u, t) + ref_radiation(c, w, u, t) +
                         ref_solar(c, w) + step * step * ref_resistance(c, t);
        t += q / capacity;
      }
      if (t > 2000) throw mc::SkipLeaf();
      MC_CHECK(ctx, close(x.temperature, t, 1e-9, 1e-9), "temperature", "temperature ",
               x.temperature, " at ", time, " s, not ", t);
      // approaches the steady temperature of the step current without passing it
      if (stable) {
        const double lo = std::min(t0, t1) - 0.01, hi = std::max(t0, t1) + 0.01;
        MC_CHECK(ctx, lo <= x.temperature && x.temperature <= hi, "range", "temperature ",
                 x.temperature, " at ", time, " s is not between ", t0, " and ", t1);
      }
      t = x.temperature;
      time++;
      ctx.transition();
    }
    if (duration >= 1) {
      if (steady == step)
        MC_CHECK(ctx, close(t, t0, 0, 0.01), "steady", "temperature drifts to ", t, " from ", t0);
      else if (t1 != -999999 && std::fabs(t1 - t0) > 0.05)
        MC_CHECK(ctx, (t > t0) == (step > steady), "direction", "temperature ", t, " from ", t0);
    }
    MC_CHECK(ctx, s.Validate(true, nullptr), "validate", "valid input is reported invalid");
    ctx.eval(2);
    ctx.state(mc::hash_string(ctx.description));
    ctx.outcome(mc::hash_double(t));
    ctx.sample(ctx.description + cat(": ", t0, " to ", t));
  });
}

// T04 ---------------------------------------------------------------------------
void t04(Ctx& ctx) {
  const int th = ctx.level;
  const double clear[2][7] = {
      {-3.9241, 5.9276, -1.7856e-1, 3.223e-3, -3.3549e-5, 1.8053e-7, -3.7868e-10},
      {-42.2391, 63.8044, -1.9220, 3.46921e-2, -3.61118e-4, 1.94318e-6, -4.07608e-9}};
  const double industrial[2][7] = {
      {4.9408, 1.3202, 6.1444e-2, -2.9411e-3, 5.07752e-5, -4.03627e-7, 1.22967e-9},
      {53.1821, 14.2110, 6.6138e-1, -3.1658e-2, 5.4654e-4, -4.3446e-6, 1.3236e-8}};
  ctx.explore("sun", [&](Chooser& ch) {
    const double lat = pick(ch, th ? mc::refine({-90, -85, -80, -75, -70, -66, -60, -55, -50, -45, -40, -35, -30, -25, -23, -20, -15, -10, -5, -1, 0, 1, 5, 10, 15, 20, 23, 25, 30, 35, 40, 45, 50, 55, 60, 65, 67, 70, 75, 80, 85, 90}, th - 1)
                                   : V{-90, -80, -66, -45, -30, -23, -10, 0, 10, 15, 23, 30, 45, 60, 67, 75, 90});
    const int hour = ch.choose(24);
    ch.shard();
    const int day = 1 + ch.choose(365);
    const int u = ch.choose(2);
    const bool is_clear = ch.choose(2) == 0;
    ctx.describe(cat("latitude ", lat, ", day ", day, ", hour ", hour, u ? ", metric" : ", imperial",
                     is_clear ? ", clear" : ", industrial"));
    const double decl = 23.46 * kRad * std::sin(2 * M_PI * (284 + day) / 365.0);
    const double w = 15 * (hour - 12) * kRad, phi = lat * kRad;
    const double up = std::sin(phi) * std::sin(decl) + std::cos(phi) * std::cos(decl) * std::cos(w);
    const double north = std::cos(phi) * std::sin(decl) - std::sin(phi) * std::cos(decl) * std::cos(w);
    const double east = -std::cos(decl) * std::sin(w);
    const double alt = std::asin(std::max(-1.0, std::min(1.0, up))) / kRad;
    SolarRadiationSolver s;
    s.set_latitude(lat);
    s.set_day(day);
    s.set_hour(hour);
    s.set_units(u ? US::kMetric : US::kImperial);
    s.set_quality_atmosphere(is_clear ? AQ::kClear : AQ::kIndustrial);
    for (double az : th ? V{0, 30, 90, 135, 180, 225, 270, 315, 360} : V{0, 30, 90, 135, 270})
      for (double e : th ? V{0, 2000, 9000} : V{0, 9000}) {
        const double elevation = u ? e * kFoot : e;
        s.set_azimuth_cable(az);
        s.set_elevation(elevation);
        const double got_alt = s.AltitudeSun(), got_az = s.AzimuthSun(), got = s.Radiation();
        ctx.eval(3);
        // a sun exactly on the horizon may be taken to be below or above
        if (std::fabs(alt) < 1e-6) {
          ctx.note("on the horizon");
          continue;
        }
        MC_CHECK(ctx, close(got_alt, alt, 1e-7, 1e-5), "altitude", "altitude ", got_alt, " not ", alt);
        const double flat = std::hypot(north, east);
        if (flat > 1e-6) {
          const double want_az = std::atan2(east, north) / kRad;
          const double diff = std::remainder(got_az - want_az, 360);
          MC_CHECK(ctx, std::fabs(diff) < 1e-4, "azimuth", "azimuth ", got_az, " not ", want_az);
          MC_CHECK(ctx, got_az >= -1e-9 && got_az <= 360 + 1e-9, "azimuth", "azimuth ", got_az);
        }
        double q = 0;
        if (alt > 0) {
          const double* p = is_clear ? clear[u] : industrial[u];
          for (int i = 6; i >= 0; i--) q = q * alt + p[i];
          q = std::max(q, 0.0);
          const double along = north * std::cos(az * kRad) + east * std::sin(az * kRad);
          q *= std::sqrt(std::max(0.0, 1 - along * along));
          q *= u ? 1 + elevation * (1.148e-4 - elevation * 1.108e-8)
                 : 1 + elevation * (3.5e-5 - elevation * 1e-9);
        }
        MC_CHECK(ctx, close(got, q, 1e-6, 1e-3), "radiation", "radiation ", got, " not ", q,
                 " on a cable along ", az, " at elevation ", elevation, ", sun at ", alt);
        MC_CHECK(ctx, got >= 0, "night", "radiation ", got);
        MC_CHECK(ctx, s.Validate(true, nullptr), "validate", "valid input is reported invalid");
        ctx.outcome(mc::hash_double(got));
        ctx.note(alt > 0 ? "day" : "night");
      }
    ctx.transition();
    ctx.state(mc::hash_string(ctx.description));
    ctx.sample(ctx.description + cat(": altitude ", alt));
  });
}

// T05 ---------------------------------------------------------------------------
// inputs that are passed by address are edited in place and set again
template <class S> struct Hist {
  Set set;
  ThermalRatingWeather other_weather;
  Cable other_base;
  ThermalRatingCable other_cable;
  S s;
  Hist() {
    set.set_cable(0, US::kImperial);
    set.weather.temperature_air = 25;
    set.weather.speed_wind = 2;
    set.weather.angle_wind = 90;
    set.weather.elevation = 0;
    set.weather.radiation_solar = 100;
    s.set_cable(&set.cable);
    s.set_weather(&set.weather);
  }
};

V state(const CableHeatTransferState& h) {
  return {h.heat_convection, h.heat_radiation, h.heat_resistance, h.heat_solar, h.heat_storage};
}

template <class S> void add_common(mc::HistSpec<Hist<S>>* h) {
  typedef Hist<S> T;
  const auto cable = [](int k) { return [k](T& t) {
    t.set.set_cable(k, US::kImperial);
    t.s.set_cable(&t.set.cable); }; };
  const auto weather = [](double air, double wind, double angle, double sun, double elevation) {
    return [=](T& t) {
      t.set.weather.temperature_air = air;
      t.set.weather.speed_wind = wind;
      t.set.weather.angle_wind = angle;
      t.set.weather.radiation_solar = sun;
      t.set.weather.elevation = elevation;
      t.s.set_weather(&t.set.weather);
    }; };
  h->inputs = {
      {"cable", {{"0", cable(0)}, {"1", cable(1)}, {"3", cable(3)}}},
      {"weather", {{"25", weather(25, 2, 90, 100, 0)}, {"25 windy", weather(25, 8, 90, 100, 0)},
                   {"25 along", weather(25, 2, 0, 100, 0)}, {"night", weather(25, 2, 90, 0, 0)},
                   {"25.2", weather(25.2, 2, 90, 100, 0)}, {"wind 2.01", weather(25, 2.01, 90, 100, 0)},
                   {"sun 100.3", weather(25, 2, 90, 100.3, 0)}, {"40", weather(40, 2, 90, 100, 0)}, {"high", weather(25, 2, 90, 100, 9000)}}},
      {"units", {{"imperial", [](T& t) { t.s.set_units(US::kImperial); }},
                 {"metric", [](T& t) { t.s.set_units(US::kMetric); }}}}};
  h->near = {
      {"air", [=](T& t, double f) { weather(25 * f, 2, 90, 100, 0)(t); }},
      {"wind", [=](T& t, double f) { weather(25, 2 * f, 90, 100, 0)(t); }},
      {"angle", [=](T& t, double f) { weather(25, 2, 45 * f, 100, 0)(t); }},
      {"sun", [=](T& t, double f) { weather(25, 2, 90, 100 * f, 0)(t); }},
      {"elevation", [=](T& t, double f) { weather(25, 2, 90, 100, 1000 * f)(t); }},
      {"diameter", [=](T& t, double f) {
         t.set.set_cable(0, US::kImperial); t.set.base.diameter *= f; t.s.set_cable(&t.set.cable); }},
      {"emissivity", [=](T& t, double f) {
         t.set.set_cable(0, US::kImperial); t.set.base.emissivity *= f; t.s.set_cable(&t.set.cable); }}};
  h->factors = {1 + 1e-4, 1 - 1e-4, 1 + 1e-2};
}

void t05(Ctx& ctx) {
  const bool th = ctx.thorough;
  {
    typedef Hist<SteadyCableCurrentSolver> T;
    mc::HistSpec<T> h;
    h.name = "SteadyCableCurrentSolver";
    add_common(&h);
    const auto t = [](double x) { return [x](T& t) { t.s.set_temperature_cable(x); }; };
    h.inputs.push_back({"temperature", {{"75", t(75)}, {"75.2", t(75.2)}, {"25", t(25)}, {"-25", t(-25)}}});
    h.queries = {{"Current", [](const T& t) { return V{t.s.Current()}; }},
                 {"State", [](const T& t) { return state(t.s.StateHeatTransfer()); }},
                 {"Validate", [](const T& t) { std::list<ErrorMessage> l; return V{double(t.s.Validate(true, &l)), double(l.size())}; }}};
    h.near.push_back({"temperature", [=](T& x, double f) { x.s.set_temperature_cable(75 * f); }});
    mc::explore_histories(ctx, h, th ? 6 : 5);
  }
  {
    typedef Hist<SteadyCableTemperatureSolver> T;
    mc::HistSpec<T> h;
    h.name = "SteadyCableTemperatureSolver";
    add_common(&h);
    const auto i = [](double x) { return [x](T& t) { t.s.set_current(x); }; };
    h.inputs.push_back({"current", {{"800", i(800)}, {"800.5", i(800.5)}, {"0", i(0)}, {"-400", i(-400)}}});
    h.queries = {{"Temperature", [](const T& t) { return V{t.s.TemperatureCable()}; }},
                 {"State", [](const T& t) { return state(t.s.StateHeatTransfer()); }},
                 {"Validate", [](const T& t) { std::list<ErrorMessage> l; return V{double(t.s.Validate(true, &l)), double(l.size())}; }}};
    h.near.push_back({"current", [=](T& x, double f) { x.s.set_current(800 * f); }});
    mc::explore_histories(ctx, h, th ? 5 : 4);
  }
  {
    typedef Hist<TransientCableTemperatureSolver> T;
    mc::HistSpec<T> h;
    h.name = "TransientCableTemperatureSolver";
    add_common(&h);
    const auto i = [](double x) { return [x](T& t) { t.s.set_current_steady(x); }; };
    const auto j = [](double x) { return [x](T& t) { t.s.set_current_step(x); }; };
    const auto d = [](int x) { return [x](T& t) { t.s.set_duration(x); }; };
    h.inputs.push_back({"steady", {{"400", i(400)}, {"400.5", i(400.5)}, {"0", i(0)}}});
    h.inputs.push_back({"step", {{"800", j(800)}, {"400", j(400)}, {"800.5", j(800.5)}}});
    h.inputs.push_back({"duration", {{"5", d(5)}, {"6", d(6)}, {"4", d(4)}, {"0", d(0)}, {"-1", d(-1)}}});
    h.queries = {{"Points", [](const T& t) {
                    V v; if (auto* p = t.s.PointsTemperature()) for (auto& x : *p) { v.push_back(x.time); v.push_back(x.temperature); }
                    return v; }},
                 {"Validate", [](const T& t) { std::list<ErrorMessage> l; return V{double(t.s.Validate(true, &l)), double(l.size())}; }}};
    h.near.push_back({"steady", [=](T& x, double f) { x.s.set_current_steady(400 * f); }});
    h.near.push_back({"step", [=](T& x, double f) { x.s.set_current_step(800 * f); }});
    mc::explore_histories(ctx, h, th ? 5 : 4);
  }
  {
    typedef Hist<CableHeatTransferSolver> T;
    mc::HistSpec<T> h;
    h.name = "CableHeatTransferSolver";
    add_common(&h);
    h.queries = {{"Heat", [](const T& t) { return V{t.s.HeatConvection(60), t.s.HeatRadiation(60), t.s.HeatResistance(60, 500), t.s.HeatSolar()}; }},
                 {"Validate", [](const T& t) { std::list<ErrorMessage> l; return V{double(t.s.Validate(true, &l)), double(l.size())}; }}};
    mc::explore_histories(ctx, h, th ? 6 : 5);
  }
  {
    typedef SolarRadiationSolver T;
    mc::HistSpec<T> h;
    h.name = "SolarRadiationSolver";
    const auto q = [](AQ a) { return [a](T& t) { t.set_quality_atmosphere(a); }; };
    const auto u = [](US a) { return [a](T& t) { t.set_units(a); }; };
#define NUM(f, x) {cat(x), [](T& t) { t.f(x); }}
    h.inputs = {
        {"day", {NUM(set_day, 161), NUM(set_day, 162), NUM(set_day, 340)}},
        {"hour", {NUM(set_hour, 11), NUM(set_hour, 12), NUM(set_hour, 23)}},
        {"latitude", {NUM(set_latitude, 30), NUM(set_latitude, 30.2), NUM(set_latitude, -30), NUM(set_latitude, 60)}},
        {"azimuth", {NUM(set_azimuth_cable, 90), NUM(set_azimuth_cable, 90.2), NUM(set_azimuth_cable, 30)}},
        {"elevation", {NUM(set_elevation, 0), NUM(set_elevation, 20), NUM(set_elevation, 5000)}},
        {"quality", {{"clear", q(AQ::kClear)}, {"industrial", q(AQ::kIndustrial)}, {"null", q(AQ::kNull)}}},
        {"units", {{"imperial", u(US::kImperial)}, {"metric", u(US::kMetric)}, {"null", u(US::kNull)}}}};
    h.queries = {{"Altitude", [](const T& t) { return V{t.AltitudeSun()}; }},
                 {"Azimuth", [](const T& t) { return V{t.AzimuthSun()}; }},
                 {"Radiation", [](const T& t) { return V{t.Radiation()}; }},
                 {"Validate", [](const T& t) { std::list<ErrorMessage> l; return V{double(t.Validate(true, &l)), double(l.size())}; }}};
    h.with_copy = true;
    h.near = {{"latitude", [](T& t, double f) { t.set_latitude(30 * f); }},
              {"azimuth", [](T& t, double f) { t.set_azimuth_cable(90 * f); }},
              {"elevation", [](T& t, double f) { t.set_elevation(1000 * f); }}};
    mc::explore_histories(ctx, h, th ? 6 : 5);
  }
}

mc::Register r1({"T01", t01,
  "every cable, unit system, weather, cable temperature and current of the grid; every list of up to four resistance points of the grid, and lists of eight and thirty, at 169 temperatures and more",
  {"the equations and constants are those of IEEE Std 738-2006",
   "the two unit systems of the standard agree to 2 percent"}, true});
mc::Register r2({"T02", t02,
  "every cable, unit system and weather of the grid with every temperature and current of the grid",
  {"the temperature solver is accurate to 0.005 degrees", "temperatures to 3000 degrees"}});
mc::Register r3({"T03", t03,
  "every cable, unit system, weather, steady current, step current and duration of the grid, every second of it",
  {"the steady temperature is below 600 degrees"}});
mc::Register r4({"T04", t04,
  "every latitude, day, hour, cable azimuth, elevation, atmosphere and unit system of the grid",
  {"the equations and constants are those of IEEE Std 738-2006", "no radiation from a sun below the horizon"}, true});
mc::Register r5({"T05", t05,
  "every history of input changes and queries up to the depth on every thermal rating class",
  {"an input that is passed by address is set again after it has been edited"}});

}  // namespace
