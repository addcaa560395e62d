// Inputs (V03).
//
// Every history of setting inputs, validating, copying and assigning, for
// every public class: each input reads back as it was given last, and as the
// same default in whatever memory the object was created.
#include <cstdio>
#include <cstring>
#include <new>
#include <type_traits>

#include "world.h"

namespace {

typedef std::string Str;

template <class T, typename std::enable_if<std::is_enum<T>::value, int>::type = 0>
Str rep(const T& v) { return cat("#", static_cast<int>(v)); }
Str rep(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
Str rep(int v) { return cat(v); }
template <class T> Str rep(const T* p) { char b[40]; snprintf(b, sizeof b, "%p", static_cast<const void*>(p)); return b; }
Str rep(const Vector2d& v) { return rep(v.x()) + " " + rep(v.y()); }
Str rep(const Vector3d& v) { return rep(v.x()) + " " + rep(v.y()) + " " + rep(v.z()); }
Str rep(const Point3d<double>& v) { return rep(v.x) + " " + rep(v.y) + " " + rep(v.z); }
Str rep(const Catenary3d& c) {
  return rep(c.direction_transverse()) + " " + rep(c.spacing_endpoints()) + " " +
         rep(c.tension_horizontal()) + " " + rep(c.weight_unit());
}
Str rep(const CableState& s) { return rep(s.temperature) + " " + rep(s.type_polynomial); }
Str rep(const CableStretchState& s) {
  return rep(s.temperature) + " " + rep(s.load) + " " + rep(s.type_polynomial);
}
Str rep(const CableConstraint& c) {
  return rep(c.case_weather) + " " + rep(c.condition) + " " + rep(c.limit) + " " + c.note + " " +
         rep(c.type_limit);
}

struct Input {
  const char* name;
  std::function<void(void*, World&, int)> set;
  std::function<Str(const void*)> get;
  std::function<Str(World&, int)> want;
  int of;                                  // the input it follows, or -1
};
struct Class {
  const char* name;
  std::function<void*(void*)> make;        // in the memory given
  std::function<void*(const void*)> copy;  // on the heap
  std::function<void(void*, const void*)> assign;
  std::function<void(void*)> destroy;      // does not free
  std::function<void(const void*)> validate;
  size_t size;
  std::vector<Input> inputs;
};

template <class T> auto validate_of(const T* t, int) -> decltype(t->Validate(true, nullptr), void()) {
  std::list<ErrorMessage> m;
  t->Validate(true, &m);
}
template <class T> void validate_of(const T*, long) {}

template <class T> Class make_class(const char* name, std::vector<Input> inputs) {
  Class c;
  c.name = name;
  c.make = [](void* p) { return static_cast<void*>(new (p) T()); };
  c.copy = [](const void* p) {
    return static_cast<void*>(new (::operator new(sizeof(T))) T(*static_cast<const T*>(p)));
  };
  c.assign = [](void* p, const void* q) { *static_cast<T*>(p) = *static_cast<const T*>(q); };
  c.destroy = [](void* p) { static_cast<T*>(p)->~T(); };
  c.validate = [](const void* p) { validate_of(static_cast<const T*>(p), 0); };
  c.size = sizeof(T);
  c.inputs = std::move(inputs);
  return c;
}

// an input, and the value given by world w (0 or 1)
#define IN(Set, Get, EXPR) \
  Input{#Get, [](void* p, World& w, int k) { (void)w; (void)k; static_cast<T*>(p)->Set(EXPR); }, \
        [](const void* p) { return rep(static_cast<const T*>(p)->Get()); }, \
        [](World& w, int k) { (void)w; (void)k; return rep(EXPR); }, -1}
#define I1(Name, EXPR) IN(set_##Name, Name, EXPR)
// a public member
#define MEM(Name, EXPR) \
  Input{#Name, [](void* p, World& w, int k) { (void)w; (void)k; static_cast<T*>(p)->Name = EXPR; }, \
        [](const void* p) { return rep(static_cast<const T*>(p)->Name); }, \
        [](World& w, int k) { (void)w; (void)k; return rep(EXPR); }, -1}
// read from the object that was given as an input (the first)
#define OF(Get, EXPR) \
  Input{#Get, nullptr, [](const void* p) { return rep(static_cast<const T*>(p)->Get); }, \
        [](World& w, int k) { (void)k; return rep(EXPR); }, 0}

std::vector<Class> classes() {
  std::vector<Class> v;
#define CLASS(Type, ...) { typedef Type T; v.push_back(make_class<T>(#Type, {__VA_ARGS__})); }
  CLASS(Polynomial, I1(coefficients, &w.coefficients))
  CLASS(Cylinder, I1(diameter, 1.5 + k), I1(length, 7.0 - k))
  CLASS(Vector2d, I1(x, 3.0 + k), I1(y, -2.0 - k))
  CLASS(Vector3d, I1(x, 3.0 + k), I1(y, -2.0 - k), I1(z, 8.0 * k))
  CLASS(CableConstraint, MEM(case_weather, &w.w_constraint), MEM(condition, k ? CableConditionType::kLoad : CableConditionType::kInitial),
        MEM(limit, 100.0 + k), MEM(type_limit, k ? LT::kSag : LT::kCatenaryConstant))
  CLASS(WeatherLoadCase, MEM(density_ice, 50.0 + k), MEM(thickness_ice, 1.0 + k), MEM(pressure_wind, 4.0 + k), MEM(temperature_cable, 60.0 + k))
  CLASS(Hardware, MEM(area_cross_section, 2.0 + k), MEM(length, 5.0 + k), MEM(weight, 90.0 + k),
        MEM(type, k ? Hardware::HardwareType::kDeadEnd : Hardware::HardwareType::kSuspension))
  CLASS(CableComponent, MEM(capacity_heat, 100.0 + k), MEM(coefficient_expansion_linear_thermal, 1e-6 * (1 + k)),
        MEM(load_limit_polynomial_creep, 10.0 + k), MEM(load_limit_polynomial_loadstrain, 20.0 + k),
        MEM(modulus_compression_elastic_area, 30.0 + k), MEM(modulus_tension_elastic_area, 40.0 + k),
        MEM(scale_polynomial_x, 1.0 + k), MEM(scale_polynomial_y, 5.0 + k))
  CLASS(Cable, MEM(absorptivity, 0.5 + 0.1 * k), MEM(area_physical, 0.1 + k), MEM(diameter, 1.1 + k), MEM(emissivity, 0.6 + 0.1 * k),
        MEM(strength_rated, 1000.0 + k), MEM(temperature_properties_components, 70.0 + k), MEM(weight_unit, 2.0 + k))
  CLASS(StructureAttachment, MEM(offset_longitudinal, 1.0 + k), MEM(offset_transverse, 4.0 + k), MEM(offset_vertical_top, 7.0 + k))
  CLASS(Structure, MEM(height, 90.0 + k))
  CLASS(AlignmentPoint, MEM(elevation, 5.0 + k), MEM(rotation, 6.0 + k), MEM(station, 7.0 + k))
  CLASS(LineStructure, I1(height_adjustment, 1.0 + k), I1(offset, 4.0 + k), I1(rotation, 20.0 + k), I1(station, 300.0 + k), I1(structure, &w.structure))
  CLASS(LineCable, I1(cable, &w.cable), I1(constraint, w.constraint), I1(spacing_attachments_ruling_span, Vector3d(1000 + k, 0, 20 + k)),
        I1(weathercase_stretch_creep, &w.w_creep), I1(weathercase_stretch_load, &w.w_load))
  CLASS(TransmissionLine, I1(origin, Point3d<double>(1 + k, 20 + k, 300 + k)))
  CLASS(CableUnitLoadSolver, I1(diameter_cable, &w.diameter), I1(weight_unit_cable, &w.weight_unit))
  CLASS(Catenary2d, I1(spacing_endpoints, Vector2d(1000 + k, 10 - k)), I1(tension_horizontal, 5000.0 + k), I1(weight_unit, 1.0 + k))
  CLASS(Catenary3d, I1(direction_transverse, k ? Dir::kNegative : Dir::kPositive), I1(spacing_endpoints, Vector3d(1000 + k, 0, 10 - k)),
        I1(tension_horizontal, 5000.0 + k), I1(weight_unit, Vector3d(0, 0.5 + k, 1 + k)))
  CLASS(CatenarySolver, I1(position_target, k ? 0.0 : 0.5), I1(spacing_endpoints, Vector3d(1000 + k, 0, 10 - k)),
        I1(type_target, k ? CatenarySolver::TargetType::kTension : CatenarySolver::TargetType::kConstant),
        I1(value_target, 5000.0 + k), I1(weight_unit, Vector3d(0, 0.5 + k, 1 + k)))
  CLASS(CableAttachmentEquilibriumSolver, I1(angle_catenaries, 170.0 + k), I1(angle_hardware, 180.0 + k), I1(catenary_ahead, &w.cat_ahead),
        I1(catenary_back, &w.cat_back), I1(direction_catenaries, k ? Dir::kNegative : Dir::kPositive))
  CLASS(CablePositionLocator, I1(direction_wind, k ? Dir::kNegative : Dir::kPositive), I1(index_line_cable, k), I1(tension_horizontal, 6000.0 + k),
        I1(transmission_line, &w.line), I1(weight_unit, &w.load_locator))
  CLASS(SagTensionCableComponent, I1(component_base, &w.cable.component_core),
        OF(coefficient_expansion_linear_thermal(), &w.cable.component_core.coefficient_expansion_linear_thermal),
        OF(coefficients_polynomial(PT::kCreep), &w.cable.component_core.coefficients_polynomial_creep),
        OF(coefficients_polynomial(PT::kLoadStrain), &w.cable.component_core.coefficients_polynomial_loadstrain),
        OF(load_limit_polynomial(PT::kCreep), &w.cable.component_core.load_limit_polynomial_creep),
        OF(load_limit_polynomial(PT::kLoadStrain), &w.cable.component_core.load_limit_polynomial_loadstrain),
        OF(modulus_compression_elastic_area(), &w.cable.component_core.modulus_compression_elastic_area),
        OF(modulus_tension_elastic_area(), &w.cable.component_core.modulus_tension_elastic_area),
        OF(scale_polynomial_x(), &w.cable.component_core.scale_polynomial_x),
        OF(scale_polynomial_y(), &w.cable.component_core.scale_polynomial_y))
  CLASS(SagTensionCable, I1(cable_base, &w.cable), OF(diameter(), &w.cable.diameter), OF(strength_rated(), &w.cable.strength_rated),
        OF(temperature_properties_components(), &w.cable.temperature_properties_components), OF(weight_unit(), &w.cable.weight_unit),
        OF(component_core()->component_base(), &w.cable.component_core), OF(component_shell()->component_base(), &w.cable.component_shell))
  CLASS(CableState, MEM(temperature, 60.0 + k), MEM(type_polynomial, k ? PT::kCreep : PT::kLoadStrain))
  CLASS(CableStretchState, MEM(temperature, 60.0 + k), MEM(load, 1000.0 + k), MEM(type_polynomial, k ? PT::kCreep : PT::kLoadStrain))
  CLASS(CableComponentElongationModel, I1(component_cable, w.st.component_shell()), I1(state, &w.state), I1(state_stretch, &w.stretch),
        I1(temperature_reference, &w.t_reference))
  CLASS(CableElongationModel, I1(cable, &w.st), I1(state, w.state), I1(state_stretch, w.stretch))
  CLASS(CableStrainer, I1(length_start, 1000.0 + k), I1(load_finish, 100.0 + k), I1(load_start, 2000.0 + k), I1(model_finish, &w.model_b),
        I1(model_start, &w.model_a))
  CLASS(CatenaryCableUnloader, I1(catenary, &w.cat), I1(model_reference, &w.model_a), I1(model_unloaded, &w.model_b))
  CLASS(CatenaryCableReloader, I1(catenary, &w.cat), I1(model_reference, &w.model_a), I1(model_reloaded, &w.model_b),
        I1(weight_unit_reloaded, &w.load_reloaded))
  CLASS(LineCableUnloader, I1(line_cable, &w.lc), I1(condition_unloaded, k ? CableConditionType::kLoad : CableConditionType::kInitial),
        I1(spacing_attachments, Vector3d(900 + k, 0, 10 + k)), I1(temperature_unloaded, 60.0 + k))
  CLASS(LineCableReloader, I1(line_cable, &w.lc), I1(condition_reloaded, k ? CableConditionType::kLoad : CableConditionType::kInitial),
        I1(weathercase_reloaded, &w.w_reloaded))
  CLASS(LineCableSagger, I1(line_cable, &w.lc_sagger), I1(constraints_design, &w.designs))
  CLASS(CableSagPositionCorrector, I1(linecable, &w.lc), I1(points_attachment, &w.attachments))
  CLASS(DynoSagger, I1(catenary, w.cat), I1(location, k ? DynoSagger::SpanEndLocation::kAhead : DynoSagger::SpanEndLocation::kBack))
  CLASS(StopwatchSagger, I1(catenary, w.cat), I1(units, k ? US::kMetric : US::kImperial))
  CLASS(TransitSagger, I1(catenary, w.cat), I1(point_transit, Point3d<double>(1 + k, 2 + k, -30 - k)))
  CLASS(ThermalRatingCableComponent, I1(component_base, &w.cable.component_core), OF(capacity_heat(), &w.cable.component_core.capacity_heat))
  CLASS(ThermalRatingCable, I1(cable_base, &w.cable), OF(absorptivity(), &w.cable.absorptivity), OF(diameter(), &w.cable.diameter),
        OF(emissivity(), &w.cable.emissivity), OF(resistances_ac(), &w.cable.resistances_ac),
        OF(component_core()->component_base(), &w.cable.component_core), OF(component_shell()->component_base(), &w.cable.component_shell))
  CLASS(ThermalRatingWeather, MEM(angle_wind, 30.0 + k), MEM(elevation, 500.0 + k), MEM(radiation_solar, 90.0 + k), MEM(speed_wind, 2.0 + k),
        MEM(temperature_air, 25.0 + k))
  CLASS(CableHeatTransferState, MEM(heat_convection, -5.0 - k), MEM(heat_radiation, -8.0 - k), MEM(heat_resistance, 6.0 + k), MEM(heat_solar, 4.0 + k),
        MEM(heat_storage, 1.0 + k))
  CLASS(CableHeatTransferSolver, I1(cable, &w.tr), I1(units, k ? US::kMetric : US::kImperial), I1(weather, &w.weather))
  CLASS(SolarRadiationSolver, I1(azimuth_cable, 90.0 + k), I1(day, 100 + k), I1(elevation, 50.0 + k), I1(hour, 11 + k), I1(latitude, 30.0 + k),
        IN(set_quality_atmosphere, quality, k ? AtmosphereQualityType::kIndustrial : AtmosphereQualityType::kClear),
        I1(units, k ? US::kMetric : US::kImperial))
  CLASS(SteadyCableCurrentSolver, I1(cable, &w.tr), I1(temperature_cable, 75.0 + k), I1(units, k ? US::kMetric : US::kImperial), I1(weather, &w.weather))
  CLASS(SteadyCableTemperatureSolver, I1(cable, &w.tr), I1(current, 500.0 + k), I1(units, k ? US::kMetric : US::kImperial), I1(weather, &w.weather))
  CLASS(TransientCableTemperatureSolver, I1(cable, &w.tr), I1(current_steady, 500.0 + k), I1(current_step, 700.0 + k), I1(duration, 2 + k),
        I1(units, k ? US::kMetric : US::kImperial), I1(weather, &w.weather))
  return v;
}

void v03(Ctx& ctx) {
  const std::vector<Class> all = classes();
  static World worlds[2];
  for (World& w : worlds) {
    w.data();
    if (&w != worlds) {
      w.state.temperature = 100;
      w.stretch.load = 4000;
      w.constraint.limit = 5000;
      w.constraint.note = "m";
    }
    w.wire_line();
    w.wire_solvers();
  }
  worlds[1].cat.set_tension_horizontal(5500);
  // memory in which objects are created
  alignas(16) static unsigned char memory[1 << 14];
  const auto fill = [&](int pattern) {
    if (pattern == 0) {
      memset(memory, 0, sizeof memory);
    } else if (pattern == 1) {
      memset(memory, 0xbe, sizeof memory);
    } else {
      const double one = 1;
      for (size_t i = 0; i < sizeof memory; i += sizeof one) memcpy(memory + i, &one, sizeof one);
    }
  };
  // what each input reads when it was not given
  std::vector<std::vector<Str>> unset;
  for (const Class& c : all) {
    fill(0);
    void* p = c.make(memory);
    std::vector<Str> u;
    for (const Input& i : c.inputs) u.push_back(i.of < 0 ? i.get(p) : Str());
    c.destroy(p);
    unset.push_back(u);
  }
  ctx.explore("inputs", [&](Chooser& ch) {
    const int ci = ch.choose(all.size());
    const Class& c = all[ci];
    const int pattern = ch.choose(3);
    // the two values: ordinary ones in long histories, and zeros, negative
    // and very large ones in short histories without validation
    const int steps[][2] = {{0, 1}, {-1, -2}, {-3, -4}, {-5, -6}, {-7, -8}, {-10, -20}, {-30, -90}, {-50, -60},
                            {-100, -300}, {-500, 340}, {1000000, -1000000}};
    const int variant = ch.choose(pattern == 1 ? 11 : 1);
    const int* step = steps[variant];
    fill(pattern);
    if (c.size > sizeof memory) ctx.fail("size", "object too large for the harness");
    // the object lives in the patterned memory, or is a copy on the heap
    void* obj = c.make(memory);
    bool heap = false;
    const auto end = [&](void* p, bool on_heap) {
      c.destroy(p);
      if (on_heap) ::operator delete(p);
    };
    struct Guard { std::function<void()> f; ~Guard() { f(); } } guard{[&] { end(obj, heap); }};
    std::vector<int> given(c.inputs.size(), -1);
    const char* const patterns[] = {"zeros", "0xbe", "ones"};
    Str history = cat(c.name, " in memory of ", patterns[pattern], variant > 0 ? cat(", values ", step[0], " and ", step[1]) : Str(), ": ");
    const auto check = [&] {
      ctx.describe(history);
      uint64_t h = mc::hash_mix(mc::hash_string(c.name), pattern + 3 * variant);
      for (size_t i = 0; i < c.inputs.size(); i++) {
        const Input& in = c.inputs[i];
        const int g = given[in.of < 0 ? i : in.of];
        h = mc::hash_mix(h, g + 2);
        if (g < 0 && in.of >= 0) continue;
        const Str got = in.get(obj), want = g < 0 ? unset[ci][i] : in.want(worlds[g], step[g]);
        ctx.eval();
        if (got != want)
          ctx.fail(cat(g < 0 ? "unset:" : "reads:", c.name, ":", in.name),
                   cat(in.name, g < 0 ? " was not given and reads " : " reads ", got, " not ", want));
      }
      ctx.state(h);
      ctx.outcome(h);
    };
    check();
    const int n = c.inputs.size();
    std::vector<int> settable;
    for (int i = 0; i < n; i++) if (c.inputs[i].set) settable.push_back(i);
    const int ns = settable.size();
    const int depth = variant > 0 ? 2 : !ctx.thorough ? 3 : ns <= 4 ? 5 : 4;
    for (int d = 0; d < depth; d++) {
      const int op = ch.choose(2 * ns + 5);
      if (d == 0) ch.shard();
      if (op == 0) break;                  // shorter histories
      if (op <= 2 * ns) {
        const int i = settable[(op - 1) / 2], k = (op - 1) % 2;
        history += cat("set ", c.inputs[i].name, " ", k, "; ");
        ctx.describe(history);
        c.inputs[i].set(obj, worlds[k], step[k]);
        given[i] = k;
      } else if (op == 2 * ns + 1) {
        if (variant > 0) break;
        history += "validate; ";
        ctx.describe(history);
        c.validate(obj);
      } else if (op == 2 * ns + 2) {
        history += "continue on a copy; ";
        ctx.describe(history);
        void* p = c.copy(obj);
        end(obj, heap);
        obj = p;
        heap = true;
      } else {
        // a fresh or a used object is assigned to
        const bool used = op == 2 * ns + 4;
        history += used ? "assign to a used object; " : "assign to a fresh object; ";
        ctx.describe(history);
        void* fresh = ::operator new(c.size);
        memset(fresh, 0xbe, c.size);
        c.make(fresh);
        if (used) {
          for (int i : settable) c.inputs[i].set(fresh, worlds[1], step[1]);
          if (variant == 0) c.validate(fresh);
        }
        c.assign(fresh, obj);
        end(obj, heap);
        obj = fresh;
        heap = true;
      }
      ctx.transition();
      check();
    }
    ctx.sample(history);
  });
}

mc::Register r3({"V03", v03,
  "every public class with inputs, created in memory of three patterns, and every history of setting each input to two values, validating, copying and assigning up to three (thorough: four, or five for classes with up to four inputs) operations, reading every input after every operation",
  {"22 values for each number, two ordinary ones in the longer histories"}});

}  // namespace
