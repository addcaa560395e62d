#include "fixture.h"

namespace fx {

namespace {
const double kArea = 0.7264 / 144;
const double kPsi = 144 * kArea;           // psi -> lb for this cable

std::vector<double> coefficients(double a, double b, double c, double d,
                                 double e) {
  return {a * kPsi, b * kPsi, c * kPsi, d * kPsi, e * kPsi};
}
}  // namespace

Cable drake() {
  Cable cable;
  cable.area_physical = kArea;
  cable.diameter = 1.108 / 12;
  cable.name = "ACSR Drake";
  cable.strength_rated = 31500;
  cable.temperature_properties_components = 70;
  cable.weight_unit = 1.094;
  cable.absorptivity = 0.8;
  cable.emissivity = 0.8;
  Cable::ResistancePoint p;
  p.temperature = 25;
  p.resistance = 0.1166 / 5280;
  cable.resistances_ac.push_back(p);
  p.temperature = 75;
  p.resistance = 0.1390 / 5280;
  cable.resistances_ac.push_back(p);

  CableComponent core;
  core.capacity_heat = 41.316 * 1.8;
  core.coefficient_expansion_linear_thermal = 0.0000064;
  core.coefficients_polynomial_creep =
      coefficients(47.1, 36211.3, 12201.4, -72392, 46338);
  core.coefficients_polynomial_loadstrain =
      coefficients(-69.3, 38629, 3998.1, -45713, 27892);
  core.load_limit_polynomial_creep = 22406 * kPsi;
  core.load_limit_polynomial_loadstrain = 19154 * kPsi;
  core.modulus_compression_elastic_area = 0;
  core.modulus_tension_elastic_area = 37000 * 100 * kPsi;
  core.scale_polynomial_x = 0.01;
  core.scale_polynomial_y = 1;
  cable.component_core = core;

  CableComponent shell;
  shell.capacity_heat = 180.203 * 1.8;
  shell.coefficient_expansion_linear_thermal = 0.0000128;
  shell.coefficients_polynomial_creep =
      coefficients(-544.8, 21426.8, -18842.2, 5495, 0);
  shell.coefficients_polynomial_loadstrain =
      coefficients(-1213, 44308.1, -14004.4, -37618, 30676);
  shell.load_limit_polynomial_creep = 7535 * kPsi;
  shell.load_limit_polynomial_loadstrain = 20252 * kPsi;
  shell.modulus_compression_elastic_area = 1500 * 100 * kPsi;
  shell.modulus_tension_elastic_area = 64000 * 100 * kPsi;
  shell.scale_polynomial_x = 0.01;
  shell.scale_polynomial_y = 1;
  cable.component_shell = shell;
  return cable;
}

Cable arbutus() {
  Cable cable = drake();
  cable.name = "AAC Arbutus";
  cable.diameter = 1.026 / 12;
  cable.strength_rated = 13900;
  cable.weight_unit = 0.746;
  // no core: every coefficient is zero
  CableComponent& core = cable.component_core;
  core.coefficients_polynomial_creep = {0, 0, 0, 0, 0};
  core.coefficients_polynomial_loadstrain = {0, 0, 0, 0, 0};
  core.load_limit_polynomial_creep = 0;
  core.load_limit_polynomial_loadstrain = 0;
  core.modulus_compression_elastic_area = 0;
  core.modulus_tension_elastic_area = 0;
  CableComponent& shell = cable.component_shell;
  shell.coefficients_polynomial_creep =
      coefficients(0, 27200, -13000, 2000, 0);
  shell.coefficients_polynomial_loadstrain =
      coefficients(0, 51900, -40000, 9000, 0);
  shell.load_limit_polynomial_creep = 11000 * kPsi;
  shell.load_limit_polynomial_loadstrain = 18000 * kPsi;
  shell.modulus_compression_elastic_area = 0;
  shell.modulus_tension_elastic_area = 85000 * 100 * kPsi;
  return cable;
}

WeatherLoadCase weather(const std::string& name, double ice, double density,
                        double wind, double temperature) {
  WeatherLoadCase w;
  w.description = name;
  w.thickness_ice = ice;
  w.density_ice = density;
  w.pressure_wind = wind;
  w.temperature_cable = temperature;
  return w;
}

}  // namespace fx
