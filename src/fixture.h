// Shared test objects (independent of the repository's own test factory).
#ifndef VERIF_FIXTURE_H_
#define VERIF_FIXTURE_H_

#include <list>
#include <string>
#include <vector>

#include "models/base/error_message.h"
#include "models/base/point.h"
#include "models/base/units.h"
#include "models/base/vector.h"
#include "models/transmissionline/cable.h"
#include "models/transmissionline/hardware.h"
#include "models/transmissionline/line_cable.h"
#include "models/transmissionline/line_structure.h"
#include "models/transmissionline/structure.h"
#include "models/transmissionline/weather_load_case.h"

namespace fx {

// ACSR "Drake", imperial, consistent units (ft, lb, lb/ft, deg F).
Cable drake();
// Homogeneous all aluminium cable: only the shell carries load.
Cable arbutus();

WeatherLoadCase weather(const std::string& name, double ice, double density,
                        double wind, double temperature);

inline std::vector<double> vec(const Point3d<double>& p) {
  return {p.x, p.y, p.z};
}
inline std::vector<double> vec(const Vector3d& v) {
  return {v.x(), v.y(), v.z()};
}
inline std::vector<double> vec(const Vector2d& v) { return {v.x(), v.y()}; }

}  // namespace fx

#endif  // VERIF_FIXTURE_H_
