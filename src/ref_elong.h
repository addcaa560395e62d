// Reference model of cable elongation: written from the documentation, solved
// by plain bisection.
#ifndef VERIF_REF_ELONG_H_
#define VERIF_REF_ELONG_H_

#include <algorithm>
#include <cmath>
#include <functional>
#include <vector>

#include "models/transmissionline/cable.h"

namespace ref {

enum Poly { kCreep, kLoadStrain };

// Root of an increasing function.
template <class F> double bisect(F f, double lo, double hi) {
  for (int i = 0; i < 200 && lo < hi; i++) {
    const double m = (lo + hi) / 2;
    if (m == lo || m == hi) break;
    if (f(m) < 0) lo = m; else hi = m;
  }
  return (lo + hi) / 2;
}

struct Stretch {
  double load = 0, temperature = 0;
  Poly type = kLoadStrain;
};

class Component {
 public:
  Component() {}
  Component(const CableComponent& c, double t_ref) : c_(c), t_ref_(t_ref) {
    auto any = [](const std::vector<double>& v) {
      for (double x : v) if (x != 0) return true;
      return false;
    };
    enabled = any(c.coefficients_polynomial_creep) &&
              any(c.coefficients_polynomial_loadstrain);
    if (!enabled) return;
    for (Poly p : {kCreep, kLoadStrain}) {
      end_[p] = inverse(p, limit(p));
      zero_[p] = inverse(p, 0);
      modulus_[p] = std::max(100000.0, curve_slope(p, end_[p]));
    }
  }

  double thermal(double t) const {
    return c_.coefficient_expansion_linear_thermal * (t - t_ref_);
  }
  double limit(Poly p) const {
    return p == kCreep ? c_.load_limit_polynomial_creep
                       : c_.load_limit_polynomial_loadstrain;
  }
  // curve without thermal strain
  double curve(Poly p, double strain) const {
    const std::vector<double>& k = p == kCreep ? c_.coefficients_polynomial_creep
                                               : c_.coefficients_polynomial_loadstrain;
    const double x = strain / c_.scale_polynomial_x;
    double y = 0;
    for (size_t i = k.size(); i-- > 0;) y = y * x + k[i];
    return y * c_.scale_polynomial_y;
  }
  double curve_slope(Poly p, double strain) const {
    const std::vector<double>& k = p == kCreep ? c_.coefficients_polynomial_creep
                                               : c_.coefficients_polynomial_loadstrain;
    const double x = strain / c_.scale_polynomial_x;
    double y = 0;
    for (size_t i = k.size(); i-- > 1;) y = y * x + i * k[i];
    return y * c_.scale_polynomial_y / c_.scale_polynomial_x;
  }
  // first strain at which the curve reaches the load
  double inverse(Poly p, double load) const {
    const double sx = c_.scale_polynomial_x;
    double lo = -0.1 * sx, step = 0.001 * sx;
    while (curve(p, lo + step) < load && lo < 3 * sx) lo += step;
    return bisect([&](double x) { return curve(p, x) - load; }, lo, lo + step);
  }
  // never stretched, no thermal strain
  double unstretched(Poly p, double x) const {
    if (x < zero_[p]) return c_.modulus_compression_elastic_area * (x - zero_[p]);
    if (x < end_[p]) return curve(p, x);
    return limit(p) + modulus_[p] * (x - end_[p]);
  }
  double unstretched_strain(Poly p, double load) const {
    if (load <= limit(p)) return inverse(p, load);
    return end_[p] + (load - limit(p)) / modulus_[p];
  }
  // stretch load expressed on the other curve
  double transfer(Poly from, Poly to, double load) const {
    if (from == to || load == 0) return load;
    const double et = c_.modulus_tension_elastic_area;
    const double xs = unstretched_strain(from, load);
    const double x = bisect([&](double v) {
      return load + et * (v - xs) - unstretched(to, v); }, xs - 0.6, xs + 0.6);
    return unstretched(to, x);
  }
  // strain resolution of that intersection when loads match to the tolerance
  double transfer_resolution(Poly from, Poly to, double load, double tol) const {
    if (from == to || load == 0) return 0;
    const double x = unstretched_strain(to, transfer(from, to, load));
    if (unstretched(to, x) <= tol) return 1;
    // more than one intersection
    const double et = c_.modulus_tension_elastic_area, xs = unstretched_strain(from, load);
    int n = 0;
    double last = 0;
    for (int i = -2000; i <= 2000; i++) {
      const double v = xs + i * 5e-6;
      const double d = load + et * (v - xs) - unstretched(to, v);
      if (i > -2000 && (d < 0) != (last < 0)) n++;
      last = d;
    }
    if (n > 1) return 1;
    const double k = std::fabs(c_.modulus_tension_elastic_area -
        (x < end_[to] ? curve_slope(to, x) : modulus_[to]));
    return k == 0 ? 1 : tol / k;
  }
  struct Points { double x0, x1, x2, y1; };
  // unloaded, stretch and limit points without thermal strain
  Points points(Poly type, const Stretch& s) const {
    Points p;
    p.y1 = transfer(s.type, type, s.load);
    p.x1 = unstretched_strain(type, p.y1);
    p.x0 = p.x1 - p.y1 / c_.modulus_tension_elastic_area;
    p.x2 = end_[type];
    return p;
  }
  double load(Poly type, double t, const Points& p, double strain) const {
    const double x = strain - thermal(t);
    if (x < p.x0) return c_.modulus_compression_elastic_area * (x - p.x0);
    if (x <= p.x1) return c_.modulus_tension_elastic_area * (x - p.x0);
    return unstretched(type, x);
  }
  double slope(Poly type, double t, const Points& p, double strain) const {
    const double x = strain - thermal(t);
    if (x < p.x0) return c_.modulus_compression_elastic_area;
    if (x <= p.x1) return c_.modulus_tension_elastic_area;
    if (x < p.x2) return curve_slope(type, x);
    return modulus_[type];
  }
  const CableComponent& base() const { return c_; }
  bool enabled = false;

 private:
  CableComponent c_;
  double t_ref_ = 0;
  double end_[2], zero_[2], modulus_[2];
};

// Core and shell at equal strain.
class CableModel {
 public:
  CableModel() {}
  explicit CableModel(const Cable& c)
      : core(c.component_core, c.temperature_properties_components),
        shell(c.component_shell, c.temperature_properties_components) {}
  void set(Poly type, double t, const Stretch& s) {
    type_ = type;
    t_ = t;
    Stretch sc = s, ss = s;
    sc.load = ss.load = 0;
    if (s.load != 0) {
      const Component::Points c0 = pts(core, s.type, sc), s0 = pts(shell, s.type, ss);
      const double x = bisect([&](double v) {
        return (core.enabled ? core.load(s.type, s.temperature, c0, v) : 0) +
               (shell.enabled ? shell.load(s.type, s.temperature, s0, v) : 0) - s.load;
      }, -0.01, 0.2);
      sc.load = core.enabled ? std::max(0.0, core.load(s.type, s.temperature, c0, x)) : 0;
      ss.load = shell.enabled ? std::max(0.0, shell.load(s.type, s.temperature, s0, x)) : 0;
    }
    stretch_core = sc.load;
    stretch_shell = ss.load;
    pc_ = pts(core, type, sc);
    ps_ = pts(shell, type, ss);
  }
  double load_core(double x) const { return core.enabled ? core.load(type_, t_, pc_, x) : 0; }
  double load_shell(double x) const { return shell.enabled ? shell.load(type_, t_, ps_, x) : 0; }
  double load(double x) const { return load_core(x) + load_shell(x); }
  double slope(double x) const {
    return (core.enabled ? core.slope(type_, t_, pc_, x) : 0) +
           (shell.enabled ? shell.slope(type_, t_, ps_, x) : 0);
  }
  double strain(double load_target) const {
    // the cable is about to be loaded where strains have the same load
    return bisect([&](double v) { return load(v) <= load_target ? -1 : 1; }, -0.02, 0.2);
  }
  Component core, shell;
  double stretch_core = 0, stretch_shell = 0;

 private:
  static Component::Points pts(const Component& c, Poly p, const Stretch& s) {
    if (!c.enabled) return Component::Points();
    return c.points(p, s);
  }
  Poly type_;
  double t_;
  Component::Points pc_, ps_;
};

// strain from one state to another
inline double restrained(double length, double strain_start, double strain_finish) {
  const double e = strain_finish - strain_start;
  return e < 0 ? length / (1 - e) : length * (1 + e);
}

// level or inclined catenary under a resultant load
struct Curve {
  double a, b, w;
  // in the plane of the resultant load
  Curve(double x, double z, double wy, double wz) {
    w = std::hypot(wy, wz);
    const double chord = std::hypot(x, z);
    b = z * wz / w;
    a = std::sqrt(std::max(0.0, chord * chord - b * b));
  }
  double chord() const { return std::hypot(a, b); }
  double length(double h) const {
    const double c = h / w;
    return std::hypot(b, 2 * c * std::sinh(a / (2 * c)));
  }
  double tension_average(double h) const {
    const double c = h / w, l = length(h);
    const double mid = c * std::asinh(b / (2 * c * std::sinh(a / (2 * c))));
    const double x0 = mid - a / 2, x1 = mid + a / 2;
    return h * c / (2 * l) * (std::sinh(x1 / c) * std::cosh(x1 / c) -
                              std::sinh(x0 / c) * std::cosh(x0 / c) + a / c);
  }
};

}  // namespace ref

#endif  // VERIF_REF_ELONG_H_
