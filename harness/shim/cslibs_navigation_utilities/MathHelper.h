// Stand-in for the external package cslibs_navigation_utilities, which is not available here.
// Only what /repo uses, with the semantics its call sites rely on:
//   AngleClamp -> representative in [-pi, pi);  AngleDelta(a,b) -> AngleClamp(b - a);
//   segmentIntersection -> proper intersection of two closed segments (within tol).
#ifndef SHIM_MATHHELPER_H
#define SHIM_MATHHELPER_H
#include <cassert>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Geometry>

typedef std::pair<double, double> point2D;

class MathHelper {
public:
    static double NormalizeAngle(double a) { return AngleClamp(a); }
    static double AngleClamp(double a) {
        double r = std::fmod(a + M_PI, 2.0 * M_PI);
        if (r < 0) r += 2.0 * M_PI;
        if (r >= 2.0 * M_PI) r -= 2.0 * M_PI;
        return r - M_PI;
    }
    static double AngleDelta(double a1, double a2) { return AngleClamp(a2 - a1); }
    static double Angle(const Eigen::Vector2d &v) { return std::atan2(v(1), v(0)); }
    static double distance(const point2D &a, const point2D &b) {
        return std::hypot(a.first - b.first, a.second - b.second);
    }
};

inline bool segmentIntersection(const point2D &a, const point2D &b, const point2D &c, const point2D &d,
                                point2D &pt, double &s, double &t, double tol = 1e-9) {
    double rx = b.first - a.first, ry = b.second - a.second;
    double qx = d.first - c.first, qy = d.second - c.second;
    double den = rx * qy - ry * qx;
    if (std::fabs(den) < 1e-12) return false;
    double wx = c.first - a.first, wy = c.second - a.second;
    s = (wx * qy - wy * qx) / den;
    t = (wx * ry - wy * rx) / den;
    double lr = std::hypot(rx, ry), lq = std::hypot(qx, qy);
    double es = lr > 0 ? std::fabs(tol) / lr : 0, et = lq > 0 ? std::fabs(tol) / lq : 0;
    if (s < -es || s > 1 + es || t < -et || t > 1 + et) return false;
    pt = point2D(a.first + s * rx, a.second + s * ry);
    return true;
}
#endif
