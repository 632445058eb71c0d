// Lines, circles, arcs, their intersections, discretisation and tangents; points and poses.
#include "common.hpp"
#include <cslibs_navigation_utilities/MathHelper.h>
#include <cslibs_path_planning/geometry/circle.h>
#include <cslibs_path_planning/geometry/intersector.h>
#include <cslibs_path_planning/geometry/line.h>
#include <cslibs_path_planning/geometry/shape.h>
#include <cslibs_path_planning/geometry/tangentor.h>
#include <cslibs_path_planning/common/Path.h>
#include <cslibs_path_planning/common/Point2d.h>
#include <cslibs_path_planning/common/Pose2d.h>
using namespace vf;
using namespace path_geom;
typedef Eigen::Vector2d V;
static const double L = 1e5, A = 1e7;
typedef std::vector<long long> Ints;
static double lattice_angle(Rng &r) { return r.chance(75) ? r.range(-72, 72) * M_PI / 12 : r.range(-1900, 1900) / 100.0; }
static V polar(const V &c, double rad, double a) { return c + rad * V(std::cos(a), std::sin(a)); }
static V ORG(0, 0);         // where the case lies in the plane; recorded places are relative to it
static void place(Ctx &c, int chance) {
    ORG = V(0, 0); if (c.rng.chance(chance)) { int far = c.rng.pick(std::vector<int>{100, 5000, 100000}) * 256; ORG = V(c.rng.range(-far, far) / 256.0, c.rng.range(-far, far) / 256.0); }   // whole arithmetic stays exact there
    c.j.kvec("org", Ints{(long long)(ORG.x() * 256), (long long)(ORG.y() * 256)});
}
static void put(J &j, const char *k, const V &p) { j.kvec(k, Ints{fx(p.x() - ORG.x(), L), fx(p.y() - ORG.y(), L)}); }
static void put(J &j, const V &p) { j.arr().v(fx(p.x() - ORG.x(), L)).v(fx(p.y() - ORG.y(), L)).enda(); }

// ---- arcs
static void seen(J &j, Circle &c, Rng &r) {
    j.key("v").obj().kv("s", fx(c.startAngle(), A)).kv("n", fx(c.getArcAngle(), A)).kv("e", fx(c.endAngle(), A)).kv("d", c.direction()).kv("len", fx(c.getArcLength(), L));
    j.kv("x", fx(c.center().x() - ORG.x(), L)).kv("y", fx(c.center().y() - ORG.y(), L)).kv("r", fx(c.radius(), L));
    put(j, "sp", c.startPoint()); put(j, "ep", c.endPoint()); j.end();
    j.key("q").arr();
    for (int k = 0; k < 6; ++k) {
        double a = k == 0 ? c.startAngle() : k == 1 ? c.endAngle() : k == 2 ? c.startAngle() + c.direction() * c.getArcAngle() * r.range(1, 9) / 10.0 : r.range(0, 24) * M_PI / 12, tol = DIST_EPS, rad = c.radius();
        if (r.chance(25)) tol = r.chance(50) ? 0.01 : 0.1;
        if (r.chance(20)) rad += (r.chance(50) ? 1 : -1) * tol * r.range(0, 30) / 10.0;
        V p = polar(c.center(), rad, a);
        if (k == 0 && r.chance(50)) { p = c.startPoint(); rad = c.radius(); } else if (k == 1 && r.chance(50)) { p = c.endPoint(); rad = c.radius(); }
        bool ret = tol == DIST_EPS ? c.isPointOnArc(p) : c.isPointOnArc(p, tol);
        j.obj().kv("a", fx(a, A)).kv("rad", fx(rad, L)).kv("tol", fx(tol, L)).kv("ret", ret).end();
    }
    j.enda().end();
}
static void arcs(Ctx &c) {
    Rng &r = c.rng; J &j = c.j;
    if (c.script.empty()) place(c, 25); else ORG = V(0, 0);
    j.key("ops").arr();
    Circle k(V(0, 0), 1);
    auto radius = [&]() { return r.range(4, 160) / 8.0; };
    auto fresh = [&]() {
        V z(r.range(-160, 160) / 8.0, r.range(-160, 160) / 8.0); double rad = radius(); int d = r.chance(50) ? 1 : -1;
        int how = r.range(0, 3);
        if (how < 2) { int dd = d * (r.chance(80) ? 1 : r.range(1, 5)); double rr = r.chance(80) ? rad : -rad; k = d > 0 && r.chance(30) ? Circle(z + ORG, rr) : Circle(z + ORG, rr, dd); j.obj().kv("o", "new").kv("x", fx(z.x(), L)).kv("y", fx(z.y(), L)).kv("r", fx(rr, L)).kv("d", d); }
        else {
            PathPose p(z.x() + ORG.x(), z.y() + ORG.y(), lattice_angle(r)); double a = r.chance(80) ? r.range(0, 24) * M_PI / 12 : lattice_angle(r);
            k = how == 2 ? Circle::createArcFrom(p, rad, a, d) : Circle::createArcTo(p, rad, a, d);
            j.obj().kv("o", how == 2 ? "from" : "to").kvec("p", Ints{fx(z.x(), L), fx(z.y(), L), fx(p.theta_, A)}).kv("r", fx(rad, L)).kv("a", fx(a, A)).kv("d", d);
        }
        seen(j, k, r);
    };
    auto one = [&](char o, double a) {
        V p = polar(k.center(), k.radius(), a);
        switch (o) {
        case 's': k.setStartAngle(a); j.obj().kv("o", "start").kv("a", fx(a, A)); break;
        case 'e': k.setEndAngle(a); j.obj().kv("o", "end").kv("a", fx(a, A)); break;
        case 'a': k.setArcAngle(a); j.obj().kv("o", "turn").kv("a", fx(a, A)); break;
        case 'S': k.setStartAngle(p); j.obj().kv("o", "start").kv("a", fx(a, A)); break;
        case 'E': k.setEndAngle(p); j.obj().kv("o", "end").kv("a", fx(a, A)); break;
        case 'L': case 'R': { int d = o == 'L' ? 1 : -1; double n = r.chance(70) ? r.range(0, 24) * M_PI / 12 : lattice_angle(r); k.setArc(a, n, d); j.obj().kv("o", "all").kv("a", fx(a, A)).kv("n", fx(n, A)).kv("d", d); break; }
        case 'x': case 'y': {
            double tol = r.chance(50) ? DIST_EPS : r.range(1, 20) / 100.0, rad = k.radius() + (r.chance(40) ? 0 : tol * r.range(-20, 20) / 10.0); V q = polar(k.center(), rad, a); bool ret;
            if (o == 'x') ret = tol == DIST_EPS ? k.selectStartPoint(q) : k.selectStartPoint(q, tol); else ret = tol == DIST_EPS ? k.selectEndPoint(q) : k.selectEndPoint(q, tol);
            j.obj().kv("o", o == 'x' ? "selstart" : "selend").kv("a", fx(a, A)).kv("rad", fx(rad, L)).kv("tol", fx(tol, L)).kv("ret", ret); break; }
        }
        seen(j, k, r);
    };
    if (!c.script.empty()) {
        std::istringstream in(c.script); std::string t;
        while (in >> t) {
            double a = std::atoi(t.c_str() + 1) * M_PI / 4;
            if (t[0] == '+' || t[0] == '-') { int d = t[0] == '+' ? 1 : -1; k = Circle(V(1, -2), 2, d); j.obj().kv("o", "new").kv("x", fx(1, L)).kv("y", fx(-2, L)).kv("r", fx(2, L)).kv("d", d); seen(j, k, r); }
            else one(t[0], a);
        }
    } else {
        fresh();
        for (int n = r.range(1, 12); n > 0; --n) if (r.chance(6)) fresh(); else one("seaSELRxy"[r.range(0, 8)], lattice_angle(r));
    }
    j.enda();
}

// ---- shapes with exact coordinates
static void shapes(Ctx &c) {
    Rng &r = c.rng; J &j = c.j;
    double U = r.pick(std::vector<double>{0.5, 1, 2, 4});
    j.kv("u", fx(U, L)); place(c, 25);
    int W = r.pick(std::vector<int>{2, 4, 12, 12});
    auto lp = [&]() { return Ints{r.range(-W, W), r.range(-W, W)}; };
    auto at = [&](const Ints &p) { return V(p[0] * U + ORG.x(), p[1] * U + ORG.y()); };
    auto rad = [&]() { return r.range(1, W + 1); };
    auto pts = [&](const char *k, const std::vector<V> &v) { j.key(k).arr(); for (auto &p : v) put(j, p); j.enda(); };
    auto arc = [&](Circle &k) { if (r.chance(75)) k.setArc(r.range(0, 23) * M_PI / 12, r.range(0, 24) * M_PI / 12, r.chance(50) ? 1 : -1); };
    std::vector<V> stale;     // results of earlier calls are to be replaced
    j.key("ops").arr();
    for (int n = 0; n < 25; ++n) {
        j.obj();
        switch (r.range(0, 9)) {
        case 0: { Ints a = lp(), b = lp(), e = lp(), f = lp(); if (a == b) b[0] += 1; if (e == f) f[1] += 1; V p(0, 0); bool ret = Intersector::intersect(Line(at(a), at(b)), Line(at(e), at(f)), p);
            j.kv("o", "ll").kvec("a", a).kvec("b", b).kvec("e", e).kvec("f", f).kv("ret", ret); if (ret) put(j, "p", p); break; }
        case 1: { Ints a = lp(), b = lp(), z = lp(); int q = rad(); if (a == b) b[0] += 1; if (r.chance(25)) { a[0] = b[0] = z[0] + (r.chance(50) ? q : -q); if (a == b) b[1] += 3; }
            Circle k(at(z), q * U, r.chance(50) ? 1 : -1); arc(k); Line l(at(a), at(b)); if (r.chance(50)) Intersector::intersect(l, k, stale); else k.intersect(l, stale);
            j.kv("o", "lc").kvec("a", a).kvec("b", b).kvec("z", z).kv("r", q); pts("p", stale); break; }
        case 2: case 3: { Ints z = lp(), y = lp(); int q = rad(), w = rad(); if (r.chance(25)) { y[1] = z[1]; q = std::max<int>(1, std::abs(std::abs(y[0] - z[0]) + (r.chance(50) ? w : -w))); }
            Intersector::intersect(Circle(at(z), q * U, r.chance(50) ? 1 : -1), Circle(at(y), w * U), stale);
            j.kv("o", "cc").kvec("z", z).kv("r", q).kvec("y", y).kv("q", w); pts("p", stale); break; }
        case 4: { Ints z = lp(), y = lp(); int q = rad(), w = rad(); if (r.chance(10)) { y[1] = z[1]; q = std::max<int>(1, std::abs(std::abs(y[0] - z[0]) + (r.chance(50) ? w : -w))); }
            Circle k(at(z), q * U), m(at(y), w * U); arc(k); arc(m);
            j.kv("o", "aa").kvec("z", z).kv("r", q).kvec("y", y).kv("q", w).kv("s", fx(k.startAngle(), A)).kv("n", fx(k.getArcAngle(), A)).kv("d", k.direction()).kv("s2", fx(m.startAngle(), A)).kv("n2", fx(m.getArcAngle(), A)).kv("d2", m.direction());
            std::vector<V> full; Intersector::intersect(k, m, full); pts("full", full);
            if (r.chance(50)) Intersector::intersectArcs(k, m, stale); else k.intersect(m, stale); pts("p", stale); break; }
        case 5: case 6: { Ints a = lp(), b = lp(), x = lp(); if (a == b) b[1] -= 1; if (r.chance(25)) { int q = r.range(-2, 3); x = Ints{a[0] + q * (b[0] - a[0]) / 2, a[1] + q * (b[1] - a[1]) / 2}; }
            std::shared_ptr<Shape> sh = make_aligned<Line>(at(a), at(b)); if (r.chance(30)) sh = Shape::deepCopy(sh);
            Line &l = dynamic_cast<Line &>(*sh); V p = at(x); int kk = r.range(0, 6); double tol = (kk + 0.5) * U * U; bool neg = r.chance(30);
            j.kv("o", "pl").kvec("a", a).kvec("b", b).kvec("x", x).kv("k", kk).kv("rel", l.pointRelativePosition(p, neg ? -tol : tol)).kv("rel0", l.pointRelativePosition(p)).kv("sd", fx(l.pointSignedDistance(p), L));
            put(j, "foot", l.footPoint(p)); put(j, "proj", l.projectPoint(p)); j.kv("on", l.isPointOnSegment(p)).kv("dist", fx(sh->distanceTo(p), L)); put(j, "near", sh->nearestPointTo(p));
            bool e = r.chance(50); bool sel = e ? sh->selectEndPoint(p, tol) : sh->selectStartPoint(p, tol);
            j.kv("which", e ? 1 : 0).kv("sel", sel); put(j, "ns", sh->startPoint()); put(j, "ne", sh->endPoint()); break; }
        case 7: if (r.chance(15)) { Ints a = lp(), x = lp(); Line l(at(a), at(a)); j.kv("o", "pp").kvec("a", a).kvec("x", x).kv("dist", fx(l.distanceTo(at(x)), L)); put(j, "near", l.nearestPointTo(at(x))); break; }
            if (r.chance(50)) { Ints a = lp(), b = lp(); if (a == b) b[0] += 2; double w = r.range(-40, 40) / 8.0; Line l = Line::parallel(Line(at(a), at(b)), w); j.kv("o", "par").kvec("a", a).kvec("b", b).kv("w", fx(w, L)); put(j, "ps", l.startPoint()); put(j, "pe", l.endPoint()); }
            else { Ints a = lp(); double t = lattice_angle(r), w = r.range(-80, 80) / 8.0; int d = r.pick(std::vector<int>{1, -1, 1, -1, 2, -3}); Line l(PathPose(at(a).x(), at(a).y(), t), w, d); j.kv("o", "ray").kvec("a", a).kv("t", fx(t, A)).kv("w", fx(w, L)).kv("d", d); put(j, "ps", l.startPoint()); put(j, "pe", l.endPoint()); }
            break;
        default: { Ints z = lp(), x = r.chance(10) ? z : lp(); int q = rad(); std::shared_ptr<Shape> sh = make_aligned<Circle>(at(z), q * U, r.chance(50) ? 1 : -1); arc(dynamic_cast<Circle &>(*sh)); if (r.chance(30)) sh = Shape::deepCopy(sh);
            Circle &k = dynamic_cast<Circle &>(*sh); V p = at(x);
            j.kv("o", "pc").kvec("z", z).kv("r", q).kvec("x", x).kv("s", fx(k.startAngle(), A)).kv("n", fx(k.getArcAngle(), A)).kv("d", k.direction()).kv("dist", fx(sh->distanceTo(p), L)); put(j, "near", sh->nearestPointTo(p)); break; }
        }
        j.end();
    }
    j.enda();
}

// ---- shapes as sequences of points and poses
static void cut(Ctx &c) {
    Rng &r = c.rng; J &j = c.j;
    auto res_for = [&](double len) { double q = len / ((r.chance(3) ? r.range(80, 4000) : r.range(1, 80)) / 2.0); return std::max(1.0, std::round(q * 32)) / 32; };
    place(c, 25);
    PathPoseVec poses; std::vector<V> points;           // used again and again: old contents must not matter
    j.key("ops").arr();
    for (int n = 0; n < 8; ++n) {
        bool line = r.chance(50), pos = r.chance(65), zero = false, viashape = r.chance(50), with = r.chance(50), deflt = r.chance(15); int dir = r.chance(50) ? 1 : -1; double res;
        std::shared_ptr<Shape> sh;
        V a(r.range(-160, 160) / 8.0, r.range(-160, 160) / 8.0), b(r.range(-160, 160) / 8.0, r.range(-160, 160) / 8.0); double rad = r.range(2, 120) / 8.0;
        if (r.chance(25)) b = a + V(r.range(-3, 3), r.range(-4, 4));
        if (a == b) b.x() += 0.125;
        bool many = r.chance(1); if (many) { b = a + V(r.range(70, 140), r.range(-140, 140)); rad = r.range(160, 240) / 8.0; }
        a += ORG; b += ORG;
        auto some = [&](double len) { return std::ceil(len * 1e5 / r.range(33000, 44000)) / 1e5; };
        j.obj();
        if (line) { sh = make_aligned<Line>(a, b); res = many ? some((b - a).norm()) : res_for((b - a).norm()); put(j, "a", a); put(j, "b", b); }
        else {
            auto k = make_aligned<Circle>(a, rad, r.chance(50) ? 1 : -1); if (!many && r.chance(80)) k->setArc(r.range(0, 23) * M_PI / 12, r.range(0, 24) * M_PI / 12, r.chance(50) ? 1 : -1);
            if (r.chance(20)) k->setStartAngle(b); if (r.chance(20)) k->setArcAngle(r.range(many ? 500 : 0, 628) / 100.0);
            sh = k; many = many && k->getArcLength() > 80; res = many ? some(k->getArcLength()) : res_for(k->getArcLength());
            put(j, "z", a); j.kv("r", fx(rad, L)).kv("s", fx(k->startAngle(), A)).kv("n", fx(k->getArcAngle(), A)).kv("d", k->direction());
        }
        if (pos && r.chance(4)) { zero = true; res = 0; }
        j.kv("o", line ? (pos ? "lposes" : "lpoints") : (pos ? "cposes" : "cpoints")).kv("res", fx(res, L)).kv("dir", dir);
        if (pos) {
            if (deflt) {  // the default differs with the type the call is made through
                if (viashape) { sh->toPoses(res, poses, dir); with = false; } else { with = true; if (line) dynamic_cast<Line &>(*sh).toPoses(res, poses, dir); else dynamic_cast<Circle &>(*sh).toPoses(res, poses, dir); }
            } else if (viashape) sh->toPoses(res, poses, dir, with); else if (line) dynamic_cast<Line &>(*sh).toPoses(res, poses, dir, with); else dynamic_cast<Circle &>(*sh).toPoses(res, poses, dir, with);
        } else sh->toPoints(res, points);
        (void)zero;
        int len = pos ? poses.size() : points.size();
        Ints ks; for (int k = 1; k <= len; ++k) if (len <= 4200 || k < 4 || k > len - 4 || ((k + 2) & (k + 1)) == 0 || ((k + 1) & k) == 0 || (k & (k - 1)) == 0 || ((k - 1) & (k - 2)) == 0 || r.range(0, len) < 20) ks.push_back(k);
        j.kv("with", with).kv("len", len).kvec("k", ks).key("p").arr();
        for (auto k : ks) if (pos) { auto &p = poses[k - 1]; j.arr().v(fx(p.pos_.x() - ORG.x(), L)).v(fx(p.pos_.y() - ORG.y(), L)).v(fx(p.theta_, A)).enda(); } else put(j, points[k - 1]);
        j.enda().end();
    }
    j.enda();
}

// ---- tangent circles, arcs and paths
static void piece(J &j, const Shape &s) {
    j.obj();
    if (auto k = dynamic_cast<const Circle *>(&s)) { j.kv("k", "c"); put(j, "z", k->center()); j.kv("r", fx(k->radius(), L)).kv("d", k->direction()).kv("s", fx(k->startAngle(), A)).kv("n", fx(k->getArcAngle(), A)); } else j.kv("k", "l");
    put(j, "sp", s.startPoint()); put(j, "ep", s.endPoint()); j.end();
}
static void tangents(Ctx &c) {
    ORG = V(0, 0);
    Rng &r = c.rng; J &j = c.j; Mute mute;
    double U = r.pick(std::vector<double>{0.5, 1, 2, 4});
    j.kv("u", fx(U, L));
    auto at = [&](const Ints &p) { return V(p[0] * U, p[1] * U); };
    aligned<Circle>::vector res; std::vector<std::shared_ptr<Shape>> path;          // used again: old contents must not matter
    auto list = [&](const char *k, const aligned<Circle>::vector &v) { j.key(k).arr(); for (auto &x : v) piece(j, x); j.enda(); };
    auto show = [&]() { j.key("path").arr(); for (auto &x : path) piece(j, *x); j.enda(); };
    auto arc = [&](Circle &k, int d) { if (r.chance(60)) k.setArc(r.range(0, 23) * M_PI / 12, r.range(0, 24) * M_PI / 12, d); };
    j.key("ops").arr();
    for (int n = 0; n < 12; ++n) {
        j.obj();
        if (r.chance(60)) {
            Ints a{r.range(-8, 8), r.range(-8, 8)}, z{r.range(-8, 8), r.range(-8, 8)}, v; int h, m, R = r.range(1, 6), t = r.range(1, 6), d = r.chance(50) ? 1 : -1;
            if (r.chance(40)) { int k = r.range(0, 3); v = k == 0 ? Ints{1, 0} : k == 1 ? Ints{0, 1} : k == 2 ? Ints{-1, 0} : Ints{0, -1}; h = 1; m = r.range(1, 24); }
            else { v = r.chance(50) ? Ints{3, 4} : Ints{4, 3}; if (r.chance(50)) v[0] = -v[0]; if (r.chance(50)) v[1] = -v[1]; h = 5; m = r.range(1, 5); }
            Line l(at(a), V(at(a).x() + m * v[0] * U, at(a).y() + m * v[1] * U)); Circle k(at(z), R * U, d); arc(k, d);
            j.kvec("a", a).kvec("v", v).kv("h", h).kv("m", m).kvec("z", z).kv("r", R).kv("d", d).kv("t", t).kv("s", fx(k.startAngle(), A));
            std::shared_ptr<Shape> ls = make_aligned<Line>(l), ks = make_aligned<Circle>(k);
            switch (r.range(0, 6)) {
            case 0: Tangentor::tangentCircles(l, k, t * U, res); j.kv("o", "circles"); list("res", res); break;
            case 1: Tangentor::tangentArc(l, k, t * U, res); j.kv("o", "arcsto"); list("res", res); break;
            case 2: Tangentor::tangentArc(k, l, t * U, res); j.kv("o", "arcsfrom"); list("res", res); break;
            case 3: case 4: Tangentor::tangentArc(l, k, t * U, res); if (r.chance(50)) Tangentor::tangentPath(l, k, t * U, path); else Tangentor::tangentPath(ls, k, t * U, true, path); j.kv("o", "linepath"); list("res", res); show(); break;
            default: Tangentor::tangentArc(k, l, t * U, res); if (r.chance(50)) Tangentor::tangentPath(k, l, t * U, path); else Tangentor::tangentPath(ls, k, t * U, false, path); j.kv("o", "circlepath"); list("res", res); show(); break;
            }
        } else {
            Ints z{r.range(-6, 6), r.range(-6, 6)}, y{r.range(-6, 6), r.range(-6, 6)}; int R = r.range(1, 4), q = r.range(2, 12), t = r.range(1, 6), d = r.chance(50) ? 1 : -1, e = -d;
            if (r.chance(10)) { y[0] = z[0]; t = std::max<int>(1, (q - R - std::abs(y[1] - z[1])) / 2); }
            int what = r.range(0, 9); if (what < 4 && r.chance(25)) e = d;
            Circle s(at(z), R * U, d), g(at(y), q * U, e); arc(s, d); arc(g, e);
            j.kvec("z", z).kv("r", R).kv("d", d).kv("s", fx(s.startAngle(), A)).kv("n", fx(s.getArcAngle(), A)).kvec("y", y).kv("q", q).kv("e", e).kv("s2", fx(g.startAngle(), A)).kv("n2", fx(g.getArcAngle(), A)).kv("t", t);
            std::shared_ptr<Shape> gs = make_aligned<Circle>(g); bool fs = r.chance(50);
            if (what == 0) { Tangentor::tangentInnerCircles(s, g, t * U, res); j.kv("o", "inner"); list("res", res); }
            else {
                Tangentor::tangentInnerCircles(s, g, t * U, res); j.key("cs").arr(); for (auto &x : res) put(j, x.center()); j.enda();
                if (what < 4) { Tangentor::tangentInnerArcs(s, g, t * U, res); j.kv("o", "innerarcs"); list("res", res); }
                else {
                    if (r.chance(3)) { Tangentor::tangentPath(std::shared_ptr<Shape>(), s, t * U, fs, path); j.kv("o", "nothing"); }
                    else { if (r.chance(50)) Tangentor::tangentPath(s, g, t * U, fs, path); else Tangentor::tangentPath(gs, s, t * U, !fs, path); j.kv("o", "innerpath").kv("fs", fs); }
                    show();
                }
            }
        }
        j.end();
    }
    j.enda();
}

// ---- points and poses
static void vectors(Ctx &c) {
    using namespace lib_path;
    Rng &r = c.rng; J &j = c.j;
    auto coord = [&]() { return r.range(-400, 400); };
    auto ex = [&](const char *k, double x, double y) { j.kvec(k, Ints{fx(x, 128), fx(y, 128)}); };
    auto in = [&](const char *k, const Point2d &p) { j.kvec(k, Ints{fx(p.x, L), fx(p.y, L)}); };
    j.key("ops").arr();
    for (int n = 0; n < 20; ++n) {
        Ints p{coord(), coord()}, q{coord(), coord()}; int what = r.range(0, 9);
        if (r.chance(20)) q = p; else if (r.chance(40)) { int k = r.range(1, 4); q = Ints{p[0] + k * 3, p[1] - k * 4}; }
        if (r.chance(8)) p = Ints{0, 0}; if (r.chance(15)) p[r.range(0, 1)] = 0;
        int eps = r.chance(50) ? 5 * r.range(0, 4) : r.range(0, 900); double px = p[0] / 16.0, py = p[1] / 16.0, qx = q[0] / 16.0, qy = q[1] / 16.0;
        double ph = lattice_angle(r), qh = r.chance(25) ? ph : r.chance(50) ? ph + r.range(-3, 3) * 2 * M_PI + r.range(-40, 40) / 100.0 : lattice_angle(r), t = r.chance(20) ? 0 : r.range(1, 330) / 100.0;
        if (r.chance(10)) qh = ph + r.range(-20, 20) * 1e-4;
        double sx = 0, sy = 0; if (r.chance(25)) { int far = r.pick(std::vector<int>{100, 5000, 1000000, 100000000}); sx = r.range(-far * 16, far * 16) / 16.0; sy = r.range(-far * 16, far * 16) / 16.0; }      // distances do not depend on the place
        int f = r.range(-40, 40), e = r.pick(std::vector<int>{1, 2, 4, 8, -2, -4, -8}); double d = e > 0 ? 1.0 / e : -e;
        j.obj().kvec("p", p).kvec("q", q).kv("e", e).kv("f", f);
        if (what < 4) {
            Point2d P(px, py), Q(qx, qy), R(P), S; double a = lattice_angle(r), s = r.range(-200, 200) / 8.0;
            j.kv("o", "point").kv("s", fx(s, L)).kv("a", fx(a, A));
            ex("sum", (P + Q).x, (P + Q).y); ex("diff", (P - Q).x, (P - Q).y); ex("neg", (-P).x, (-P).y); ex("ortho", P.ortho().x, P.ortho().y);
            S = P * (f / 8.0); ex("mul", S.x, S.y); S = (R *= f / 8.0); ex("muleq", S.x, S.y); ex("mulself", R.x, R.y); S = P / d; ex("div", S.x, S.y);
            S = Point2d(Pose2d(px, py, a)); ex("pose", S.x, S.y);
            j.kv("eq", P == Q).kv("ne", P != Q).kv("len", fx(P.length(), L)).kv("org", fx(P.distance_to_origin(), L)).kv("ang", fx(P.angle(), A));
            if (p[0] || p[1]) { in("unit", P.normalize()); in("sized", P.resize(s)); }
            in("rot", P.rotate(a)); in("polar", Point2d::from_polar(a, s));
        } else if (what < 7) {
            Pose2d P(px, py, ph), Q(qx, qy, qh), S, A1(px + sx, py + sy, ph), B1(qx + sx, qy + sy, qh);
            j.kv("o", "pose").kvec("new", Ints{fx(S.x, 128), fx(S.y, 128), fx(S.theta, A)});
            ex("sum", (P + Q).x, (P + Q).y); ex("diff", (P - Q).x, (P - Q).y); S = P * (float)(f / 8.0); ex("mul", S.x, S.y); S = (float)(f / 8.0) * P; ex("mul2", S.x, S.y); S = P / (float)d; ex("div", S.x, S.y);
            j.kv("dot", fx(dot(P, Q), 256)).kv("dist", fx(A1.distance_to(B1), L)).kv("tsid", fx(B1.distance_to(A1), L)).kv("org", fx(P.distance_to_origin(), L));
            j.kv("ph", fx(ph, A)).kv("qh", fx(qh, A)).kv("eps", eps).kv("t", fx(t, A)).kv("same", A1.isEqual(B1, eps / 16.0, t)).kv("emas", B1.isEqual(A1, eps / 16.0, t));
        } else if (what < 9) {
            PathPose P(px + sx, py + sy, ph), Q(qx + sx, qy + sy, qh), S, T; T.assign(V(px, py), ph);
            j.kv("o", "path").kvec("new", Ints{fx(S.pos_.x(), 128), fx(S.pos_.y(), 128), fx(S.theta_, A), fx(S.weight_, A)}); ex("set", T.pos_.x(), T.pos_.y()); j.kv("seth", fx(T.theta_, A));
            j.kv("ph", fx(ph, A)).kv("qh", fx(qh, A)).kv("eps", eps).kv("t", fx(t, A)).kv("same", P.isIdentical(Q, eps / 16.0, t)).kv("emas", Q.isIdentical(P, eps / 16.0, t)).kv("near", P.isIdentical(V(qx + sx, qy + sy), eps / 16.0));
            j.kv("dflt", P.isIdentical(Q));
        } else {
            Path a, b; auto show = [&](const char *k, const Path &x) { j.key(k).arr(); for (auto &y : x) j.vec(Ints{fx(y.x, 16), fx(y.y, 16), fx(y.theta, A)}); j.enda(); };
            for (int k = r.range(0, 4); k > 0; --k) a.push_back(Pose2d(coord() / 16.0, coord() / 16.0, lattice_angle(r)));
            for (int k = r.range(0, 4); k > 0; --k) b.push_back(Pose2d(coord() / 16.0, coord() / 16.0, lattice_angle(r)));
            j.kv("o", "append"); show("a", a); show("b", b); a += b; show("res", a); show("rest", b);
        }
        j.end();
    }
    j.enda();
}

int main(int argc, char **argv) {
    return run_main(argc, argv, {{"arcs", 6000, 60000, arcs}, {"arcspec", -1, -1, arcs}, {"shapes", 5000, 80000, shapes}, {"cut", 3000, 40000, cut}, {"tangents", 3000, 40000, tangents}, {"vectors", 3000, 40000, vectors}});
}
