// Grid maps: contents and classification, world/cell conversion, areas, line rasterisation.
#include "common.hpp"
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <cslibs_path_planning/common/Bresenham2d.h>
#include <cslibs_path_planning/common/MapMath.h>
#include <cslibs_path_planning/common/Pose2d.h>
using namespace vf;
using namespace lib_path;

static const int PYTH[][3] = {{1, 0, 1}, {3, 4, 5}, {4, -3, 5}, {-3, 4, 5}, {-4, -3, 5}, {0, 1, 1}, {-1, 0, 1}, {0, -1, 1}, {5, 12, 13}, {12, -5, 13}, {-12, -5, 13}};

struct World { // a map with a frame
    std::unique_ptr<SimpleGridMap2d> m; RotatedGridMap2d *rot = nullptr;
    int C = 1, S = 0, H = 1; double res; Point2d origin;
    World(int w, int h, double r, bool rotated, int p, double ox, double oy) : res(r), origin(ox, oy) {
        if (rotated) { C = PYTH[p][0]; S = PYTH[p][1]; H = PYTH[p][2]; rot = new RotatedGridMap2d(w, h, std::atan2(S, C), r); m.reset(rot); }
        else m.reset(new SimpleGridMap2d(w, h, r));
        m->setOrigin(origin);
    }
    // the world point at cell coordinates (cx, cy), also outside
    Point2d at(double cx, double cy) const {
        double nx = cx * res, ny = cy * res;
        return Point2d(origin.x + (C * nx - S * ny) / H, origin.y + (S * nx + C * ny) / H);
    }
};
static World world(Rng &r, int lo, int hi) {
    static const double RS[] = {1.0, 0.5, 0.25, 2.0};
    return World(r.range(lo, hi), r.range(lo, hi), RS[r.range(0, 3)], r.chance(40), r.range(0, 10), r.range(-8, 8) / 4.0, r.range(-8, 8) / 4.0);
}
struct Area { // circle: kind 0 (cx, cy, r16, 0); buffer: kind 2; line: kind 1 (sx, sy, ex, ey), all cell coordinates
    int kind; std::vector<int> p; std::unique_ptr<MapArea2d> a;
    Area(const World &w, int k, std::vector<int> q) : kind(k), p(q) {
        if (k == 1) a.reset(new LineArea(w.at(q[0] + .5, q[1] + .5), w.at(q[2] + .25, q[3] + .5), w.m.get()));
        else if (k == 0) a.reset(new CircleArea(w.at(q[0] + .5, q[1] + .5), q[2] / 16.0 * w.res, w.m.get()));
        else a.reset(new CircleBuffer(w.at(q[0] + .5, q[1] + .75), q[2] / 16.0 * w.res, w.m.get()));
    }
};
static void jarea(J &j, int kind, const std::vector<int> &p) { j.arr().v(kind); for (int x : p) j.v(x); j.enda(); }
static void list(J &j, MapArea2d &a) {
    j.arr(); a.begin(); int x, y; while (a.next()) { a.getCell(x, y); j.arr().v(x).v(y).enda(); } j.enda();
}
static bool far_map = false; static int far_v0, far_dv; // a map of many cells: which differ from a pattern, and what some of them are
static std::vector<std::pair<int, int>> far_look;
static int bits_of(World &w, unsigned x, unsigned y) {
    SimpleGridMap2d &m = *w.m; Point2d p = w.at(x + .5, y + .5); double th = (x * 7 + y) * 0.5 - 3; const GridMap2d &g = m;
    return (g.isFree(x, y) ? 1 : 0) | (g.isOccupied(x, y) ? 2 : 0) | (g.isNoInformation(x, y) ? 4 : 0)
                 | (g.isFree(x, y, th) ? 8 : 0) | (g.isOccupied(x, y, th) ? 16 : 0) | (g.isNoInformation(x, y, th) ? 32 : 0)
                 | (g.isFree(p) ? 64 : 0) | (g.isOccupied(p) ? 128 : 0) | (g.isNoInformation(p) ? 256 : 0);
}
static void observe(J &j, World &w) {
    SimpleGridMap2d &m = *w.m;
    if (far_map) {
        int W = m.getWidth(); const uint8_t *d = m.getData(); int n = 0, all = W * (int)m.getHeight();
        j.arr().v("d").v(W).v((int)m.getHeight()).arr();
        for (int i = 0; i < all && n < 4000; ++i) if (d[i] != (far_v0 + i * far_dv) % 251) { j.arr().v(i).v((int)d[i]).enda(); ++n; }
        j.enda().arr();
        for (auto &p : far_look) j.arr().v(p.first).v(p.second).v((int)m.getValue(p.first, p.second)).v(bits_of(w, p.first, p.second)).enda();
        j.enda().enda(); return;
    }
    j.arr().v("o").v(m.getWidth()).v(m.getHeight()).arr();
    for (unsigned y = 0; y < m.getHeight(); ++y) for (unsigned x = 0; x < m.getWidth(); ++x) {
        int bits = bits_of(w, x, y);
        j.arr().v((int)m.getValue(x, y)).v(bits).enda();
    }
    j.enda().enda();
}
// a history of operations on one map; tokens as recorded
static void apply(J &j, World &w, std::unique_ptr<Area> &buf, const std::string &op, const std::vector<int> &a, Rng &r) {
    SimpleGridMap2d &m = *w.m;
    auto rec = [&] { j.arr().v(op); for (int x : a) j.v(x); j.enda(); };
    if (op == "all") { rec(); m.set((uint8_t)a[0]); }
    else if (op == "set") { rec(); m.setValue(a[0], a[1], (uint8_t)a[2]); }
    else if (op == "data") { // w h v0 dv
        std::vector<uint8_t> d(a[0] * a[1]); for (size_t i = 0; i < d.size(); ++i) d[i] = far_map ? (a[2] + i * a[3]) % 251 : (uint8_t)(a[2] + i * a[3]);
        rec();
        if (w.rot) w.rot->set(d, a[0], a[1], std::atan2(w.S, w.C)); else m.set(d, a[0], a[1]);
    }
    else if (op == "lo") { rec(); m.setLowerThreshold((uint8_t)a[0]); }
    else if (op == "up") { rec(); m.setUpperThreshold((uint8_t)a[0]); }
    else if (op == "ni") { rec(); m.setNoInformationValue(a[0]); }
    else if (op == "raw") { rec(); m.getData()[a[0]] = (uint8_t)a[1]; }
    else if (op == "area") { // kind p0 p1 p2 p3 v: write over an area
        Area x(w, a[0], {a[1], a[2], a[3], a[4]}); rec(); m.setAreaValue(*x.a, (uint8_t)a[5]);
    }
    else if (op == "own") { Area x(w, a[0], {a[1], a[2], a[3], a[4]}); rec(); m.setAreaValue(*x.a); } // the area's own value, zero
    else if (op == "test") {
        Area x(w, a[0], {a[1], a[2], a[3], a[4]});
        j.arr().v(op); for (int q : a) j.v(q);
        // in any order: the tests must not depend on what was iterated before
        int ord = r.range(0, 2); bool f = false, n = false, o = false;
        for (int k = 0; k < 3; ++k) switch ((ord + k) % 3) { case 0: f = m.isAreaFree(*x.a); break; case 1: n = m.isAreaNoInformation(*x.a); break; default: o = m.isAreaOccupied(*x.a); }
        j.v(f).v(n).v(o).enda();
    }
    else if (op == "list") { Area x(w, a[0], {a[1], a[2], a[3], a[4]}); j.arr().v(op); for (int q : a) j.v(q); list(j, *x.a);
        if (r.chance(50)) { x.a->begin(); for (int k = r.range(0, 4); k > 0; --k) x.a->next(); }
        list(j, *x.a); j.enda(); }
    else if (op == "move") { // circle moved to another centre: kind cx cy r16 0 nx ny
        Area x(w, a[0], {a[1], a[2], a[3], a[4]}); static_cast<CircleArea *>(x.a.get())->setCenter(w.at(a[5] + .5, a[6] + .5), &m);
        j.arr().v(op); for (int q : a) j.v(q); list(j, *x.a); j.enda();
    }
    else if (op == "save") { rec(); buf.reset(new Area(w, 2, {a[0], a[1], a[2], 0})); m.getAreaValues(*buf->a); }
    else if (op == "restore") { if (!buf) return; rec(); m.setAreaValue(*buf->a); }
    if (op != "test" && op != "list" && op != "move" && op != "save") observe(j, w);
}
static std::vector<int> rarea(Rng &r, const World &w, bool line, int rmax) {
    int W = w.m->getWidth(), H = w.m->getHeight();
    auto cx = [&] { return r.chance(90) ? r.range(0, W - 1) : r.range(-2, W + 1); };
    auto cy = [&] { return r.chance(90) ? r.range(0, H - 1) : r.range(-2, H + 1); };
    if (line) return {1, cx(), cy(), cx(), cy()};
    return {r.chance(50) ? 0 : 2, cx(), cy(), r.chance(10) ? -r.range(0, 5) : r.chance(30) ? r.range(1, 20) : r.range(1, rmax), 0};
}
static void begin_case(Ctx &c, World &w) {
    c.j.kv("w", (int)w.m->getWidth()).kv("h", (int)w.m->getHeight());
    c.j.key("ops").arr();
    w.m->setLowerThreshold(50); w.m->setUpperThreshold(200);
}
static void cells(Ctx &c) {
    Rng &r = c.rng;
    World w = world(r, 1, 5);
    begin_case(c, w);
    std::unique_ptr<Area> buf;
    apply(c.j, w, buf, "all", {r.range(0, 255)}, r);
    int lo = 50, up = 200, ni = -1;
    auto val = [&] { switch (r.range(0, 6)) { case 0: return lo; case 1: return up; case 2: return std::min(255, lo + 1); case 3: return std::max(0, up - 1); case 4: return ni >= 0 ? ni : 255; default: return r.range(0, 255); } };
    for (int k = r.range(3, c.thorough ? 20 : 10); k > 0; --k) {
        int W = w.m->getWidth(), H = w.m->getHeight();
        switch (r.range(0, 9)) {
        case 0: apply(c.j, w, buf, "all", {val()}, r); break;
        case 1: case 2: apply(c.j, w, buf, "set", {r.range(0, W - 1), r.range(0, H - 1), val()}, r); break;
        case 3: { int nw = r.chance(30) ? W : r.range(1, 5), nh = r.chance(30) ? H : r.range(1, 5); apply(c.j, w, buf, "data", {nw, nh, r.range(0, 255), r.range(0, 40)}, r); break; }
        case 4: { int x = r.range(0, up - 1); lo = x; apply(c.j, w, buf, "lo", {lo}, r); break; }
        case 5: { int x = r.range(lo + 1, 255); up = x; apply(c.j, w, buf, "up", {up}, r); break; }
        case 6: ni = r.chance(30) ? -1 : r.range(0, 255); apply(c.j, w, buf, "ni", {ni}, r); break;
        case 7: apply(c.j, w, buf, "raw", {r.range(0, W * H - 1), val()}, r); break;
        case 8: { auto a = rarea(r, w, r.chance(50), 60); a.push_back(val()); apply(c.j, w, buf, "area", a, r); break; }
        case 9: apply(c.j, w, buf, "test", rarea(r, w, r.chance(50), 40), r); break;
        }
    }
    c.j.enda();
}
static void areas(Ctx &c) {
    Rng &r = c.rng;
    World w = world(r, 1, c.thorough ? 14 : 9);
    begin_case(c, w);
    std::unique_ptr<Area> buf;
    int W = w.m->getWidth(), H = w.m->getHeight();
    apply(c.j, w, buf, "data", {W, H, r.range(0, 255), r.range(0, 60)}, r);
    if (r.chance(30)) apply(c.j, w, buf, "all", {r.chance(50) ? 10 : r.chance(50) ? 220 : 100}, r);
    int rmax = 16 * (r.chance(20) ? 20 : 5);
    for (int k = r.range(3, 8); k > 0; --k) {
        bool line = r.chance(40);
        auto a = rarea(r, w, line, rmax);
        switch (r.range(0, 7)) {
        case 0: apply(c.j, w, buf, "list", a, r); break;
        case 1: apply(c.j, w, buf, "test", a, r); break;
        case 2: { a.push_back(r.pick(std::vector<int>{0, 100, 250, 50, 200})); apply(c.j, w, buf, "area", a, r); break; }
        case 3: apply(c.j, w, buf, "own", a, r); break;
        case 4: { auto b = rarea(r, w, false, rmax); apply(c.j, w, buf, "save", {b[1], b[2], b[3]}, r); break; }
        case 5: apply(c.j, w, buf, "restore", {}, r); break;
        case 6: if (!line) { a.push_back(r.range(-1, W)); a.push_back(r.range(-1, H)); apply(c.j, w, buf, "move", a, r); } break;
        case 7: apply(c.j, w, buf, "set", {r.range(0, W - 1), r.range(0, H - 1), r.range(0, 255)}, r); break;
        }
    }
    c.j.enda();
}
static void map_spec(Ctx &c) { // script: w h op n args ...
    std::istringstream in(c.script);
    int W, H; in >> W >> H;
    static const double RS[] = {1.0, 0.5};
    World w(W, H, RS[c.i % 2], c.i % 3 == 0, c.i % 11, c.i % 5 / 4.0, -(c.i % 7) / 2.0);
    begin_case(c, w);
    std::unique_ptr<Area> buf; std::string op; int n;
    apply(c.j, w, buf, "all", {10}, c.rng);
    while (in >> op >> n) { std::vector<int> a(n); for (int &x : a) in >> x; apply(c.j, w, buf, op, a, c.rng); }
    c.j.enda();
}
// maps of many cells
static void far_cells(Ctx &c) {
    Rng &r = c.rng; J &j = c.j;
    static const int SIZES[][2] = {{300, 260}, {256, 270}, {70000, 1}, {1, 70000}, {32768, 3}, {8192, 9}, {33, 2100}, {260, 300}, {400, 500}};
    static const double RS[] = {1.0, 0.5, 0.25, 2.0};
    int z = r.range(0, 8), W = SIZES[z][0], H = SIZES[z][1];
    World w(W, H, RS[r.range(0, 3)], r.chance(40), r.range(0, 10), r.range(-8, 8) / 4.0, r.range(-8, 8) / 4.0);
    far_map = true;
    begin_case(c, w);
    // everything happens around a few cells, whose numbers differ by powers of two or that lie at the ends
    int b = r.range(0, W * H - 1); std::vector<std::pair<int, int>> at;
    for (int d : {0, 65536, -65536, 32768, -32768, 256, -256, W, -W, 1, 128}) if (b + d >= 0 && b + d < W * H) at.push_back({(b + d) % W, (b + d) / W});
    at.push_back({W - 1, H - 1}); at.push_back({0, H - 1}); at.push_back({r.range(0, W - 1), r.range(0, H - 1)});
    far_look = at;
    std::unique_ptr<Area> buf;
    auto data = [&] { far_v0 = r.range(0, 250); far_dv = r.range(1, 250); apply(j, w, buf, "data", {W, H, far_v0, far_dv}, r); };
    data();
    bool saved = false;
    for (int k = r.range(5, c.thorough ? 16 : 9); k > 0; --k) {
        auto p = r.pick(at); int v = r.range(0, 255);
        int qx = std::max(0, std::min(W - 1, p.first + r.range(-60, 60))), qy = std::max(0, std::min(H - 1, p.second + r.range(-60, 60)));
        std::vector<int> a = r.chance(40) ? std::vector<int>{1, p.first, p.second, qx, qy} : std::vector<int>{r.chance(50) ? 0 : 2, p.first, p.second, r.range(1, 16 * 7), 0};
        switch (r.range(0, 11)) {
        case 0: case 1: case 2: apply(j, w, buf, "set", {p.first, p.second, v}, r); break;
        case 3: apply(j, w, buf, "raw", {p.second * W + p.first, v}, r); break;
        case 4: apply(j, w, buf, "lo", {r.range(20, 90)}, r); break;
        case 5: apply(j, w, buf, "ni", {r.chance(30) ? -1 : r.range(0, 255)}, r); break;
        case 6: a.push_back(v); apply(j, w, buf, "area", a, r); break;
        case 7: apply(j, w, buf, "test", a, r); break;
        case 8: apply(j, w, buf, "list", a, r); break;
        case 9: apply(j, w, buf, "save", {p.first, p.second, r.range(1, 60)}, r); saved = true; break;
        case 10: if (saved) apply(j, w, buf, "restore", {}, r); break;
        case 11: if (r.chance(30)) { // another size
                     z = r.range(0, 8); int nw = SIZES[z][0], nh = SIZES[z][1]; W = nw; H = nh;
                     for (auto &q : at) { q.first = std::min(q.first, W - 1); q.second = std::min(q.second, H - 1); }
                     far_look = at; data(); buf.reset(); saved = false;
                 } break;
        }
    }
    far_map = false;
    j.enda();
}
// ------------------------------------------------------------- P13
// lattice: world coordinates are integers P / L, resolution R / L, origin O / L
static void convert(Ctx &c) {
    Rng &r = c.rng;
    static const struct { int R, L; } RES[] = {{16, 16}, {8, 16}, {4, 16}, {32, 16}, {5, 100}, {10, 100}, {7, 100}, {25, 100}, {3, 10}, {1, 20}, {1, 100}};
    auto q = RES[r.range(0, 10)];
    bool exact = q.L == 16;
    int w = r.range(1, 12), h = r.range(1, 12), p = r.range(0, 10);
    if (c.i % 20 == 11) { w = r.pick(std::vector<int>{3, 255, 256, 257, 300, 600, 40000}); h = r.pick(std::vector<int>{2, 127, 128, 256, 270, 500}); }
    bool rotated = r.chance(50), movable = r.chance(30);
    int f = exact ? 1 : 4;                     // extra factor of the lattice for points
    int L = q.L * f, R = q.R * f;
    int O[2] = {r.range(-40, 40) * f, r.range(-40, 40) * f};
    if (r.chance(30)) O[0] = O[1] = 0;
    // the whole frame may lie far away; recorded points are relative to S
    double SX = 0, SY = 0; if (r.chance(25)) { int far = r.pick(std::vector<int>{100, 5000, 100000}); SX = r.range(-far * 16, far * 16) / 16.0; SY = r.range(-far * 16, far * 16) / 16.0; }
    World m(w, h, r.chance(20) ? 0.3 : (double)q.R / q.L, rotated, p, O[0] / (double)L + SX, O[1] / (double)L + SY);
    m.m->setResolution(m.res = (double)q.R / q.L);     // given at first or afterwards
    const GridMap2d &g = *m.m;
    if (movable) { // the frame is changed afterwards
        O[0] = r.range(-40, 40) * f; O[1] = r.range(-40, 40) * f; m.origin = Point2d(O[0] / (double)L + SX, O[1] / (double)L + SY);
        if (rotated && r.chance(50)) { p = r.range(0, 10); m.C = PYTH[p][0]; m.S = PYTH[p][1]; m.H = PYTH[p][2]; w = r.range(1, 12); h = r.range(1, 12);
            m.rot->set(std::vector<uint8_t>(w * h, 0), w, h, std::atan2(m.S, m.C)); }
        else if (r.chance(50)) { w = r.range(1, 12); h = r.range(1, 12); if (rotated) m.rot->set(std::vector<uint8_t>(w * h, 0), w, h, std::atan2(m.S, m.C)); else m.m->set(std::vector<uint8_t>(w * h, 0), w, h); }
        m.m->setOrigin(m.origin);
    }
    c.j.kv("w", w).kv("h", h).kv("R", R).kv("L", L).kv("C", m.C).kv("S", m.S).kv("H", m.H).kvec("O", std::vector<int>{O[0], O[1]});
    c.j.kv("exact", exact && (!rotated || m.H == 1) && !rotated).kv("rotated", rotated);
    c.j.key("ops").arr();
    for (int k = 0; k < 30; ++k) {
        // a lattice point near the map (in the rotated frame), its border, or far away
        double cx = r.chance(70) ? r.range(-8, 8 * (w + 1)) / 8.0 : r.pick(std::vector<double>{-0.01, -1e-2, 0, (double)w, w - 0.02, -1, w + 1.0});
        double cy = r.chance(70) ? r.range(-8, 8 * (h + 1)) / 8.0 : r.pick(std::vector<double>{-0.01, 0, (double)h, h - 0.02, -1, h + 1.0});
        Point2d t = m.at(cx, cy);
        int P[2] = {(int)std::lround((t.x - SX) * L) + r.range(-1, 1), (int)std::lround((t.y - SY) * L) + r.range(-1, 1)};
        if (r.chance(5)) { P[0] = r.range(-3000, 3000); P[1] = r.range(-3000, 3000); }
        double px = P[0] / (double)L + SX, py = P[1] / (double)L + SY;
        unsigned x = 12345, y = 12345; bool ok = g.point2cell(px, py, x, y);
        unsigned x2 = 12345, y2 = 12345; bool ok2 = g.point2cell(Point2d(px, py), x2, y2);
        unsigned x3, y3; bool ok3 = g.pose2cell(Pose2d(px, py, 1), x3, y3);
        double sx, sy; bool oks = m.m->point2cellSubPixel(px, py, sx, sy);
        bool in = g.isInMap(px, py), in2 = g.isInMap(Point2d(px, py));
        bool same = ok == ok2 && ok == ok3 && in == in2 && (!ok || (x == x2 && y == y2 && x == x3 && y == y3));
        c.j.arr().v("p").v(P[0]).v(P[1]).v(ok).v((int)x).v((int)y).v(in).v(oks).v((long long)std::floor(sx)).v((long long)std::floor(sy)).v(fx(sx, 64)).v(fx(sy, 64)).v(same).enda();
    }
    for (int k = 0; k < 12; ++k) {
        int x = r.range(0, w - 1), y = r.range(0, h - 1);
        double px, py; g.cell2point(x, y, px, py); Point2d q2; g.cell2point(x, y, q2);
        unsigned bx, by; bool ok = g.point2cell(px, py, bx, by);
        double ux, uy; g.cell2pointSubPixel(x + 0.5, y + 0.5, ux, uy);
        int s8 = r.range(0, 8 * w), t8 = r.range(0, 8 * h); double vx, vy; m.m->cell2pointSubPixel(s8 / 8.0, t8 / 8.0, vx, vy);
        double back_x, back_y; m.m->point2cellSubPixel(vx, vy, back_x, back_y);
        bool near = std::fabs(ux - px) < 1e-9 && std::fabs(uy - py) < 1e-9 && q2.x == px && q2.y == py && std::fabs(back_x - s8 / 8.0) < 1e-6 && std::fabs(back_y - t8 / 8.0) < 1e-6;
        float fx1, fy1; if (rotated) m.rot->cell2point(x, y, fx1, fy1); else m.m->cell2point(x, y, fx1, fy1);        // single precision variant
        double tol = 1e-6 * (1 + std::fabs(px) + std::fabs(py) + std::fabs(SX) + std::fabs(SY)); near = near && std::fabs(fx1 - px) < tol && std::fabs(fy1 - py) < tol;
        c.j.arr().v("c").v(x).v(y).v(fx(px - SX, 2.0 * L * m.H)).v(fx(py - SY, 2.0 * L * m.H)).v(ok).v((int)bx).v((int)by).v(near).enda();
    }
    for (int k = 0; k < 6; ++k) { // whole numbers in and out of the map
        int x = r.range(-3, w + 3), y = r.range(-3, h + 3); if (r.chance(10)) { x = r.chance(50) ? 2147483647 : -2147483647; }
        c.j.arr().v("i").v(x).v(y).v(g.isInMap(x, y)).enda();
    }
    if (!rotated) for (int k = 0; k < 6; ++k) { // the free functions for unrotated maps
        int P[2] = {r.range(-200, 200), r.range(-200, 200)};
        Pose2d a = pos2map(Pose2d(P[0] / (double)L + SX, P[1] / (double)L + SY, 0.5), g), b = map2pos(a, g);
        c.j.arr().v("f").v(P[0]).v(P[1]).v(fx(a.x, 64)).v(fx(a.y, 64)).v(fx(b.x - SX, L)).v(fx(b.y - SY, L)).v(a.theta == 0.5 && b.theta == 0.5).enda();
    }
    c.j.enda();
}
// ------------------------------------------------------------- P15
static void one_line(J &j, const World &w, Bresenham2d &b, int sx, int sy, int ex, int ey, bool points) {
    if (points) b.set(w.m.get(), w.at(sx + .5, sy + .25), w.at(ex + .75, ey + .5)); else b.setGrid(w.m.get(), sx, sy, ex, ey);
    j.arr().v(sx).v(sy).v(ex).v(ey).arr();
    int n = 0; bool ok = true;
    while (b.next() && ++n < 5000) {
        unsigned x, y; b.coordinates(x, y); j.arr().v((int)x).v((int)y).enda();
        ok = ok && b.value() == w.m->getValue(x, y) && b.isFree() == w.m->isFree(x, y) && b.isOccupied() == w.m->isOccupied(x, y) && b.isNoInformation() == w.m->isNoInformation(x, y);
        Point2d p, q; b.point(p); w.m->cell2point(x, y, q.x, q.y); ok = ok && p == q;
    }
    j.enda().v(ok && !b.next()).enda();
}
static void lines_all(Ctx &c) { // every line from one cell of a 9x9 (thorough 13x13) map
    int n = c.thorough ? 13 : 9;
    World w(n, n, 0.5, c.i % 2, c.i % 11, 0.25, -1.5);
    for (int i = 0; i < n * n; ++i) w.m->getData()[i] = (uint8_t)(i * 37);
    c.j.kv("w", n).kv("h", n).key("ls").arr();
    Bresenham2d b;
    for (int k = 0; k < n * n; ++k) one_line(c.j, w, b, c.i % n, c.i / n % n, k % n, k / n, (k + c.i) % 2);
    c.j.enda();
}
static void lines_rnd(Ctx &c) {
    Rng &r = c.rng;
    World w = world(r, 1, r.chance(30) ? 150 : 25);
    if (c.i % 50 == 3) { // long lines
        static const int Z[][2] = {{3000, 3}, {2, 3000}, {700, 500}, {1, 2600}, {66000, 1}, {3, 66000}};
        int z = r.range(0, 5); w.m->set(std::vector<uint8_t>(Z[z][0] * Z[z][1]), Z[z][0], Z[z][1]);
    }
    int W = w.m->getWidth(), H = w.m->getHeight();
    for (int i = 0; i < W * H; ++i) w.m->getData()[i] = (uint8_t)r.range(0, 255);
    c.j.kv("w", W).kv("h", H).key("ls").arr();
    Bresenham2d b;
    auto cx = [&] { return r.chance(93) ? r.range(0, W - 1) : r.chance(50) ? W + r.range(0, 3) : -r.range(1, 4); };
    auto cy = [&] { return r.chance(93) ? r.range(0, H - 1) : r.chance(50) ? H + r.range(0, 3) : -r.range(1, 4); };
    for (int k = 0; k < 10; ++k) {
        int a = cx(), e = cy(), f = cx(), g = cy();
        if (std::abs(a - f) > 3200) f = a + r.range(-3000, 3000);
        if (std::abs(e - g) > 3200) g = e + r.range(-3000, 3000);
        one_line(c.j, w, b, a, e, f, g, r.chance(50));
        if (W + H > 2000 && k == 2) break;
    }
    c.j.enda();
}
int main(int argc, char **argv) {
    return run_main(argc, argv, {{"cells", 3000, 60000, cells}, {"areas", 3000, 60000, areas}, {"mapspec", -1, -1, map_spec}, {"far", 300, 5000, far_cells},
                                 {"convert", 1500, 40000, convert}, {"linesall", 81, 169, lines_all}, {"linesrnd", 800, 20000, lines_rnd}});
}
