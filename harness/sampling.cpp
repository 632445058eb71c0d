// Goal regions and the sampling planner.
#include "common.hpp"
#include <cslibs_navigation_utilities/MathHelper.h>
#include <memory>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/sampling/RingGoalRegion.h>
#include <cslibs_path_planning/sampling/CentroidRadiusGoalRegion.h>
#include <cslibs_path_planning/sampling/SamplingPlanner.h>
using namespace vf;
using namespace lib_path;
static const double L = 1e5, A = 1e7; // units of length and angle

// ------------------------------------------------------------- P23
static void regions(Ctx &c) {
    Rng &r = c.rng; Mute mute;
    bool ring = r.chance(50);
    auto co = [&]() { return r.range(-800, 800) / 16.0; };
    std::unique_ptr<GoalRegion> g;
    if (ring) {
        double cx = co(), cy = co(), rad = r.chance(5) ? 0 : r.range(1, 320) / 16.0 * (r.chance(50) ? 1 : -1), wd = r.chance(60) || rad == 0 ? 0 : r.range(1, (int)(std::fabs(rad) * 16)) / 16.0;
        g.reset(new RingGoalRegion(Point2d(cx, cy), rad, wd));
        c.j.kv("kind", "ring").kv("cx", fx(cx, L)).kv("cy", fx(cy, L)).kv("r", fx(rad, L)).kv("w", fx(wd, L)).kv("sx", 0).kv("sy", 0).kv("a", 0);
    } else {
        double cx = co(), cy = co(), sx = r.chance(20) ? cx : co(), sy = r.chance(20) ? cy : co(), rad = r.range(-32, 320) / 16.0;
        double an = r.chance(10) ? 0 : r.range(-628, 628) / 100.0;
        g.reset(new CentroidRadiusGoalRegion(Point2d(sx, sy), Point2d(cx, cy), rad, an));
        c.j.kv("kind", "cent").kv("cx", fx(cx, L)).kv("cy", fx(cy, L)).kv("r", fx(rad, L)).kv("w", 0).kv("sx", fx(sx, L)).kv("sy", fx(sy, L)).kv("a", fx(an, A));
    }
    c.j.key("ops").arr();
    for (int p = r.range(1, 4); p > 0; --p) {
        int n = r.chance(30) ? 1 : r.chance(50) ? r.range(2, 6) : r.chance(4) ? r.range(100, 1200) : r.range(2, 40);
        if (ring && r.chance(5)) n = 0;
        g->init(n); c.j.arr().v("i").v(n).v(0).v(0).v(0).v(0).enda();
        for (int q = r.chance(25) ? r.range(0, n) : n + r.range(1, 3); q > 0; --q) {
            Pose2d o(77, 77, 77); double gain = 7.25;
            if (r.chance(10)) gain = 1.5;
            double before = gain;
            bool ok = g->getNextGoal(o, gain);
            c.j.arr().v(ok ? "s" : "e").v(ok ? fx(o.x, L) : 0).v(ok ? fx(o.y, L) : 0).v(ok ? fx(std::remainder(o.theta, 2 * M_PI), A) : 0).v(fx(gain, 1e6)).v(fx(before, 1e6)).enda();
        }
    }
    c.j.enda();
}
// ------------------------------------------------------------- P24
struct Script : GoalRegion {
    std::vector<Pose2d> poses; std::vector<double> gains; bool use_gain = true; GoalRegion *real = nullptr;
    unsigned at = 0; std::vector<int> inits; std::vector<Pose2d> seen; std::vector<double> seen_gain;
    void init(unsigned n) override { inits.push_back((int)n); at = 0; seen.clear(); seen_gain.clear(); if (real) real->init(n); }
    bool getNextGoal(Pose2d &g, double &gain) override {
        if (real) { if (!real->getNextGoal(g, gain)) return false; }
        else { if (at >= poses.size()) return false; g = poses[at]; if (use_gain) gain = gains[at]; ++at; }
        seen.push_back(g); seen_gain.push_back(gain); return true;
    }
};
static const char *WORDS[] = {"LSL", "RSR", "LSR", "RSL", "LRL", "RLR", "|LSL", "|RSR", "|LSR", "L|RL", "R|L|R", "LR|L", "LRLR", "RL|RL", "L|S|R", "R|S|R"};
struct Setup { std::vector<std::string> words; double rad, dist, cf, cb, cc, cs, arc; };
static void prepare(CurveGenerator &g, const Setup &s) {
    std::ostringstream sink;
    for (auto &w : s.words) g.parse(w, sink);
    g.set_circle_radius(s.rad); g.set_max_waypoint_distance(s.dist); g.set_cost_forwards(s.cf); g.set_cost_backwards(s.cb);
    g.set_cost_curve(s.cc); g.set_cost_straight(s.cs); g.set_max_curve_arc(s.arc);
}
static void planner(Ctx &c) {
    Rng &r = c.rng; Mute mute;
    static const int NS[] = {1, 2, 4, 8};
    int n = NS[r.range(0, 3)], w = r.range(8, 60), h = r.range(8, 60), ox = r.range(-80, 80), oy = r.range(-80, 80);
    double res = 1.0 / n;
    SimpleGridMap2d m(w, h, res); m.setOrigin(Point2d(ox * res, oy * res));
    for (int k = 0; k < w * h; ++k) m.getData()[k] = 0;
    for (int k = r.range(0, 4); k > 0; --k) { // some walls
        int x0 = r.range(0, w - 1), y0 = r.range(0, h - 1), a = r.range(1, 8), b = r.range(1, 8), v = r.chance(70) ? 255 : 128;
        for (int y = y0; y < std::min(h, y0 + b); ++y) for (int x = x0; x < std::min(w, x0 + a); ++x) m.getData()[y * w + x] = v;
    }
    Setup s;
    for (int k = r.range(1, 6); k > 0; --k) s.words.push_back(WORDS[r.range(0, 15)]);
    s.rad = r.range(8, 80) / 8.0 * res; s.dist = r.range(2, 20) / 4.0 * res;
    s.cf = r.range(1, 8) / 4.0; s.cb = r.range(1, 12) / 4.0; s.cc = r.range(1, 8) / 4.0; s.cs = r.range(1, 8) / 4.0; s.arc = r.chance(80) ? 1e6 : r.range(10, 90) / 10.0;
    // costs and gains of another magnitude, recorded relative to it
    double CF = r.chance(12) ? 2000 : 1, GF = r.chance(12) ? r.pick(std::vector<double>{1e4, 1e6, 1e-3}) : 1; s.cf *= CF; s.cb *= CF;
    CurveGenerator gen; prepare(gen, s);
    SamplingPlanner p(&gen, &m);
    c.j.kv("w", w).kv("h", h).kv("ox", ox).kv("oy", oy).key("qs").arr();
    for (int q = r.range(1, 4); q > 0; --q) {
        auto pose = [&](bool anywhere) { // multiples of a sixteenth of a cell
            int lo = anywhere ? -64 : 0;
            return Pose2d((ox * 16 + r.range(lo, 16 * w - 1 - lo)) / 16.0 * res, (oy * 16 + r.range(lo, 16 * h - 1 - lo)) / 16.0 * res, r.chance(30) ? r.range(-2, 2) * M_PI / 2 : r.range(-314, 314) / 100.0);
        };
        Script reg; std::unique_ptr<GoalRegion> real;
        int asked = r.range(1, 10);
        if (r.chance(25)) {
            Pose2d at = pose(false);
            if (r.chance(50)) real.reset(new RingGoalRegion(Point2d(at), r.range(1, 128) / 16.0 * res, 0));
            else real.reset(new CentroidRadiusGoalRegion(Point2d(pose(false)), Point2d(at), r.range(1, 128) / 16.0 * res, 2.0));
            reg.real = real.get();
        } else {
            reg.use_gain = r.chance(80);
            for (int k = r.range(0, 8); k > 0; --k) { reg.poses.push_back(pose(r.chance(30))); reg.gains.push_back(r.chance(15) ? 0.0 : GF * r.range(1, 32) / 8.0); }
        }
        Pose2d start = pose(r.chance(8));
        Curve *best = p.createPath(start, &reg, asked);
        c.j.obj().kvec("s", std::vector<long long>{fx(start.x / res, 16), fx(start.y / res, 16)}).kv("asked", asked).kv("real", reg.real != nullptr).kvec("inits", reg.inits);
        c.j.key("g").arr();
        auto cell = [&](const Pose2d &a) { return Pose2d((a.x - ox * res) / res, (a.y - oy * res) / res, a.theta); };
        for (unsigned k = 0; k < reg.seen.size(); ++k) {
            Pose2d a = cell(reg.seen[k]);
            bool in = a.x >= 0 && a.y >= 0 && a.x < w && a.y < h; double weight = -1; bool valid = false;
            if (in) { CurveGenerator ref; prepare(ref, s); std::unique_ptr<Curve> cv(ref.find_path(cell(start), a, &m)); if (cv && cv->weight() >= 0.001 && cv->weight() < 1e30) { valid = true; weight = cv->weight(); } }
            c.j.arr().v(fx(a.x, L)).v(fx(a.y, L)).v(fx(a.theta, A)).v(valid).v(valid ? fx(weight / CF, 1e3) : 0).v(fx(reg.seen_gain[k] / (reg.real || !reg.use_gain ? 1 : GF), 8 * 16)).enda();
        }
        c.j.enda();
        c.j.kv("found", best != nullptr);
        if (best) {
            std::vector<long long> pt;
            auto put = [&](const Pose2d &a) { pt.push_back(fx(a.x, L)); pt.push_back(fx(a.y, L)); pt.push_back(fx(std::remainder(a.theta, 2 * M_PI), A)); };
            put(best->start()); put(best->goal());
            pt.push_back(fx(best->weight() / CF, 1e3));
            c.j.kvec("res", pt);
        } else c.j.kvec("res", std::vector<int>{});
        Pose2d sc = cell(start); c.j.kvec("sc", std::vector<long long>{fx(sc.x, L), fx(sc.y, L), fx(std::remainder(sc.theta, 2 * M_PI), A)});
        delete best;
        c.j.end();
    }
    c.j.enda();
}
int main(int argc, char **argv) {
    return run_main(argc, argv, {{"regions", 1500, 20000, regions}, {"planner", 1200, 12000, planner}});
}
