// Curve words and curve search.
#include "common.hpp"
#include <cslibs_navigation_utilities/MathHelper.h>
#include <memory>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/ReedsShepp/LineSegment.h>
#include <cslibs_path_planning/ReedsShepp/CircleSegment.h>
using namespace vf;
using namespace lib_path;
typedef std::vector<int> Ints;
static const double L = 1e5, A = 1e7;

struct Query {
    Pose2d a, b; double r = 4, maxd = 2; int kf = 4, kb = 4, kc = 4, ks = 4; double arc = 1e9; bool ign = true, mapc = false; int v = 1; double K = 1; // K: magnitude of all costs, weights are recorded in units of it; lengths in cells
    std::vector<std::vector<double>> discs; std::vector<std::vector<int>> walls;
};
static double magnitude(Rng &r) { return r.chance(75) ? 1 : r.pick(std::vector<double>{1024, 65536, 1048576, 16777216}); }
static void put_pose(J &j, const char *k, const Pose2d &p) { j.kvec(k, std::vector<long long>{fx(p.x, L), fx(p.y, L), fx(std::remainder(p.theta, 2 * M_PI), A)}); }
static bool parse(J &j, CurveGenerator &g, const std::string &w) {
    std::stringstream out;
    bool ret = g.parse(w, out);
    j.obj().kv("o", "p").key("w").arr();
    for (char ch : w) j.v(std::string(1, ch));
    j.enda().kv("ret", ret).kv("msg", !out.str().empty()).end();
    return ret;
}
static void find(J &j, CurveGenerator &g, const SimpleGridMap2d &m, const Query &q, int n, uint8_t mincost, bool setarc) {
    g.set_circle_radius(q.r / n); g.set_max_waypoint_distance(q.maxd / n);
    g.set_cost_forwards(q.K * q.kf / 4.0); g.set_cost_backwards(q.K * q.kb / 4.0); g.set_cost_curve(q.kc / 4.0); g.set_cost_straight(q.ks / 4.0);
    if (setarc) g.set_max_curve_arc(q.arc);
    g.set_use_map_cost(q.mapc); g.set_min_cell_cost(mincost);
    std::unique_ptr<Curve> c(g.find_path(q.a, q.b, &m, q.ign));
    j.obj().kv("o", "f").kv("ign", q.ign).kv("mapc", q.mapc).kv("v", q.v).kv("n", n);
    j.key("discs").arr(); for (auto &d : q.discs) { j.arr(); for (double z : d) j.v(fx(z, L)); j.enda(); } j.enda();
    j.key("walls").arr(); for (auto &d : q.walls) j.vec(d); j.enda();
    j.key("k").obj().kv("f", q.kf).kv("b", q.kb).kv("c", q.kc).kv("s", q.ks).end();
    j.kv("r", fx(q.r, L)).kv("maxd", fx(q.maxd, L)).kv("arc", fx(q.arc, A));
    put_pose(j, "a", q.a); put_pose(j, "b", q.b);
    bool ok = c && c->is_valid();
    j.kv("found", ok);
    if (ok) {
        Pose2d s = c->start(), t = c->goal();
        j.kvec("sg", std::vector<long long>{fx(s.x, L), fx(s.y, L), fx(std::remainder(s.theta, 2 * M_PI), A), fx(t.x, L), fx(t.y, L), fx(std::remainder(t.theta, 2 * M_PI), A)});
        j.kv("wt", fx(c->weight() / q.K, 1e3)).kv("turn", fx(c->curve_arc(), A));
        j.key("poses").arr();
        c->reset_iteration();
        for (int k = 0; c->has_next() && k < 3000; ++k) { Pose2d p = c->next(); j.arr().v(fx(p.x, L)).v(fx(p.y, L)).v(fx(std::remainder(p.theta, 2 * M_PI), A)).enda(); }
        j.enda();
    } else j.kvec("sg", std::vector<int>{}).kv("wt", c ? 1 : 0).kv("turn", 0).kvec("poses", std::vector<int>{});
    j.end();
}
static const char *WORDS[] = {"LSL", "LSR", "RSL", "RSR", "|LSL", "|LSR", "|RSL", "|RSR", "L|S|L", "L|S|R", "R|S|L", "R|S|R", "|L|S|L", "|L|S|R", "|R|S|L", "|R|S|R",
    "LRL", "RLR", "L|R|L", "R|L|R", "|L|R|L", "|R|L|R", "LR|L", "RL|R", "|LR|L", "|RL|R", "L|RL", "R|LR", "|L|RL", "|R|LR",
    "LR(b)|L(b)R", "|LR(b)|L(b)R", "RL(b)|R(b)L", "|RL(b)|R(b)L", "L|R(b)L(b)|R", "R|L(b)R(b)|L", "|L|R(b)L(b)|R", "|R|L(b)R(b)|L",
    "LS|L", "L|SL", "L|SR", "R|SL", "LRLR", "RLRL", "|LSR|", "L||SL", "LLL", "SLS", "LR", "S", "", "LSLS", "LSSL", "LRSR", "LLR", "RRLR", "LSLL", "SSS", "SLL", "LRS"};
static const int NW = sizeof(WORDS) / sizeof(*WORDS);
static std::string junk(Rng &r) { static const char CH[] = "LRS|()bpx "; std::string s; for (int k = r.range(1, 7); k > 0; --k) s += CH[r.range(0, 9)]; return s; }

// every word: two fixed pose pairs on a wide map
static void words(Ctx &c) {
    Mute mute;
    SimpleGridMap2d m(100, 100, 1.0);
    for (int k = 0; k < 10000; ++k) m.getData()[k] = 0;
    c.j.kv("w", 100).kv("h", 100).key("ops").arr();
    CurveGenerator g;
    if (parse(c.j, g, c.script == "-" ? "" : c.script)) {
        Query q; q.kf = 4; q.kb = 7; q.kc = 5; q.ks = 3; q.maxd = 3; q.r = 5;
        q.a = Pose2d(50, 50, 0.3); q.b = Pose2d(58, 53, 1.1); find(c.j, g, m, q, 1, 1, false);
        q.a = Pose2d(60, 40, -2.5); q.b = Pose2d(41, 52, 2.9); q.kf = 6; q.ks = 7; find(c.j, g, m, q, 1, 1, false);
    }
    c.j.enda();
}
// random parses, good and bad, and searches in between
static void parses(Ctx &c) {
    Rng &r = c.rng; Mute mute;
    SimpleGridMap2d m(100, 100, 1.0);
    for (int k = 0; k < 10000; ++k) m.getData()[k] = 0;
    c.j.kv("w", 100).kv("h", 100).key("ops").arr();
    CurveGenerator g; int good = 0;
    for (int k = r.range(1, 8); k > 0; --k) {
        std::string w = r.chance(70) ? WORDS[r.range(0, NW - 1)] : junk(r);
        if (r.chance(20) && !w.empty()) w.insert(r.range(0, (int)w.size()), 1, "LRS|()bpxX"[r.range(0, 9)]);
        good += parse(c.j, g, w);
        if (good && (r.chance(50) || k == 1)) {
            Query q; q.r = r.range(8, 48) / 4.0; q.maxd = r.range(2, 20) / 2.0; q.kf = r.range(1, 8); q.kb = r.range(1, 8); q.kc = r.range(1, 8); q.ks = r.range(1, 8);
            q.a = Pose2d(r.range(480, 960) / 16.0, r.range(480, 960) / 16.0, r.range(-314, 314) / 100.0); q.b = Pose2d(r.range(480, 960) / 16.0, r.range(480, 960) / 16.0, r.range(-314, 314) / 100.0);
            find(c.j, g, m, q, 1, 1, false);
        }
    }
    c.j.enda();
}
static void search(Ctx &c, bool obstacles) {
    Rng &r = c.rng; Mute mute;
    static const int NS[] = {1, 1, 2, 4, 10};
    int n = NS[r.range(0, 4)], w = r.range(20, 120), h = r.range(20, 120);
    if (obstacles) { w = r.range(30, 70); h = r.range(30, 70); }
    int low = r.range(0, 12);
    SimpleGridMap2d m(w, h, 1.0 / n);
    m.setLowerThreshold(20); m.setUpperThreshold(200);
    c.j.kv("w", w).kv("h", h).key("ops").arr();
    CurveGenerator g; int good = 0;
    for (int k = r.chance(20) ? r.range(1, 2) : r.range(3, 16); k > 0 || !good; --k) good += parse(c.j, g, WORDS[r.chance(95) ? r.range(0, 41) : r.range(0, NW - 1)]);
    for (int k = r.range(1, 3); k > 0; --k) {
        Query q;
        bool mapc = r.chance(15); int mc = r.range(1, 12); q.mapc = mapc; q.v = std::max(low, mc);
        q.r = r.range(12, obstacles ? 64 : 160) / 8.0; q.maxd = r.range(2, 24) / 4.0; q.kf = r.range(1, 8); q.kb = r.range(1, 8); q.kc = r.range(1, 8); q.ks = r.range(1, 8);
        if (r.chance(30)) q.kf = q.kb = q.kc = q.ks = 4;
        q.K = magnitude(r);
        q.ign = obstacles ? r.chance(5) : r.chance(70); if (q.mapc) q.ign = false;
        bool setarc = r.chance(40) || (k > 0 && false); q.arc = setarc ? (r.chance(60) ? r.range(5, 100) / 10.0 : 1e6) : 1e9;
        int mg = q.ign ? 0 : 5 * 16;
        auto pose = [&]() { return Pose2d(r.range(mg, 16 * w - 1 - mg) / 16.0, r.range(mg, 16 * h - 1 - mg) / 16.0, r.chance(30) ? r.range(-3, 4) * M_PI / 4 : r.chance(20) ? r.range(-700, 700) / 100.0 : r.range(-314, 314) / 100.0); };
        q.a = pose(); q.b = pose();
        int sp = r.range(0, 9);
        if (sp < 2) { // straight ahead or back, all on one line
            double d = r.range(-800, 800) / 16.0; q.b = Pose2d(q.a.x + d * std::cos(q.a.theta), q.a.y + d * std::sin(q.a.theta), q.a.theta);
        } else if (sp == 2) { // side by side
            double d = r.range(-400, 400) / 16.0; q.b = Pose2d(q.a.x - d * std::sin(q.a.theta), q.a.y + d * std::cos(q.a.theta), q.a.theta + (r.chance(50) ? M_PI : 0));
        } else if (sp == 3) { q.b = Pose2d(q.a.x + r.range(-64, 64) / 16.0, q.a.y + r.range(-64, 64) / 16.0, q.a.theta + r.range(-20, 20) / 10.0);
        } else if (sp == 4) { // on one circle
            double t = r.range(-300, 300) / 100.0, cx = q.a.x - q.r * std::sin(q.a.theta), cy = q.a.y + q.r * std::cos(q.a.theta);
            q.b = Pose2d(cx + q.r * std::sin(q.a.theta + t), cy - q.r * std::cos(q.a.theta + t), q.a.theta + t);
            if (r.chance(50)) { double l = r.range(8, 200) / 16.0; q.b.x += l * std::cos(q.b.theta); q.b.y += l * std::sin(q.b.theta); }
        }
        if (!q.ign && !(q.b.x > 5 && q.b.y > 5 && q.b.x < w - 5 && q.b.y < h - 5)) q.b = pose();
        for (int z = 0; z < w * h; ++z) m.getData()[z] = low;
        int unk = r.range(0, 1);
        if (obstacles) for (int z = r.range(1, 4); z > 0; --z) {
            double x = r.range(0, w), y = r.range(0, h), R = r.range(3, 10);
            if (r.chance(60)) { double f = r.range(1, 9) / 10.0; x = q.a.x + f * (q.b.x - q.a.x) + r.range(-6, 6); y = q.a.y + f * (q.b.y - q.a.y) + r.range(-6, 6); }
            q.discs.push_back({x, y, R});
            for (int Y = 0; Y < h; ++Y) for (int X = 0; X < w; ++X) if (std::hypot(X + 0.5 - x, Y + 0.5 - y) <= R) m.getData()[Y * w + X] = unk ? 100 : 255;
        }
        if (obstacles) for (int z = r.chance(30) ? r.range(1, 2) : 0; z > 0; --z) {
            int ax = r.range(1, 2), lo = ax == 1 ? std::min(q.a.x, q.b.x) : std::min(q.a.y, q.b.y), hi = ax == 1 ? std::max(q.a.x, q.b.x) : std::max(q.a.y, q.b.y), at = r.range(std::max(0, lo - 8), std::min((ax == 1 ? w : h) - 1, hi + 8));
            q.walls.push_back({ax, at});
            for (int z2 = 0; z2 < (ax == 1 ? h : w); ++z2) m.getData()[ax == 1 ? z2 * w + at : at * w + z2] = unk ? 100 : 255;
        }
        find(c.j, g, m, q, n, mc, setarc || q.arc == 1e9);
    }
    c.j.enda();
}
// single pieces: the weight of lines and arcs over maps of mixed values
static void pieces(Ctx &c) {
    Rng &r = c.rng; J &j = c.j;
    int w = r.range(3, 14), h = r.range(3, 14), n = r.pick(std::vector<int>{1, 2, 4});
    std::vector<std::unique_ptr<SimpleGridMap2d>> maps;
    int nm = r.range(1, 2);
    j.kv("n", n).key("maps").arr();
    bool sparse = r.chance(30);
    for (int k = 0; k < nm; ++k) {
        int mw = k ? r.range(3, 14) : w, mh = k ? r.range(3, 14) : h;
        maps.emplace_back(new SimpleGridMap2d(mw, mh, 1.0 / n));
        SimpleGridMap2d &m = *maps.back(); m.setLowerThreshold(50); m.setUpperThreshold(200);
        int bad = r.pick(std::vector<int>{0, 0, 1, 3, 10});
        std::vector<int> v;
        for (int z = 0; z < mw * mh; ++z) { int x = sparse ? (r.chance(10) ? r.range(1, 49) : 0) : r.range(0, 49); if (r.chance(bad)) x = r.range(51, 255); m.getData()[z] = x; v.push_back(x); }
        j.obj().kv("w", mw).kv("h", mh).kvec("v", v).end();
    }
    j.enda();
    int kf = r.range(1, 6), kb = r.range(1, 6), kc = r.range(1, 6), ks = r.range(1, 6), min = r.chance(50) ? 0 : r.range(1, 40);
    bool mapc = r.chance(75); double K = magnitude(r);
    j.kv("min", min).kv("mapc", mapc).key("kost").obj().kv("f", kf).kv("b", kb).kv("c", kc).kv("s", ks).end();
    LineSegment lf(CurveSegment::FORWARD), lb(CurveSegment::BACKWARD);
    CircleSegment a0(CircleSegment::LEFT_CURVE, CurveSegment::FORWARD), a1(CircleSegment::LEFT_CURVE, CurveSegment::BACKWARD), a2(CircleSegment::RIGHT_CURVE, CurveSegment::FORWARD), a3(CircleSegment::RIGHT_CURVE, CurveSegment::BACKWARD);
    CircleSegment *arcs[] = {&a0, &a1, &a2, &a3}; CurveSegment *all[] = {&lf, &lb, &a0, &a1, &a2, &a3};
    for (CurveSegment *s : all) {
        s->set_use_map_cost(mapc); s->set_min_cell_cost(min); s->set_cost_forwards(K * kf / 4.0); s->set_cost_backwards(K * kb / 4.0); s->set_cost_curve(kc / 4.0); s->set_cost_straight(ks / 4.0);
        s->set_trace(-1); s->set_max_distance(1);
    }
    j.key("ops").arr();
    int ps[2], pe[2], pc[2], pr = 32, pa = 0, pb = 0; bool first = true;
    for (int q = 0; q < 16; ++q) {
        int k = r.range(0, nm - 1); SimpleGridMap2d &m = *maps[k]; int mw = m.getWidth(), mh = m.getHeight();
        bool ign = r.chance(30), back = r.chance(50);
        auto result = [&](float wt) { bool nf = K == 1 ? wt >= 999999 : wt > 1e30f; if (!nf) wt /= K; j.kv("ign", ign).kv("nf", nf).kv("w16", nf ? 0 : fx(wt, 16)).kv("wt", nf ? 0 : std::min(2000000000LL, (long long)fx((double)wt, 16 * L))).end(); };
        if (r.chance(50)) {
            if (first || r.chance(70)) { ps[0] = r.range(0, 16 * mw - 1); ps[1] = r.range(0, 16 * mh - 1); pe[0] = r.range(0, 16 * mw - 1); pe[1] = r.range(0, 16 * mh - 1); if (r.chance(10)) { pe[0] = ps[0]; if (r.chance(30)) pe[1] = ps[1]; } if (r.chance(4)) ps[r.range(0, 1)] = r.chance(50) ? -16 * r.range(1, 3) : 16 * 14 + r.range(0, 40); first = false; }
            else if (r.chance(50)) { std::swap(ps[0], pe[0]); std::swap(ps[1], pe[1]); }      // the same line the other way
            if (pe[0] < 0 || pe[1] < 0 || pe[0] >= 16 * mw || pe[1] >= 16 * mh || (ps[0] < 0 && ps[0] > -16) || (ps[1] < 0 && ps[1] > -16)) { first = true; continue; }
            LineSegment &s = back ? lb : lf; s.set_map(&m); s.set_points(Point2d(ps[0] / 16.0, ps[1] / 16.0), Point2d(pe[0] / 16.0, pe[1] / 16.0));
            j.obj().kv("o", "l").kv("m", k + 1).kv("back", back).kvec("s", Ints{ps[0], ps[1]}).kvec("e", Ints{pe[0], pe[1]});
            result(s.weight(ign));
        } else {
            bool left = r.chance(50), flip = q > 0 && r.chance(30) && pr > 0;
            if (flip) std::swap(pa, pb);
            else {
                pr = r.range(16, 16 * 6); pc[0] = r.range(0, 16 * mw - 1); pc[1] = r.range(0, 16 * mh - 1);
                if (r.chance(70)) { pr = std::max(16, std::min(pr, 8 * std::min(mw, mh) - 24)); auto mid = [&](int z) { int lo = pr + 16, hi = 16 * z - pr - 17; return lo < hi ? r.range(lo, hi) : 8 * z; }; pc[0] = mid(mw); pc[1] = mid(mh); }
                auto ang = [&] { return r.chance(20) ? r.range(-4, 4) * 7853982 : r.range(-31415926, 31415926); };
                pa = ang(); pb = r.chance(12) ? pa + r.range(1000, 3000000) : ang();
                if (pb > 31415926) pb -= 62831853;
                if (r.chance(5)) pb = pa;
            }
            if (pa != pb && std::fabs(std::remainder((pa - pb) / A, 2 * M_PI)) < 1e-4) pb = pa;
            CircleSegment &s = *arcs[(left ? 0 : 2) + back]; s.set_map(&m);
            Point2d ctr(pc[0] / 16.0, pc[1] / 16.0); s.set_center(ctr); s.set_radius(pr / 16.0);
            if (r.chance(50)) { s.set_start_angle(pa / A); s.set_end_angle(pb / A); }
            else { double o = left ? M_PI / 2 : -M_PI / 2; s.set_end_angle_for_orientation(pb / A + o); s.set_start_angle_for_orientation(pa / A + o); }
            j.obj().kv("o", "c").kv("m", k + 1).kv("back", back).kv("left", left).kvec("c", Ints{pc[0], pc[1]}).kv("r", pr).kv("a", pa).kv("b", pb);
            result(s.weight(ign));
        }
    }
    j.enda();
}
int main(int argc, char **argv) {
    return run_main(argc, argv, {{"words", -1, -1, words}, {"parses", 1500, 15000, parses},
        {"open", 1500, 20000, [](Ctx &c) { search(c, false); }}, {"blocked", 1500, 20000, [](Ctx &c) { search(c, true); }}, {"pieces", 1500, 20000, pieces}});
}
