// State-space managers: line of sight, state lookup; heuristics.
#include "common.hpp"
#include <cslibs_navigation_utilities/MathHelper.h>
#include <boost/function.hpp>
#include <boost/thread.hpp>
#include <memory>
#include <queue>
#include <set>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/Pose2d.h>
#include <cslibs_path_planning/generic/Common.hpp>
#include <cslibs_path_planning/generic/SteeringNode.hpp>
#include <cslibs_path_planning/generic/Heuristics.hpp>
#include <cslibs_path_planning/generic/MapManager.hpp>
using namespace vf;
using namespace lib_path;

// cell values: 0 free, 128 unknown, 255 occupied, 3 free for headings within 45 degrees of east and occupied otherwise
struct DirMap : SimpleGridMap2d {
    DirMap(unsigned w, unsigned h, double r) : SimpleGridMap2d(w, h, r) {}
    static bool east(double t) { return std::cos(t) > std::fabs(std::sin(t)); }
    using SimpleGridMap2d::isFree; using SimpleGridMap2d::isOccupied; using SimpleGridMap2d::isNoInformation;
    bool in(unsigned x, unsigned y) const { return x < getWidth() && y < getHeight(); }
    bool isFree(const unsigned x, const unsigned y, double t) const override { if (!in(x, y)) abort(); uint8_t v = getValue(x, y); return v == 3 ? east(t) : v == 0; }
    bool isOccupied(const unsigned x, const unsigned y, double t) const override { if (!in(x, y)) abort(); uint8_t v = getValue(x, y); return v == 3 ? !east(t) : v == 255; }
    bool isNoInformation(const unsigned x, const unsigned y, double) const override { if (!in(x, y)) abort(); return getValue(x, y) == 128; }
};
typedef Node<Pose2d> PlainNode;
typedef OrientedNode<Node<Pose2d>> ThetaNode;
typedef DirectionalNode<OrientedNode<Node<Pose2d>>> DirNode;
typedef SteeringNode<DirectionalNode<OrientedNode<Node<Pose2d>>>> SteerNode;
typedef GridMapManager<PlainNode> GM;
typedef StateSpaceManager<ThetaNode> SM;
typedef DirectionalStateSpaceManager<DirNode> DM;
typedef DynamicDirectionalStateSpaceManager<SteerNode> XM;

// ------------------------------------------------------------- P16
static void sight(Ctx &c) {
    Rng &r = c.rng;
    static const int NS[] = {1, 1, 2, 3, 4, 5, 10, 20};
    int n = NS[r.range(0, 7)], w = r.range(1, r.chance(20) ? 40 : 12), h = r.range(1, 12);
    if (c.i % 50 == 17) w = r.range(100, 600);                                  // long lines
    if (c.i % 50 == 42) h = r.range(100, 600);
    DirMap m(w, h, 1.0 / n);
    int pf = r.range(30, 99), dirs = r.chance(40) ? 10 : 0;
    std::vector<int> cells(w * h);
    for (int k = 0; k < w * h; ++k) { cells[k] = r.chance(pf) ? 0 : r.chance(dirs) ? 3 : r.chance(40) ? 128 : 255; m.getData()[k] = (uint8_t)cells[k]; }
    c.j.kv("w", w).kv("h", h).kv("n", n).kvec("v", cells).key("qs").arr();
    GM g; SM s; DM d; XM x;
    int kind = r.range(0, 3);
    // earlier maps of other sizes and resolutions must not matter
    std::vector<std::unique_ptr<DirMap>> before;
    for (int k = r.chance(50) ? r.range(1, 2) : 0; k > 0; --k) {
        int pw = r.chance(40) ? w : r.range(1, 40), ph = r.chance(40) ? h : r.range(1, 12), pv = r.chance(50) ? 0 : 255;
        before.emplace_back(new DirMap(pw, ph, 1.0 / NS[r.range(0, 7)]));
        DirMap &b = *before.back();
        for (int q = 0; q < pw * ph; ++q) b.getData()[q] = pv;
        if (kind == 0) { g.setMap(&b); g.isFree(0.0, 0.0, pw - 1.0, ph - 1.0); } else if (kind == 1) { s.setMap(&b); s.isFree(0.0, 0.0, pw - 1.0, ph - 1.0); }
        else if (kind == 2) { d.setMap(&b); d.isFree(0.0, 0.0, pw - 1.0, ph - 1.0); } else { x.setMap(&b); x.isFree(0.0, 0.0, pw - 1.0, ph - 1.0); }
    }
    if (kind == 0) g.setMap(&m); else if (kind == 1) s.setMap(&m); else if (kind == 2) d.setMap(&m); else x.setMap(&m);
    for (int k = 0; k < 14; ++k) {
        int P[4];
        do {
            if (kind == 3 && r.chance(60)) { int far = r.chance(20) ? 45 : r.chance(50) ? 6 : 2; for (int q = 0; q < 4; ++q) P[q] = r.range(-8 * far, 8 * ((q % 2 ? h : w) + far)); }
            else for (int q = 0; q < 4; ++q) P[q] = r.range(0, 8 * (q % 2 ? h : w) - 1);
            if (r.chance(15)) { P[2] = P[0]; P[3] = P[1]; }
        } while (P[2] - P[0] == std::abs(P[3] - P[1]) && P[2] != P[0]); // no heading of exactly 45 degrees
        double sx = P[0] / 8.0, sy = P[1] / 8.0, ex = P[2] / 8.0, ey = P[3] / 8.0;
        int fr, fu, oc = -1;
        if (kind == 0) { fr = g.isFree(sx, sy, ex, ey); fu = g.isFreeOrUnknown(sx, sy, ex, ey); }
        else if (kind == 1) { fr = s.isFree(sx, sy, ex, ey); fu = s.isFreeOrUnknown(sx, sy, ex, ey); }
        else if (kind == 2) { fr = d.isFree(sx, sy, ex, ey); fu = d.isFreeOrUnknown(sx, sy, ex, ey); }
        else { fr = x.isFree(sx, sy, ex, ey); fu = x.isFreeOrUnknown(sx, sy, ex, ey); oc = x.isOccupied(sx, sy, ex, ey); }
        c.j.arr().v(kind == 3 ? "s" : "l"); for (int q : P) c.j.v(q); c.j.v(fr).v(fu).v(oc).enda();
    }
    for (int k = 0; k < 10; ++k) { // single cells, at a heading
        int X = kind == 3 ? r.range(-40, w + 40) : r.range(0, w - 1), Y = kind == 3 ? r.range(-40, h + 40) : r.range(0, h - 1), e = r.range(0, 1);
        if (r.chance(50)) { X = r.range(0, w - 1); Y = r.range(0, h - 1); }
        double t = (e ? r.range(-7, 7) : r.range(9, 51)) * (M_PI / 30) + 2 * M_PI * r.range(-1, 1);
        int fr, fu = -1, oc;
        if (kind == 0) { fr = g.isFree(X, Y, t); oc = g.isOccupied(X, Y, t); PlainNode nd; PlainNode::init(nd, X, Y); nd.theta = t; if (fr != g.isFree(&nd) || oc != g.isOccupied(&nd)) fr = 7; }
        else if (kind == 1) { fr = s.isFree(X, Y, t); oc = s.isOccupied(X, Y, t); ThetaNode nd; ThetaNode::init(nd, X, Y, t); if (fr != s.isFree(&nd) || oc != s.isOccupied(&nd)) fr = 7; }
        else if (kind == 2) { fr = d.isFree(X, Y, t); oc = d.isOccupied(X, Y, t); DirNode nd; DirNode::init(nd, X, Y, t); if (fr != d.isFree(&nd) || oc != d.isOccupied(&nd)) fr = 7; }
        else { fr = x.isFree(X, Y, t); oc = x.isOccupied(X, Y, t); fu = x.isFreeOrUnknown(X, Y, t); SteerNode nd; SteerNode::init(nd, X, Y, t); if (oc != x.isOccupied(&nd)) oc = 7; }
        c.j.arr().v("c").v(X).v(Y).v(e).v(fr).v(fu).v(oc).enda();
    }
    c.j.enda();
}
// ------------------------------------------------------------- P17
struct ILookup { // one manager; ids are given to nodes in the order they are first seen
    virtual ~ILookup() {}
    virtual void setMap(const GridMap2d *) = 0;
    virtual void rec(J &j, int api, int x8, int y8, int slot, double theta, bool fwd, int steer) = 0;
    virtual void ask(J &j, int x8, int y8, int slot, bool fwd) = 0;
    virtual void clear() = 0;
};
template <class M, class N, int KIND>
struct Lookup : ILookup {
    M m; std::map<N *, int> ids;
    void clear() override { ids.clear(); }
    void setMap(const GridMap2d *g) override { m.setMap(g); ids.clear(); }
    N *get(int api, int x8, int y8, int slot, double theta, bool fwd, int steer) {
        double x = x8 / 8.0, y = y8 / 8.0; int ix = (int)std::floor(x), iy = (int)std::floor(y);
        return look(generic::Int2Type<KIND>(), api, x, y, ix, iy, slot, theta, fwd, steer);
    }
    N *look(generic::Int2Type<0>, int api, double x, double y, int ix, int iy, int, double t, bool, int) {
        if (api == 0) return m.lookup(ix, iy); if (api == 1) return m.lookup(x, y); if (api == 3) return m.lookup(x, y, t);
        if (api == 4) return m.lookup(Pose2d(x, y, t)); N n; N::init(n, Pose2d(x, y, t)); return m.lookup(n);
    }
    N *look(generic::Int2Type<1>, int api, double x, double y, int ix, int iy, int, double t, bool, int) {
        if (api == 0) return m.lookup(ix, iy, t); if (api == 1) return m.lookup(x, y, t);
        if (api == 4) return m.lookup(Pose2d(x, y, t)); N n; N::init(n, x, y, t); return m.lookup(n);
    }
    N *look(generic::Int2Type<2>, int api, double x, double y, int ix, int iy, int, double t, bool f, int) {
        if (api == 0) return m.lookup(ix, iy, t, f); if (api == 1) return m.lookup(x, y, t, f);
        if (api == 4 && f) return m.lookup(Pose2d(x, y, t)); N n; N::init(n, x, y, t, f); return m.lookup(n);
    }
    N *look(generic::Int2Type<3>, int api, double x, double y, int ix, int iy, int slot, double t, bool f, int st) {
        if (api == 0) return m.lookup(ix, iy, t, st, f); if (api == 1) return m.lookup(x, y, t, st, f); if (api == 3) return m.lookup(ix, iy, (unsigned)slot, st, f);
        if (api == 4 && f) return m.lookup(Pose2d(x, y, t)); N n; N::init(n, x, y, t, st); n.forward = f; return m.lookup(n);
    }
    void rec(J &j, int api, int x8, int y8, int slot, double theta, bool fwd, int steer) override {
        N *n = nullptr;
        try { n = get(api, x8, y8, slot, theta, fwd, steer); } catch (const OutsideMapException &) {}
        j.arr().v("l").v(x8).v(y8).v(KIND == 0 ? 0 : slot).v(KIND < 2 ? true : fwd);
        if (!n) { j.v(0).v(0).v(0).v(false).enda(); return; }
        auto it = ids.find(n);
        bool good;
        if (it == ids.end()) {
            int id = ids.size() + 1; it = ids.insert({n, id}).first;
            good = std::isinf(n->distance) && n->distance > 0 && n->marked == 0 && n->prev == nullptr && heading(n, slot);
            n->distance = id; n->custom = (char)(id % 100);
        } else good = n->distance == it->second && n->custom == (char)(it->second % 100);
        j.v(it->second).v((int)n->x).v((int)n->y).v(good).enda();
    }
    template <class Q> static bool close(const Q *n, int slot, int slots) { // the node's own heading is that of its slot, to within a slot
        return std::fabs(MathHelper::AngleClamp(n->theta - (-M_PI + 2 * M_PI * slot / (slots - 1)))) <= 2 * M_PI / (slots - 1) + 1e-9;
    }
    bool heading(N *n, int slot) { return KIND == 0 || close(n, slot, m.theta_slots); }
    void ask(J &j, int x8, int y8, int slot, bool fwd) override {
        int ix = (int)std::floor(x8 / 8.0), iy = (int)std::floor(y8 / 8.0);
        int has = -1; try { has = m.hasNode(ix, iy, slot, fwd); } catch (const OutsideMapException &) { has = 0; }
        j.arr().v("h").v(x8).v(y8).v(slot).v(fwd).v(m.contains(ix, iy)).v(m.contains(x8 / 8.0, y8 / 8.0)).v(has).enda();
    }
};
static void lookups(Ctx &c) {
    Rng &r = c.rng;
    int kind = c.i % 300 == 7 ? 1 : r.range(0, 3);
    std::unique_ptr<ILookup> L; int slots = 1, pad = 0;
    if (kind == 0) L.reset(new Lookup<GM, PlainNode, 0>());
    else if (kind == 1) { L.reset(new Lookup<SM, ThetaNode, 1>()); slots = 36; }
    else if (kind == 2) { L.reset(new Lookup<DM, DirNode, 2>()); slots = 32; }
    else { L.reset(new Lookup<XM, SteerNode, 3>()); slots = 32; pad = 32; }
    c.j.kv("kind", kind).kv("pad", pad).kv("slots", slots).key("ops").arr();
    std::unique_ptr<SimpleGridMap2d> m;
    int w = 0, h = 0; std::vector<std::vector<int>> past;
    for (int k = 0, n = r.range(20, c.thorough ? 150 : 60); k < n; ++k) {
        if (!m || r.chance(3)) {
            if (!m || r.chance(70)) { w = r.range(1, kind == 3 && r.chance(50) ? 70 : 9); h = r.range(1, kind == 3 && r.chance(30) ? 70 : 9); if (kind == 3 && r.chance(20)) w = 32 * r.range(1, 2) - r.range(0, 1); }
            if (c.i % 12 == 7 && r.chance(60)) { // many nodes, and positions a power of two apart
                static const int B[4][4][2] = {{{1200, 300}, {70000, 2}, {16384, 9}, {256, 300}}, {{64, 60}, {256, 40}, {2000, 3}, {45, 50}}, {{64, 70}, {256, 40}, {2300, 3}, {45, 50}}, {{300, 20}, {448, 4}, {192, 64}, {4, 900}}};
                int z = r.range(0, 3); w = B[kind][z][0]; h = B[kind][z][1]; if (c.i % 300 == 7) w = 256, h = 260; }
            std::unique_ptr<SimpleGridMap2d> m2(new SimpleGridMap2d(w, h, 0.5)); m2->set((uint8_t)0);
            L->setMap(m2.get()); m = std::move(m2);
            c.j.arr().v("m").v(w).v(h).enda();
            past.clear(); continue;
        }
        std::vector<int> q(4);
        auto coord = [&](int n) { switch (r.range(0, 9)) {
            case 0: return 8 * r.range(-3, 0) - r.range(0, 8); case 1: return 8 * n + r.range(-9, 9); case 2: return pad ? 8 * r.range(-pad - 2, n + pad + 2) + r.range(0, 7) : 8 * r.range(-40, n + 40);
            case 3: return pad ? -8 * pad + r.range(-9, 9) : r.range(-8, 8); case 4: return pad ? 8 * (n + pad) + r.range(-9, 9) : 8 * n - r.range(0, 8); case 5: return pad ? 8 * 32 * r.range(-1, 3) + r.range(-9, 9) : r.range(0, 8 * n - 1);
            default: return r.range(0, 8 * n - 1); } };
        if (!past.empty() && w * h > 1000 && r.chance(30)) { q = r.pick(past);
            for (int t = 0; t < 9; ++t) { auto p = q; int d = r.range(0, 1); p[d] += 8 * r.pick(std::vector<int>{-256, 256, -64, 64, -16, 16, -4, 4, -1, 1, -32768, 32768}); if (p[d] >= 0 && p[d] < 8 * (d ? h : w)) { q = p; break; } } }
        else if (!past.empty() && r.chance(45)) { q = r.pick(past); q[0] = 8 * (int)std::floor(q[0] / 8.0) + r.range(0, 7); q[1] = 8 * (int)std::floor(q[1] / 8.0) + r.range(0, 7); if (r.chance(30)) q[r.range(0, 1)] += 8 * r.range(-1, 1); if (r.chance(20)) q[3] ^= 1; }
        else { q[0] = coord(w); q[1] = coord(h); if (w * h > 1000 && r.chance(40)) q[1] = r.chance(50) ? r.range(0, 31) : 8 * h - r.range(1, 32); q[2] = slots > 1 ? r.range(0, slots - 2) : 0; q[3] = r.range(0, 1); }
        past.push_back(q);
        if (r.chance(15)) { L->ask(c.j, q[0], q[1], q[2], q[3]); continue; }
        int api = r.range(0, 4); double theta = 0; int slot = q[2];
        if (slots > 1) theta = -M_PI + 2 * M_PI / (slots - 1) * (slot + r.range(1, 9) / 10.0) + 2 * M_PI * (r.chance(30) ? r.range(-2, 2) : 0);
        if (kind == 3 && api == 3 && r.chance(20)) slot = r.range(31, 34);
        L->rec(c.j, api, q[0], q[1], slot, theta, q[3], r.chance(50) ? r.range(-60, 60) : 0);
    }
    c.j.enda();
}
// ------------------------------------------------------------- P18
typedef HeuristicNode<Pose2d> HNode;
typedef DHeuristicNode<Pose2d> DHNode;
template <class H> static double hval(int x, int y, const HNode &goal, double res, double junk) { HNode n; HNode::init(n, x, y); n.h = junk; H::compute(&n, &goal, res); return n.h; }
static void norms(Ctx &c) {
    Rng &r = c.rng;
    c.j.key("qs").arr();
    for (int k = 0; k < 40; ++k) {
        int R = r.chance(50) ? 7 : r.chance(60) ? 40 : 200;
        int x = r.range(-R, R), y = r.range(-R, R), gx = r.range(-R, R), gy = r.range(-R, R);
        if (r.chance(15)) gx = x; if (r.chance(15)) gy = y;
        static const double RS[] = {1, 0.5, 0.25, 2, 0.1, 0.05};
        double res = RS[r.range(0, 5)], junk = r.range(-5, 5);
        HNode g; HNode::init(g, gx, gy);
        DHNode d; DHNode::init(d, x, y); DHNode dg; DHNode::init(dg, gx, gy); DHeuristicL2::compute(&d, &dg, res);
        auto f = [&](double v) { return fx(v / res, 100000.0); };
        double o = hval<HeuristicL2OverEstimate>(x, y, g, res, junk) / res;
        HNode z; HNode::init(z, x, y); NoHeuristic::compute(&z, &g, res);
        c.j.arr().v(x - gx).v(y - gy).v(f(hval<HeuristicL2>(x, y, g, res, junk))).v(f(hval<HeuristicL1>(x, y, g, res, junk))).v(f(hval<HeuristicLInf>(x, y, g, res, junk)))
            .v(f(d.h)).v((long long)std::floor(o + 1e-9)).v((long long)std::floor(std::min(4 * o + 1e-9, 2e9)))
            .v(f(hval<MaxHeuristic<HeuristicL1, HeuristicL2>>(x, y, g, res, junk))).v(f(hval<MaxHeuristic<HeuristicLInf, HeuristicL2>>(x, y, g, res, junk))).v(f(hval<MaxHeuristic<HeuristicL2, HeuristicLInf>>(x, y, g, res, junk)))
            .v(z.h == 0).enda();
    }
    c.j.enda();
}
struct PadMap { // the interface the obstacle heuristic uses
    unsigned w, h; int padding; const SimpleGridMap2d *m;
    bool isOccupied(int x, int y, double) const { return x >= 0 && y >= 0 && x < (int)w && y < (int)h && m->isOccupied(x, y); }
};
static void field_case(Ctx &c, int pad, int w, int h, bool real) {
    Rng &r = c.rng;
    SimpleGridMap2d m(w, h, 1);
    int pf = r.range(30, 95); bool closed = pad == 0 && r.chance(70);
    std::vector<int> cells(w * h);
    for (int k = 0; k < w * h; ++k) {
        bool border = k % w == 0 || k % w == w - 1 || k / w == 0 || k / w == h - 1;
        cells[k] = border && closed ? 1 : r.chance(pf) ? 0 : r.chance(25) ? 2 : 1;
        m.getData()[k] = cells[k] == 0 ? 0 : cells[k] == 1 ? 255 : 128;
    }
    int gx = r.range(0, w - 1), gy = r.range(0, h - 1);
    if (pad && r.chance(15)) { gx = r.range(-pad, w + pad - 1); gy = r.range(-pad, h + pad - 1); }
    if (r.chance(50)) for (int t = 0; t < 30 && !(gx >= 0 && gy >= 0 && gx < w && gy < h && cells[gy * w + gx] == 0); ++t) { gx = r.range(0, w - 1); gy = r.range(0, h - 1); }
    double res = r.chance(50) ? 1 : 0.25;
    HNode goal; HNode::init(goal, gx, gy);
    typedef MaxHeuristic<HeuristicL2, HeuristicHolonomicObstacles> MH; typedef MaxHeuristic<HeuristicHolonomicObstacles, HeuristicLInf> MI;
    bool direct = r.chance(50);
    if (real && pad) { XM x; x.setMap(&m); if (direct) HeuristicHolonomicObstacles::setMap(&x, goal); else MH::setMap(&x, goal); }
    else if (real) { DM d; d.setMap(&m); if (direct) HeuristicHolonomicObstacles::setMap(&d, goal); else MI::setMap(&d, goal); }
    else { PadMap p{(unsigned)w, (unsigned)h, pad, &m}; HeuristicHolonomicObstacles::setMap(&p, goal); }
    c.j.arr().v(w).v(h).v(pad).vec(cells).v(gx).v(gy).arr();
    for (int y = -pad; y < h + pad; ++y) for (int x = -pad; x < w + pad; ++x) {
        if (pad > 8 && !(x >= -2 && y >= -2 && x < w + 2 && y < h + 2) && !r.chance(5)) continue;
        auto f = [&](double v) { return std::isinf(v) ? 2000000000LL : fx(v / res, 100000.0); };
        c.j.arr().v(x).v(y).v(f(hval<HeuristicHolonomicObstacles>(x, y, goal, res, 77))).v(f(hval<MH>(x, y, goal, res, 77))).v(f(hval<MI>(x, y, goal, res, 77))).enda();
    }
    c.j.enda().enda();
}
static void field(Ctx &c) {
    Rng &r = c.rng;
    c.j.key("fs").arr();
    for (int k = r.range(1, 3); k > 0; --k) { // several fields in a row, the last map set counts
        bool real = r.chance(40);
        int pad = real || r.chance(40) ? 0 : r.range(1, 3);
        field_case(c, pad, r.range(pad ? 1 : 2, pad ? 7 : 10), r.range(pad ? 1 : 2, pad ? 7 : 10), real);
    }
    c.j.enda();
}
static void bigfield(Ctx &c) { c.j.key("fs").arr(); field_case(c, 32, c.rng.range(1, 6), c.rng.range(1, 6), true); c.j.enda(); }
int main(int argc, char **argv) {
    return run_main(argc, argv, {{"sight", 2500, 60000, sight}, {"lookup", 1200, 20000, lookups}, {"norms", 200, 3000, norms}, {"field", 250, 6000, field}, {"bigfield", 4, 60, bigfield}});
}
