// Distance transformation searches: the field of distances to the goal and the descent along it.
#include "common.hpp"
#include "walls.hpp"
#include <cslibs_navigation_utilities/MathHelper.h>
#include <boost/function.hpp>
#include <boost/thread.hpp>
#include <chrono>
#include <memory>
#include <queue>
#include <set>
#include <stack>
#include <tuple>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/generic/Common.hpp>
#include <cslibs_path_planning/generic/SearchAlgorithm.hpp>
#include <cslibs_path_planning/generic/Heuristics.hpp>
#include <cslibs_path_planning/generic/MapManager.hpp>
#include <cslibs_path_planning/generic/NodeManager.hpp>
#include <cslibs_path_planning/generic/DirectNeighborhood.hpp>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/DistanceTransformation.hpp>
using namespace vf;
using namespace lib_path;
typedef std::vector<long long> Ints;
template <class Heur> using Par = GenericParameter<Pose2d, Heur, GridMap2d, DirectNeighborhood<8, 1>, NoExpansion, PriorityQueueManager, GridMapManager, 1, 0>;

struct Map {
    std::unique_ptr<SimpleGridMap2d> m; int w, h; std::vector<int> cells;
    void put() { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m->setValue(x, y, cells[y * w + x] == 0 ? 10 : cells[y * w + x] == 1 ? 230 : 120); }
    void fill(Rng &r) {
        int density = r.pick(std::vector<int>{0, 10, 20, 30, 40, 50}), kind = r.range(0, 5), gap = 0;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            int &c = cells[y * w + x];
            c = r.chance(density) ? (r.chance(15) ? 2 : 1) : 0;
            if (kind == 0) { if (x == 0) gap = r.range(0, w - 1); c = (y % 2 == 1 && x != gap) ? 1 : 0; }             // walls with gaps
            if (kind == 1) c = (y % 2 == 0 && x != ((y / 2) % 2 ? 1 : w - 2)) ? 1 : 0;                               // winding corridor
            if (kind == 2 && (x == 0 || y == 0 || x == w - 1 || y == h - 1)) c = 1;                                  // closed border
        }
    }
    void make(Rng &r, int W, int H) {
        w = W; h = H; cells.assign(w * h, 0);
        double res = r.pick(std::vector<double>{1, 0.5, 0.05});
        m.reset(new SimpleGridMap2d(w, h, res)); m->setLowerThreshold(50); m->setUpperThreshold(200); m->setNoInformationValue(-1);
        fill(r); put();
    }
};
struct Stop {};
static long long value(double d) { return d > 1e9 ? 2000000000LL : fx(d, 1e5); }
template <class S> static void run(Ctx &c, int maxw) {
    Rng &r = c.rng; J &j = c.j;
    std::unique_ptr<S> s(new S);
    std::vector<Map> maps(r.range(1, 3));
    for (auto &m : maps) m.make(r, r.range(1, maxw), r.range(1, maxw));
    if (maps.size() > 1 && r.chance(40)) maps[1].make(r, maps[0].w, maps[0].h);       // of the same size
    Map *m = &maps[0]; s->setMap(m->m.get());
    j.key("qs").arr();
    for (int k = c.thorough ? 8 : 5; k > 0; --k) {
        if (r.chance(40)) { m = &maps[r.range(0, (int)maps.size() - 1)]; s->setMap(m->m.get()); }
        else if (r.chance(40)) { if (r.chance(50)) m->fill(r); else m->cells[r.range(0, m->w * m->h - 1)] = r.range(0, 2); m->put(); }   // changes while it is in use
        auto cell = [&]() { for (int t = 0; t < 30; ++t) { int x = r.range(0, m->w - 1), y = r.range(0, m->h - 1); if (!m->cells[y * m->w + x]) return std::make_pair(x, y); } int p = r.range(0, m->w * m->h - 1); m->cells[p] = 0; m->put(); return std::make_pair(p % m->w, p / m->w); };
        auto a = cell(), b = cell(); if (r.chance(5)) b = a;
        if (r.chance(3)) a = std::make_pair(r.chance(50) ? -1 : m->w, r.range(0, m->h - 1));
        if (r.chance(3)) b = std::make_pair(r.range(0, m->w - 1), r.chance(50) ? -1 : m->h);
        double f = r.chance(40) ? r.range(0, 15) / 16.0 : 0, g = r.chance(40) ? r.range(0, 15) / 16.0 : 0;
        Pose2d from(a.first + f, a.second + g, r.range(-6, 6) * 0.5), to(b.first + g, b.second + f, r.range(-6, 6) * 0.5);
        int mode = r.range(0, 3); long calls = 0, limit = mode == 3 ? r.range(1, 12) : -1; bool threw = false, stopped = false;
        typename S::PathT p;
        try {
            if (mode < 2) p = s->findPath(from, to);
            else p = s->findPath(from, to, boost::function<void()>([&] { if (++calls == limit) throw Stop(); }));
        } catch (const Stop &) { stopped = true; } catch (const std::exception &) { threw = true; }
        j.obj().kv("w", m->w).kv("h", m->h).kvec("cells", m->cells).kvec("a", Ints{a.first, a.second}).kvec("b", Ints{b.first, b.second}).kv("threw", threw).kv("stopped", stopped).kv("called", calls > 0).kv("cb", mode >= 2);
        j.key("path").arr(); for (auto &n : p) j.arr().v((long long)std::floor(n.x)).v((long long)std::floor(n.y)).v(value(n.distance)).enda(); j.enda();
        j.key("field").arr(); if (!threw && !stopped) for (int y = 0; y < m->h; ++y) for (int x = 0; x < m->w; ++x) j.v(value(s->getMapManager().lookup(x, y)->distance)); j.enda().end();
        if (r.chance(5)) { s.reset(new S); s->setMap(m->m.get()); }
    }
    j.enda();
}
// a map too large to be listed, within a closed border so that it does not matter whether the outermost cells may be passed
template <class S> static void wide(Ctx &c) {
    Rng &r = c.rng; J &j = c.j;
    Walls v(r, c.i, c.thorough); bool t = v.turned;
    double res = r.pick(std::vector<double>{1, 0.5, 0.05});
    SimpleGridMap2d in(v.mapw(), v.maph(), res), m(v.mapw() + 2, v.maph() + 2, res); m.setLowerThreshold(50); m.setUpperThreshold(200); m.setNoInformationValue(-1);
    in.set((uint8_t)10); v.build(in, 230); m.set((uint8_t)230);
    for (int y = 0; y < v.maph(); ++y) for (int x = 0; x < v.mapw(); ++x) m.setValue(x + 1, y + 1, in.getValue(x, y));
    v.json(j); j.key("qs").arr();
    S s; s.setMap(&m);
    auto val = [](double d) { return d > 1e9 ? 2000000000LL : fx(d, 1e4); };
    for (int k = 0; k < 2; ++k) {
        int sx, sy, gx, gy; v.ends(r, sx, sy, gx, gy);
        auto P = [&](int x, int y) { return Pose2d((t ? y : x) + 1, (t ? x : y) + 1, 0); };
        auto p = s.findPath(P(sx, sy), P(gx, gy));
        j.obj().kvec("a", Ints{sx, sy}).kvec("b", Ints{gx, gy}).key("path").arr();
        for (auto &n : p) { int x = (int)std::floor(n.x) - 1, y = (int)std::floor(n.y) - 1; j.arr().v(t ? y : x).v(t ? x : y).v(val(n.distance)).enda(); }
        j.enda().key("field").arr();
        for (int q = 0; q < 250; ++q) {
            int x, y; v.any(r, 2, x, y); auto w = P(x, y);
            j.arr().v(x).v(y).v(val(s.getMapManager().lookup((int)w.x, (int)w.y)->distance)).enda();
        }
        j.enda().end();
    }
    j.enda();
}
typedef DistanceTransformationSearch<Par<NoHeuristic>> Plain;
typedef DistanceTransformationSearch<Par<HeuristicL2>> WithL2;
static void small(Ctx &c) { if (c.rng.chance(50)) run<Plain>(c, 6); else run<WithL2>(c, 6); }
static void large(Ctx &c) { if (c.rng.chance(50)) run<Plain>(c, c.thorough ? 22 : 15); else run<WithL2>(c, c.thorough ? 22 : 15); }
static void vast(Ctx &c) { if (c.rng.chance(50)) wide<Plain>(c); else wide<WithL2>(c); }
int main(int argc, char **argv) { return run_main(argc, argv, {{"small", 500, 4000, small}, {"large", 80, 600, large}, {"vast", 16, 160, vast}}); }
