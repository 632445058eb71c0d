// Planar grid searches: real Dijkstra / A* instances of the library, driven through their public interface.
#include "common.hpp"
#include "walls.hpp"
#include <cslibs_navigation_utilities/MathHelper.h>
#include <boost/function.hpp>
#include <boost/thread.hpp>
#include <chrono>
#include <future>
#include <queue>
#include <set>
#include <stack>
#include <tuple>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/generic/Common.hpp>
#include <cslibs_path_planning/generic/SearchAlgorithm.hpp>
#include <cslibs_path_planning/generic/Heuristics.hpp>
#include <cslibs_path_planning/generic/MapManager.hpp>
#include <cslibs_path_planning/generic/NodeManager.hpp>
#include <cslibs_path_planning/generic/DirectNeighborhood.hpp>
#include <cslibs_path_planning/generic/Algorithms.hpp>
using namespace vf;
using namespace lib_path;

struct NodeRec { int x, y; double g; };
struct Event { int kind; int x, y; double g, f; };   // kind: 0 add, 1 serve, 3 goal test, 4 candidate callback, 5 progress callback
typedef std::vector<NodeRec> NPath;

struct Outcome { int code = 0; NPath path; };   // 0 returned, 1 start outside, 2 start not free, 3 goal outside, 4 goal not free, 5 other exception, 6 our own exception

struct Abort : std::exception {};

static std::vector<Event> *g_events = nullptr;

struct IAlgo {
    virtual ~IAlgo() {}
    virtual void setMap(const GridMap2d *m) = 0;
    virtual Outcome find(const Pose2d &a, const Pose2d &b, double oversearch, int mode, std::function<void()> cb) = 0;
    virtual Outcome findTest(const Pose2d &a, bool hgoal, const Pose2d &hg, std::function<bool(int, int)> test, std::function<double(int, int)> candcost) = 0;
    virtual void setCandidateCallback(std::function<bool(const NPath &)>) = 0;
    virtual std::vector<NPath> candidates() = 0;
    virtual void setTimeLimit(double) = 0;
    virtual int expansions() = 0;
    virtual int touched() = 0;
};

template <class S>
struct AlgoT : IAlgo {
    typedef typename S::NodeT NodeT;
    S s;
    static void hook(int kind, const void *e) {
        if (!g_events) return;
        const NodeT *n = (const NodeT *)e;
        if (kind == 1 && g_events->empty()) return; // emptying the open list before the search
        g_events->push_back({kind, (int)std::floor(n->x), (int)std::floor(n->y), n->distance, n->getTotalCost()});
    }
    static NPath conv(const typename S::PathT &p) { NPath r; for (auto const &n : p) r.push_back({(int)n.x, (int)n.y, n.distance}); return r; }
    void setMap(const GridMap2d *m) override { s.setMap(m); }
    template <class F> Outcome guarded(F f) {
        Outcome o;
        if (g_events) g_events->clear();
        ShimQueue::hook() = &hook;
        try { o.path = conv(f()); }
        catch (const typename S::StartOutOfMapException &) { o.code = 1; }
        catch (const typename S::StartNotFreeException &) { o.code = 2; }
        catch (const typename S::GoalOutOfMapException &) { o.code = 3; }
        catch (const typename S::GoalNotFreeException &) { o.code = 4; }
        catch (const Abort &) { o.code = 6; }
        catch (const boost::thread_interrupted &) { o.code = 7; }
        catch (const std::exception &) { o.code = 5; }
        ShimQueue::hook() = nullptr;
        return o;
    }
    Outcome find(const Pose2d &a, const Pose2d &b, double over, int mode, std::function<void()> cb) override {
        SearchOptions so; so.oversearch_distance = over;
        return guarded([&] {
            if (mode == 0) return s.findPath(a, b, so);
            return s.findPath(a, b, boost::function<void()>(cb), so);
        });
    }
    struct Test {
        AlgoT *self; bool hg; Pose2d goal; std::function<bool(int, int)> *t; std::function<double(int, int)> *c;
        const Pose2d *getHeuristicGoal() const { return hg ? &goal : nullptr; }
        bool terminate(const NodeT *n) const {
            if (g_events) g_events->push_back({3, (int)n->x, (int)n->y, n->distance, n->getTotalCost()});
            if (!(*t)((int)n->x, (int)n->y)) return false;
            double w = (*c)((int)n->x, (int)n->y);
            if (w >= 0) self->s.addGoalCandidate(n, w);   // a test may also just end the search
            return true;
        }
    };
    Outcome findTest(const Pose2d &a, bool hgoal, const Pose2d &hg, std::function<bool(int, int)> test, std::function<double(int, int)> cc) override {
        Test t{this, hgoal, hg, &test, &cc};
        SearchOptions so;
        return guarded([&] { return s.findPath(a, t, so); });
    }
    void setCandidateCallback(std::function<bool(const NPath &)> f) override {
        if (!f) { s.setPathCandidateCallback(std::function<bool(const typename S::PathT &)>()); return; }
        s.setPathCandidateCallback([f](const typename S::PathT &p) { return f(conv(p)); });
    }
    std::vector<NPath> candidates() override { std::vector<NPath> r; for (auto const &p : s.getPathCandidates()) r.push_back(conv(p)); return r; }
    void setTimeLimit(double t) override { s.setTimeLimit(t); }
    int expansions() override { return s.getExpansions(); }
    int touched() override { return s.getTouchedNodes(); }
};

// heuristic: 0 none, 1 L2, 2 L1, 3 LInf.  Progress callback every 2 steps (interval 2, phase 0).
struct Kind { int h, n, d; IAlgo *(*make)(); };
template <class S> static IAlgo *mk() { return new AlgoT<S>(); }
#define NB(n, d) DirectNeighborhood<n, d>
#define ALG(A, n, d) mk<A<NB(n, d), NoExpansion, Pose2d, GridMap2d, 1, 0>>
static const std::vector<Kind> KINDS = {
    {0, 4, 1, ALG(DijkstraSearch, 4, 1)}, {0, 8, 1, ALG(DijkstraSearch, 8, 1)},
    {1, 4, 1, ALG(AStar2dSearch, 4, 1)},  {1, 8, 1, ALG(AStar2dSearch, 8, 1)},
    {2, 4, 1, ALG(AStar2dTaxiSearch, 4, 1)}, {2, 8, 1, ALG(AStar2dTaxiSearch, 8, 1)},
    {3, 4, 1, ALG(AStar2dInfSearch, 4, 1)}, {3, 8, 1, ALG(AStar2dInfSearch, 8, 1)},
    {0, 8, 2, ALG(DijkstraSearch, 8, 2)}, {1, 8, 2, ALG(AStar2dSearch, 8, 2)}, {2, 4, 2, ALG(AStar2dTaxiSearch, 4, 2)},
    {3, 8, 2, ALG(AStar2dInfSearch, 8, 2)}, {1, 4, 3, ALG(AStar2dSearch, 4, 3)},
};

struct Map {
    SimpleGridMap2d m; std::vector<int> cells; // 0 free, 1 occupied, 2 unknown
    Map(int w, int h, double res) : m(w, h, res), cells(w * h, 0) { m.setLowerThreshold(50); m.setUpperThreshold(200); put(); }
    void put() { for (size_t i = 0; i < cells.size(); ++i) m.setValue(i % m.getWidth(), i / m.getWidth(), val(cells[i])); }
    static uint8_t val(int c) { return c == 0 ? 3 : c == 1 ? 250 : 100; }
    void set(int i, int c) { cells[i] = c; m.setValue(i % m.getWidth(), i / m.getWidth(), val(c)); }
    void json(J &j) { j.obj().kv("w", (int)m.getWidth()).kv("h", (int)m.getHeight()).kvec("cells", cells).end(); }
};
static const double RES[] = {1.0, 0.5, 0.05, 0.1, 2.0, 0.07};

static void randomize(Rng &r, Map &m, int style) {
    int w = m.m.getWidth(), h = m.m.getHeight();
    int occ = r.range(0, 55), unk = r.chance(30) ? r.range(0, 30) : 0;
    for (auto &c : m.cells) c = r.chance(occ) ? 1 : (r.chance(unk) ? 2 : 0);
    if (style == 1) { // serpentine walls: long detours
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.cells[y * w + x] = 0;
        for (int y = 1; y < h; y += 2) for (int x = 0; x < w; ++x) if ((y / 2) % 2 == 0 ? x < w - 1 : x > 0) m.cells[y * w + x] = 1;
        for (int k = r.range(0, 3); k > 0; --k) m.cells[r.range(0, w * h - 1)] = r.range(0, 2);
    } else if (style == 2) { // a cup in front of the goal
        std::fill(m.cells.begin(), m.cells.end(), 0);
        int x0 = r.range(0, w - 1), y0 = r.range(0, h - 1), s = r.range(1, 4);
        for (int k = -s; k <= s; ++k) {
            auto put = [&](int x, int y) { if (x >= 0 && y >= 0 && x < w && y < h) m.cells[y * w + x] = 1; };
            put(x0 + k, y0 + s); put(x0 - s, y0 + k); put(x0 + s, y0 + k);
        }
    }
    m.put();
}
static int g_ox = 0, g_oy = 0; // the window of the map that is recorded begins here
static void path_json(J &j, const NPath &p, double res) {
    j.arr();
    for (auto const &n : p) j.arr().v(n.x - g_ox).v(n.y - g_oy).v(fx(n.g / res, 100000)).enda();
    j.enda();
}
static Pose2d pose16(int x16, int y16, double t = 0) { return Pose2d(x16 / 16.0 + g_ox, y16 / 16.0 + g_oy, t); }
static void tie(Ctx &c) { ShimQueue::tie() = c.rng.range(0, 2); ShimQueue::rng() = c.rng.next() | 1; }
static void header(Ctx &c, const Kind &k, double res) { c.j.key("alg").arr().v(k.h).v(k.n).v(k.d).v(fx(res, 100000)).enda(); }

// op = ["q", sx16, sy16, gx16, gy16, code, path, expansions, served, touched, added]
static void query(J &j, IAlgo &a, double res, int sx, int sy, int gx, int gy, bool progress, double st = 0, double gt = 0) {
    std::vector<Event> ev; g_events = &ev;
    Outcome o = a.find(pose16(sx, sy, st), pose16(gx, gy, gt), 0.0, progress ? 1 : 0, [] {});
    g_events = nullptr;
    int served = 0, added = 0; for (auto &e : ev) { served += e.kind == 1; added += e.kind == 0; }
    j.arr().v("q").v(sx).v(sy).v(gx).v(gy).v(o.code); path_json(j, o.path, res);
    j.v(a.expansions()).v(served).v(a.touched()).v(added).enda();
}
// op = ["o", sx16, sy16, gx16, gy16, code, path, oversearch distance (10^-5 cells)]
static void over_query(J &j, IAlgo &a, double res, int sx, int sy, int gx, int gy, int tenths) {
    Outcome o = a.find(pose16(sx, sy), pose16(gx, gy), tenths / 10.0 * res, 0, [] {});
    j.arr().v("o").v(sx).v(sy).v(gx).v(gy).v(o.code); path_json(j, o.path, res);
    j.v(tenths * 10000).enda();
}
// a search in a thread of its own that is interrupted at a callback (or before it begins)
static Outcome interrupted(IAlgo &a, const Pose2d &s, const Pose2d &g, int after, int &calls) {
    Outcome o; boost::thread t; std::promise<void> ready;
    t = boost::thread([&] {
        ready.get_future().wait();
        o = a.find(s, g, 0, 1, [&] { if (g_events) g_events->push_back({5, 0, 0, 0, 0}); if (calls++ == after) t.interrupt(); });
    });
    if (after < 0) t.interrupt();
    ready.set_value(); t.join();
    return o;
}
static int anypos(Rng &r, int n) { // cell position in 16ths, mostly centres of cells in the map
    int c = r.range(0, n - 1) * 16;
    return r.chance(60) ? c : c + r.range(0, 15);
}

// every map of 3x3 cells (or w x h), all starts and goals
static void exhaustive(Ctx &c) {
    tie(c);
    int w = 3, h = 3;
    if (c.i >= 512 * 13) { w = 4; h = 3; }
    int idx = c.i >= 512 * 13 ? c.i - 512 * 13 : c.i % 512;
    // quick: every map with four of the kinds; thorough: with all of them, and the 4x3 maps
    const Kind &k = c.i < 512 * 13 ? KINDS[(c.thorough ? c.i / 512 : (c.i / 512) * 3 + idx % 3) % 13] : c.rng.pick(KINDS);
    double res = RES[c.rng.range(0, 5)];
    Map m(w, h, res);
    for (int b = 0; b < w * h; ++b) m.cells[b] = (idx >> b) & 1;
    m.put();
    header(c, k, res);
    c.j.key("maps").arr(); m.json(c.j); c.j.enda();
    std::unique_ptr<IAlgo> a(k.make());
    c.j.key("ops").arr().arr().v("m").v(1).enda();
    a->setMap(&m.m);
    for (int s = 0; s < w * h; ++s) {
        if (m.cells[s]) continue;
        for (int g = 0; g < w * h; ++g) if (!m.cells[g]) { a->setMap(&m.m); query(c.j, *a, res, s % w * 16, s / w * 16, g % w * 16, g / w * 16, false); }
    }
    c.j.enda();
}
static void random_map(Ctx &c, int lo, int hi, int nq) {
    tie(c);
    Rng &r = c.rng;
    const Kind &k = r.chance(70) ? KINDS[r.range(0, 7)] : r.pick(KINDS);
    double res = RES[r.range(0, 5)];
    Map m(r.range(lo, hi), r.range(lo, hi), res);
    randomize(r, m, r.chance(60) ? 0 : r.range(1, 2));
    header(c, k, res);
    c.j.key("maps").arr(); m.json(c.j); c.j.enda();
    std::unique_ptr<IAlgo> a(k.make());
    c.j.key("ops").arr().arr().v("m").v(1).enda();
    a->setMap(&m.m);
    int w = m.m.getWidth(), h = m.m.getHeight();
    for (int q = 0; q < nq; ++q) {
        a->setMap(&m.m);
        int s = r.range(0, w * h - 1), g = r.range(0, w * h - 1);
        for (int t = 0; t < 20 && m.cells[s] == 1; ++t) s = r.range(0, w * h - 1);
        for (int t = 0; t < 20 && m.cells[g] == 1; ++t) g = r.range(0, w * h - 1);
        query(c.j, *a, res, s % w * 16 + (r.chance(30) ? r.range(0, 15) : 0), s / w * 16 + (r.chance(30) ? r.range(0, 15) : 0), g % w * 16, g / w * 16, r.chance(30));
    }
    c.j.enda();
}
// maps of many cells, all occupied but for a window: what lies within the window decides, and is what is recorded
static void huge_maps(Ctx &c) {
    tie(c);
    Rng &r = c.rng;
    const Kind &k = r.chance(70) ? KINDS[r.range(0, 7)] : r.pick(KINDS);
    double res = RES[r.range(0, 5)];
    static const int SIZES[][2] = {{300, 260}, {260, 300}, {70000, 1}, {1, 70000}, {2000, 40}, {33, 2100}, {520, 140}, {12000, 9}, {1030, 70}, {32768, 4}, {16384, 8}, {8192, 12}, {65536, 2}, {256, 260}};
    int z = r.range(0, 13), W = SIZES[z][0] + (z < 9 ? r.range(0, 9) : 0) /* of the latter, cells of one window are a power of two apart */, H = SIZES[z][1] + r.range(0, 3), w = std::min(W, r.range(4, 14)), h = std::min(H, r.range(4, 14));
    SimpleGridMap2d m(W, H, res); m.setLowerThreshold(50); m.setUpperThreshold(200);
    m.set((uint8_t)250);
    auto place = [&](int n, int s) { return std::max(0, std::min(n - s, r.chance(20) ? n - s : r.chance(30) ? r.pick(std::vector<int>{256, 128, 32768, 65536, 512, 1024}) - r.range(0, s) : r.range(0, n - s))); };
    int ox = place(W, w), oy = place(H, h);
    if (r.chance(30)) { // around the cell with a certain number
        int at = r.pick(std::vector<int>{32768, 65536, 65536, 16384}); ox = std::max(0, std::min(W - w, at % W - w / 2)); oy = std::max(0, std::min(H - h, at / W - h / 2)); }
    Map win(w, h, res);
    for (int q = 0; q < 4; ++q) { randomize(r, win, r.chance(60) ? 0 : r.range(1, 2)); if (std::count(win.cells.begin(), win.cells.end(), 0) > w * h / 3) break; }
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.setValue(ox + x, oy + y, Map::val(win.cells[y * w + x]));
    header(c, k, res);
    c.j.key("maps").arr(); win.json(c.j); c.j.enda();
    std::unique_ptr<IAlgo> a(k.make());
    c.j.key("ops").arr().arr().v("m").v(1).enda();
    a->setMap(&m);
    g_ox = ox; g_oy = oy;
    for (int q = 0; q < 4; ++q) {
        int s = r.range(0, w * h - 1), g = r.range(0, w * h - 1);
        for (int t = 0; t < 20 && win.cells[s] == 1; ++t) s = r.range(0, w * h - 1);
        for (int t = 0; t < 20 && win.cells[g] == 1; ++t) g = r.range(0, w * h - 1);
        query(c.j, *a, res, s % w * 16 + (r.chance(30) ? r.range(0, 15) : 0), s / w * 16 + (r.chance(30) ? r.range(0, 15) : 0), g % w * 16, g / w * 16, r.chance(30));
    }
    g_ox = g_oy = 0;
    c.j.enda();
}
static void small_maps(Ctx &c) { random_map(c, 1, 9, 3); }
static void large_maps(Ctx &c) { random_map(c, 16, 30, 2); }

static void vast(Ctx &c) {
    tie(c); if (ShimQueue::tie() == 2) ShimQueue::tie() = 0;
    Rng &r = c.rng;
    const Kind &k = KINDS[r.range(0, 7)];
    double res = RES[r.range(0, 5)];
    Walls v(r, c.i, c.thorough); bool turned = v.turned;
    SimpleGridMap2d m(v.mapw(), v.maph(), res); m.setLowerThreshold(50); m.setUpperThreshold(200); m.set((uint8_t)3);
    v.build(m, 250);
    header(c, k, res); v.json(c.j);
    std::unique_ptr<IAlgo> a(k.make()); a->setMap(&m);
    c.j.key("ops").arr();
    for (int q = 0, n = 3; q < n; ++q) {
        int sx, sy, gx, gy; v.ends(r, sx, sy, gx, gy);
        if (q && r.chance(50)) a->setMap(&m);
        std::vector<Event> ev; bool watch = r.chance(30); if (watch) g_events = &ev;
        Outcome o = turned ? a->find(pose16(sy * 16, sx * 16), pose16(gy * 16, gx * 16), 0, 0, [] {}) : a->find(pose16(sx * 16, sy * 16), pose16(gx * 16, gy * 16), 0, 0, [] {});
        g_events = nullptr;
        int served = -1; if (watch) { served = 0; for (auto &x : ev) served += x.kind == 1; }
        c.j.arr().v(sx).v(sy).v(gx).v(gy).v(o.code).arr();
        for (auto &n : o.path) c.j.arr().v(turned ? n.y : n.x).v(turned ? n.x : n.y).v(fx(n.g / res, 10000)).enda();
        c.j.enda().v(a->expansions()).v(served).enda();
    }
    c.j.enda();
}
// very many searches with one object; only some of them are recorded
static void many(Ctx &c) {
    tie(c);
    Rng &r = c.rng;
    const Kind &k = KINDS[r.range(0, 7)];
    double res = RES[r.range(0, 5)];
    Map m(r.range(3, 8), r.range(3, 8), res); randomize(r, m, r.chance(50) ? 0 : 1);
    int w = m.m.getWidth(), h = m.m.getHeight();
    m.set(0, 0);
    header(c, k, res);
    c.j.key("maps").arr(); m.json(c.j); c.j.enda();
    std::unique_ptr<IAlgo> a(k.make());
    c.j.key("ops").arr().arr().v("m").v(1).enda();
    a->setMap(&m.m);
    auto some = [&](int n) { // of which the trivial ones touch a cell or two only
        bool trivial = r.chance(70); int at = r.range(0, w * h - 1); for (int t = 0; t < 20 && m.cells[at]; ++t) at = r.range(0, w * h - 1);
        for (int q = 0; q < n; ++q) {
            int s = trivial ? at : r.range(0, w * h - 1), g = trivial ? at : r.range(0, w * h - 1);
            a->find(pose16(s % w * 16, s / w * 16), pose16(g % w * 16, g / w * 16), 0, 0, [] {});
        }
        c.j.arr().v("x").v(n).enda();
    };
    bool renew = r.chance(15);
    for (int round = 0; round < (c.i % 3 == 0 ? 2 : 5); ++round) {
        int s = r.range(0, w * h - 1), g = r.range(0, w * h - 1);
        for (int t = 0; t < 20 && m.cells[s] == 1; ++t) s = r.range(0, w * h - 1);
        for (int t = 0; t < 20 && m.cells[g] == 1; ++t) g = r.range(0, w * h - 1);
        query(c.j, *a, res, s % w * 16, s / w * 16, g % w * 16, g / w * 16, false);
        some((c.i % 3 == 0 ? round == 0 ? 65536 : 32768 : r.chance(20) ? r.range(1000, 5000) : r.pick(std::vector<int>{128, 256, 256, 512, 1024, 4096})) + r.pick(std::vector<int>{-2, -1, -1, -1, 0, 0, 1}));
        if (renew) { a->setMap(&m.m); c.j.arr().v("m").v(1).enda(); }
        if (r.chance(40)) std::swap(s, g);
        query(c.j, *a, res, s % w * 16, s / w * 16, g % w * 16, g / w * 16, false);
    }
    c.j.enda();
}
// op = ["d", answer, answer of a fresh object]; answer = [code, found, its cost, expansions]
static void same_query(J &j, IAlgo &a, const Kind &k, const Map &m, double res, std::function<Outcome(IAlgo &)> f) {
    int tie = ShimQueue::tie(); ShimQueue::tie() = tie == 2 ? 0 : tie;
    std::unique_ptr<IAlgo> b(k.make()); b->setMap(&m.m);
    j.arr().v("d");
    for (IAlgo *x : {&a, b.get()}) { Outcome o = f(*x); j.arr().v(o.code).v(!o.path.empty()).v(o.path.empty() ? 0LL : fx(o.path.back().g / res, 100000)).v(x->expansions()).enda(); }
    j.enda(); ShimQueue::tie() = tie;
}
static void special(Ctx &c, IAlgo &a, const Kind &k, const Map &m, double res) {
    Rng &r = c.rng; int w = m.m.getWidth(), h = m.m.getHeight(), s = r.range(0, w * h - 1), g = r.range(0, w * h - 1);
    Pose2d S = pose16(s % w * 16, s / w * 16), G = pose16(g % w * 16, g / w * 16);
    if (r.chance(60)) { // a goal test of its own, that may or may not propose a candidate
        std::vector<int> hit(w * h); int p = r.range(0, 40); for (auto &x : hit) x = r.chance(p);
        bool hg = r.chance(50), cand = r.chance(50);
        same_query(c.j, a, k, m, res, [&](IAlgo &x) { return x.findTest(S, hg, G, [&](int u, int v) { return hit[v * w + u] != 0; }, [&](int u, int v) { return cand ? (u * 7 + v * 3) % 5 : -1.0; }); });
    } else { // candidates are looked at, and one of them may be taken
        int take = r.range(0, 6); double over = r.range(1, 40) / 10.0 * res;
        same_query(c.j, a, k, m, res, [&](IAlgo &x) { int left = take; x.setCandidateCallback([&](const NPath &) { return left-- == 0; }); Outcome o = x.find(S, G, over, 0, [] {}); x.setCandidateCallback(nullptr); return o; });
    }
}
// histories: several maps of different sizes, in-place changes, aborted searches, no setMap between the searches
static void history(Ctx &c) {
    tie(c);
    Rng &r = c.rng;
    const Kind &k = r.chance(70) ? KINDS[r.range(0, 7)] : r.pick(KINDS);
    double res = RES[r.range(0, 5)];
    std::vector<std::unique_ptr<Map>> maps;
    int nm = r.range(1, 3);
    c.j.key("maps").arr();
    for (int i = 0; i < nm; ++i) {
        int w = r.range(2, 6), h = r.range(2, 6);
        if (i && r.chance(30)) { w = maps[0]->m.getWidth(); h = maps[0]->m.getHeight(); }
        if (i && r.chance(20)) { w = maps[0]->m.getHeight(); h = maps[0]->m.getWidth(); }
        maps.emplace_back(new Map(w, h, res)); randomize(r, *maps.back(), r.chance(70) ? 0 : r.range(1, 2));
        maps.back()->json(c.j);
    }
    c.j.enda();
    header(c, k, res);
    std::unique_ptr<IAlgo> a(k.make());
    int cur = r.range(0, nm - 1);
    c.j.key("ops").arr().arr().v("m").v(cur + 1).enda();
    a->setMap(&maps[cur]->m);
    int n = r.range(4, c.thorough ? 24 : 12);
    int ls = -1, lg = -1;
    for (int q = 0; q < n; ++q) {
        int what = r.range(0, 99);
        Map &m = *maps[cur]; int w = m.m.getWidth(), h = m.m.getHeight();
        if (what < 15) { int nx = r.range(0, nm - 1); cur = nx; a->setMap(&maps[cur]->m); c.j.arr().v("m").v(cur + 1).enda(); ls = -1; }
        else if (what < 30) { // the content of the current map changes
            int i = r.range(0, w * h - 1), v = r.range(0, 2); m.set(i, v); c.j.arr().v("c").v(cur + 1).v(i).v(v).enda();
            if (r.chance(50)) { a->setMap(&m.m); c.j.arr().v("m").v(cur + 1).enda(); }
        } else if (what < 45) { // a search that dies in a callback
            int s = r.range(0, w * h - 1), g = r.range(0, w * h - 1), left = r.range(0, 6);
            Outcome o;
            if (r.chance(50)) o = a->find(pose16(s % w * 16, s / w * 16), pose16(g % w * 16, g / w * 16), 0, 1, [&] { if (left-- <= 0) throw Abort(); });
            else if (r.chance(20)) { int calls = 0; o = interrupted(*a, pose16(s % w * 16, s / w * 16), pose16(g % w * 16, g / w * 16), left - 1, calls); }
            else {
                a->setCandidateCallback([&](const NPath &) -> bool { throw Abort(); });
                o = a->find(pose16(s % w * 16, s / w * 16), pose16(g % w * 16, g / w * 16), 2.0, 0, [] {});
                a->setCandidateCallback(nullptr);
            }
            c.j.arr().v("x").v(o.code).enda();
        } else if (what < 60) { // searches with other options
            int s = r.range(0, w * h - 1), g = r.range(0, w * h - 1);
            if (r.chance(50)) special(c, *a, k, m, res);
            else if (r.chance(80)) over_query(c.j, *a, res, s % w * 16, s / w * 16, g % w * 16, g / w * 16, r.chance(70) ? r.range(1, 20) : r.range(1, 80));
            else { Mute mute; a->setTimeLimit(1e-4); a->find(pose16(s % w * 16, s / w * 16), pose16(g % w * 16, g / w * 16), 0, 0, [] {}); a->setTimeLimit(-1); c.j.arr().v("x").v(0).enda(); }
        } else {
            int s = r.range(0, w * h - 1), g = r.range(0, w * h - 1);
            if (ls >= 0 && ls < w * h && lg < w * h && r.chance(40)) { if (r.chance(60)) { s = ls; g = lg; } else { s = lg; g = ls; } }
            ls = s; lg = g;
            query(c.j, *a, res, s % w * 16, s / w * 16, g % w * 16, g / w * 16, r.chance(30));
        }
    }
    c.j.enda();
}
// histories on maps in which a cell can be entered in some headings only: a planar search heads for 0 everywhere but at its goal
struct TurnMap : SimpleGridMap2d {
    std::vector<int> cells, alt; // class of each cell heading east, and heading elsewhere
    TurnMap(int w, int h, double res) : SimpleGridMap2d(w, h, res), cells(w * h, 0), alt(w * h, 0) { setLowerThreshold(50); setUpperThreshold(200); }
    int at(unsigned x, unsigned y, double t) const { int k = y * getWidth() + x; return std::fabs(t) < 0.5 ? cells[k] : alt[k]; }
    bool isFree(const unsigned x, const unsigned y, double t) const override { return at(x, y, t) == 0; }
    bool isOccupied(const unsigned x, const unsigned y, double t) const override { return at(x, y, t) == 1; }
    bool isNoInformation(const unsigned x, const unsigned y, double t) const override { return at(x, y, t) == 2; }
};
static void turning(Ctx &c) {
    tie(c);
    Rng &r = c.rng;
    const Kind &k = r.chance(70) ? KINDS[r.range(0, 7)] : r.pick(KINDS);
    double res = RES[r.range(0, 5)];
    std::vector<std::unique_ptr<TurnMap>> maps;
    int nm = r.range(1, 2);
    c.j.key("maps").arr();
    for (int i = 0; i < nm; ++i) {
        int w = r.range(2, 7), h = r.range(1, 5);
        if (i && r.chance(60)) { w = maps[0]->getWidth(); h = maps[0]->getHeight(); }
        maps.emplace_back(new TurnMap(w, h, res)); TurnMap &m = *maps.back();
        int occ = r.range(0, 40), unk = r.range(0, 30), turn = r.range(10, 70);
        for (int q = 0; q < w * h; ++q) { m.cells[q] = r.chance(occ) ? 1 : r.chance(unk) ? 2 : 0; m.alt[q] = m.cells[q] == 1 ? 1 : r.chance(turn) ? 2 : 0; }
        c.j.obj().kv("w", w).kv("h", h).kvec("cells", m.cells).end();
    }
    c.j.enda();
    header(c, k, res);
    std::unique_ptr<IAlgo> a(k.make());
    int cur = r.range(0, nm - 1);
    c.j.key("ops").arr().arr().v("m").v(cur + 1).enda();
    a->setMap(maps[cur].get());
    for (int q = r.range(3, c.thorough ? 16 : 9); q > 0; --q) {
        if (nm > 1 && r.chance(20)) { cur = 1 - cur; a->setMap(maps[cur].get()); c.j.arr().v("m").v(cur + 1).enda(); }
        TurnMap &m = *maps[cur]; int w = m.getWidth(), h = m.getHeight();
        int s = r.range(0, w * h - 1), g = r.range(0, w * h - 1); if (s == g) g = (g + 1) % (w * h);
        if (s == g) continue;
        double st = r.pick(std::vector<double>{0, 0, 1.5, 3, -2}), gt = r.pick(std::vector<double>{0, 1.5, 3, -1});
        int v = gt == 0 ? m.cells[g] : m.alt[g];
        c.j.arr().v("c").v(cur + 1).v(g).v(v).enda();
        query(c.j, *a, res, s % w * 16, s / w * 16, g % w * 16, g / w * 16, r.chance(30), st, gt);
        c.j.arr().v("c").v(cur + 1).v(g).v(m.cells[g]).enda();
    }
    c.j.enda();
}
// replays a history printed by GridHistGen
static void replay(Ctx &c) {
    tie(c);
    const Kind &k = KINDS[c.i % 12];
    double res = RES[c.rng.range(0, 5)];
    std::unique_ptr<Map> maps[2] = {std::unique_ptr<Map>(new Map(3, 2, res)), std::unique_ptr<Map>(new Map(2, 4, res))};
    maps[0]->cells = {0, 1, 0, 0, 0, 0}; maps[0]->put();
    maps[1]->cells = {0, 0, 1, 0, 0, 0, 0, 1}; maps[1]->put();
    c.j.key("maps").arr(); maps[0]->json(c.j); maps[1]->json(c.j); c.j.enda();
    header(c, k, res);
    std::unique_ptr<IAlgo> a(k.make());
    int cur = 0;
    c.j.key("ops").arr().arr().v("m").v(1).enda();
    a->setMap(&maps[0]->m);
    std::istringstream in(c.script);
    std::string op;
    while (in >> op) {
        Map &m = *maps[cur]; int w = m.m.getWidth();
        auto P = [&](int i) { return pose16(i % w * 16, i / w * 16); };
        if (op == "M") { int n; in >> n; cur = n - 1; a->setMap(&maps[cur]->m); c.j.arr().v("m").v(n).enda(); }
        else if (op == "C") { int n, i; in >> n >> i; int v = maps[n - 1]->cells[i] ? 0 : 1; maps[n - 1]->set(i, v); c.j.arr().v("c").v(n).v(i).v(v).enda(); }
        else if (op == "X") { int left; in >> left; Outcome o = a->find(P(0), P(5), 0, 1, [&] { if (left-- <= 0) throw Abort(); }); c.j.arr().v("x").v(o.code).enda(); }
        else if (op == "O") { int s, g, t; in >> s >> g >> t; over_query(c.j, *a, res, s % w * 16, s / w * 16, g % w * 16, g / w * 16, t); }
        else if (op == "T") { Mute mute; a->setTimeLimit(1e-5); Outcome o = a->find(P(5), P(0), 0, 0, [] {}); a->setTimeLimit(-1); c.j.arr().v("x").v(o.code).enda(); }
        else { int s, g; in >> s >> g; query(c.j, *a, res, s % w * 16, s / w * 16, g % w * 16, g / w * 16, false); }
    }
    c.j.enda();
}
// endpoints anywhere
static void endpoints(Ctx &c) {
    tie(c);
    Rng &r = c.rng;
    const Kind &k = r.pick(KINDS);
    double res = RES[r.range(0, 5)];
    Map m(r.range(1, 5), r.range(1, 5), res); randomize(r, m, 0);
    header(c, k, res);
    c.j.key("maps").arr(); m.json(c.j); c.j.enda();
    std::unique_ptr<IAlgo> a(k.make());
    c.j.key("ops").arr().arr().v("m").v(1).enda(); a->setMap(&m.m);
    int w = m.m.getWidth(), h = m.m.getHeight();
    for (int q = 0; q < 12; ++q) {
        auto any = [&](int n) {
            switch (r.range(0, 9)) {
            case 0: return -r.range(1, 15);            // in the unit left of the map
            case 1: return -16 * r.range(1, 3);
            case 2: return 16 * n;                      // just right of the map
            case 3: return 16 * n - r.range(0, 1);
            case 4: return 16 * n + r.range(0, 100);
            case 5: return r.chance(20) ? (r.chance(50) ? 1 : -1) * 16 * 100000 : 0;
            default: return r.range(0, 16 * n - 1);
            }
        };
        auto in = [&](int n) { return r.range(0, 16 * n - 1); };
        bool so = r.chance(40), go = r.chance(40);
        query(c.j, *a, res, so ? any(w) : in(w), so ? any(h) : in(h), go ? any(w) : in(w), go ? any(h) : in(h), r.chance(30));
    }
    c.j.enda();
}
// event level: everything the open list sees
static void ev_json(J &j, const std::vector<Event> &ev, double res) {
    j.arr();
    for (auto const &e : ev) j.arr().v(e.kind).v(e.x).v(e.y).v(fx(e.g / res, 100000)).v(fx(e.f / res, 100000)).enda();
    j.enda();
}
static void events(Ctx &c) {
    tie(c);
    Rng &r = c.rng;
    const Kind &k = r.chance(70) ? KINDS[r.range(0, 7)] : r.pick(KINDS);
    double res = RES[r.range(0, 5)];
    int hi = c.thorough ? 12 : 8;
    Map m(r.range(1, hi), r.range(1, hi), res); randomize(r, m, r.chance(60) ? 0 : r.range(1, 2));
    header(c, k, res);
    c.j.key("map"); m.json(c.j);
    int w = m.m.getWidth(), h = m.m.getHeight();
    int s = r.range(0, w * h - 1), g = r.range(0, w * h - 1);
    m.set(s, r.chance(90) ? 0 : 2); m.set(g, r.chance(90) ? 0 : 2);
    c.j.s.clear(); c.j.first.assign(1, true); c.j.obj().kv("k", "ev").kv("i", c.i); // the cells changed: start the record again
    header(c, k, res); c.j.key("map"); m.json(c.j);
    std::unique_ptr<IAlgo> a(k.make()); a->setMap(&m.m);
    std::vector<Event> ev; g_events = &ev;
    Outcome o = a->find(pose16(s % w * 16, s / w * 16), pose16(g % w * 16, g / w * 16), 0, 0, [] {});
    g_events = nullptr;
    c.j.kv("s", s).kv("g", g).kv("code", o.code).key("ev"); ev_json(c.j, ev, res);
    c.j.key("path"); path_json(c.j, o.path, res);
}
// P06: oversearch, candidates, goal tests, time limits
static void options(Ctx &c) {
    tie(c);
    Rng &r = c.rng;
    const Kind &k = KINDS[r.range(0, 11)];
    double res = RES[r.range(0, 5)];
    Map m(r.range(2, 8), r.range(2, 8), res); randomize(r, m, r.chance(60) ? 0 : r.range(1, 2));
    int w = m.m.getWidth(), h = m.m.getHeight();
    int s = r.range(0, w * h - 1), g = r.range(0, w * h - 1);
    m.set(s, 0); if (m.cells[g] == 1) m.set(g, 0);
    header(c, k, res); c.j.key("map"); m.json(c.j);
    std::unique_ptr<IAlgo> a(k.make()); a->setMap(&m.m);
    c.j.kv("s", s).kv("g", g);
    std::vector<Event> ev;
    int mode = r.range(0, 4); // 0/1 oversearch without/with callback, 2 goal test, 3 time limit, 4 interruption
    c.j.kv("mode", mode);
    Outcome o; std::vector<NPath> seen;
    if (mode <= 1) {
        int over5 = r.chance(20) ? 100000000 : r.range(1, 60) * 10000; // oversearch in 1e-5 cells
        int accept = mode == 1 ? r.range(0, 6) : -1; // 0 = never
        int calls = 0;
        if (mode == 1) a->setCandidateCallback([&](const NPath &p) { ++calls; seen.push_back(p); g_events->push_back({4, p.empty() ? -1 : p.back().x, p.empty() ? -1 : p.back().y, 0, 0}); return calls == accept; });
        g_events = &ev;
        o = a->find(pose16(s % w * 16, s / w * 16), pose16(g % w * 16, g / w * 16), over5 / 100000.0 * res, 0, [] {});
        g_events = nullptr;
        c.j.kv("over", over5).kv("accept", accept).kv("calls", calls);
    } else if (mode == 2) {
        std::set<int> goals; for (int n = r.range(0, 4); n > 0; --n) goals.insert(r.range(0, w * h - 1));
        bool hg = r.chance(60);
        g_events = &ev;
        o = a->findTest(pose16(s % w * 16, s / w * 16), hg, pose16(g % w * 16, g / w * 16), [&](int x, int y) { return goals.count(y * w + x) > 0; }, [](int, int) { return 1.0; });
        g_events = nullptr;
        c.j.kvec("goals", goals);
    } else if (mode == 4) {
        int after = r.range(-1, 12), calls = 0;
        g_events = &ev;
        o = interrupted(*a, pose16(s % w * 16, s / w * 16), pose16(g % w * 16, g / w * 16), after, calls);
        g_events = nullptr;
        c.j.kv("after", after).kv("calls", calls);
    } else {
        int lim = r.range(0, 3); // 0: used up, 1: never reached, 2: unset again, 3: zero = none
        a->setTimeLimit(lim == 0 ? 1e-5 * r.range(1, 90) : lim == 1 ? 100000.0 : lim == 2 ? 1e-5 : 0.0);
        if (lim == 2) a->setTimeLimit(-1.0);
        Mute mute; g_events = &ev;
        o = a->find(pose16(s % w * 16, s / w * 16), pose16(g % w * 16, g / w * 16), 0, 0, [] {});
        g_events = nullptr;
        c.j.kv("limit", lim);
    }
    c.j.kv("code", o.code).key("ev"); ev_json(c.j, ev, res);
    c.j.key("path"); path_json(c.j, o.path, res);
    c.j.key("cands").arr(); if (mode <= 1) for (auto const &p : a->candidates()) path_json(c.j, p, res); c.j.enda();
    c.j.key("seen").arr(); for (auto const &p : seen) path_json(c.j, p, res); c.j.enda();
}
int main(int argc, char **argv) {
    return run_main(argc, argv, {{"ex", 2048, 512 * 13 + 4096, exhaustive}, {"small", 5000, 100000, small_maps}, {"large", 80, 2000, large_maps}, {"huge", 60, 1000, huge_maps}, {"vast", 40, 500, vast}, {"many", 45, 600, many},
                                 {"hist", 5000, 100000, history}, {"histturn", 2500, 40000, turning}, {"histspec", -1, -1, replay}, {"ends", 3000, 60000, endpoints},
                                 {"ev", 1500, 30000, events}, {"opt", 6000, 100000, options}});
}
