// Analytic expansion: when a search asks for one, what it makes of it, and the Reeds-Shepp expansion itself.
#include "common.hpp"
#include <cslibs_navigation_utilities/MathHelper.h>
#include <boost/function.hpp>
#include <boost/thread.hpp>
#include <chrono>
#include <memory>
#include <queue>
#include <set>
#include <stack>
#include <tuple>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/generic/Common.hpp>
#include <cslibs_path_planning/generic/SearchAlgorithm.hpp>
#include <cslibs_path_planning/generic/Heuristics.hpp>
#include <cslibs_path_planning/generic/MapManager.hpp>
#include <cslibs_path_planning/generic/NodeManager.hpp>
#include <cslibs_path_planning/generic/DirectNeighborhood.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp>
#include <cslibs_path_planning/generic/ReedsSheppExpansion.hpp>
#include <cslibs_path_planning/generic/Algorithms.hpp>
using namespace vf;
using namespace lib_path;
typedef std::vector<long long> Ints;
static const double L = 1e5, A = 1e7;
static Ints pose(const Pose2d &p) { return {fx(p.x, L), fx(p.y, L), fx(std::remainder(p.theta, 2 * M_PI), A)}; }
static void poses(J &j, const char *k, const std::vector<Pose2d> &v) { j.key(k).arr(); for (auto &p : v) j.vec(pose(p)); j.enda(); }

// ---------------------------------------------------------------- asking
struct Ask { long to; Pose2d at; bool yes, map; };
struct Entry { long id, pv; Pose2d p; };
struct Taken { long id; std::vector<Ask> asks; std::vector<Entry> adds; };
// what the search is told: yes at the ask of this number, with these poses
struct Script {
    static Script *&self() { static Script *s = nullptr; return s; }
    long yes = 0, asks = 0; int gets = 0; std::vector<Pose2d> tail; const void *map = nullptr;
    std::map<const void *, long> ids; std::vector<Entry> starts; std::vector<Taken> ops; std::function<void()> flush; long stray = 0;
    long id(const void *p) { if (!p) return 0; auto it = ids.find(p); if (it != ids.end()) return it->second; long k = ids.size() + 1; return ids[p] = k; }
    template <class T, class M> static bool canExpand(const T *s, const T *g, const M *m) {
        Script &me = *self(); me.flush(); ++me.asks;
        bool y = me.yes == me.asks;
        if (me.ops.empty() || me.ops.back().id != me.id(s)) { ++me.stray; return y; }
        me.ops.back().asks.push_back({me.id(g), *g, y, (const void *)m == me.map});
        return y;
    }
    template <class P> static void getPath(P *out) {
        Script &me = *self(); ++me.gets;
        for (auto &p : me.tail) { typename P::value_type n; P::value_type::init(n, p); n.theta = p.theta; out->push_back(n); }
    }
};
template <class S> static void ask(Ctx &c, S &s, GridMap2d &m, const Pose2d &a, const Pose2d &b, SearchOptions so, bool rev, bool cb, Script &w, std::vector<Pose2d> &path, int &code) {
    typedef typename S::NodeT Node;
    struct H { static void hook(int kind, const void *e) { auto &f = fn(); f(kind, (const Node *)e); } static std::function<void(int, const Node *)> &fn() { static std::function<void(int, const Node *)> f; return f; } };
    const Node *pending = nullptr;
    w.map = &m;
    w.flush = [&] {
        if (!pending) return;
        Entry e{w.id(pending), w.id(dynamic_cast<const Node *>(pending->prev)), *pending};
        if (w.ops.empty()) w.starts.push_back(e); else w.ops.back().adds.push_back(e);
        pending = nullptr;
    };
    H::fn() = [&](int kind, const Node *n) {
        if (kind == 1 && w.starts.empty() && !pending) return;
        w.flush();
        if (kind == 0) pending = n;
        if (kind == 1) w.ops.push_back({w.id(n), {}, {}});
    };
    Script::self() = &w; ShimQueue::hook() = &H::hook; code = 0;
    try {
        auto p = cb ? s.findPath(a, b, boost::function<void()>([] {}), so) : s.findPath(a, b, so);
        if (rev) std::reverse(p.begin(), p.end());
        for (auto &n : p) path.push_back(n);
    }
    catch (const typename S::StartOutOfMapException &) { code = 1; }
    catch (const typename S::StartNotFreeException &) { code = 2; }
    catch (const typename S::GoalOutOfMapException &) { code = 3; }
    catch (const typename S::GoalNotFreeException &) { code = 4; }
    ShimQueue::hook() = nullptr; w.flush();
}
template <class NB, class Exp, class Heu, template <class> class Man> struct Searcher : GenericSearchAlgorithm<GenericParameter<Pose2d, Heu, GridMap2d, NB, Exp, PriorityQueueManager, Man, 1, 0>> {};
template <class NB, class Heu, template <class> class Man> static void asking(Ctx &c, double res, int size, int goals, bool once, int sure) {
    typedef Searcher<NB, Script, Heu, Man> S; typedef Searcher<NB, NoExpansion, Heu, Man> P;
    Rng &r = c.rng; J &j = c.j; Mute mute;
    int w = r.range(1, size), h = r.range(1, size); if (r.chance(70)) w = h = size;
    SimpleGridMap2d m(w, h, res); m.setLowerThreshold(50); m.setUpperThreshold(200);
    int bad = r.pick(std::vector<int>{0, 10, 25});
    for (int k = 0; k < w * h; ++k) m.getData()[k] = r.chance(bad) ? 230 : 10;
    S s; s.setMap(&m); P plain; plain.setMap(&m);
    auto place = [&] { for (int t = 0;; ++t) { Pose2d p(r.range(0, 4 * w - 1) / 4.0, r.range(0, 4 * h - 1) / 4.0, r.range(-31, 31) / 10.0); if (t > 20 || !m.isOccupied((unsigned)p.x, (unsigned)p.y)) return p; } };
    j.kv("goals", goals).kv("rev", (bool)NB::reversed).kv("once", once).key("runs").arr();
    for (int q = r.range(1, 3); q > 0; --q) {
        Pose2d a = place(), b = r.chance(10) ? a : place();
        SearchOptions so; if (once && r.chance(30)) so.oversearch_distance = r.pick(std::vector<double>{0.5, 1, 3, 100});
        Script t; t.yes = r.chance(15) && !sure ? 0 : r.chance(30) ? r.range(1, 3) : r.range(1, sure ? sure : goals * w * h + 1);
        for (int k = r.range(1, 5); k > 0; --k) t.tail.push_back(Pose2d(r.range(-40, 400) / 8.0, r.range(-40, 400) / 8.0, r.range(-31, 31) / 10.0));
        std::vector<Pose2d> path, old; int code = 0; bool cb = r.chance(50);
        ask(c, s, m, a, b, so, NB::reversed, cb, t, path, code);
        bool hit = t.yes && t.asks >= t.yes;
        if (!hit) { try { auto p = plain.findPath(a, b, so); for (auto &n : p) old.push_back(n); } catch (const std::logic_error &) {} if (NB::reversed) std::reverse(old.begin(), old.end()); }
        j.obj().kv("code", code).kvec("from", pose(NB::reversed ? b : a)).kvec("to", pose(NB::reversed ? a : b)).kv("stray", (long long)t.stray).kv("gets", t.gets).kv("count", s.getExpansions()).kv("over", so.oversearch_distance != 0);
        poses(j, "tail", t.tail); poses(j, "path", path); poses(j, "plain", old);
        auto entry = [&](const Entry &e) { j.obj().kv("id", (long long)e.id).kv("pv", (long long)e.pv).kvec("p", pose(e.p)).end(); };
        j.key("starts").arr(); for (auto &e : t.starts) entry(e); j.enda();
        j.key("ops").arr();
        for (auto &o : t.ops) {
            j.obj().kv("id", (long long)o.id).key("asks").arr();
            for (auto &k : o.asks) j.obj().kv("to", (long long)k.to).kvec("p", pose(k.at)).kv("yes", k.yes).kv("map", k.map).end();
            j.enda().key("adds").arr(); for (auto &e : o.adds) entry(e); j.enda().end();
        }
        j.enda().end();
    }
    j.enda();
}
static void asks(Ctx &c) {
    typedef DirectNeighborhood<8, 1> D8; typedef DirectNeighborhood<4, 1> D4;
    switch (c.i % 6) {
    case 0: asking<D8, HeuristicL2, GridMapManager>(c, 1, 6, 1, true, 0); break;
    case 1: asking<D4, NoHeuristic, GridMapManager>(c, 0.5, 8, 1, true, 0); break;
    case 2: asking<SteeringNeighborhood<40, 2, 15, 60, 120>, HeuristicL2, DynamicDirectionalStateSpaceManager>(c, 0.3, 20, 2, false, 60); break;
    case 3: asking<SteeringNeighborhood<50, 2, 15, 40, 100, 6, true, 2>, HeuristicL2OverEstimate, DynamicDirectionalStateSpaceManager>(c, 0.5, 20, 2, false, 80); break;
    case 4: asking<NonHolonomicNeighborhood<100, 250, 6>, HeuristicL2, DirectionalStateSpaceManager>(c, 0.7, 14, 2, false, 80); break;
    default: asking<D8, HeuristicL1, GridMapManager>(c, 0.25, 5, 1, true, 0); break;
    }
}

// ---------------------------------------------------------------- Reeds-Shepp curves
struct At : Pose2d { bool forward; double h; };
typedef DirectionalNode<SteeringNode<HeuristicL2::NodeHolder<Pose2d>::NodeType>> SNode;
template <int N, bool F, bool B> static void curves(Ctx &c, bool shared) {
    typedef ReedsSheppExpansion<N, F, B> E;
    Rng &r = c.rng; J &j = c.j; Mute mute;
    std::unique_ptr<E> own(shared ? nullptr : new E); E *e = shared ? nullptr : own.get();
    int cm = r.pick(std::vector<int>{8, 10, 13, 20, 25, 40}), w = r.range(24, 90), h = r.range(24, 90);
    double res = cm / 100.0;
    j.key("cfg").obj().kv("n", N).kv("fwd", F).kv("bwd", B).end();
    j.kv("w", w).kv("h", h).kv("r", fx((double)1.3f / res, L)).kv("maxd", fx((double)0.15f / res, L)).key("ops").arr();
    std::unique_ptr<SimpleGridMap2d> m; std::vector<std::vector<double>> discs; std::vector<Ints> walls;
    int unit = r.pick(std::vector<int>{16, 32, 64, 128, 256}), now = 0; bool first = true;
    Pose2d a, b;
    for (int q = r.range(6, c.thorough ? 30 : 18); q > 0; --q) {
        bool again = m && r.chance(40);
        if (!again) {
            double rc = 130.0 / cm;
            a = Pose2d(r.range(16 * 5, 16 * (w - 5)) / 16.0, r.range(16 * 5, 16 * (h - 5)) / 16.0, r.chance(30) ? r.range(-3, 4) * M_PI / 4 : r.range(-314, 314) / 100.0);
            b = Pose2d(r.range(16 * 5, 16 * (w - 5)) / 16.0, r.range(16 * 5, 16 * (h - 5)) / 16.0, r.chance(30) ? r.range(-3, 4) * M_PI / 4 : r.range(-314, 314) / 100.0);
            if (r.chance(60)) { // less than half a turn away
                double t1 = r.range(-15, 15) / 10.0, t2 = r.range(-15, 15) / 10.0, l = r.range(1, 40) * 0.1 * rc; Pose2d p = a;
                auto arc = [&](double t) { int s = t < 0 ? -1 : 1; double x = p.x - s * rc * std::sin(p.theta), y = p.y + s * rc * std::cos(p.theta); p.theta += t; p.x = x + s * rc * std::sin(p.theta); p.y = y - s * rc * std::cos(p.theta); };
                if (r.chance(80)) arc(t1);
                p.x += l * std::cos(p.theta); p.y += l * std::sin(p.theta);
                if (r.chance(80)) arc(t2);
                if (p.x > 5 && p.y > 5 && p.x < w - 5 && p.y < h - 5) b = p;
            }
            if (r.chance(15)) b = Pose2d(a.x + r.range(-48, 48) / 16.0, a.y + r.range(-48, 48) / 16.0, a.theta + r.range(-10, 10) / 10.0);
            m.reset(new SimpleGridMap2d(w, h, res)); m->setLowerThreshold(50); m->setUpperThreshold(200); m->set(r.range(0, 40)); discs.clear(); walls.clear();
            int unk = r.chance(40) ? 120 : 250;
            for (int z = r.chance(50) ? r.range(1, 3) : 0; z > 0; --z) {
                double f = r.range(1, 9) / 10.0, x = a.x + f * (b.x - a.x) + r.range(-8, 8), y = a.y + f * (b.y - a.y) + r.range(-8, 8), R = r.range(3, 10);
                discs.push_back({x, y, R});
                for (int Y = 0; Y < h; ++Y) for (int X = 0; X < w; ++X) if (std::hypot(X + 0.5 - x, Y + 0.5 - y) <= R) m->setValue(X, Y, unk);
            }
            if (r.chance(15)) { int at = r.range(0, w - 1); walls.push_back({1, at}); for (int y = 0; y < h; ++y) m->setValue(at, y, unk); }
        }
        // how far it seems: nearer and nearer for the most part
        if (first) now = unit; else if (r.chance(50)) now = std::max(0, now - r.range(0, std::max(1, unit / 8))); else if (r.chance(20)) now = r.range(0, 2 * unit);
        At s, g; (Pose2d &)s = a; (Pose2d &)g = b; s.forward = r.chance(75); g.forward = r.chance(50); s.h = now / 16.0; g.h = 0;
        bool yes = shared ? E::canExpand(&s, &g, (const GridMap2d *)m.get()) : e->expand(&s, &g, (const GridMap2d *)m.get());
        first = false;
        j.obj().kv("f", s.forward).kv("h", now).kvec("a", pose(a)).kvec("b", pose(b)).kv("yes", yes);
        j.key("discs").arr(); for (auto &d : discs) { j.arr(); for (double z : d) j.v(fx(z, L)); j.enda(); } j.enda();
        j.key("walls").arr(); for (auto &d : walls) j.vec(d); j.enda();
        std::vector<SNode> out(yes ? r.range(0, 2) : 0); size_t had = out.size(); for (auto &n : out) { SNode::init(n, 3, 4); n.theta = 0.5; n.forward = false; }
        if (yes) { if (shared) E::getPath(&out); else e->get(&out); }
        bool tidy = true; std::vector<Pose2d> ps;
        for (size_t k = 0; k < out.size(); ++k) { SNode &n = out[k]; if (k < had) tidy = tidy && n.x == 3 && n.y == 4 && n.theta == 0.5 && !n.forward; else { tidy = tidy && n.forward == s.forward && n.prev == NULL && n.custom == 0 && n.steering_angle == 0; ps.push_back(n); } }
        poses(j, "poses", ps); j.kv("tidy", tidy).end();
    }
    j.enda();
}
static void shepp(Ctx &c) {
    if (c.i == 0) { curves<10, true, true>(c, true); return; }
    switch (c.i % 8) {
    case 0: curves<10, true, false>(c, false); break;
    case 1: curves<1, true, true>(c, false); break;
    case 2: curves<3, true, false>(c, false); break;
    case 3: curves<4, true, true>(c, false); break;
    case 4: curves<2, false, true>(c, false); break;
    case 5: curves<1, true, false>(c, false); break;
    case 6: curves<7, true, true>(c, false); break;
    default: curves<2, true, false>(c, false); break;
    }
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"asks", 240, 2400, asks}, {"shepp", 240, 2400, shepp}}); }
