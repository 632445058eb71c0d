// Vehicle neighbourhoods: expansions of single states, goal tests, and whole searches.
#include "common.hpp"
#include <cslibs_navigation_utilities/MathHelper.h>
#include <boost/function.hpp>
#include <boost/thread.hpp>
#include <chrono>
#include <memory>
#include <queue>
#include <set>
#include <stack>
#include <tuple>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <cslibs_path_planning/generic/Common.hpp>
#include <cslibs_path_planning/generic/SearchAlgorithm.hpp>
#include <cslibs_path_planning/generic/Heuristics.hpp>
#include <cslibs_path_planning/generic/MapManager.hpp>
#include <cslibs_path_planning/generic/NodeManager.hpp>
#include <cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
#include <cslibs_path_planning/generic/Algorithms.hpp>
using namespace vf;
using namespace lib_path;
typedef std::vector<long long> Ints;

// configuration as the specification sees it
struct Cfg {
    const char *k; int dist, la, res = 100, delta, steps, max, sw; bool rev, fwd, bwd, half; double rot = 0;
    int pb = 1500, pt = 4000, gdist = 50; double gturn = M_PI / 8;
    void json(J &j) const {
        j.key("v").obj().kv("k", k).kv("dist", dist).kv("la", la).kv("res", res).kv("delta", delta).kv("steps", steps).kv("max", max).kv("sw", sw).kv("rev", rev).kv("half", half)
            .kv("rot", fx(rot, 1e7)).kv("pb", pb).kv("pt", pt).kv("gdist", gdist).kv("gturn", fx(gturn, 1e7)).key("dirs").arr();
        if (fwd) j.v(true);
        if (bwd) j.v(false);
        j.enda().end();
    }
};

typedef HeuristicL2::NodeHolder<Pose2d>::NodeType HNode;
typedef DirectionalNode<SteeringNode<HNode>> SNode;
typedef DirectionalNode<OrientedNode<HNode>> ONode;
template <class B> static int steer(const DirectionalNode<SteeringNode<B>> &n) { return n.steering_angle; }
template <class B> static int depth(const DirectionalNode<SteeringNode<B>> &n) { return n.depth; }
template <class B> static int steer(const DirectionalNode<OrientedNode<B>> &) { return 0; }
template <class B> static int depth(const DirectionalNode<OrientedNode<B>> &) { return 0; }
// was the piece that led here driven straight (as seen from the heading of now)
template <class B, class N> static bool straight(const DirectionalNode<SteeringNode<B>> &n, const N &) { return n.steering_angle == 0; }
template <class B, class N> static bool straight(const DirectionalNode<OrientedNode<B>> &n, const N &now) { return n.theta == now.theta; }
template <class M> static auto cellNode(M &m, int x, int y, double t, bool f, int) -> decltype(m.lookup(x, y, t, 0, f)) { return m.lookup(x, y, t, 0, f); }
template <class M> static auto cellNode(M &m, int x, int y, double t, bool f, long) -> decltype(m.lookup(x, y, t, f)) { return m.lookup(x, y, t, f); }
static void put(SNode &n, int st, int dep) { n.steering_angle = st; n.depth = dep; }
static void put(ONode &, int, int) {}

struct Offer { bool add; double x, y, t; int st, cu, dep; bool f, kept; double cost; };
// stands in for the search: takes or refuses what the neighbourhood offers
template <class N>
struct Taker {
    SearchOptions search_options;
    Rng *r; int refuse; bool all = true;
    N *start = nullptr, *goal = nullptr;
    std::vector<Offer> off;
    N *pending = nullptr; N before; bool added = false; double cost = 0;
    N *getStart() const { return start; }
    N *getGoal() const { return goal; }
    bool isStart(const N *n) const { return n == start; }
    bool isGoal(const N *n) const { return n == goal; }
    NeighborhoodBase::ProcessingResult processNeighbor(N *, N *n, double delta) {
        flush();
        added = !r->chance(refuse); cost = delta;
        if (added) { n->x = n->y = -7e4; n->theta = 77; n->custom = 99; n->forward = r->chance(50); put(*n, 99, 99); } else all = false;
        pending = n; before = *n;
        return added ? NeighborhoodBase::PR_ADDED_TO_OPEN_LIST : r->chance(50) ? NeighborhoodBase::PR_IGNORED : NeighborhoodBase::PR_CLOSED;
    }
    void flush() {
        if (!pending) return;
        N &n = *pending;
        bool kept = n.x == before.x && n.y == before.y && n.theta == before.theta && n.custom == before.custom && n.forward == before.forward && steer(n) == steer(before) && depth(n) == depth(before);
        off.push_back({added, n.x, n.y, n.theta, steer(n), n.custom, depth(n), n.forward, kept, cost});
        pending = nullptr;
    }
};

struct Blocks { std::vector<Ints> b; };
static Blocks obstacles(Rng &r, GridMap2d &m, int w, int h) {
    Blocks o;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.setValue(x, y, r.chance(97) ? 10 : 120);
    for (int k = r.pick(std::vector<int>{0, 1, 1, 2, 3, 5}); k > 0; --k) {
        int x = r.range(0, w - 1), y = r.range(0, h - 1), s = r.range(0, 12), t = r.range(0, 12);
        int x1 = std::min(w - 1, x + s), y1 = std::min(h - 1, y + t);
        for (int b = y; b <= y1; ++b) for (int a = x; a <= x1; ++a) m.setValue(a, b, 230);
        o.b.push_back({x, y, x1, y1});
    }
    return o;
}
static void show(J &j, int w, int h, int pad, int skip, const Blocks &o) {
    j.key("map").obj().kv("w", w).kv("h", h).kv("pad", pad).kv("skip", skip).key("b").arr();
    for (auto &b : o.b) j.vec(b);
    j.enda().end();
}

template <class NB, class Node, class Manager>
static void prims(Ctx &c, Cfg v) {
    Rng &r = c.rng; J &j = c.j;
    bool N = v.k[0] == 'N';
    static const int RES[] = {10, 20, 25, 50, 100, 60};
    v.res = RES[r.range(0, 5)];
    if (N) v.rot = r.pick(std::vector<double>{0, 0, M_PI / 2, -0.3, 2.5});
    else { v.pb = r.range(4, 40) * 250; v.pt = r.range(1, 40) * 250; }
    int w = r.range(1, 60), h = r.range(1, 60); if (r.chance(70)) { w = r.range(30, 60); h = r.range(30, 60); }
    std::unique_ptr<SimpleGridMap2d> m(N ? (SimpleGridMap2d *)new RotatedGridMap2d(w, h, v.rot, v.res / 100.0) : new SimpleGridMap2d(w, h, v.res / 100.0));
    m->setLowerThreshold(50); m->setUpperThreshold(200);
    Blocks o = obstacles(r, *m, w, h);
    NB::setResolution(v.res / 100.0);
    Manager mgr; mgr.setMap(m.get());
    int pad = N ? 0 : 32, skip = N ? 0 : (int)(0.5 / m->getResolution());
    v.json(j); show(j, w, h, pad, skip, o);
    j.key("ops").arr();
    for (int q = 0; q < 25; ++q) {
        // the state with the ones before it
        int hist = r.range(0, 4); bool settled = r.chance(60);
        std::vector<Node> chain(hist + 1);
        for (auto &n : chain) Node::init(n, 0, 0);
        Node &s = chain[0];
        bool out = !N && r.chance(15);
        s.x = out ? r.range(-3200, 100 * (w + 32) - 1) / 100.0 : r.range(0, 100 * w - 1) / 100.0; s.y = out ? r.range(-3200, 100 * (h + 32) - 1) / 100.0 : r.range(0, 100 * h - 1) / 100.0;
        if (r.chance(20)) { s.x = std::floor(s.x); s.y = std::floor(s.y); }
        s.theta = r.chance(30) ? r.range(-12, 11) * M_PI / 12 : r.range(-31415, 31415) / 1e4;
        int st = r.chance(40) ? 0 : r.chance(30) ? (r.chance(50) ? v.max : -v.max) : r.range(-v.max / 5, v.max / 5) * 5;
        int dep = r.chance(25) ? 0 : r.range(1, 5);
        put(s, st, dep);
        bool first = N ? r.chance(20) : dep == 0;
        s.forward = v.bwd && r.chance(50) ? false : true;
        if (!v.fwd && r.chance(70)) s.forward = false;
        s.custom = v.half || !v.bwd ? 0 : r.chance(70) ? 0 : r.range(1, 3);
        Ints bits;
        for (int k = 1; k <= hist; ++k) {
            bool straight = settled || r.chance(50);
            put(chain[k], straight ? 0 : r.chance(50) ? 5 : -10, 9); chain[k].theta = straight ? s.theta : s.theta + 0.5;
            chain[k].x = chain[k].y = 1; chain[k - 1].prev = &chain[k];
        }
        Taker<Node> t; t.r = &r; t.refuse = r.chance(70) ? 0 : 40;
        t.search_options.penalty_backward = v.pb / 1000.0; t.search_options.penalty_turn = v.pt / 1000.0;
        if (N && first) (r.chance(50) ? t.start : t.goal) = &s;
        j.obj().key("s").obj().kv("x", fx(s.x, 1e5)).kv("y", fx(s.y, 1e5)).kv("t", fx(s.theta, 1e7)).kv("st", N ? 0 : st).kv("f", s.forward).kv("cu", (int)s.custom).kv("first", first).kv("dep", N ? 0 : dep).key("hist").arr();
        for (int k = 1; k <= hist; ++k) j.v(N ? chain[k].theta == s.theta : steer(chain[k]) == 0);
        j.enda().end();
        NB::iterateFreeNeighbors(t, mgr, &s);
        t.flush();
        j.kv("all", t.all).key("off").arr();
        for (auto &f : t.off) {
            j.obj().kv("add", f.add).kv("cost", fx(f.cost, 1e5));
            if (f.add) j.kv("x", fx(f.x, 1e5)).kv("y", fx(f.y, 1e5)).kv("t", fx(f.t, 1e7)).kv("st", f.st).kv("f", f.f).kv("cu", f.cu).kv("dep", f.dep);
            else j.kv("kept", f.kept);
            j.end();
        }
        j.enda().end();
    }
    j.enda();
}


// answers of the goal test
template <class NB, class Node, class Manager>
static void goals(Ctx &c, Cfg v) {
    Rng &r = c.rng; J &j = c.j;
    static const int RES[] = {10, 20, 25, 50, 100, 60};
    v.res = RES[r.range(0, 5)];
    NB::setResolution(v.res / 100.0);
    v.json(j); j.key("ops").arr();
    for (int q = 0; q < 60; ++q) {
        Node g, n, p; Node::init(g, 0, 0); Node::init(n, 0, 0); Node::init(p, 0, 0);
        g.x = r.range(0, 40); g.y = r.range(0, 40); if (r.chance(30)) { g.x += r.range(0, 99) / 100.0; g.y += r.range(0, 99) / 100.0; }
        g.theta = r.chance(50) ? r.range(-12, 11) * M_PI / 12 : r.range(-31415, 31415) / 1e4;
        double reach = r.pick(std::vector<double>{0.03, 0.06, 0.12, 0.3, 0.6, 1.2, 2.5}) * (v.k[0] == 'N' || r.chance(20) ? 100.0 / v.res : 1) * (v.k[0] == 'D' ? v.gdist / 50.0 : 1);      // metres or cells
        double a = r.range(0, 6283) / 1e3, d = reach * r.range(0, 1000) / 1000.0 * 100 / v.res;
        n.x = g.x + d * cos(a); n.y = g.y + d * sin(a);
        n.theta = g.theta + r.range(-1000, 1000) / 1000.0 * r.pick(std::vector<double>{v.gturn, v.gturn * 1.2, M_PI}) + (r.chance(20) ? 2 * M_PI : 0);
        n.forward = r.chance(50); n.custom = r.chance(75) ? 0 : r.range(1, 2); put(n, r.range(-2, 2) * 5, r.range(0, 5)); put(g, 0, 0);
        if (v.k[0] == 'S' && v.rev && r.chance(50)) { double l = v.la / 100.0 * 100 / v.res; n.x -= cos(g.theta) * l; n.y -= sin(g.theta) * l; n.forward = r.chance(20); }
        bool prev = r.chance(60);
        if (prev) { double b = r.range(0, 6283) / 1e3, l = r.chance(10) ? 0 : NB::distance_step_pixel; p.x = n.x + l * cos(b); p.y = n.y + l * sin(b); n.prev = &p; }
        j.obj().key("g").obj().kv("x", fx(g.x, 1e5)).kv("y", fx(g.y, 1e5)).kv("t", fx(g.theta, 1e7)).end();
        j.key("r").obj().kv("x", fx(n.x, 1e5)).kv("y", fx(n.y, 1e5)).kv("t", fx(n.theta, 1e7)).kv("f", n.forward).kv("cu", (int)n.custom).end();
        if (prev) j.kvec("pv", Ints{fx(p.x, 1e5), fx(p.y, 1e5)}); else j.kvec("pv", Ints{});
        j.kv("yes", NB::isGoal(&g, &n)).end();
    }
    j.enda();
}

// whole searches
struct Abort : std::exception {};
struct State { double x, y, t, d; int st, cu, dep; bool f; long id, at; double c, h = 0; };
struct Taken { State s; Ints pv; std::vector<bool> hist; std::vector<std::vector<double>> g; std::vector<State> adds; };
template <class S>
struct Watch {
    typedef typename S::NodeT Node;
    S s;
    static Watch *&self() { static Watch *w = nullptr; return w; }
    std::map<const Node *, long> ids, entered; long pushes = 0, last = 0; std::vector<State> starts, path; std::vector<Taken> ops; const Node *pending = nullptr; double pend_d = 0, pend_c = 0;
    std::vector<const Node *> goal; Pose2d gp; int cap = 0, code = 0, limit = 0; long served = 0; bool aborted = false; int sw = 1; double pend_h = 0; double (*guess)(const Node &, const Pose2d &, double) = nullptr; // what is left to go, as the heuristic says itself
    State state(const Node *n, double d) {
        if (!ids.count(n)) { long k = ids.size() + 1; ids[n] = k; }
        return {n->x, n->y, n->theta, d, steer(*n), n->custom, depth(*n), n->forward, ids[n], 0, 0};
    }
    void settle() {
        if (!pending) return;
        State q = state(pending, pend_d); q.c = pend_c; q.h = pend_h;
        if (!ops.empty()) ops.back().adds.push_back(q); else starts.push_back(q);
        pending = nullptr;
    }
    static void hook(int kind, const void *e) { self()->note(kind, (const Node *)e); }
    void note(int kind, const Node *n) {
        if (kind == 1 && starts.empty() && !pending) return;        // emptying the open list before the search
        settle();
        if (kind == 0) entered[n] = ++pushes;
        if (kind == 0) { if (served < cap || ops.empty()) { pending = n; pend_d = n->distance; pend_c = n->getTotalCost(); pend_h = guess(*n, gp, s.getMapManager().getResolution()); } }
        if (kind != 1) return;
        last = entered[n];
        if (++served > cap) { if (limit && served > limit) throw Abort(); return; }
        if (goal.empty()) for (bool f : {true, false}) goal.push_back(cellNode(s.getMapManager(), (int)std::floor(gp.x), (int)std::floor(gp.y), gp.theta, f, 0));
        Taken t; t.s = state(n, n->distance);
        const Node *p = dynamic_cast<const Node *>(n->prev);
        if (p) t.pv = Ints{fx(p->x, 1e5), fx(p->y, 1e5)};
        for (int k = 0; k < sw && p; ++k) { t.hist.push_back(straight(*p, *n)); p = dynamic_cast<const Node *>(p->prev); }
        for (auto g : goal) t.g.push_back({g->x, g->y, g->theta});
        ops.push_back(t);
    }
    // cap: how many expansions are kept, stop: after how many the search is given up (by an exception from the callback)
    void run(const Pose2d &from, const Pose2d &to, bool rev, SearchOptions so, int keep, int stop, bool cb) {
        ids.clear(); entered.clear(); pushes = 0; starts.clear(); path.clear(); ops.clear(); pending = nullptr; goal.clear(); gp = rev ? from : to; cap = keep; code = 0; limit = cb ? 0 : stop; served = 0; aborted = false;
        self() = this; ShimQueue::hook() = &hook;
        long n = 0;
        try {
            auto p = cb ? s.findPath(from, to, boost::function<void()>([&] { if (++n >= stop) throw Abort(); }), so) : s.findPath(from, to, so);
            ShimQueue::hook() = nullptr; settle();
            if (rev) std::reverse(p.begin(), p.end());
            for (size_t k = 0; k < p.size(); ++k) {
                State q{p[k].x, p[k].y, p[k].theta, p[k].distance, steer(p[k]), p[k].custom, depth(p[k]), p[k].forward, 0, 0, 0};
                if (k + 1 < p.size()) { auto it = ids.find(dynamic_cast<const Node *>(p[k + 1].prev)); q.id = it == ids.end() ? -1 : it->second; q.at = entered[dynamic_cast<const Node *>(p[k + 1].prev)]; }
                else if (!ops.empty() && served <= cap) q.id = ops.back().s.id;
                if (k + 1 == p.size()) q.at = last;
                path.push_back(q);
            }
        }
        catch (const Abort &) { aborted = true; }
        catch (const typename S::StartOutOfMapException &) { code = 1; }
        catch (const typename S::StartNotFreeException &) { code = 2; }
        catch (const typename S::GoalOutOfMapException &) { code = 3; }
        catch (const typename S::GoalNotFreeException &) { code = 4; }
        ShimQueue::hook() = nullptr; settle();
    }
};
static void showState(J &j, const State &s) {
    j.kv("id", (long long)s.id).kv("x", fx(s.x, 1e5)).kv("y", fx(s.y, 1e5)).kv("t", fx(s.t, 1e7)).kv("d", fx(s.d, 1e5)).kv("st", s.st).kv("cu", s.cu).kv("dep", s.dep).kv("f", s.f);
}
static bool same(const std::vector<State> &a, const std::vector<State> &b) {
    if (a.size() != b.size()) return false;
    for (size_t k = 0; k < a.size(); ++k)
        if (a[k].x != b[k].x || a[k].y != b[k].y || a[k].t != b[k].t || a[k].d != b[k].d || a[k].st != b[k].st || a[k].cu != b[k].cu || a[k].dep != b[k].dep || a[k].f != b[k].f) return false;
    return true;
}
template <class NB, class Heu, template <class> class Man> struct Searcher : GenericSearchAlgorithm<GenericParameter<Pose2d, Heu, GridMap2d, NB, NoExpansion, PriorityQueueManager, Man, 1, 0>> {};
// the searches that have a name
typedef MaxHeuristic<HeuristicL2, HeuristicHolonomicObstacles> Hybrid;
#define NAMED(name, Heu, Man) template <class NB> struct Searcher<NB, Heu, Man> : name##Search<NB, NoExpansion, Pose2d, GridMap2d, 1, 0> {}
NAMED(DijkstraState, NoHeuristic, DirectionalStateSpaceManager);
NAMED(AStar, HeuristicL2, DirectionalStateSpaceManager);
NAMED(AStarDynamic, HeuristicL2, DynamicDirectionalStateSpaceManager);
NAMED(AStarOverEstimate, HeuristicL2OverEstimate, DirectionalStateSpaceManager);
NAMED(AStarHybridHeuristics, Hybrid, DirectionalStateSpaceManager);
NAMED(AStarDynamicHybridHeuristics, Hybrid, DynamicDirectionalStateSpaceManager);
template <class Heu> struct Told { static const char *name() { return "hybrid"; } };
template <> struct Told<HeuristicL2> { static const char *name() { return "L2"; } };
template <> struct Told<HeuristicL2OverEstimate> { static const char *name() { return "over"; } };
template <> struct Told<NoHeuristic> { static const char *name() { return "none"; } };
// a heuristic that has to be told about the obstacles
template <class Heu, class S> struct Informed { static void tell(S &, const GridMap2d &, Pose2d) {} };
template <class S> struct Informed<Hybrid, S> { static void tell(S &s, const GridMap2d &m, Pose2d g) {
    g.x = std::min<double>(m.getWidth() - 1, std::max(0.0, g.x)); g.y = std::min<double>(m.getHeight() - 1, std::max(0.0, g.y));
    if (!m.isOccupied((unsigned)g.x, (unsigned)g.y)) HeuristicHolonomicObstacles::setMap(&s.getMapManager(), g); } };
template <class Heu> struct Guess { template <class Node> static double of(const Node &n, const Pose2d &g, double res) { SNode t; t.x = n.x; t.y = n.y; t.h = 0; Pose2d c(std::floor(g.x), std::floor(g.y), 0); Heu::compute(&t, &c, res); return t.h; } };
template <> struct Guess<NoHeuristic> { template <class Node> static double of(const Node &, const Pose2d &, double) { return 0; } };
template <class NB, class Heu, template <class> class Man>
static void drive(Ctx &c, Cfg v) {
    typedef Searcher<NB, Heu, Man> S;
    Rng &r = c.rng; J &j = c.j; bool N = v.k[0] == 'N';
    if (N) v.rot = r.pick(std::vector<double>{0, 0, M_PI / 2, -0.3, 2.5});
    // steps of one to three cells
    int want = r.chance(50) ? r.range(70, 130) : r.range(90, 300); v.res = std::max(10, std::min(200, v.dist * 100 / want / 5 * 5));
    if (!N) v.pb = r.chance(40) ? 1000 : r.range(4, 16) * 250; if (!N) v.pt = r.chance(40) ? 1000 : r.range(4, 20) * 250;
    int n = r.pick(std::vector<int>{1, 1, 2, 3}), keep = r.chance(50) ? 45 : c.thorough ? 200 : 130;
    std::unique_ptr<Watch<S>> w(new Watch<S>), fresh;
    w->guess = &Guess<Heu>::template of<typename S::NodeT>;
    std::unique_ptr<SimpleGridMap2d> m; Blocks o; int W = 0, H = 0;
    Pose2d from, to; SearchOptions so; so.penalty_backward = v.pb / 1000.0; so.penalty_turn = v.pt / 1000.0;
    for (int k = 0; k < n; ++k) {
        if (k == 0 || r.chance(40)) {
            W = r.range(8, 26); H = r.range(8, 26);
            std::unique_ptr<SimpleGridMap2d> next(N ? (SimpleGridMap2d *)new RotatedGridMap2d(W, H, v.rot, v.res / 100.0) : new SimpleGridMap2d(W, H, v.res / 100.0));
            next->setLowerThreshold(50); next->setUpperThreshold(200);
            o = obstacles(r, *next, W, H);
            if (r.chance(60)) { // walls around, thick enough for a vehicle not to pass unseen
                int th = r.range(1, 3);
                for (auto b : {Ints{0, 0, W - 1, th - 1}, Ints{0, H - th, W - 1, H - 1}, Ints{0, 0, th - 1, H - 1}, Ints{W - th, 0, W - 1, H - 1}}) {
                    for (int y = b[1]; y <= b[3]; ++y) for (int x = b[0]; x <= b[2]; ++x) next->setValue(x, y, 230);
                    o.b.push_back(b);
                }
            }
            w->s.setMap(next.get());
            m = std::move(next);
        }
        auto place = [&](Pose2d &p) {
            for (int t = 0; t < (r.chance(95) ? 50 : 1); ++t) {
                p = Pose2d(r.range(0, 10 * W - 1) / 10.0, r.range(0, 10 * H - 1) / 10.0, r.chance(50) ? r.range(-4, 3) * M_PI / 4 : r.range(-314, 314) / 100.0);
                if (!m->isOccupied((unsigned)p.x, (unsigned)p.y)) break;
            }
            if (r.chance(2)) p.x = W + 40;
            if (r.chance(2)) p.y = -3;
        };
        place(from); place(to);
        if (N && r.chance(75)) { // goals some turns away
            Pose2d p(std::floor(from.x), std::floor(from.y), from.theta), q = p; int sg = v.rev ? -1 : 1, dir = v.bwd && r.chance(30) ? -1 : 1;
            for (int k = r.range(0, 9); k >= 0; --k) {
                q.x += sg * dir * cos(q.theta + v.rot) * v.dist / v.res; q.y += sg * dir * sin(q.theta + v.rot) * v.dist / v.res;
                if (!m->isInMap((int)std::floor(q.x), (int)std::floor(q.y)) || m->isOccupied((unsigned)q.x, (unsigned)q.y)) break;
                p = q; q.theta += r.range(-1, 1) * v.max / 10.0 * M_PI / 180;
            }
            to = p; if (v.rev) std::swap(from, to);
        }
        else if (r.chance(50)) { // goals that are easy to reach
            double l = r.range(0, 8) * v.dist / (double)v.res, a = from.theta, b = r.chance(50) ? 0 : r.range(-10, 10) * 0.05;
            double x = from.x + l * cos(a + b), y = from.y + l * sin(a + b);
            if (x >= 0 && y >= 0 && x < W && y < H) to = Pose2d(x, y, a + 2 * b);
        }
        Informed<Heu, S>::tell(w->s, *m, v.rev ? from : to);
        w->sw = v.sw; w->run(from, to, v.rev, so, keep, c.thorough ? 4000 : 1500, r.chance(80));
    }
    fresh.reset(new Watch<S>); fresh->guess = w->guess; fresh->s.setMap(m.get()); fresh->sw = v.sw;
    Informed<Heu, S>::tell(fresh->s, *m, v.rev ? from : to);
    fresh->run(from, to, v.rev, so, keep, c.thorough ? 4000 : 1500, true);
    bool eq = w->aborted || fresh->aborted || (w->code == fresh->code && same(w->path, fresh->path) && w->s.getExpansions() == fresh->s.getExpansions());
    v.json(j);
    j.key("map").obj().kv("w", W).kv("h", H).kv("pad", N ? 0 : 32).kv("skip", N ? 0 : (int)(0.5 / m->getResolution())).kv("slots", (int)fresh->s.getMapManager().theta_slots - 1).key("b").arr();
    for (auto &b : o.b) j.vec(b);
    j.enda().end();
    auto pose = [&](const char *k, const Pose2d &p) { j.key(k).obj().kv("x", (int)std::floor(p.x)).kv("y", (int)std::floor(p.y)).kv("t", fx(p.theta, 1e7)).end(); };
    pose("from", from); pose("to", to);
    bool cut = w->served > (long)w->ops.size() || w->aborted;
    j.kv("guide", Told<Heu>::name()).kv("code", w->code).kv("same", eq).kv("cut", cut).kv("aborted", w->aborted).key("starts").arr();
    for (auto &s : w->starts) { j.obj(); showState(j, s); j.kv("c", fx(std::min(s.c, 2e4), 1e5)).kv("h", fx(std::min(s.h, 2e4), 1e5)).end(); }
    j.enda().key("path").arr();
    for (auto &s : w->path) { j.obj(); showState(j, s); j.kv("at", (long long)s.at).end(); }
    j.enda().key("ops").arr();
    for (auto &t : w->ops) {
        j.obj().key("s").obj(); showState(j, t.s); j.kv("first", N ? std::any_of(w->starts.begin(), w->starts.end(), [&](const State &q) { return q.id == t.s.id; }) : t.s.dep == 0).key("hist").arr();
        for (bool b : t.hist) j.v(b);
        j.enda().end().kvec("pv", t.pv).key("g").arr();
        for (auto &g : t.g) j.obj().kv("x", fx(g[0], 1e5)).kv("y", fx(g[1], 1e5)).kv("t", fx(g[2], 1e7)).end();
        j.enda().key("adds").arr();
        for (auto &s : t.adds) { j.obj(); showState(j, s); j.kv("c", fx(std::min(s.c, 2e4), 1e5)).kv("h", fx(std::min(s.h, 2e4), 1e5)).end(); }
        j.enda().end();
    }
    j.enda();
}

// one of the configurations of each kind, for one of the uses above
struct Prims { template <class NB, class N, class M> static void go(Ctx &c, const Cfg &v) { prims<NB, N, M>(c, v); } };
struct Goals { template <class NB, class N, class M> static void go(Ctx &c, const Cfg &v) { goals<NB, N, M>(c, v); } };
// guided by the distance to the goal, by an overestimate (states get improved often), by the obstacles, or not at all
template <class NB> struct Guide;
template <int D, int ST, int SD, int MX, int LA, int MV, bool RV, int SW> struct Guide<SteeringNeighborhood<D, ST, SD, MX, LA, MV, RV, SW>> {
    typedef typename std::conditional<D % 50 == 0, HeuristicL2, HeuristicL2OverEstimate>::type A; typedef typename std::conditional<D == 100, Hybrid, A>::type B; };
template <int D, int MX, int MV, bool RV, int SW> struct Guide<NonHolonomicNeighborhood<D, MX, MV, RV, SW>> {
    typedef typename std::conditional<D == 100, HeuristicL2OverEstimate, HeuristicL2>::type A; typedef typename std::conditional<D == 50, NoHeuristic, Hybrid>::type B; };
template <> struct Guide<DynamicSteeringNeighborhood> { typedef HeuristicL2OverEstimate A; typedef NoHeuristic B; };
struct Drives {
    template <class NB, class N, class M> static void go(Ctx &c, const Cfg &v) { go(c, v, (NB *)nullptr, (M *)nullptr); }
    template <class NB, class N> static void go(Ctx &c, const Cfg &v, NB *, DynamicDirectionalStateSpaceManager<N> *) { c.i % 3 ? drive<NB, typename Guide<NB>::A, DynamicDirectionalStateSpaceManager>(c, v) : drive<NB, typename Guide<NB>::B, DynamicDirectionalStateSpaceManager>(c, v); }
    template <class NB, class N> static void go(Ctx &c, const Cfg &v, NB *, DirectionalStateSpaceManager<N> *) { c.i % 3 ? drive<NB, typename Guide<NB>::A, DirectionalStateSpaceManager>(c, v) : drive<NB, typename Guide<NB>::B, DirectionalStateSpaceManager>(c, v); }
};
typedef DynamicDirectionalStateSpaceManager<SNode> SMan;
typedef DirectionalStateSpaceManager<ONode> OMan;
#define STEER(D, ST, SD, MX, LA, MV, RV, SW) \
    Use::template go<SteeringNeighborhood<D, ST, SD, MX, LA, MV, RV, SW>, SNode, SMan>(c, {"S", D, LA, 100, SD, ST, MX, SW, RV, true, MV == 6, false})
#define TURN(D, MX, MV, RV, SW) \
    Use::template go<NonHolonomicNeighborhood<D, MX, MV, RV, SW>, ONode, OMan>(c, {"N", D, 100, 100, 0, 0, MX, SW, RV, true, MV >= 6, MV == 10})
template <class Use> static void fixedSteer(Ctx &c) {
    switch (c.i % 6) {
    case 0: Use::template go<SteeringNeighborhood<40, 2, 15, 60, 120>, SNode, SMan>(c, {"S", 40, 120, 100, 15, 2, 60, 3, false, true, true, false}); break;
    case 1: STEER(100, 1, 15, 45, 100, 6, false, 1); break;
    case 2: STEER(40, 3, 10, 30, 120, 3, false, 2); break;
    case 3: STEER(50, 2, 15, 40, 100, 6, true, 2); break;
    case 4: STEER(25, 2, 20, 50, 75, 6, false, 3); break;
    default: STEER(100, 2, 5, 15, 150, 3, true, 1); break;
    }
}
template <class Use> static void dynSteer(Ctx &c) {
    Rng &r = c.rng; typedef DynamicSteeringNeighborhood D;
    Cfg v{"D", r.range(4, 24) * 5, r.range(12, 50) * 5, 100, r.range(1, 4) * 5, r.range(1, 3), r.pick(std::vector<int>{20, 23, 30, 45, 58, 60}), 1, r.chance(30), true, true, false};
    switch (r.range(0, 3)) { case 0: v.bwd = false; break; case 1: v.fwd = false; break; default: break; }
    D::distance_step = v.dist / 100.0; D::LA = v.la / 100.0; D::STEER_DELTA = v.delta; D::steer_steps = v.steps; D::MAX_STEER_ANGLE = v.max;
    D::reversed = v.rev; D::allow_forward = v.fwd; D::allow_backward = v.bwd;
    v.gdist = r.pick(std::vector<int>{50, 100, 200, 500}); v.gturn = r.pick(std::vector<double>{M_PI / 8, 0.2, 1});
    D::goal_dist_threshold = v.gdist / 1000.0; D::goal_angle_threshold = v.gturn;
    Use::template go<D, SNode, SMan>(c, v);
}
template <class Use> static void turning(Ctx &c) {
    switch (c.i % 7) {
    case 0: Use::template go<NonHolonomicNeighborhood<>, ONode, OMan>(c, {"N", 100, 100, 100, 0, 0, 10, 1, false, true, true, false}); break;
    case 1: TURN(50, 60, 6, false, 3); break;
    case 2: TURN(100, 45, 10, false, 1); break;
    case 3: TURN(50, 30, 3, true, 2); break;
    case 4: TURN(60, 250, 6, false, 1); break;
    case 5: TURN(100, 200, 10, true, 1); break;
    default: TURN(80, 60, 6, true, 2); break;
    }
}

static void goalTests(Ctx &c) { int k = c.i; c.i = k / 3; k % 3 == 0 ? fixedSteer<Goals>(c) : k % 3 == 1 ? dynSteer<Goals>(c) : turning<Goals>(c); c.i = k; }
static void searches(Ctx &c) { int k = c.i; c.i = k / 3; k % 3 == 0 ? turning<Drives>(c) : k % 3 == 1 ? fixedSteer<Drives>(c) : dynSteer<Drives>(c); c.i = k; }

int main(int argc, char **argv) {
    return run_main(argc, argv, {{"fixed", 300, 3000, fixedSteer<Prims>}, {"dynamic", 300, 3000, dynSteer<Prims>}, {"turning", 250, 2500, turning<Prims>},
                                 {"goals", 240, 2400, goalTests}, {"searches", 240, 2400, searches}});
}
