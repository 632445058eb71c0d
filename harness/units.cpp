// Progress callbacks, compile-time rounding, search nodes.
#include "common.hpp"
#include <cslibs_navigation_utilities/MathHelper.h>
#include <boost/function.hpp>
#include <new>
#include <cslibs_path_planning/common/Pose2d.h>
#include <cslibs_path_planning/common/TmpMath.hpp>
#include <cslibs_path_planning/generic/Intermission.hpp>
#include <cslibs_path_planning/generic/Common.hpp>
#include <cslibs_path_planning/generic/Heuristics.hpp>
#include <cslibs_path_planning/generic/SteeringNode.hpp>
using namespace vf;
using namespace lib_path;

// ------------------------------------------------------------- P07
// the counters are static: every case runs in a process of its own
static std::string isolated(std::function<std::string()> f) {
    int fd[2]; if (pipe(fd)) abort();
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]); std::string s = f(); size_t o = 0;
        while (o < s.size()) { ssize_t n = write(fd[1], s.data() + o, s.size() - o); if (n <= 0) break; o += n; }
        _exit(0);
    }
    close(fd[1]); std::string r; char b[65536]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
    close(fd[0]); int st; waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) throw std::runtime_error("the callback policy crashed");
    return r;
}
typedef boost::function<void()> CB;
struct Policy { int n, s; void (*call)(CB &); void (*copy)(CB &, const int &, int &); };
template <int N, int S> Policy pol() {
    typedef generic::CallbackIntermission<N, S> I;
    return {N, S, [](CB &c) { I::call(c); }, [](CB &c, const int &a, int &b) { I::callAndCopy(c, a, b); }};
}
static Policy none() {
    return {-1, 0, [](CB &c) { generic::NoIntermission::call(c); }, [](CB &c, const int &a, int &b) { generic::NoIntermission::callAndCopy(c, a, b); }};
}
static const std::vector<Policy> POLS = {none(), pol<0, 0>(), pol<0, 3>(), pol<1, 0>(), pol<1, 2>(), pol<2, 0>(), pol<2, 1>(), pol<2, 3>(), pol<3, 0>(),
    pol<3, 1>(), pol<3, 2>(), pol<3, 5>(), pol<5, 0>(), pol<5, 4>(), pol<7, 1>(), pol<4, 4>(), pol<4, 5>(), pol<6, 12>(), pol<10, 0>(), pol<10, 3>(), pol<2, 2>(), pol<100, 0>(), pol<100, 2>(),
    pol<128, 0>(), pol<255, 3>(), pol<256, 0>(), pol<300, 1>(), pol<1000, 300>(), pol<32768, 0>(), pol<40000, 2>(), pol<65536, 1>(), pol<70000, 0>(), pol<257, 70000>()};
static void inter_op(J &j, const Policy &p, bool copy, int k) {
    int fired = 0, target = -7, seen = -8, src = 1000 + k;
    CB cb = [&] { ++fired; seen = target; };
    if (copy) p.copy(cb, src, target); else p.call(cb);
    // policy, variant, times fired, target now equals the source, target untouched, the callback saw the copy
    j.arr().v((int)(&p - &POLS[0]) + 1).v(copy ? 1 : 0).v(fired).v(target == src).v(target == -7).v(seen == src).enda();
}
static void policies(J &j) { j.key("pols").arr(); for (auto &p : POLS) j.arr().v(p.n).v(p.s).enda(); j.enda(); }
static void inter(Ctx &c) {
    policies(c.j);
    std::string r = isolated([&] {
        J j; j.s = ""; j.arr();
        std::vector<int> use; for (int n = c.rng.range(1, 3); n > 0; --n) use.push_back(c.rng.range(0, (int)POLS.size() - 1));
        int var = c.rng.range(0, 2);
        for (int k = c.rng.range(5, c.thorough ? 400 : 120); k > 0; --k) inter_op(j, POLS[c.rng.pick(use)], var == 2 ? c.rng.chance(50) : var == 1, k);
        j.enda(); return j.s;
    });
    c.j.key("ops").raw(r);
}
// very many calls: op = [policy, variant, -2, calls, those that fired, all else well]
static void inter_long(Ctx &c) {
    policies(c.j);
    std::string r = isolated([&] {
        J j; j.s = ""; j.arr();
        int a = c.rng.range((int)POLS.size() - 12, (int)POLS.size() - 1), b = c.rng.range(0, (int)POLS.size() - 1);
        for (int k = c.rng.range(2, 5); k > 0; --k) {
            int w = k > 1 || c.rng.chance(80) || (POLS[b].n > 0 && POLS[b].n < 100) ? a : b, n = POLS[w].n <= 1000 && POLS[w].s < 1000 ? c.rng.range(200, 3000) : c.rng.range(20000, 90000), target = -7, seen = -8, at = 0; bool copy = c.rng.chance(50), well = true;
            std::vector<int> fired; CB cb = [&] { fired.push_back(at); seen = target; };
            for (at = 1; at <= n; ++at) { target = -7; seen = -8; size_t had = fired.size(); if (copy) POLS[w].copy(cb, 1000 + at, target); else POLS[w].call(cb); bool f = fired.size() > had; if (fired.size() > had + 1 || (copy && f ? target != 1000 + at || seen != target : target != -7)) well = false; }
            // runs of calls that fired
            j.arr().v(w + 1).v(copy ? 1 : 0).v(-2).v(n).arr();
            for (size_t q = 0; q < fired.size();) { size_t e = q; while (e + 1 < fired.size() && fired[e + 1] == fired[e] + 1) ++e; j.arr().v(fired[q]).v(fired[e]).enda(); q = e + 1; }
            j.enda().v(well).enda();
        }
        j.enda(); return j.s;
    });
    c.j.key("ops").raw(r);
}
static void inter_spec(Ctx &c) { // script: policy variant policy variant ...
    policies(c.j);
    std::string r = isolated([&] { J j; j.arr(); std::istringstream in(c.script); int p, v, k = 0; while (in >> p >> v) inter_op(j, POLS[p], v, ++k); j.enda(); return j.s; });
    c.j.key("ops").raw(r);
}

// ------------------------------------------------------------- P08
static void round_one(J &j, double x) {
    double ip; double f = std::fabs(std::modf(std::fabs(x), &ip)); // exact
    int cmp = f < 0.5 ? -1 : f > 0.5 ? 1 : 0;
    bool up = cmp >= 0;
    if (ip + (up ? 1 : 0) > 2147483647.0) return;
    // sign, integral part, fraction compared with one half, the helper's answer, its answer to -x
    volatile double v = x;
    j.arr().v(std::signbit(x) ? -1 : 1).v((long long)ip).v(cmp).v(tmpmath::round(v)).v(tmpmath::round(-v)).enda();
}
#ifndef PROBE_CONSTEXPR
#define PROBE_CONSTEXPR 1
#endif
static void round_group(Ctx &c) {
    Rng &r = c.rng;
    c.j.kv("constexpr", (bool)PROBE_CONSTEXPR);
    c.j.key("xs").arr();
    for (int k = 0; k < 200; ++k) {
        double x;
        switch (r.range(0, 7)) {
        case 0: x = r.range(-40, 40) / 2.0; break;
        case 1: { x = r.range(-2000000, 2000000) + 0.5; int s = r.range(0, 3); double to = r.chance(50) ? 1e300 : -1e300; while (s--) x = std::nextafter(x, to); break; }
        case 2: { x = r.range(-6, 6) * 0.5; int s = r.range(1, 3); double to = r.chance(50) ? 1e300 : -1e300; while (s--) x = std::nextafter(x, to); break; }
        case 3: { uint64_t b = (r.next() & 0x800fffffffffffffull) | ((uint64_t)r.range(1023 - 60, 1023 + 30) << 52); memcpy(&x, &b, 8); break; }
        case 4: { uint64_t b = r.next() & 0x800fffffffffffffull; memcpy(&x, &b, 8); break; } // denormals and zeros
        case 5: x = (r.chance(50) ? 1 : -1) * (2147483647.0 - r.range(0, 5) / 2.0 + (r.chance(30) ? 0.25 : 0)); break;
        case 6: x = r.range(-1000000, 1000000) / 1000.0; break;
        default: x = std::ldexp((double)r.range(-2000000000, 2000000000), -r.range(0, 40));
        }
        round_one(c.j, x);
    }
    c.j.enda();
}

// ------------------------------------------------------------- P09
struct INode {
    virtual ~INode() {}
    virtual void initXY(int x, int y) = 0;
    virtual void initFull(int x, int y, double t, int st, bool fw) = 0; // as much of it as the type takes
    virtual void initPose(const Pose2d &p) = 0;
    virtual void mark(int m) = 0;
    virtual void unMark(int m) = 0;
    virtual void dirty(Rng &r) = 0;
    virtual void cost(double g, double h) = 0;
    virtual void observe(J &j) = 0;
    virtual bool worse(INode &o) = 0;
};
template <class N> struct Has {
    template <class C> static char s(decltype(&C::steering_angle)); template <class C> static long s(...);
    template <class C> static char f(decltype(&C::forward)); template <class C> static long f(...);
    template <class C> static char h(decltype(&C::h)); template <class C> static long h(...);
    template <class C> static char k(decltype(&C::rhs)); template <class C> static long k(...);
    enum { steer = sizeof(s<N>(0)) == 1, fwd = sizeof(f<N>(0)) == 1, heur = sizeof(h<N>(0)) == 1, keys = sizeof(k<N>(0)) == 1 };
};
template <bool B> struct Tag {};
static long long num(double d) { return std::isinf(d) ? (d > 0 ? 2000000000LL : -2000000000LL) : fx(d, 64); }
enum { T_NODE = 0, T_HEUR = 1, T_DHEUR = 2, T_ORI = 3, T_ORIH = 4, T_STEER = 5, T_DIRS = 6, T_DIRO = 7, T_STEERN = 8, T_N = 9 };
template <class N, int T> struct NodeBox : INode {
    alignas(16) unsigned char mem[sizeof(N)]; N *n;
    NodeBox(int fill) { memset(mem, fill, sizeof mem); n = new (mem) N; }
    // position and orientation / steering / direction setters by type
    void full(int x, int y, double t, int st, bool fw, std::integral_constant<int, 0>) { N::init(*n, x, y); }
    void full(int x, int y, double t, int st, bool fw, std::integral_constant<int, 1>) { N::init(*n, x, y, t); }
    void full(int x, int y, double t, int st, bool fw, std::integral_constant<int, 2>) { N::init(*n, x, y, t, st, fw); }
    void full(int x, int y, double t, int st, bool fw, std::integral_constant<int, 3>) { N::init(*n, x, y, t, fw); }
    typedef std::integral_constant<int, (T == T_NODE || T == T_HEUR || T == T_DHEUR) ? 0 : (T == T_ORI || T == T_ORIH) ? 1 : (T == T_STEER || T == T_STEERN) ? 2 : 3> FullKind;
    void initXY(int x, int y) override { N::init(*n, x, y); }
    void initFull(int x, int y, double t, int st, bool fw) override { full(x, y, t, st, fw, FullKind()); }
    void initPose(const Pose2d &p) override { N::init(*n, p); }
    void mark(int m) override { n->mark((char)m); }
    void unMark(int m) override { n->unMark((char)m); }
    void seth(double h, Tag<true>) { n->h = h; } void seth(double, Tag<false>) {}
    double geth(Tag<true>) { return n->h; } double geth(Tag<false>) { return 0; }
    void sets(int s, int d, Tag<true>) { n->steering_angle = s; n->depth = d; } void sets(int, int, Tag<false>) {}
    int gets(Tag<true>) { return n->steering_angle; } int gets(Tag<false>) { return 0; }
    int getd(Tag<true>) { return n->depth; } int getd(Tag<false>) { return 0; }
    void setf(bool f, Tag<true>) { n->forward = f; } void setf(bool, Tag<false>) {}
    bool getf(Tag<true>) { return n->forward; } bool getf(Tag<false>) { return true; }
    bool keysInf(Tag<true>) { return std::isinf(n->rhs) && std::isinf(n->key1) && std::isinf(n->key2); } bool keysInf(Tag<false>) { return true; }
    void setKeys(double v, Tag<true>) { n->rhs = n->key1 = n->key2 = v; } void setKeys(double, Tag<false>) {}
    void dirty(Rng &r) override {
        n->x = r.range(-9, 9); n->y = r.range(-9, 9); n->theta = r.range(-9, 9); n->distance = r.range(0, 99); n->marked = (char)r.range(0, 255); n->custom = 3;
        n->prev = n; seth(r.range(1, 99), Tag<Has<N>::heur>()); sets(r.range(1, 50), r.range(1, 50), Tag<Has<N>::steer>()); setf(false, Tag<Has<N>::fwd>());
        setKeys(r.range(1, 9), Tag<Has<N>::keys>());
    }
    void cost(double g, double h) override { n->distance = g; seth(h, Tag<Has<N>::heur>()); }
    void observe(J &j) override {
        int is = 0; for (int m = 1; m < 16; ++m) if (n->isMarked((char)m)) is |= 1 << m;
        j.v(num(n->x)).v(num(n->y)).v(num(n->theta)).v(num(n->distance)).v(n->prev == NULL).v(is).v(num(geth(Tag<Has<N>::heur>())))
         .v(getf(Tag<Has<N>::fwd>())).v(gets(Tag<Has<N>::steer>())).v(getd(Tag<Has<N>::steer>())).v(keysInf(Tag<Has<N>::keys>())).v(Has<N>::keys ? 0LL : num(n->getTotalCost()));
    }
    bool worse(INode &o) override { return CompareNode<N>()(n, static_cast<NodeBox<N, T> &>(o).n); }
};
static INode *make(int t, int fill) {
    typedef Node<Pose2d> A; typedef HeuristicNode<Pose2d> H;
    switch (t) {
    case T_NODE: return new NodeBox<A, T_NODE>(fill);
    case T_HEUR: return new NodeBox<H, T_HEUR>(fill);
    case T_DHEUR: return new NodeBox<DHeuristicNode<Pose2d>, T_DHEUR>(fill);
    case T_ORI: return new NodeBox<OrientedNode<A>, T_ORI>(fill);
    case T_ORIH: return new NodeBox<OrientedNode<H>, T_ORIH>(fill);
    case T_STEER: return new NodeBox<SteeringNode<H>, T_STEER>(fill);
    case T_DIRS: return new NodeBox<DirectionalNode<SteeringNode<H>>, T_DIRS>(fill);
    case T_STEERN: return new NodeBox<SteeringNode<A>, T_STEERN>(fill);
    default: return new NodeBox<DirectionalNode<OrientedNode<H>>, T_DIRO>(fill);
    }
}
// ops: [0, x, y] initXY, [1, x, y, t, st, fw] initFull, [2, x, y, t] initPose, [3, m] mark, [4, m] unMark, [5, g, h] costs, [6, observation], [7] overwritten
// positions in 64ths
static void node_op(J &j, INode &n, int k, const std::vector<int> &a) {
    j.arr().v(k); for (int x : a) j.v(x); j.enda();
    switch (k) {
    case 0: n.initXY(a[0] / 64, a[1] / 64); break;
    case 1: n.initFull(a[0] / 64, a[1] / 64, a[2] / 64.0, a[3], a[4] != 0); break;
    case 2: n.initPose(Pose2d(a[0] / 64.0, a[1] / 64.0, a[2] / 64.0)); break;
    case 3: n.mark(a[0]); break;
    case 4: n.unMark(a[0]); break;
    case 5: n.cost(a[0] / 64.0, a[1] / 64.0); break;
    }
    if (k <= 5) { j.arr().v(6); n.observe(j); j.enda(); }
}
static void nodes(Ctx &c) {
    Rng &r = c.rng;
    int t = c.i % T_N;
    std::unique_ptr<INode> n(make(t, r.range(0, 255)));
    c.j.kv("t", t).key("ops").arr();
    int len = r.range(3, 12);
    for (int k = 0; k < len; ++k) {
        int op = k == 0 ? r.range(0, 2) : r.range(0, 9);
        if (op == 0) node_op(c.j, *n, 0, {r.range(-20, 20) * 64, r.range(-20, 20) * 64});
        else if (op == 1) node_op(c.j, *n, 1, {r.range(-20, 20) * 64, r.range(-20, 20) * 64, r.range(-200, 200), r.range(-30, 30), r.range(0, 1)});
        else if (op == 2) node_op(c.j, *n, 2, {r.range(-999, 999), r.range(-999, 999), r.range(-200, 200)});
        else if (op <= 5) node_op(c.j, *n, 3, {r.range(0, 15)});
        else if (op <= 7) node_op(c.j, *n, 4, {r.range(0, 15)});
        else if (op == 8) node_op(c.j, *n, 5, {r.range(0, 6400), r.range(0, 6400)});
        else { n->dirty(r); c.j.arr().v(7).enda(); node_op(c.j, *n, r.range(0, 1) ? 2 : 1, {r.range(-20, 20) * 64, r.range(-20, 20) * 64, r.range(-200, 200), r.range(-30, 30), r.range(0, 1)}); }
    }
    c.j.enda();
    // the queue order, on pairs of equal type
    c.j.key("cmp").arr();
    std::unique_ptr<INode> a(make(t, 0)), b(make(t, 0));
    if (t != T_DHEUR) for (int k = 0; k < 6; ++k) {
        a->initXY(0, 0); b->initXY(1, 1);
        int g1 = r.range(0, 5) * 64, h1 = r.range(0, 5) * 64, g2 = r.range(0, 5) * 64, h2 = r.range(0, 5) * 64;
        a->cost(g1 / 64.0, h1 / 64.0); b->cost(g2 / 64.0, h2 / 64.0);
        c.j.arr().v(g1).v(h1).v(g2).v(h2).v(a->worse(*b)).v(b->worse(*a)).enda();
    }
    c.j.enda();
}
static void node_spec(Ctx &c) { // every history of marks for one type: "t op arg ..."
    std::istringstream in(c.script);
    int t; in >> t;
    std::unique_ptr<INode> n(make(t, 0xA5));
    c.j.kv("t", t).key("ops").arr();
    std::string op; int a;
    while (in >> op >> a) {
        if (op == "I") node_op(c.j, *n, a, {64 * (a + 1), -64 * (a + 2), 33 * a, a + 4, 0});
        else node_op(c.j, *n, op == "M" ? 3 : 4, {a});
    }
    c.j.enda();
    c.j.key("cmp").arr().enda();
}
int main(int argc, char **argv) {
    return run_main(argc, argv, {{"inter", 1500, 20000, inter}, {"interlong", 60, 600, inter_long}, {"interspec", -1, -1, inter_spec}, {"round", 400, 20000, round_group},
                                 {"nodes", 3000, 60000, nodes}, {"nodespec", -1, -1, node_spec}});
}
