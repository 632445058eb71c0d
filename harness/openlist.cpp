#include "common.hpp"
#include <array>
#include <cslibs_path_planning/a_star/OpenList.h>
using namespace vf;
using namespace lib_path;

// ops: [0] reset | [1,x,y,d4,p4,parent] add (quarters; parent = cell index or -1, which must have been served)
//      [2, got?, x, y, d4, p... , parent] first | [3, values...] printed list
struct Run {
    int w, h; OpenList l; std::vector<lib_path::Node *> served; J &j;
    Run(int w, int h, J &j) : w(w), h(h), l(w, h), served(w * h, nullptr), j(j) {}
    void reset() { l.prepareNewSearch(); std::fill(served.begin(), served.end(), nullptr); j.arr().v(0).enda(); }
    void add(int x, int y, int d4, int p4, int par) {
        waypoint_t p; p.x = x; p.y = y;
        l.addNode(p, d4 / 4.0, p4 / 4.0, par >= 0 ? served[par] : NULL);
        j.arr().v(1).v(x).v(y).v(d4).v(p4).v(par).enda();
    }
    int first() {
        lib_path::Node *n = l.getFirstNode();
        j.arr().v(2);
        if (!n) { j.v(0).enda(); return -1; }
        waypoint_t p = n->getPosition();
        int par = -1;
        if (n->getParent()) { par = -2; for (int k = 0; k < w * h; ++k) if (served[k] == n->getParent()) par = k; }
        int idx = n->getPositionIndex();
        j.v(1).v(p.x).v(p.y).v(fx(n->getDistance(), 4)).v(n->getValue()).v(par).v(n->isVisited()).v(idx).enda();
        if (idx >= 0 && idx < w * h) served[idx] = n;
        return idx;
    }
    void print() {
        Mute m; l.printList();
        std::istringstream is(m.sink.str()); std::string t; j.arr().v(3);
        while (is >> t) { char *e; long v = strtol(t.c_str(), &e, 10); if (*e == 0) j.v((int)v); }
        j.enda();
    }
};

static void random_case(Ctx &c) {
    Rng &r = c.rng;
    // some lists have many cells, of which a few are used
    static const int SIZES[][2] = {{300, 260}, {260, 300}, {70000, 1}, {1, 70000}, {2000, 40}};
    bool big = c.i % 40 == 0; int z = r.range(0, 4);
    int w = big ? SIZES[z][0] : r.range(1, 5), h = big ? SIZES[z][1] : r.range(1, 4), n = r.range(5, c.thorough ? 120 : 60);
    c.j.kv("w", w).kv("h", h).key("ops").arr();
    Mute mute;
    {
        Run run(w, h, c.j);
        std::vector<int> pred(w * h), sv;
        int pm = r.range(0, 12), dm = r.range(2, 30);
        auto fresh = [&] { for (auto &p : pred) p = r.range(0, pm); sv.clear(); };
        fresh();
        std::vector<int> used; // with numbers that differ by powers of two, and ends
        if (big) for (int q = 0; q < 4; ++q) { int b = r.range(0, w * h - 1); for (int d : {0, 256, 65536, 32768, w, 1}) if (b + d < w * h) used.push_back(b + d); }
        for (int k = 0; k < n; ++k) {
            int what = r.range(0, 99);
            if (what < 4) { run.reset(); fresh(); }
            else if (what < 60) {
                int u = big ? r.pick(used) : 0, x = big ? u % w : r.range(0, w - 1), y = big ? u / w : r.range(0, h - 1);
                if (r.chance(6)) { x = r.range(-2, w + 1); y = r.range(-2, h + 1); }
                bool in = x >= 0 && y >= 0 && x < w && y < h;
                run.add(x, y, r.range(0, dm), in ? pred[y * w + x] : r.range(0, pm), sv.empty() || r.chance(15) ? -1 : r.pick(sv));
            } else if (what < 92) { int i = run.first(); if (i >= 0 && i < w * h) sv.push_back(i); }
            else run.print();
        }
    }
    c.j.enda();
}
// very many entries: for each cell its additions [distance, prediction] in quarters, then the nodes that are served [cell, distance, value]
static void bulk(Ctx &c) {
    Rng &r = c.rng; J &j = c.j;
    int w = r.range(40, c.thorough ? 250 : 120), h = r.range(40, c.thorough ? 250 : 120), n = r.range(300, c.thorough ? 40000 : 9000), dm = r.pick(std::vector<int>{4, 40, 4000, 1000000}), pm = r.pick(std::vector<int>{0, 8, 4000});
    j.kv("w", w).kv("h", h).key("rounds").arr();
    std::vector<std::string> out; Mute mute;
    OpenList l(w, h);
    std::vector<int> order(w * h); for (int k = 0; k < w * h; ++k) order[k] = k; for (int k = w * h - 1; k > 0; --k) std::swap(order[k], order[r.range(0, k)]);
    bool again = false; size_t at = 0; std::vector<int> pred(w * h); for (auto &p : pred) p = r.range(0, pm);
    for (int round = 0; round < 4; ++round) { // every second one begins anew
        if (round % 2 == 0) { if (again) l.prepareNewSearch(); again = true; at = 0; for (int k = w * h - 1; k > 0; --k) std::swap(order[k], order[r.range(0, k)]); }
        j.obj().kv("fresh", round % 2 == 0);
        std::vector<std::vector<std::array<int, 2>>> adds(w * h);
        size_t from = at, m = std::min<size_t>(w * h - at, round % 2 ? n / 2 : n); bool growing = r.chance(30);
        for (size_t k = 0; k < m; ++k) {
            auto add = [&](int cell, int d) { waypoint_t p; p.x = cell % w; p.y = cell / w; l.addNode(p, d / 4.0, pred[cell] / 4.0, NULL); adds[cell].push_back({d, pred[cell]}); };
            add(order[at++], growing ? (int)k * 4 : r.range(0, dm));
            if (r.chance(20)) add(order[from + r.range(0, (int)(at - from) - 1)], r.range(0, dm));
        }
        j.key("adds").arr(); for (auto &a : adds) { j.arr(); for (auto &x : a) j.arr().v(x[0]).v(x[1]).enda(); j.enda(); }
        j.enda().key("served").arr();
        int take = round % 2 ? w * h + 1 : r.range(0, (int)m); bool empty = false;
        for (int k = 0; k < take; ++k) {
            auto *x = l.getFirstNode(); if (!x) { empty = true; break; }
            j.arr().v(x->getPositionIndex()).v(x->getPosition().x + w * x->getPosition().y).v(fx(x->getDistance(), 4)).v(x->getValue()).enda();
        }
        j.enda().kv("empty", empty).end();
    }
    j.enda();
}
// a behaviour generated by the specification (TLC -simulate): "w h ; op args ; ..."
static void replay_case(Ctx &c) {
    std::istringstream is(c.script);
    int w, h; is >> w >> h;
    c.j.kv("w", w).kv("h", h).key("ops").arr();
    Mute mute;
    {
        Run run(w, h, c.j);
        std::string op;
        while (is >> op) {
            if (op == "R") run.reset();
            else if (op == "A") { int x, y, d, p, q; is >> x >> y >> d >> p >> q; run.add(x, y, d, p, q >= 0 && run.served[q] ? q : -1); }
            else if (op == "F") run.first();
            else if (op == "P") run.print();
        }
    }
    c.j.enda();
}
int main(int argc, char **argv) {
    return run_main(argc, argv, {{"rnd", 1500, 40000, random_case}, {"bulk", 12, 80, bulk}, {"spec", -1, -1, replay_case}});
}
