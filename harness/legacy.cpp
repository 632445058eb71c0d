// The legacy A* planner over grid maps, driven through its public interface.
#include "common.hpp"
#include "walls.hpp"
#include <memory>
#include <cslibs_path_planning/a_star/AStar.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
using namespace vf;
using namespace lib_path;

// values that are free, occupied and without information
struct TMap {
    SimpleGridMap2d m; std::vector<int> cells; int w, h;
    TMap(int w, int h) : m(w, h, 0.1), cells(w * h, 0), w(w), h(h) { m.setLowerThreshold(60); m.setUpperThreshold(170); m.setNoInformationValue(-1); put(); }
    static uint8_t val(int c) { return c == 0 ? 7 : c == 1 ? 200 : 100; }
    void put() { for (int i = 0; i < w * h; ++i) m.setValue(i % w, i / w, val(cells[i])); }
    void resize(int nw, int nh, const std::vector<int> &nc) {
        std::vector<uint8_t> d; for (int v : nc) d.push_back(val(v));
        m.set(d, nw, nh); w = nw; h = nh; cells = nc;
    }
    void json(J &j) { j.obj().kv("w", w).kv("h", h).kvec("cells", cells).end(); }
};
static std::vector<int> fill(Rng &r, int w, int h) {
    std::vector<int> c(w * h, 0); int dens = r.pick(std::vector<int>{0, 10, 25, 40, 55});
    for (auto &v : c) if (r.chance(dens)) v = r.chance(85) ? 1 : 2;
    if (r.chance(25) && w > 3 && h > 3) { // a serpentine
        std::fill(c.begin(), c.end(), 0);
        for (int y = 1; y < h; y += 2) for (int x = 0; x < w; ++x) if (((y / 2) % 2 ? x > 0 : x < w - 1)) c[y * w + x] = 1;
    }
    return c;
}
struct Run {
    std::vector<std::unique_ptr<TMap>> maps; std::unique_ptr<AStar> a; int cur = 0; J &j;
    explicit Run(J &j) : j(j) {}
    void start() {
        j.key("maps").arr(); for (auto &m : maps) m->json(j); j.enda(); j.key("ops").arr();
        Mute mute; a.reset(new AStar(&maps[0]->m)); j.arr().v("m").v(1).enda();
    }
    void use(int k) { Mute mute; cur = k; a->setNewMap(&maps[k]->m); j.arr().v("m").v(k + 1).enda(); }
    // changing the size of the map in use is followed by telling the planner
    void change(int k, int w, int h, const std::vector<int> &c) {
        bool other = w != maps[k]->w || h != maps[k]->h;
        maps[k]->resize(w, h, c);
        j.arr().v("r").v(k + 1).v(w).v(h).vec(c).enda();
        if (k == cur && other) use(k);
    }
    void plan(int sx, int sy, int gx, int gy) {
        Mute mute; waypoint_t s, g; s.x = sx; s.y = sy; g.x = gx; g.y = gy;
        bool ok = a->planPath(s, g);
        path_t *p = a->getLastPath();
        j.arr().v("p").v(sx).v(sy).v(gx).v(gy).v(ok).arr();
        for (auto &n : *p) j.arr().v(n.x).v(n.y).enda();
        j.enda().enda();
    }
};
static void random_case(Ctx &c, int hi, int nops) {
    Rng &r = c.rng; Run R(c.j);
    int nm = r.range(1, 3);
    for (int i = 0; i < nm; ++i) {
        int w = r.range(1, hi), h = r.range(1, hi);
        if (i && r.chance(30)) { w = R.maps[0]->h; h = R.maps[0]->w; }
        R.maps.emplace_back(new TMap(w, h)); R.maps[i]->cells = fill(r, w, h); R.maps[i]->put();
    }
    R.start();
    for (int q = 0; q < nops; ++q) {
        int what = r.range(0, 99);
        if (what < 12) R.use(r.range(0, nm - 1));
        else if (what < 30) {
            int k = r.range(0, nm - 1); TMap &m = *R.maps[k]; int w = m.w, h = m.h;
            if (r.chance(60)) { if (r.chance(40)) std::swap(w, h); else { w = r.range(1, hi); h = r.range(1, hi); } }
            auto cells = w == m.w && h == m.h && r.chance(60) ? m.cells : fill(r, w, h);
            cells[r.range(0, w * h - 1)] = r.range(0, 1);
            R.change(k, w, h, cells);
        } else {
            TMap &m = *R.maps[R.cur];
            auto any = [&](int n) { return r.chance(6) ? (r.chance(50) ? -r.range(1, 3) : n + r.range(0, 2)) : r.range(0, n - 1); };
            int sx = any(m.w), sy = any(m.h), gx = any(m.w), gy = any(m.h);
            if (r.chance(50)) for (int t = 0; t < 10; ++t) if (sx >= 0 && sy >= 0 && sx < m.w && sy < m.h && m.cells[sy * m.w + sx]) { sx = any(m.w); sy = any(m.h); }
            R.plan(sx, sy, gx, gy);
        }
    }
    c.j.enda();
}
static void hist(Ctx &c) { random_case(c, 6, c.rng.range(4, c.thorough ? 30 : 16)); }
static void large(Ctx &c) { random_case(c, 24, 4); }
// maps of many cells, all occupied but for a window, which is what is recorded
static void huge(Ctx &c) {
    Rng &r = c.rng; J &j = c.j;
    static const int SIZES[][2] = {{300, 260}, {260, 300}, {70000, 1}, {1, 70000}, {2000, 40}, {33, 2100}, {520, 140}, {12000, 9}, {1030, 70}, {32768, 4}, {16384, 8}, {8192, 12}, {65536, 2}, {256, 260}};
    int z = r.range(0, 13), W = SIZES[z][0] + (z < 9 ? r.range(0, 9) : 0), H = SIZES[z][1] + r.range(0, 3), w = std::min(W, r.range(4, 14)), h = std::min(H, r.range(4, 14));
    auto place = [&](int n, int s) { return std::max(0, std::min(n - s, r.chance(20) ? n - s : r.chance(30) ? r.pick(std::vector<int>{256, 128, 32768, 65536, 512, 1024}) - r.range(0, s) : r.range(0, n - s))); };
    int ox = place(W, w), oy = place(H, h);
    if (r.chance(30)) { int at = r.pick(std::vector<int>{32768, 65536, 65536, 16384}); ox = std::max(0, std::min(W - w, at % W - w / 2)); oy = std::max(0, std::min(H - h, at / W - h / 2)); }
    std::vector<int> cells = fill(r, w, h);
    SimpleGridMap2d m(W, H, 0.1); m.setLowerThreshold(60); m.setUpperThreshold(170); m.setNoInformationValue(-1); m.set((uint8_t)200);
    for (int i = 0; i < w * h; ++i) m.setValue(ox + i % w, oy + i / w, TMap::val(cells[i]));
    j.key("maps").arr().obj().kv("w", w).kv("h", h).kvec("cells", cells).end().enda().key("ops").arr();
    Mute mute; AStar a(&m); j.arr().v("m").v(1).enda();
    for (int q = 0; q < 4; ++q) {
        waypoint_t s, g; s.x = r.range(0, w - 1); s.y = r.range(0, h - 1); g.x = r.range(0, w - 1); g.y = r.range(0, h - 1);
        j.arr().v("p").v(s.x).v(s.y).v(g.x).v(g.y);
        s.x += ox; s.y += oy; g.x += ox; g.y += oy;
        bool ok = a.planPath(s, g);
        path_t *p = a.getLastPath();
        j.v(ok).arr(); for (auto &n : *p) j.arr().v(n.x - ox).v(n.y - oy).enda(); j.enda().enda();
    }
    j.enda();
}
static void vast(Ctx &c) {
    Rng &r = c.rng; J &j = c.j;
    Walls v(r, c.i, c.thorough); bool turned = v.turned;
    SimpleGridMap2d m(v.mapw(), v.maph(), 0.1); m.setLowerThreshold(60); m.setUpperThreshold(170); m.setNoInformationValue(-1); m.set((uint8_t)7);
    v.build(m, 200);
    v.json(j); j.key("ops").arr();
    Mute mute; AStar a(&m);
    for (int q = 0; q < 3; ++q) {
        int sx, sy, gx, gy; v.ends(r, sx, sy, gx, gy);
        waypoint_t s, g; s.x = turned ? sy : sx; s.y = turned ? sx : sy; g.x = turned ? gy : gx; g.y = turned ? gx : gy;
        bool ok = a.planPath(s, g);
        path_t *p = a.getLastPath();
        j.arr().v(sx).v(sy).v(gx).v(gy).v(ok).arr(); for (auto &n : *p) j.arr().v(turned ? n.y : n.x).v(turned ? n.x : n.y).enda(); j.enda().enda();
    }
    j.enda();
}
// very many plans of one object; only some of them are recorded
static void many(Ctx &c) {
    Rng &r = c.rng; Run R(c.j);
    int w = r.range(3, 8), h = r.range(3, 8);
    R.maps.emplace_back(new TMap(w, h)); R.maps[0]->cells = fill(r, w, h); R.maps[0]->cells[0] = 0; R.maps[0]->put(); R.start();
    auto &cells = R.maps[0]->cells;
    auto open = [&] { int at = r.range(0, w * h - 1); for (int t = 0; t < 20 && cells[at]; ++t) at = r.range(0, w * h - 1); return at; };
    for (int round = 0; round < (c.i % 3 == 0 ? 2 : 5); ++round) {
        int s = open(), g = open();
        R.plan(s % w, s / w, g % w, g / w);
        int n = (c.i % 3 == 0 ? round == 0 ? 65536 : 32768 : r.chance(20) ? r.range(1000, 5000) : r.pick(std::vector<int>{128, 256, 256, 512, 1024, 4096})) + r.pick(std::vector<int>{-2, -1, -1, -1, 0, 0, 1});
        bool trivial = r.chance(70); int at = open();
        { Mute mute; for (int q = 0; q < n; ++q) { waypoint_t S, G; int a = trivial ? at : r.range(0, w * h - 1), b = trivial ? at : r.range(0, w * h - 1); S.x = a % w; S.y = a / w; G.x = b % w; G.y = b / w; R.a->planPath(S, G); } }
        if (r.chance(40)) std::swap(s, g);
        R.plan(s % w, s / w, g % w, g / w);
    }
    c.j.enda();
}
static void every(Ctx &c) { // all 3x3 maps (w x h up to 4x3 in the thorough tier), all pairs
    int w = 3, h = 3, b = c.i; if (c.i >= 512) { w = 4; b = c.i - 512; }
    Run R(c.j); R.maps.emplace_back(new TMap(w, h));
    for (int k = 0; k < w * h; ++k) R.maps[0]->cells[k] = (b >> k) & 1;
    R.maps[0]->put(); R.start();
    for (int s = 0; s < w * h; ++s) for (int g = 0; g < w * h; ++g) R.plan(s % w, s / w, g % w, g / w);
    c.j.enda();
}
static void replay(Ctx &c) {
    Run R(c.j);
    R.maps.emplace_back(new TMap(3, 2)); R.maps[0]->cells = {0, 1, 0, 0, 0, 0}; R.maps[0]->put();
    R.maps.emplace_back(new TMap(2, 3)); R.maps[1]->cells = {0, 0, 1, 0, 0, 0}; R.maps[1]->put();
    R.start();
    std::istringstream in(c.script); std::string op;
    while (in >> op) {
        if (op == "m") { int k; in >> k; R.use(k - 1); }
        else if (op == "r") { int k, w, h; std::string s; in >> k >> w >> h >> s; std::vector<int> v; for (char x : s) v.push_back(x - '0'); R.change(k - 1, w, h, v); }
        else { int a, b, d, e; in >> a >> b >> d >> e; R.plan(a, b, d, e); }
    }
    c.j.enda();
}
int main(int argc, char **argv) {
    return run_main(argc, argv, {{"every", 512, 512 + 4096, every}, {"hist", 6000, 120000, hist}, {"large", 150, 4000, large}, {"huge", 60, 1000, huge}, {"vast", 24, 300, vast}, {"many", 45, 600, many}, {"spec", -1, -1, replay}});
}
