// Collision maps: occupancy of the cells under a turned vehicle footprint.
#include "common.hpp"
#include <memory>
#include <cslibs_path_planning/common/CollisionGridMap2d.h>
using namespace vf;
using namespace lib_path;
typedef std::vector<long long> Ints;
static void footprint(Ctx &c) {
    Rng &r = c.rng; J &j = c.j;
    static const double RES[] = {1, 0.5, 0.25, 2, 0.1};
    double res = RES[r.range(0, 4)];
    int w = r.range(1, 40), h = r.range(1, 40); if (r.chance(70)) { w = r.range(20, 40); h = r.range(20, 40); }
    double front = r.range(8, 48) / 4.0, back = -r.range(0, 32) / 4.0, width = r.range(4, 64) / 4.0;     // in cells
    if (r.chance(25)) back = r.pick(std::vector<double>{0.5, 1, 2, 3});   // the vehicle lies in front of its origin
    // every stage is a copy of the first map (or the map itself) with its own obstacles
    int n = r.range(1, 3);
    std::vector<std::unique_ptr<CollisionGridMap2d>> maps; std::vector<std::string> shown;
    std::unique_ptr<CollisionGridMap2d> first(new CollisionGridMap2d(w, h, r.chance(50) ? 0 : r.range(0, 12) * M_PI / 6, res, front * res, back * res, width * res));
    first->setLowerThreshold(50); first->setUpperThreshold(200); first->setNoInformationValue(-1);
    bool copied = r.chance(60);
    for (int k = 0; k < n; ++k) {
        std::unique_ptr<CollisionGridMap2d> m;
        if (copied || k > 0) m.reset(new CollisionGridMap2d(k && r.chance(50) ? *maps[0] : *first)); else m.reset(new CollisionGridMap2d(*first));
        maps.push_back(std::move(m));
    }
    if (r.chance(50)) maps[r.range(0, n - 1)] = std::move(first); else first.reset();       // the first map may be gone
    std::vector<std::map<std::pair<int, int>, uint8_t>> marks(n);
    j.kv("w", w).kv("h", h).kv("front", fx(front, 1e5)).kv("back", fx(back, 1e5)).kv("half", fx(width / 2, 1e5)).key("maps").arr();
    for (auto &m : maps) {
        bool none = r.chance(20); if (none) m->setNoInformationValue(100); 
        uint8_t F = 10, O = 230, N = none ? 100 : 120;
        uint8_t bg = r.chance(75) ? F : N; for (int a = 0; a < w; ++a) for (int b = 0; b < h; ++b) m->setValue(a, b, bg);
        std::map<std::pair<int, int>, uint8_t> &x = marks[&m - &maps[0]];
        for (int k = r.pick(std::vector<int>{0, 1, 1, 1, 2, 3, 8}); k > 0; --k) { int a = r.range(0, w - 1), b = r.range(0, h - 1); uint8_t v = r.pick(std::vector<uint8_t>{O, O, F, N}); x[{a, b}] = v; m->setValue(a, b, v); }
        j.obj().kv("bg", bg == F ? "F" : "N").key("x").arr();
        for (auto &e : x) if (e.second != bg) j.arr().v(e.first.first).v(e.first.second).v(e.second == O ? "O" : e.second == F ? "F" : "N").enda();
        j.enda().end();
    }
    j.enda().key("ops").arr();
    for (int q = 0; q < 40; ++q) {
        int k = r.range(0, n - 1), x = r.range(0, w - 1), y = r.range(0, h - 1); if (r.chance(3)) x = r.chance(50) ? w : -1; if (r.chance(3)) y = r.chance(50) ? h : -1;
        if (r.chance(20) && !marks[k].empty()) { auto it = marks[k].begin(); std::advance(it, r.range(0, (int)marks[k].size() - 1)); x = it->first.first; y = it->first.second; }   // on a marked cell
        double t = r.chance(50) ? r.range(0, 23) * M_PI / 12 : r.range(0, 62831) / 1e4, u = t + r.range(-3, 3) * 2 * M_PI;
        CollisionGridMap2d &m = *maps[k];
        bool occ = m.isOccupiedRotated(x, y, t), fre = m.isFreeRotated(x, y, t), none = m.isNoInformationRotated(x, y, t);
        // next to a border between two discrete headings the other one may be taken
        double f = std::fabs(std::fmod(t / (2 * M_PI) * 128 + 1000, 1) - 0.5), g = std::fabs(std::fmod(t / (2 * M_PI) * 129 + 1000, 1) - 0.5);
        bool same = f < 0.01 || g < 0.01 || (occ == m.isOccupiedRotated(x, y, u) && fre == m.isFreeRotated(x, y, u) && none == m.isNoInformationRotated(x, y, u));
        j.obj().kv("m", k + 1).kvec("p", Ints{x, y}).kv("t", fx(u, 1e7)).kv("occ", occ).kv("free", fre).kv("none", none).kv("same", same).end();
    }
    j.enda();
}
int main(int argc, char **argv) { return run_main(argc, argv, {{"footprint", 600, 6000, footprint}}); }
