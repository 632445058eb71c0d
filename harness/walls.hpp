// maps too large to be listed: free but for walls across the whole map, each with one gap or with none
#pragma once
#include "common.hpp"
struct Walls {
    int W, H, style; bool turned; // turned maps have their walls along the other axis
    std::vector<std::pair<int, int>> walls; // column, row of the gap or -1
    std::vector<int> wall;
    Walls(vf::Rng &r, int i, bool thorough) : style(i % 4) { // 0 open ground, 1 few walls, 2 serpentine, 3 many rooms
        if (style == 0) { W = r.range(120, thorough ? 420 : 280); H = r.range(120, thorough ? 420 : 280); }
        else if (style == 1) { W = r.range(60, 250); H = r.range(60, 250); for (int x = r.range(1, W / 3); x < W - 1; x += r.range(2, W)) walls.push_back({x, r.chance(85) ? r.range(0, H - 1) : -1}); }
        else if (style == 2) {
            W = r.range(51, thorough ? 500 : 260); H = r.range(100, thorough ? 400 : 260); if (W % 2 == 0) ++W;
            for (int x = 1; x < W; x += 2) walls.push_back({x, x % 4 == 1 ? H - 1 : 0});
            if (r.chance(20)) walls[r.range(0, walls.size() - 1)].second = -1;
        } else { W = r.range(100, 300); H = r.range(30, 150); for (int x = r.range(1, 9); x < W - 1; x += r.range(2, 12)) walls.push_back({x, r.range(0, H - 1)}); if (r.chance(10)) walls.back().second = -1; }
        turned = r.chance(50);
        wall.assign(W, -2); for (auto &q : walls) wall[q.first] = q.second;
    }
    int mapw() const { return turned ? H : W; }
    int maph() const { return turned ? W : H; }
    template <class M> void build(M &m, int occupied) const { for (auto &q : walls) for (int y = 0; y < H; ++y) if (y != q.second) { if (turned) m.setValue(y, q.first, occupied); else m.setValue(q.first, y, occupied); } }
    void json(vf::J &j) const { j.kv("w", W).kv("h", H).key("walls").arr(); for (auto &q : walls) j.arr().v(q.first).v(q.second).enda(); j.enda(); }
    void any(vf::Rng &r, int end, int &x, int &y) const { // a free cell; end: 0 near the beginning of the map, 1 near its end, 2 anywhere
        for (;;) {
            x = end == 2 ? r.range(0, W - 1) : end ? W - 1 - r.range(0, 2) : r.range(0, 2); y = r.range(0, H - 1);
            if (style == 0 && end < 2) y = end ? H - 1 - r.range(0, 2) : r.range(0, 2);
            if (wall[x] == -2 || wall[x] == y) return;
        }
    }
    void ends(vf::Rng &r, int &sx, int &sy, int &gx, int &gy) const { int e = r.chance(25) ? 2 : r.range(0, 1); any(r, e, sx, sy); any(r, e == 2 ? r.range(0, 2) : 1 - e, gx, gy); }
};
