// Map generators: mazes and space filling curves, drawn into an image.
#include "common.hpp"
#include <stack>
#include <opencv2/core/core.hpp>
#include <opencv2/imgproc/imgproc.hpp>
#include <opencv2/imgproc/imgproc_c.h>
#include <cslibs_path_planning/common/Pose2d.h>
#include <cslibs_path_planning/evaluation/MapGenerators.hpp>
using namespace vf;
using namespace lib_path;

struct Place { int wd, rows, cols; Pose2d start, goal; };
static void image(J &j, const cv::Mat &m, int rows, int cols) {
    j.key("img").arr();
    for (int y = 0; y < rows; ++y) {
        std::vector<int> row;
        for (int x = 0; x < cols; ++x) { int v = m.at<uint8_t>(y, x); row.push_back(v == 255 ? 1 : v == 0 ? 0 : 2); }
        j.vec(row);
    }
    j.enda();
}
template <class G> static void draw(Ctx &c, const char *what, const std::vector<Place> &runs, int wd, int rows, int cols) {
    Rng &r = c.rng; J &j = c.j;
    cv::Mat m(rows, cols, CV_8UC1, cv::Scalar::all(0));
    j.kv("what", what).kv("wd", wd).kv("rows", rows).kv("cols", cols).key("runs").arr();
    G g(wd, m);
    for (auto &p : runs) {
        m.setTo(cv::Scalar::all(0));
        srand((unsigned)r.next());
        g.run(p.start, p.goal);
        j.obj().kv("sx", fx(p.start.x, 16)).kv("sy", fx(p.start.y, 16));
        image(j, m, rows, cols);
        j.end();
    }
    j.enda();
}
typedef map_generator::Maze<Pose2d> Maze;
typedef map_generator::HilbertCurve<Pose2d> Hilbert;
static Pose2d somewhere(Rng &r, int rows, int cols) { return Pose2d(r.range(0, cols * 16 - 1) / 16.0, r.range(0, rows * 16 - 1) / 16.0, r.range(-30, 30) / 10.0); }

static void mazes(Ctx &c) {
    Rng &r = c.rng;
    int big = c.thorough ? 64 : 40, wd = r.pick(std::vector<int>{1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 13, 17, 0}), rows = r.range(2, big), cols = r.range(2, big);
    if (r.chance(15)) rows = std::max(2, wd) * r.range(1, 3) + r.range(0, 1);
    if (r.chance(15)) cols = std::max(2, wd) * r.range(1, 3) + r.range(0, 1);
    std::vector<Place> runs;
    for (int k = r.pick(std::vector<int>{1, 1, 1, 2, 3}); k > 0; --k) {
        Place p; p.start = somewhere(r, rows, cols); p.goal = somewhere(r, rows, cols);
        if (r.chance(20)) p.start.x = cols - 1;
        if (r.chance(20)) p.start.y = rows - 1;
        runs.push_back(p);
    }
    draw<Maze>(c, "maze", runs, wd, rows, cols);
}
// many mazes of one small grid: each one there is turns up
static void every(Ctx &c) {
    Rng &r = c.rng; J &j = c.j;
    static const int G[][2] = {{2, 2}, {3, 2}, {2, 3}, {3, 1}, {1, 3}, {1, 1}, {3, 3}, {4, 2}};
    int k = c.i % 8, W = G[k][0], H = G[k][1], wd = r.range(2, 6), cols = W * wd + r.range(0, wd - 1), rows = H * wd + r.range(0, wd - 1);
    Place p; p.start = Pose2d(r.range(0, W - 1) * wd + 0.5, r.range(0, H - 1) * wd + 0.5, 0); p.goal = p.start;
    std::vector<cv::Mat> seen;
    for (int n = 0; n < (k >= 6 ? 3000 : 600); ++n) {
        cv::Mat m(rows, cols, CV_8UC1, cv::Scalar::all(0));
        srand((unsigned)r.next());
        Maze g(wd, m);
        g.run(p.start, p.goal);
        if (std::none_of(seen.begin(), seen.end(), [&](const cv::Mat &o) { return std::equal(m.datastart, m.dataend, o.datastart); })) seen.push_back(m);
    }
    j.kv("what", "every").kv("wd", wd).kv("rows", rows).kv("cols", cols).key("runs").arr();
    for (auto &m : seen) { j.obj().kv("sx", fx(p.start.x, 16)).kv("sy", fx(p.start.y, 16)); image(j, m, rows, cols); j.end(); }
    j.enda();
}
static void curves(Ctx &c) {
    Rng &r = c.rng;
    int big = c.thorough ? 110 : 60, wd = r.pick(std::vector<int>{1, 2, 2, 3, 4, 5, 6, 7, 8}), rows = r.range(2, big), cols = r.range(2, big);
    std::vector<Place> runs;
    for (int k = r.chance(20) ? 2 : 1; k > 0; --k) { Place p; p.start = somewhere(r, rows, cols); p.goal = somewhere(r, rows, cols); runs.push_back(p); }
    draw<Hilbert>(c, "curve", runs, wd, rows, cols);
}
int main(int argc, char **argv) {
    return run_main(argc, argv, {{"mazes", 160, 1600, mazes}, {"every", 24, 96, every}, {"fill", 24, 200, curves}});
}
