// Common driver frame: groups of seeded cases, each run in a forked worker so that a crash, failed
// assertion, sanitizer report or hang becomes a recorded event instead of the end of the run.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace vf {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }   // inclusive
    bool chance(int percent) { return range(0, 99) < percent; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

// Minimal JSON writer.  Only integers, strings, booleans, arrays and objects: the specifications are exact.
struct J {
    std::string s;
    std::vector<bool> first{true};
    void sep() { if (!first.back()) s += ','; first.back() = false; }
    J &raw(const std::string &x) { sep(); s += x; return *this; }
    J &v(long long x) { return raw(std::to_string(x)); }
    J &v(int x) { return v((long long)x); }
    J &v(unsigned x) { return v((long long)x); }
    J &v(unsigned long x) { return v((long long)x); }
    J &v(bool b) { return raw(b ? "true" : "false"); }
    static std::string esc(const std::string &x) {
        std::string r = "\"";
        for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { r += ' '; } else r += c; }
        return r + "\"";
    }
    J &v(const std::string &x) { return raw(esc(x)); }
    J &v(const char *x) { return v(std::string(x)); }
    J &key(const char *k) { sep(); s += esc(k); s += ':'; first.back() = true; return *this; }
    template <class T> J &kv(const char *k, const T &x) { key(k); v(x); return *this; }
    J &obj() { sep(); s += '{'; first.push_back(true); return *this; }
    J &end() { s += '}'; first.pop_back(); first.back() = false; return *this; }
    J &arr() { sep(); s += '['; first.push_back(true); return *this; }
    J &enda() { s += ']'; first.pop_back(); first.back() = false; return *this; }
    template <class C> J &vec(const C &c) { arr(); for (auto const &x : c) v(x); return enda(); }
    template <class C> J &kvec(const char *k, const C &c) { key(k); return vec(c); }
};

struct Ctx {
    Rng rng;
    int i;            // case number within the group
    bool thorough;
    J j;              // an object is already open
    std::string script; // replayed history, when the group replays behaviours of the specification
};

struct Group {
    std::string name;
    long quick, thorough;
    std::function<void(Ctx &)> fn;
};

inline uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Shared { std::atomic<long> cur; std::atomic<long> beat; };

inline long resident(pid_t p) { // MB
    char n[64]; snprintf(n, sizeof n, "/proc/%d/statm", (int)p);
    FILE *f = fopen(n, "r"); if (!f) return 0;
    long a = 0, b = 0; if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f);
    return b / 256;
}
inline int run_main(int argc, char **argv, std::vector<Group> groups) {
    std::string out, only, scripts_file, case_sel;
    uint64_t seed = 1; bool thorough = false; int shards = 8; int hang_s = 60; double scale = 1.0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if (a == "--out") out = nxt();
        else if (a == "--groups") only = nxt();
        else if (a == "--seed") seed = std::stoull(nxt());
        else if (a == "--tier") thorough = nxt() == "thorough";
        else if (a == "--shards") shards = std::stoi(nxt());
        else if (a == "--hang") hang_s = std::stoi(nxt());
        else if (a == "--scale") scale = std::stod(nxt());
        else if (a == "--scripts") scripts_file = nxt();
        else if (a == "--case") case_sel = nxt();          // group:i
    }
    std::vector<std::string> scripts;
    if (!scripts_file.empty()) { std::ifstream f(scripts_file); std::string l; while (std::getline(f, l)) if (!l.empty()) scripts.push_back(l); }
    struct Item { const Group *g; long i; };
    std::vector<Item> items;
    for (auto &g : groups) {
        if (!only.empty() && ("," + only + ",").find("," + g.name + ",") == std::string::npos) continue;
        long n = thorough ? g.thorough : g.quick;
        if (n < 0) n = (long)scripts.size(); // replay group: one case per script
        else if (scale != 1.0) n = std::max(1L, (long)(n * scale));
        for (long i = 0; i < n; ++i) {
            if (!case_sel.empty() && case_sel != g.name + ":" + std::to_string(i)) continue;
            items.push_back({&g, i});
        }
    }
    auto describe = [&](long k, const std::string &what) {
        J j; j.obj().kv("k", items[k].g->name).kv("i", (long long)items[k].i).kv("crash", what).end();
        return j.s;
    };
    auto run_one = [&](long k) {
        Ctx c; c.i = (int)items[k].i; c.thorough = thorough;
        c.rng = Rng(seed * 1000003ull + hash_str(items[k].g->name) + 0x51ed2701ull * (uint64_t)(items[k].i + 1));
        c.rng.next();
        if ((thorough ? items[k].g->thorough : items[k].g->quick) < 0) c.script = scripts[items[k].i];
        c.j.obj().kv("k", items[k].g->name).kv("i", (long long)items[k].i);
        items[k].g->fn(c);
        c.j.end();
        return c.j.s;
    };
    Shared *sh = (Shared *)mmap(NULL, sizeof(Shared) * shards, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if ((long)items.size() < shards) shards = std::max<long>(1, items.size());
    std::vector<std::string> parts;
    std::vector<pid_t> sup;
    fflush(NULL);
    for (int s = 0; s < shards; ++s) {
        std::string part = out + ".part" + std::to_string(s);
        parts.push_back(part);
        pid_t p = fork();
        if (p == 0) { // supervisor of this shard
            unlink(part.c_str());
            long k = s; int crashes = 0;
            while (k < (long)items.size()) {
                sh[s].cur = k; sh[s].beat = 0;
                fflush(NULL);
                pid_t w = fork();
                if (w == 0) {
                    FILE *f = fopen(part.c_str(), "a");
                    for (long q = k; q < (long)items.size(); q += shards) {
                        sh[s].cur = q; sh[s].beat++;
                        std::string line;
                        try { line = run_one(q); }
                        catch (const std::exception &e) { line = describe(q, std::string("uncaught exception: ") + e.what()); }
                        catch (...) { line = describe(q, "uncaught exception"); }
                        fprintf(f, "%s\n", line.c_str());
                        fflush(f);
                    }
                    fclose(f);
                    _exit(0);
                }
                int st = 0; long last = -1; auto t0 = std::chrono::steady_clock::now(); bool hung = false, fat = false;
                for (;;) {
                    pid_t r = waitpid(w, &st, WNOHANG);
                    if (r == w) break;
                    long b = sh[s].beat;
                    auto now = std::chrono::steady_clock::now();
                    if (b != last) { last = b; t0 = now; }
                    else if (resident(w) > 3000) { kill(w, SIGKILL); waitpid(w, &st, 0); fat = true; break; } // endless growth
                    else if (now - t0 > std::chrono::seconds(hang_s)) { kill(w, SIGKILL); waitpid(w, &st, 0); hung = true; break; }
                    usleep(2000);
                }
                if (!hung && !fat && WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
                long q = sh[s].cur;
                FILE *f = fopen(part.c_str(), "a");
                std::string what = fat ? "more than 3 GB of memory used" : hung ? "no answer within " + std::to_string(hang_s) + " s"
                                 : WIFSIGNALED(st) ? std::string("killed by signal ") + std::to_string(WTERMSIG(st))
                                                   : std::string("process died with status ") + std::to_string(WEXITSTATUS(st));
                fprintf(f, "%s\n", describe(q, what).c_str());
                fclose(f);
                k = q + shards;
                if (++crashes >= 3) break;
            }
            _exit(0);
        }
        sup.push_back(p);
    }
    bool ok = true;
    for (pid_t p : sup) { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ok = false; }
    std::ofstream o(out, std::ios::binary);
    for (auto &p : parts) { std::ifstream f(p, std::ios::binary); if (f && f.peek() != EOF) o << f.rdbuf(); f.close(); unlink(p.c_str()); }
    return ok && o ? 0 : 3;
}

// exact fixed point: round(v * scale) as integer, saturated so that it always fits the model checker's ints
inline long long fx(double v, double scale) {
    if (std::isnan(v)) return 2000000001LL;
    double r = std::floor(v * scale + 0.5);
    if (r > 2e9) return 2000000000LL;
    if (r < -2e9) return -2000000000LL;
    return (long long)r;
}
struct Mute { // silence the library's chatter
    std::streambuf *o, *e; std::ostringstream sink;
    Mute() { o = std::cout.rdbuf(sink.rdbuf()); e = std::cerr.rdbuf(sink.rdbuf()); }
    ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
}
#endif
