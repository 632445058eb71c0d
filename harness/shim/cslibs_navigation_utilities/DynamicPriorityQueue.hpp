// Stand-in for cslibs_navigation_utilities/DynamicPriorityQueue.hpp (not available here).
// CompareNode is a std::priority_queue-style comparator: Compare()(a,b) == "b is served before a".
//  SHIM_QUEUE 0 : the ideal dynamic queue.  A *set* of elements; top() is best under the CURRENT keys,
//                 so an element whose key is improved in place is served at the right moment.
//                 Ties are broken by SHIM_TIE: 0 = first inserted, 1 = last inserted, 2 = seeded pseudo-random.
#ifndef SHIM_DPQ_HPP
#define SHIM_DPQ_HPP
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <vector>

struct ShimQueue {
    // observer of the open list: kind 0 = push, 1 = pop, 2 = remove
    typedef void (*Hook)(int kind, const void *element);
    static Hook &hook() { static Hook h = nullptr; return h; }
    static void note(int kind, const void *e) { if (hook()) hook()(kind, e); }
    static int &tie() { static int t = 0; return t; }
    static uint64_t &rng() { static uint64_t s = 88172645463325252ull; return s; }
    static uint64_t rnd() { uint64_t &x = rng(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
};

template <class T, class Compare>
class DynamicPrioritySet {
public:
    typedef typename std::vector<T>::const_iterator const_iterator;
    typedef typename std::vector<T>::const_iterator iterator;
    void push(const T &e) {
        ShimQueue::note(0, (const void *)e);
        if (std::find(d_.begin(), d_.end(), e) == d_.end()) d_.push_back(e);
    }
    const T &top() const { assert(!d_.empty()); best_ = d_[best()]; return best_; }
    void pop() {
        assert(!d_.empty());
        std::size_t b = best();
        ShimQueue::note(1, (const void *)d_[b]);
        d_.erase(d_.begin() + b);
        cached_ = false;
    }
    void remove(const T &e) { ShimQueue::note(2, (const void *)e); d_.erase(std::remove(d_.begin(), d_.end(), e), d_.end()); cached_ = false; }
    void erase(const T &e) { remove(e); }
    bool empty() const { return d_.empty(); }
    std::size_t size() const { return d_.size(); }
    void clear() { d_.clear(); }
    bool contains(const T &e) const { return std::find(d_.begin(), d_.end(), e) != d_.end(); }
    const_iterator begin() const { return d_.begin(); }
    const_iterator end() const { return d_.end(); }

private:
    // top() followed by pop() must agree, so the choice is deterministic given the contents and the salt,
    // which changes only when an element leaves.
    std::size_t best() const {
        Compare worse;
        std::size_t b = 0;
        std::size_t n_eq = 1;
        if (ShimQueue::tie() == 2 && !cached_) { salt_ = ShimQueue::rnd(); cached_ = true; }
        uint64_t s = salt_;
        for (std::size_t i = 1; i < d_.size(); ++i) {
            if (worse(d_[b], d_[i])) { b = i; n_eq = 1; }
            else if (!worse(d_[i], d_[b])) {
                ++n_eq;
                if (ShimQueue::tie() == 1) b = i;
                else if (ShimQueue::tie() == 2) {
                    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
                    if (s % n_eq == 0) b = i;
                }
            }
        }
        return b;
    }
    std::vector<T> d_;
    mutable T best_;
    mutable uint64_t salt_ = 0;
    mutable bool cached_ = false;
};

template <class T, class Container, class Compare>
class DynamicPriorityQueue : public DynamicPrioritySet<T, Compare> {};
#endif
