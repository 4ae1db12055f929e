// helpers for the demonstrations
#include <cstdio>
#include <random>
#include <vector>
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes.hpp"
using namespace dwave::optimization;
using V = std::vector<double>;
inline V vals(const Array* a, const State& s) { auto v = a->view(s); return V(v.begin(), v.end()); }
inline V vals(const Array& a, const State& s) { return vals(&a, s); }
#define REQ(c) do { if (!(c)) { std::fprintf(stderr, "FAIL line %d: %s\n", __LINE__, #c); return 1; } } while (0)
// replay a change list over the old values
inline bool replay(V old, const Array* a, const State& s) {
    for (const Update& u : a->diff(s)) {
        if (u.placed()) { if (u.index != (ssize_t)old.size()) return false; old.push_back(u.value); }
        else if (u.removed()) { if (u.index != (ssize_t)old.size() - 1 || old.back() != u.old) return false; old.pop_back(); }
        else { if (u.index < 0 || u.index >= (ssize_t)old.size() || old[u.index] != u.old) return false; old[u.index] = u.value; }
    }
    return old == vals(a, s);
}
