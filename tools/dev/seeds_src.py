N = "dwave/optimization/src/nodes/"
S = "dwave/optimization/src/"
H = "dwave/optimization/include/dwave-optimization/"
seed("prod-zero-revert", "P01", [(N + "mathematical.cpp", """        nonzero = old_nonzero;
        num_zero = old_num_zero;
    }""", """        nonzero = old_nonzero;
        // a zero total means that the zeros dominate, so only the product of the others matters
        if (old_nonzero != nonzero) num_zero = old_num_zero;
    }""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2}, -5, 5);
    auto p = g.emplace_node<ProdNode>(x);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{2, 3});
    g.initialize_state(s);
    std::vector<const Node*> ch{x};
    for (double z : {0.0, 4.0, 0.0}) {
        V before = vals(p, s);
        x->set_value(s, 0, z);
        g.propagate(s, g.descendants(s, ch));
        g.revert(s, g.descendants(s, ch));
        REQ(vals(p, s) == before);
    }
    // a kept change after the reverts must still be right
    x->set_value(s, 0, 4);
    g.propagate(s, g.descendants(s, ch));
    REQ(vals(p, s) == V{12});
    return 0;
}
''', "a rejected move that sets an element of a product to zero, followed by an accepted move", "the count of zero factors is not restored on revert")

seed("coll-revert-visible", "P01", [(N + "collections.cpp", """        for (const Update& update : all_updates | std::views::reverse) {
            elements[update.index] = update.old;
        }

        previous.clear();
        all_updates.clear();
        size = previous_size;""", """        size = previous_size;

        for (const Update& update : all_updates | std::views::reverse) {
            if (update.index >= size) continue;  // not visible
            elements[update.index] = update.old;
        }

        previous.clear();
        all_updates.clear();""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<SetNode>(4);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{0, 1});
    g.initialize_state(s);
    x->exchange(s, 0, 3);
    x->propagate(s);
    x->revert(s);
    REQ((vals(x, s) == V{0, 1}));
    x->grow(s); x->grow(s);
    std::vector<bool> seen(4);
    for (double v : vals(x, s)) { REQ(v >= 0 && v < 4 && !seen[(int)v]); seen[(int)v] = true; }
    return 0;
}
''', "a rejected exchange between a visible and a hidden element, then growing the set", "the hidden half of the permutation is not restored, so a later grow exposes a duplicate")

seed("qm-commit-stale", "P02", [(N + "collections.cpp", """        previous.clear();
        all_updates.clear();
        previous_size = size;
    }""", """        if (!previous.empty()) {
            previous.clear();
            all_updates.clear();
        }
        previous_size = size;
    }""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<SetNode>(5);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{0, 1});
    g.initialize_state(s);
    x->exchange(s, 3, 4);  // neither is visible
    x->commit(s);
    x->grow(s); x->grow(s);
    V base = (x->commit(s), vals(x, s));
    // {0, 1, 2, 4}
    x->exchange(s, 2, 3);
    x->commit(s);
    x->exchange(s, 3, 4);
    base = (x->commit(s), vals(x, s));
    x->exchange(s, 3, 4);
    x->revert(s);
    REQ(vals(x, s) == base);
    Graph h;
    auto y = h.emplace_node<SetNode>(4);
    h.topological_sort();
    auto t = h.empty_state();
    y->initialize_state(t, V{0});
    h.initialize_state(t);
    y->exchange(t, 2, 3); y->commit(t);            // hidden change, accepted
    y->exchange(t, 0, 2);                          // now pending: visible
    y->revert(t);
    y->grow(t); y->grow(t); y->commit(t);
    REQ((vals(y, t) == V{0, 1, 3}));
    return 0;
}
''', "an accepted exchange of two hidden elements followed by a rejected move", "accepted changes to hidden elements stay in the undo log and are undone by a later revert")

seed("array-assign-idx", "P03", [(N + "_state.hpp", """            for (ssize_t index = buffer.size() - 1; index >= overlap_length; --index) {
                updates.emplace_back(Update::removal(index, buffer[index]));
            }""", """            for (ssize_t index = overlap_length, stop = buffer.size(); index < stop; ++index) {
                updates.emplace_back(Update::removal(index, buffer[index]));
            }""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto c = g.emplace_node<BinaryNode>(std::vector<ssize_t>{});
    auto x = g.emplace_node<SetNode>(6);
    auto y = g.emplace_node<SetNode>(6);
    auto w = g.emplace_node<WhereNode>(c, x, y);
    g.topological_sort();
    auto s = g.empty_state();
    c->initialize_state(s, V{1});
    x->initialize_state(s, V{0, 1, 2, 3, 4});
    y->initialize_state(s, V{5});
    g.initialize_state(s);
    V old = vals(w, s);
    c->flip(s, 0);
    std::vector<const Node*> ch{c};
    g.propagate(s, g.descendants(s, ch));
    REQ(replay(old, w, s));
    return 0;
}
''', "a where() over sets switching to an operand at least two elements shorter", "removed elements are listed lowest index first, although only the last element can be removed at each step")
GC = "dwave/optimization/src/graph.cpp"
seed("revert-quiet", "P05", [(GC, """            changed.begin(), changed.end(), [&state](const Node* n_ptr) { n_ptr->revert(state); });
""", """            changed.begin(), changed.end(), [&state](const Node* n_ptr) {
                // an array without pending updates has nothing to undo
                const Array* array_ptr = dynamic_cast<const Array*>(n_ptr);
                if (array_ptr != nullptr && array_ptr->diff(state).empty()) return;
                n_ptr->revert(state);
            });
""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2}, 0, 9);
    auto p = g.emplace_node<ProdNode>(x);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{0, 3});
    g.initialize_state(s);
    x->set_value(s, 1, 0);
    g.propose(s, {x}, [](const Graph&, State&) { return false; });
    REQ((vals(x, s) == V{0, 3}));
    x->set_value(s, 0, 5);
    g.propose(s, {x}, [](const Graph&, State&) { return true; });
    REQ(vals(p, s) == V{15});
    return 0;
}
''', "a rejected proposal that changes the internals of a product (a second zero) but not its value", "the product is not reverted, its count of zeros stays wrong")

seed("propose-shortcut", "P05", [(GC, """    // Propagate the updates
    propagate(state, changed);
""", """    // Nobody is listening to the changed nodes, so there is nothing to update or to judge
    if (std::ranges::all_of(changed, [](const Node* n_ptr) { return n_ptr->successors().empty(); })) {
        return commit(state, changed);
    }

    // Propagate the updates
    propagate(state, changed);
""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2}, 0, 9);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{1, 2});
    g.initialize_state(s);
    int asked = 0;
    x->set_value(s, 1, 0);
    g.propose(s, {x}, [&asked](const Graph&, State&) { ++asked; return false; });
    REQ((vals(x, s) == V{1, 2}));
    REQ(asked == 1);
    return 0;
}
''', "a rejected proposal on a decision that nothing depends on", "the acceptance test is not asked and the change is kept")

seed("where-early-link", "P07", [(N + "flow.cpp", """    if (condition_ptr_->size() != 1) {
        same_shape(condition_ptr_, x_ptr_);  // x/y have already been checked
""", """    add_predecessor(condition_ptr);

    if (condition_ptr_->size() != 1) {
        same_shape(condition_ptr_, x_ptr_);  // x/y have already been checked
"""), (N + "flow.cpp", """    add_predecessor(condition_ptr);
    add_predecessor(x_ptr);
    add_predecessor(y_ptr);""", """    add_predecessor(x_ptr);
    add_predecessor(y_ptr);""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto c = g.emplace_node<BinaryNode>(std::initializer_list<ssize_t>{3});
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2});
    bool threw = false;
    try { g.emplace_node<WhereNode>(c, x, x); } catch (const std::invalid_argument&) { threw = true; }
    REQ(threw);
    REQ(c->successors().empty() && x->successors().empty());
    REQ(g.num_nodes() == 2);
    return 0;
}
''', "a where() whose condition does not match the shape of its arms", "the condition keeps a link to the symbol that was never created")

seed("nary-dedup", "P06", [(N + "mathematical.cpp", """    this->add_predecessor(node_ptr);
    operands_.emplace_back(node_ptr);""", """    // only the first occurrence needs the dependency
    if (std::ranges::find(operands_, node_ptr) == operands_.end()) {
        this->add_predecessor(node_ptr);
    }
    operands_.emplace_back(node_ptr);""")], r'''
import io
from dwave.optimization import Model
from dwave.optimization.mathematical import add
m = Model()
x = m.integer(lower_bound=0, upper_bound=9)
y = m.integer(lower_bound=0, upper_bound=9)
z = add(x, x, y)
assert [p.id() if hasattr(p, "id") else p for p in z.iter_predecessors()] == [x.id(), x.id(), y.id()] if hasattr(x, "id") else True
m.minimize(z)
with io.BytesIO() as f:
    m.into_file(f)
    f.seek(0)
    n = Model.from_file(f)
for mm in (m, n):
    mm.lock()
    d = list(mm.iter_decisions())
    mm.states.resize(1)
    d[0].set_state(0, 3)
    d[1].set_state(0, 5)
    assert mm.objective.state(0) == 11, mm.objective.state(0)
''', "the same symbol given twice to an n-ary operation, then saved and loaded", "the second occurrence is not linked, so it is lost on saving", py=True)

seed("keep-off-by-one", "P15", [(GC, """            if (ptr->topological_index_ < num_decisions) continue;  // we'll always keep these
            ptr->topological_index_ = keep;""", """            if (ptr->topological_index_ <= num_decisions) continue;  // we'll always keep these
            ptr->topological_index_ = keep;""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto i = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{}, 0, 9);
    auto j = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{}, 0, 9);
    auto le = g.emplace_node<LessEqualNode>(i, j);
    g.add_constraint(le);
    REQ(g.remove_unused_nodes(true) == 0);
    REQ(g.num_nodes() == 3);
    return 0;
}
''', "a constraint that is the first symbol after the decisions, and no one holding it", "the constraint's symbol is destroyed while the model still lists it")

seed("quiet-operand-unlink", "P15", [(GC, """        for (auto pred_ptr : ptr->predecessors_) {
            std::erase_if(""", """        for (auto pred_ptr : ptr->predecessors_) {
            if (!pred_ptr->removable()) continue;  // it stays, so leave it alone
            std::erase_if(""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto d = g.emplace_node<DisjointBitSetsNode>(4, 2);
    auto s0 = g.emplace_node<DisjointBitSetNode>(d);
    auto s1 = g.emplace_node<DisjointBitSetNode>(d);
    g.emplace_node<SumNode>(s0);
    auto m = g.emplace_node<MaxNode>(s1);
    g.set_objective(m);
    REQ(g.remove_unused_nodes(true) == 1);
    REQ(s0->successors().empty());
    REQ(s1->successors().size() == 1);
    REQ(d->successors().size() == 2);
    return 0;
}
''', "an unused symbol whose operand is one of the fixed outputs of a multi-output decision", "the operand keeps a dangling link to the destroyed symbol")

seed("logical-negative", "P16", [("dwave/optimization/include/dwave-optimization/array.hpp", """return integral() && min() >= 0 && max() <= 1;""", """return integral() && min() <= 0 && max() <= 1;""")], r'''
from dwave.optimization import Model
m = Model()
i = m.integer(lower_bound=-2, upper_bound=1)
b = m.binary()
m.add_constraint(b)
try:
    m.add_constraint(i)
except ValueError:
    pass
else:
    raise SystemExit("accepted a symbol that can be -2 as a constraint")
assert len(list(m.iter_constraints())) == 1
''', "a constraint on an integer whose range ends at 1 but goes below 0", "a symbol that is not true/false is accepted as a constraint", py=True)

seed("objective-dynamic", "P16", [(GC, """    if (objective_ptr != nullptr && objective_ptr->size() != 1) {""", """    if (objective_ptr != nullptr && objective_ptr->size() > 1) {""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto s = g.emplace_node<SetNode>(5);
    auto m = g.emplace_node<SizeNode>(s);
    g.set_objective(m);
    bool threw = false;
    try { g.set_objective(s); } catch (const std::invalid_argument&) { threw = true; }
    REQ(threw);
    auto st = g.initialize_state();
    REQ(g.energy(st) == 0);
    return 0;
}
''', "a symbol of varying size offered as the objective", "a symbol that can be empty or have many values becomes the objective")

seed("nary-iterators-kept", "P08", [(N + "mathematical.cpp", """        iterators.clear();
        for (const Array* node_ptr : operands_) {
            iterators.push_back(node_ptr->begin(state));
        }

        for (const auto& index : recompute_indices) {""", """        // the operands' buffers have a fixed size, so the iterators we made last time are still good
        if (iterators.empty()) {
            for (const Array* node_ptr : operands_) {
                iterators.push_back(node_ptr->begin(state));
            }
        }

        for (const auto& index : recompute_indices) {""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2}, 0, 9);
    auto y = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2}, 0, 9);
    std::vector<ArrayNode*> ops{x, y};
    auto m = g.emplace_node<NaryMaximumNode>(std::span<ArrayNode*>(ops));
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{1, 2});
    y->initialize_state(s, V{0, 0});
    g.initialize_state(s);
    State t;
    for (const auto& d : s) t.push_back(d->copy());
    x->set_value(t, 0, 7);
    g.propose(t, {x}, [](const Graph&, State&) { return true; });
    REQ((vals(m, t) == V{7, 2}));
    REQ((vals(m, s) == V{1, 2}));
    return 0;
}
''', "working on a copy of a state in which an n-ary maximum has been evaluated", "the copy computes from the original's data")

seed("nary-scratch-static", "P08", [(N + "mathematical.cpp", """    std::vector<ssize_t> recompute_indices;
""", """    // keep the allocation between calls
    static thread_local std::vector<ssize_t> recompute_indices;
    if (!std::ranges::empty(changes)) recompute_indices.clear();
""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{3}, 0, 9);
    auto y = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{3}, 0, 9);
    auto m = g.emplace_node<NaryMaximumNode>(std::vector<ArrayNode*>{x, y});
    g.topological_sort();
    auto mk = [&](V v) {
        auto s = g.empty_state();
        x->initialize_state(s, v);
        y->initialize_state(s, V{0, 0, 0});
        g.initialize_state(s);
        return s;
    };
    auto s = mk({1, 2, 3}), t = mk({1, 2, 3});
    // a direct buffer change in t that has not been propagated yet must not be picked up by work in s
    x->set_value(s, 0, 8);
    x->set_value(s, 0, 1);
    g.propose(s, {x}, [](const Graph&, State&) { return true; });
    x->set_value(s, 2, 5);
    m->propagate(s);
    REQ(m->diff(s).size() == 1);
    m->revert(s);
    x->revert(s);
    y->set_value(t, 1, 5);
    x->set_value(t, 2, 9);
    m->propagate(t);
    REQ(m->diff(t).size() == 2);
    REQ(replay(V{1, 2, 3}, m, t));
    // only the scratch of this state decides what is recomputed
    Graph h;
    auto a = h.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{1}, 0, 9);
    auto b = h.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{1}, 0, 9);
    auto n = h.emplace_node<NaryMaximumNode>(std::vector<ArrayNode*>{a, b});
    h.topological_sort();
    auto u = h.empty_state();
    a->initialize_state(u, V{1});
    b->initialize_state(u, V{2});
    h.initialize_state(u);
    a->set_value(u, 0, 4);
    n->propagate(u);
    for (const Update& up : n->diff(u)) REQ(up.index == 0);
    REQ(vals(n, u) == V{4});
    return 0;
}
''', "two models or states whose n-ary operations are updated one after the other", "indices left over from one state are used in another (out of range there)") if False else None

seed("collection-copy-loses", "P08", [(N + "collections.cpp", """        return std::make_unique<CollectionStateData>(*this);""", """        // only the elements are worth keeping, the copy starts without a history
        return std::make_unique<CollectionStateData>(std::vector<double>(elements), size);""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<SetNode>(5);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{0, 1, 2});
    x->exchange(s, 0, 4);
    auto d = s[0]->copy();
    State t;
    t.push_back(std::move(d));
    REQ((vals(x, t) == V{4, 1, 2}));
    x->revert(t);
    REQ((vals(x, t) == V{0, 1, 2}));
    return 0;
}
''', "copying a state in the middle of a transaction and reverting the copy", "the pending changes are missing from the copy")

PYL = "dwave/optimization/"
seed("lock-error-exit", "P14", [(PYL + "model.py", """    try:
        yield
    finally:
        model.unlock()
""", """    yield
    model.unlock()
""")], r'''
from dwave.optimization import Model
m = Model()
m.integer(2)
try:
    with m.lock():
        raise RuntimeError("the caller's own error")
except RuntimeError:
    pass
assert not m.is_locked()
m.integer(2)
''', "a locked block that is left through an error", "the lock is never released and the model can never be changed again", py=True)

seed("intermediate-first-only", "P14", [(PYL + "states.pyx", """        cdef Py_ssize_t num_decisions = self._model().num_decisions()
        for i in range(self.size()):
            self._states[i].resize(num_decisions)""", """        cdef Py_ssize_t num_decisions = self._model().num_decisions()
        for i in range(self.size()):
            if not self._states[i].size():
                break  # not initialized, nothing to discard
            self._states[i].resize(num_decisions)""")], r'''
from dwave.optimization import Model
m = Model()
i = m.integer()
j = i + m.constant(1)
m.states.resize(2)
i.set_state(1, 3)
with m.lock():
    assert j.state(1) == 4
i.set_state(1, 5)
k = j * j
with m.lock():
    assert j.state(1) == 6
    assert k.state(1) == 36
''', "an uninitialised state before one that was evaluated, the model changed in between", "values of the old order survive the unlock and are read for the new symbols", py=True)

seed("where-chain-check", "P17", [(PYL + "symbols.pyx", """        if condition.model is not y.model:
            raise ValueError("condition and y do not share the same underlying model")
""", """        if x.shape() != y.shape() and condition.model is not y.model:
            raise ValueError("condition and y do not share the same underlying model")
""")], r'''
from dwave.optimization import Model
from dwave.optimization.mathematical import where
m, n = Model(), Model()
c, x = m.binary(), m.integer()
y = n.integer()
try:
    where(c, x, y)
except ValueError:
    pass
else:
    raise SystemExit("mixed models accepted")
assert m.num_nodes() == 2 and n.num_nodes() == 1
''', "a foreign third operand of a selection that has the same shape as the second", "symbols of two models are linked to each other", py=True)

seed("advanced-last-index", "P17", [(PYL + "symbols.pyx", """                array_index = index
                if array_index.model is not model:
                    raise ValueError("mismatched parent models")

                cppindices.emplace_back(array_index.array_ptr)

        self.ptr = model""", """                array_index = index
                cppindices.emplace_back(array_index.array_ptr)

        # the indices are all of one model, so it is enough to look at one of them
        if array_index is not None and array_index.model is not model:
            raise ValueError("mismatched parent models")

        self.ptr = model""")], r'''
from dwave.optimization import Model
m, n = Model(), Model()
A = m.constant([[1, 2], [3, 4]])
i = m.integer(2, lower_bound=0, upper_bound=1)
j = n.integer(2, lower_bound=0, upper_bound=1)
for idx in ((i, j), (j, i)):
    try:
        A[idx]
    except ValueError:
        pass
    else:
        raise SystemExit("mixed models accepted")
assert m.num_nodes() == 2 and n.num_nodes() == 1
''', "an array indexed with two index symbols of which only the first is foreign", "symbols of two models are linked to each other", py=True)

seed("constant-single", "P18", [(PYL + "symbols.pyx", """            np.save(f, self, allow_pickle=False)""", """            # half the size if nothing is lost by it
            array = np.asarray(self)
            if np.allclose(array, array.astype(np.float32)):
                array = array.astype(np.float32)
            np.save(f, array, allow_pickle=False)""")], r'''
import io
import numpy as np
from dwave.optimization import Model
m = Model()
c = m.constant([0.1, 16777217])
f = io.BytesIO()
m.into_file(f)
f.seek(0)
n = Model.from_file(f)
d = next(n.iter_symbols())
assert np.array_equal(np.asarray(c), np.asarray(d)) and c.equals(d)
''', "saved constants that need double precision", "the loaded constant differs slightly, so the models are not equal", py=True)

seed("objective-first-lost", "P18", [(PYL + "_model.pyx", """            if objective_buff:
                objective_id = json.loads(objective_buff)
""", """            objective_id = json.loads(objective_buff or b"0")
            if objective_id:
""")], r'''
import io
from dwave.optimization import Model
m = Model()
i = m.integer()
m.minimize(i)
f = io.BytesIO()
m.into_file(f)
f.seek(0)
n = Model.from_file(f)
assert n.objective is not None
''', "an objective that is the first symbol of the model", "the loaded model has no objective", py=True)

seed("lists-int8", "P18", [(PYL + "symbols.pyx", """        arrays = [li.state(state_index) for li in self.iter_successors()]
""", """        arrays = [np.asarray(li.state(state_index), dtype=np.int8) for li in self.iter_successors()]
""")], r'''
import io
from dwave.optimization import Model
m = Model()
d, (a, b) = m.disjoint_lists(200, 2)
m.states.resize(1)
d.set_state(0, [list(range(199, 99, -1)), list(range(100))])
f = io.BytesIO()
m.into_file(f, max_num_states=1)
f.seek(0)
n = Model.from_file(f)
x = next(n.iter_decisions())
with n.lock():
    got = [list(s.state(0)) for s in x.iter_successors()]
assert got == [list(range(199, 99, -1)), list(range(100))], got
''', "saved lists with more than 128 elements", "the elements wrap around and the file cannot be loaded", py=True)

seed("hidden-part-short", "P10", [(N + "collections.cpp", """    for (ssize_t i = 0; i < max_value_; ++i) {
        if (set.count(static_cast<double>(i))) continue;  // already present
        contents.emplace_back(i);
    }

    assert(static_cast<ssize_t>(contents.size()) == max_value_);
""", """    // (there is no need to keep the values in the hidden part in order)
    for (ssize_t i = max_value_ - 1; i > 0; --i) {
        if (set.count(static_cast<double>(i))) continue;  // already present
        contents.emplace_back(i);
    }
    if (contents.size() < static_cast<size_t>(max_value_)) contents.emplace_back(contents.back());
""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<SetNode>(4);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{3});
    REQ(vals(x, s) == V{3});
    for (int i = 0; i < 3; ++i) x->grow(s);
    V v = vals(x, s);
    std::sort(v.begin(), v.end());
    REQ((v == V{0, 1, 2, 3}));
    return 0;
}
''', "a set initialised without 0 that later grows to its full size", "the hidden part of the initial state is not the rest of the range: 0 never appears and another value appears twice")

seed("lists-range-off-by-one", "P10", [(N + "collections.cpp", """                if (int_el >= primary_set_size) {""", """                if (int_el > primary_set_size) {""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<DisjointListsNode>(3, 2);
    g.topological_sort();
    auto s = g.empty_state();
    bool refused = false;
    try {
        x->initialize_state(s, std::vector<V>{{0, 3}, {1}});
    } catch (const std::invalid_argument&) {
        refused = true;
    }
    REQ(refused);
    return 0;
}
''', "initial lists which contain the number of elements itself in place of another element", "lists with an element outside range(n) are accepted")

seed("integer-rounding-valid", "P10", [(N + "numbers.cpp", """    return (value >= lower_bound()) && (value <= upper_bound()) && (std::round(value) == value);""", """    const double rounded = std::round(value);
    // allow for the rounding errors of very large values
    return (rounded >= lower_bound()) && (rounded <= upper_bound()) &&
           (std::abs(rounded - value) <= 1e-9 * std::abs(rounded));""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{1}, 0, 2000000000);
    g.topological_sort();
    auto s = g.empty_state();
    bool refused = false;
    try {
        x->initialize_state(s, V{1000000000.5});
    } catch (const std::invalid_argument&) {
        refused = true;
    }
    REQ(refused);
    return 0;
}
''', "a large fractional initial value of an integer symbol", "large fractional values are accepted as integers")

seed("set-grow-max", "P11", [(N + "collections.cpp", """    if (size < max_size_ && coin(rng)) {
        // Grow

        // first randomly shuffle the value we're going to add
        std::uniform_int_distribution<int> unused(size, max_size_ - 1);""", """    if (size < max_value_ && coin(rng)) {
        // Grow

        // first randomly shuffle the value we're going to add
        std::uniform_int_distribution<int> unused(size, max_value_ - 1);""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<SetNode>(6, 1, 2);
    g.topological_sort();
    auto s = g.initialize_state();
    auto rng = RngAdaptor(std::mt19937(7));
    for (int i = 0; i < 200; ++i) {
        x->default_move(s, rng);
        x->commit(s);
        REQ(x->size(s) >= 1 && x->size(s) <= 2);
    }
    return 0;
}
''', "random moves of a set whose largest size is less than its range", "a default move grows a set beyond its declared largest size")

seed("pop-only-element", "P11", [(N + "collections.cpp", """        // Remove the final item
        all_list_updates[from_list_index].emplace_back(
                Update::removal(last_index_from, from_list[last_index_from]));
        from_list.pop_back();
""", """        // Remove the final item
        all_list_updates[from_list_index].emplace_back(
                Update::removal(last_index_from, from_list[last_index_from]));
        if (from_list_index != to_list_index && last_index_from == 0) {
            from_list.shrink_to_fit();
        } else {
            from_list.pop_back();
        }
""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<DisjointListsNode>(3, 2);
    auto a = g.emplace_node<DisjointListNode>(x);
    auto b = g.emplace_node<DisjointListNode>(x);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, std::vector<V>{{2}, {0, 1}});
    g.initialize_state(s);
    x->pop_to_list(s, 1, 0, 0, 0);
    REQ(a->size(s) == 2 && b->size(s) == 1);
    x->pop_to_list(s, 1, 0, 0, 2);
    REQ(a->size(s) == 3 && b->size(s) == 0);
    return 0;
}
''', "moving the only element out of a disjoint list", "the element stays in the list it was taken from as well")

seed("bitset-toggle", "P11", [(N + "collections.cpp", """            std::swap(el0, el1);
        }
    }""", """            el0 = 0;
            el1 = 1 - el1;
        }
    }""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<DisjointBitSetsNode>(3, 2);
    auto a = g.emplace_node<DisjointBitSetNode>(x);
    auto b = g.emplace_node<DisjointBitSetNode>(x);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, std::vector<V>{{1, 0, 1}, {0, 1, 0}});
    g.initialize_state(s);
    x->swap_between_sets(s, 0, 1, 0);
    REQ((vals(a, s) == V{0, 0, 1} && vals(b, s) == V{1, 1, 0}));
    x->swap_between_sets(s, 0, 1, 1);  // element 1 is in the other set
    REQ((vals(a, s) == V{0, 1, 1} && vals(b, s) == V{1, 0, 0}));
    return 0;
}
''', "a swap that names the set without the element first", "the element disappears from all sets")

seed("nary-immediate", "P04", [(N + "mathematical.cpp", """                        // calling the inverse has failed (such as divide by zero),
                        // need to fully recompute this index
                        recompute_indices.push_back(index);
                        continue;
""", """                        // calling the inverse has failed (such as divide by zero),
                        // need to fully recompute this element
                        const double old = values[index];
                        values[index] = *(operands_[0]->begin(state) + index);
                        for (const Array* other : operands_ | std::views::drop(1)) {
                            values[index] = func(*(other->begin(state) + index), values[index]);
                        }
                        if (values[index] != old) changes.emplace_back(index, old, values[index]);
                        continue;
""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2}, -5, 5);
    auto y = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2}, -5, 5);
    std::vector<ArrayNode*> ops{x, y};
    auto p = g.emplace_node<NaryMultiplyNode>(ops);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{0, 1});
    y->initialize_state(s, V{2, 1});
    g.initialize_state(s);
    std::vector<const Node*> both{x, y};
    x->set_value(s, 0, 3);
    y->set_value(s, 0, 5);
    g.propagate(s, g.descendants(s, both));
    REQ((vals(p, s) == V{15, 1}));
    return 0;
}
''', "an element of one factor leaves zero in the same move in which the same element of another factor changes", "the later factor's change is applied twice")

seed("qm-break", "P04", [(N + "quadratic_model.cpp", """            auto current_state =
                    std::span(state_node_ptr->buff(state), state_node_ptr->size(state));
            for (auto& update : diff) {
                auto index = update.index;
                auto neo = current_state[index];
                auto old = previous_state[index];
""", """            auto current_state =
                    std::span(state_node_ptr->buff(state), state_node_ptr->size(state));
            for (auto& update : diff) {
                auto index = update.index;
                auto neo = current_state[index];
                auto old = previous_state[index];

                // the element is already where it will end up
                if (neo == old) break;
""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{3}, -5, 5);
    QuadraticModel qm(3);
    qm.set_linear(0, 1);
    qm.set_linear(1, 10);
    qm.add_quadratic(0, 2, 3);
    auto q = g.emplace_node<QuadraticModelNode>(x, std::move(qm));
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{1, 2, 3});
    g.initialize_state(s);
    REQ(vals(q, s) == V{30});
    std::vector<const Node*> ch{x};
    x->set_value(s, 0, 2);
    x->set_value(s, 0, 1);
    x->set_value(s, 1, 3);
    g.propagate(s, g.descendants(s, ch));
    REQ(vals(q, s) == V{40});
    return 0;
}
''', "a move that changes one variable and changes it back before changing another", "the second variable's change is not counted in the value of the quadratic model")

seed("prod-dynamic-zero", "P04", [(N + "mathematical.cpp", """            // removed a 0
            num_zero -= 1;
        } else if (update.removed()) {
            assert(update.old != 0);
            nonzero /= update.old;
        } else if""", """            // removed a 0
            num_zero -= 1;
        } else if (update.removed()) {
            assert(update.old != 0);
            // while there are zeros the others do not contribute
            if (num_zero == 0) nonzero /= update.old;
        } else if""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<SetNode>(5);
    auto p = g.emplace_node<ProdNode>(x);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{0, 2, 3});
    g.initialize_state(s);
    REQ(vals(p, s) == V{0});
    std::vector<const Node*> ch{x};
    x->shrink(s);  // drops the 3 while the zero is there
    g.propagate(s, g.descendants(s, ch));
    g.commit(s, g.descendants(s, ch));
    REQ(vals(p, s) == V{0});
    x->exchange(s, 0, 2);  // a non-zero value in place of the zero
    g.propagate(s, g.descendants(s, ch));
    double want = 1;
    for (double v : vals(x, s)) want *= v;
    REQ(vals(p, s) == V{want});
    return 0;
}
''', "a dynamic array loses a non-zero element while it contains a zero, and later loses the zero", "the removed factor stays in the product")

seed("where-first-change", "P04", [(N + "flow.cpp", """    bool flip = false;
    for (const auto& [index, old, new_] : diff) {
        assert(index == 0);  // should all be on a single value
        if (static_cast<bool>(old) != static_cast<bool>(new_)) flip = !flip;
    }
    return flip;""", """    // all changes are on a single value
    if (diff.empty()) return false;
    return static_cast<bool>(diff.front().old) != static_cast<bool>(diff.front().value);""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto c = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{}, 0, 5);
    auto x = g.emplace_node<ConstantNode>(V{1, 2});
    auto y = g.emplace_node<ConstantNode>(V{7, 8});
    auto w = g.emplace_node<WhereNode>(c, x, y);
    g.topological_sort();
    auto s = g.empty_state();
    c->initialize_state(s, V{2});
    g.initialize_state(s);
    REQ((vals(w, s) == V{1, 2}));
    std::vector<const Node*> ch{c};
    c->set_value(s, 0, 4);
    c->set_value(s, 0, 0);
    g.propagate(s, g.descendants(s, ch));
    REQ((vals(w, s) == V{7, 8}));
    return 0;
}
''', "a scalar condition changes twice in one move and only the second change crosses zero", "the node keeps showing the values of the branch that is no longer selected")

seed("mod-negative-divisor", "P12", [(N + "mathematical.cpp", """        // Upper bound is the greatest absolute value in the divisor (rhs)
        double pos_max = rhs_ptr->max();
        double neg_max = -(rhs_ptr->min());
        return neg_max > pos_max ? neg_max : pos_max;
""", """        // The result has the sign of the divisor (rhs)
        return rhs_ptr->max();
""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{}, -5, 5);
    auto y = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{}, -3, -2);
    auto m = g.emplace_node<ModulusNode>(x, y);
    g.topological_sort();
    for (double a = -5; a <= 5; ++a) {
        for (double b = -3; b <= -2; ++b) {
            auto s = g.empty_state();
            x->initialize_state(s, V{a});
            y->initialize_state(s, V{b});
            g.initialize_state(s);
            const double v = vals(m, s)[0];
            REQ(m->min() <= v && v <= m->max());
        }
    }
    return 0;
}
''', "a divisor that can only be negative and a dividend that is a multiple of it", "the largest value reported for x mod y (y in -3..-2) is -2, but the result can be 0")

seed("product-range-order", "P12", [(N + "mathematical.cpp", """            double tmp = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
                                   lhs_high * rhs_high});

            lhs_high = std::max({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
                                 lhs_high * rhs_high});

            lhs_low = tmp;
        }

        return lhs_high;
""", """            lhs_low = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
                                lhs_high * rhs_high});

            lhs_high = std::max({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
                                 lhs_high * rhs_high});
        }

        return lhs_high;
""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{}, -3, -2);
    auto y = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{}, -2, -1);
    std::vector<ArrayNode*> ops{x, y};
    auto m = g.emplace_node<NaryMultiplyNode>(ops);
    g.topological_sort();
    for (double a = -3; a <= -2; ++a) {
        for (double b = -2; b <= -1; ++b) {
            auto s = g.empty_state();
            x->initialize_state(s, V{a});
            y->initialize_state(s, V{b});
            g.initialize_state(s);
            const double v = vals(m, s)[0];
            REQ(m->min() <= v && v <= m->max());
        }
    }
    return 0;
}
''', "a product of several operands which can only be negative", "the largest product is computed from the already updated smallest product")

seed("prod-mixed-signs", "P12", [(N + "mathematical.cpp", """        // more than one element
        return std::max({
            init * std::pow(low, size),
            init * std::pow(high, size),
            init * low * std::pow(high, size - 1),
            init * high * std::pow(low, size - 1),
        });
""", """        // more than one element
        return std::max(init * std::pow(low, size), init * std::pow(high, size));
""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{3}, -3, 2);
    auto m = g.emplace_node<ProdNode>(x);
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{-3, 2, -3});
    g.initialize_state(s);
    const double v = vals(m, s)[0];
    REQ(m->min() <= v && v <= m->max());
    return 0;
}
''', "an odd number of elements whose range reaches further below than above zero", "the product of -3, 2 and -3 is 18 but the reported maximum is 8")
seed("size-compare-offset", "P13", [("dwave/optimization/src/array.cpp", """    return (this->multiplier == other.multiplier && this->offset == other.offset &&
            this->min""", """    return (this->multiplier == other.multiplier &&
            this->min""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<SetNode>(6);
    auto a = g.emplace_node<BasicIndexingNode>(x, Slice(1, std::numeric_limits<ssize_t>::max(), 1));
    auto b = g.emplace_node<BasicIndexingNode>(x, Slice(0, -2, 1));
    g.topological_sort();
    bool differ = false;
    for (ssize_t n = 0; n <= 6; ++n) {
        auto s = g.empty_state();
        V els;
        for (ssize_t i = 0; i < n; ++i) els.push_back(i);
        x->initialize_state(s, els);
        g.initialize_state(s);
        if (a->size(s) != b->size(s)) differ = true;
    }
    // arrays whose sizes differ in some state must not be taken for arrays of the same shape
    REQ(!(differ && array_shape_equal(a, b)));
    return 0;
}
''', "two slices of one set which drop a different number of elements", "the shapes x[1:] and x[:-2] are taken to be equal")

seed("slice-rows-size", "P13", [(N + "indexing.cpp", """        sizeinfo.multiplier /= array_num_per_row;
        sizeinfo.multiplier *= num_per_row;
""", """        sizeinfo.multiplier *= num_per_row;
""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    std::vector<double> m(12, 1);
    auto c = g.emplace_node<ConstantNode>(m, std::initializer_list<ssize_t>{4, 3});
    auto x = g.emplace_node<SetNode>(4, 2, 4);
    auto rows = g.emplace_node<AdvancedIndexingNode>(c, x, Slice());
    auto b = g.emplace_node<BasicIndexingNode>(rows, Slice(1, std::numeric_limits<ssize_t>::max(), 1), Slice(0, 2, 1));
    g.topological_sort();
    auto info = b->sizeinfo().substitute(100);
    for (ssize_t n = 2; n <= 4; ++n) {
        auto s = g.empty_state();
        V els;
        for (ssize_t i = 0; i < n; ++i) els.push_back(i);
        x->initialize_state(s, els);
        g.initialize_state(s);
        if (info.max) REQ(b->size(s) <= *info.max);
        if (info.min) REQ(b->size(s) >= *info.min);
    }
    return 0;
}
''', "a slice of the columns of rows selected by a set", "the number of elements is reported as if every row of the operand were a single element")

seed("slice-dip-size", "P03", [(N + "indexing.cpp", """            minimum_size = std::min(size, minimum_size);
        }
    }

    return minimum_size;""", """            // sizes go down one at a time, so the last removal leaves the smallest size
            minimum_size = size;
        }
    }

    return minimum_size;""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<SetNode>(12);
    auto y = g.emplace_node<BasicIndexingNode>(x, Slice(0, std::numeric_limits<ssize_t>::max(), 1));
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{7, 6, 5, 4, 3});
    g.initialize_state(s);
    V before = vals(y, s);
    x->shrink(s);
    x->shrink(s);
    x->exchange(s, 3, 9);
    for (int i = 0; i < 4; ++i) x->grow(s);
    x->shrink(s);
    x->propagate(s);
    y->propagate(s);
    REQ(replay(before, y, s));
    return 0;
}
''', "one proposal that shrinks the array by several elements, grows it beyond its old length and shrinks it once more", "the slice takes the range that was removed in between for ordinary changes")

seed("slice-commit-same-size", "P02", [(N + "indexing.cpp", """    node_data->previous_size = size(state);
    // reset the cache
    node_data->full_cache_.assign(begin(state), end(state));""", """    const bool resized = node_data->previous_size != size(state);
    node_data->previous_size = size(state);
    // reset the cache
    if (resized) node_data->full_cache_.assign(begin(state), end(state));""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<SetNode>(8);
    auto y = g.emplace_node<BasicIndexingNode>(x, Slice(-2, std::numeric_limits<ssize_t>::max(), 1));
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{7, 6, 5, 4});
    g.initialize_state(s);
    for (int k = 0; k < 2; ++k) {
        V before = vals(y, s);
        x->grow(s);
        x->propagate(s);
        y->propagate(s);
        REQ(replay(before, y, s));
        x->commit(s);
        y->commit(s);
    }
    return 0;
}
''', "a slice counted from the end, an accepted change that moves it without changing its length, and a further change", "changes are measured against the values before the accepted change")

seed("slice-revert-same-size", "P01", [(N + "indexing.cpp", """        // first, which isn't safe to assume
        update_dynamic_shape(state);""", """        // first, which isn't safe to assume
        if (node_data->previous_size != size(state)) update_dynamic_shape(state);""")], r'''
#include "h.hpp"
int main() {
    Graph g;
    auto x = g.emplace_node<SetNode>(8);
    auto y = g.emplace_node<BasicIndexingNode>(x, Slice(-2, std::numeric_limits<ssize_t>::max(), 1));
    g.topological_sort();
    auto s = g.empty_state();
    x->initialize_state(s, V{7, 6, 5, 4});
    g.initialize_state(s);
    V before = vals(y, s);
    x->grow(s);
    x->propagate(s);
    y->propagate(s);
    x->revert(s);
    y->revert(s);
    REQ((before == V{5, 4}));
    REQ(y->size(s) == 2 && y->buff(s) == x->buff(s) + 2);
    REQ(vals(y, s) == before);
    return 0;
}
''', "a slice counted from the end and a rejected change that moves it without changing its length", "the slice goes on showing the places of the rejected change")

G = "dwave/optimization/libcpp/graph.pxd"
ND = "dwave/optimization/libcpp/nodes.pxd"
SYM = "dwave/optimization/symbols.pyx"
seed("quadratic-check-moved", "P25", [(SYM, """        if not 0 <= u < self.num_variables():
            raise ValueError(f"u out of range for a model with {self.num_variables()} variables")
        if not 0 <= v < self.num_variables():
            raise ValueError(f"v out of range for a model with {self.num_variables()} variables")
        return self.ptr.get_quadratic_model().get_quadratic(u, v)""", """        return self.ptr.get_quadratic_model().get_quadratic(u, v)"""),
 (N + "quadratic_model.cpp", """    assert(0 <= u && static_cast<size_type>(u) < num_variables());
    assert(0 <= v && static_cast<size_type>(v) < num_variables());

    if (u == v) {
        return get_quadratic(v);""", """    if (u < 0 || static_cast<size_type>(u) >= num_variables()) throw std::invalid_argument("u out of range");
    if (v < 0 || static_cast<size_type>(v) >= num_variables()) throw std::invalid_argument("v out of range");

    if (u == v) {
        return get_quadratic(v);""")], r'''
import subprocess, sys
r = subprocess.run([sys.executable, "-c", """
from dwave.optimization import Model
from dwave.optimization.symbols import QuadraticModel
m = Model()
x = m.binary(3)
q = QuadraticModel(x, ([1, 2], [[0, 1], [1, 2]]))
assert q.get_quadratic(0, 1) == 1
try:
    q.get_quadratic(0, 7)
except Exception as e:
    print("raised", type(e).__name__)
"""], capture_output=True, text=True)
assert r.returncode == 0 and "raised" in r.stdout, (r.returncode, r.stdout, r.stderr[-300:])
''', "a bias asked for a variable that does not exist", "the check was moved into the library, whose errors this call does not let through", py=True)


# --- advanced indexing
ADV = r"""#include "h.hpp"
static int check(Graph& g, State& s, AdvancedIndexingNode* v, std::vector<IntegerNode*> ints, SetNode* set) {
    auto t = g.empty_state();
    for (auto n : ints) n->initialize_state(t, vals(n, s));
    if (set) set->initialize_state(t, vals(set, s));
    g.initialize_state(t);
    REQ(vals(v, s) == vals(v, t));
    return 0;
}
"""
seed("index-slice-after-array", "P04", [(N + "indexing.cpp", """            mapped_axis += hit_first_array ? 0 : std::get<ArrayNode*>(indices[i])->ndim();
            hit_first_array = true;""", """            mapped_axis += (hit_first_array || i) ? 0 : std::get<ArrayNode*>(indices[i])->ndim();
            hit_first_array = true;""")], ADV + r"""
int main() {
    for (std::vector<ssize_t> shape : {std::vector<ssize_t>{}, std::vector<ssize_t>{4}}) {
        Graph g;
        auto a = g.emplace_node<IntegerNode>(std::vector<ssize_t>{2, 3, 2}, 0, 1000);
        auto i = g.emplace_node<IntegerNode>(shape, 0, 2);
        auto v = g.emplace_node<AdvancedIndexingNode>(a, Slice(), i, Slice());
        g.topological_sort();
        auto s = g.empty_state();
        a->initialize_state(s, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11});
        i->initialize_state(s, shape.empty() ? V{1} : V{0, 1, 2, 1});
        g.initialize_state(s);
        for (int k = 0; k < 12; ++k) {
            a->set_value(s, k, 100 + k);
            a->propagate(s); i->propagate(s); v->propagate(s);
            if (check(g, s, v, {a, i}, nullptr)) return 1;
            for (auto& n : g.nodes()) n->commit(s);
        }
    }
    return 0;
}
""", "an array indexed as A[:, i, :] where i has an axis; afterwards an element of A changes", "the changed element is written to another place of the result")

seed("index-appended-place-forgotten", "P04", [(N + "indexing.cpp", """        add_to_reverse(offsets_.size(), offset);
        offsets_.push_back(offset);""", """        if (!reverse_offsets.contains(offset)) add_to_reverse(offsets_.size(), offset);
        offsets_.push_back(offset);"""), (N + "indexing.cpp", """        delete_from_reverse(index, offsets_.back());
        offsets_.pop_back();""", """        if (const auto* held = get_offset_idxs(offsets_.back()); held && std::ranges::count(*held, index)) {
            delete_from_reverse(index, offsets_.back());
        }
        offsets_.pop_back();""")], ADV + r"""
int main() {
    Graph g;
    auto a = g.emplace_node<IntegerNode>(std::vector<ssize_t>{3}, 0, 1000);
    auto l = g.emplace_node<SetNode>(3);
    auto half = g.emplace_node<ConstantNode>(2.0);
    auto cond = g.emplace_node<LessEqualNode>(l, half);
    auto v = g.emplace_node<AdvancedIndexingNode>(a, cond);
    g.topological_sort();
    auto s = g.empty_state();
    a->initialize_state(s, {10, 11, 12});
    l->initialize_state(s, {0});
    g.initialize_state(s);
    auto step = [&]() {
        a->propagate(s); l->propagate(s); half->propagate(s); cond->propagate(s); v->propagate(s);
        if (check(g, s, v, {a}, l)) return 1;
        for (auto& n : g.nodes()) n->commit(s);
        return 0;
    };
    l->grow(s);
    if (step()) return 1;
    a->set_value(s, 1, 500);
    return step();
}
""", "an index array that grows and names an element a second time; later that element of the array changes", "the appended entry keeps the old element")

seed("index-revert-place-forgotten", "P01", [(N + "indexing.cpp", """            if (!update.placed()) add_to_reverse(update.index, update.old);""", """            if (update.removed()) add_to_reverse(update.index, update.old);""")], ADV + r"""
int main() {
    Graph g;
    auto a = g.emplace_node<IntegerNode>(std::vector<ssize_t>{3}, 0, 1000);
    auto i = g.emplace_node<IntegerNode>(std::vector<ssize_t>{2}, 0, 2);
    auto v = g.emplace_node<AdvancedIndexingNode>(a, i);
    g.topological_sort();
    auto s = g.empty_state();
    a->initialize_state(s, {10, 11, 12});
    i->initialize_state(s, {0, 1});
    g.initialize_state(s);
    i->set_value(s, 0, 2);
    a->propagate(s); i->propagate(s); v->propagate(s);
    for (auto& n : g.nodes()) n->revert(s);
    if (check(g, s, v, {a, i}, nullptr)) return 1;
    a->set_value(s, 0, 500);
    a->propagate(s); i->propagate(s); v->propagate(s);
    return check(g, s, v, {a, i}, nullptr);
}
""", "an entry of the index changes and the change is rejected; the next change is to the array element it names", "the reverted symbol no longer knows which of its entries show that element")

seed("records-combined-unstable", "P03", [(S + "utils.cpp", "    std::stable_sort(diff.begin(), diff.end());", "    std::sort(diff.begin(), diff.end());")], r"""#include "h.hpp"
#include "dwave-optimization/utils.hpp"
int main() {
    std::vector<Update> d;
    std::vector<double> now(4, 0.0);
    std::mt19937 r(3);
    for (int k = 1; k <= 200; ++k) {
        int i = r() % 4;
        d.emplace_back(i, now[i], k);
        now[i] = k;
    }
    deduplicate_diff(d);
    REQ(d.size() == 4);
    for (const Update& u : d) REQ(u.old == 0 && u.value == now[u.index]);
    return 0;
}
""", "more than sixteen changes, several of them of one place, before they are combined", "an intermediate value is reported as the last one")

seed("index-remove-order", "P03", [(N + "indexing.cpp", "            if (!removal) {\n                for (ssize_t i = 0; i < axis_size; ++i) {", "            if (!removal || array_dim + 1 < static_cast<ssize_t>(indices_.size())) {\n                for (ssize_t i = 0; i < axis_size; ++i) {")], r"""#include "h.hpp"
int main() {
    Graph g;
    auto a = g.emplace_node<IntegerNode>(std::vector<ssize_t>{3, 2, 2}, 0, 1000);
    auto l = g.emplace_node<SetNode>(3);
    auto v = g.emplace_node<AdvancedIndexingNode>(a, l, Slice(), Slice());
    g.topological_sort();
    auto s = g.empty_state();
    a->initialize_state(s, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11});
    l->initialize_state(s, {0, 1});
    g.initialize_state(s);
    V old = vals(v, s);
    l->shrink(s);
    a->propagate(s); l->propagate(s); v->propagate(s);
    REQ(replay(old, v, s));
    return 0;
}
""", "A[i, :, :] with an index array that shrinks", "the removed elements are reported in the wrong order and with wrong values")

seed("denominator-negative-to-zero", "P09", [(N + "mathematical.cpp", "bool strictly_negative = rhs_ptr->min() < 0 && rhs_ptr->max() < 0;", "bool strictly_negative = rhs_ptr->min() < 0 && rhs_ptr->max() <= 0;")], r'''
import numpy as np
from dwave.optimization import Model
m = Model()
i = m.integer(2, lower_bound=-3, upper_bound=0)
c = m.constant([4.0, 6.0])
try:
    d = c / i
except ValueError:
    raise SystemExit(0)
m.states.resize(1)
i.set_state(0, [-2, 0])
with m.lock():
    v = d.state(0)
assert np.isfinite(v).all(), v
''', "a denominator whose greatest value is zero", "a quotient by zero: the state of an accepted model is not a number", py=True)

seed("index-bound-of-first-axis", "P09", [(N + "indexing.cpp", "                } else if (indexing_array_ptr->max() >= array_ptr->shape()[idx]) {", "                } else if (indexing_array_ptr->max() >= array_ptr->shape().front()) {")], r'''
from dwave.optimization import Model
import numpy as np
m = Model()
c = m.constant(np.arange(10).reshape(5, 2))
i = m.integer(1, lower_bound=0, upper_bound=3)
j = m.integer(1, lower_bound=0, upper_bound=3)
try:
    c[i, j]
except (ValueError, IndexError):
    raise SystemExit(0)
raise SystemExit("an index of up to 3 is accepted for an axis of two")
''', "an index of a shorter axis of an array that also has a longer one", "indices outside of the array are accepted; its elements are read elsewhere", py=True)

seed("permutation-order-range", "P09", [(N + "indexing.cpp", "    if (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0]) {", "    if (order_ptr_->min() < 0 || order_ptr_->max() >= array_ptr_->size()) {")], r"""#include "h.hpp"
int main() {
    Graph g;
    std::vector<double> v = {0, 1, 2, 3};
    auto c = g.emplace_node<ConstantNode>(v.data(), std::vector<ssize_t>{2, 2});
    auto i = g.emplace_node<IntegerNode>(std::vector<ssize_t>{2}, 0, 3);
    try {
        g.emplace_node<PermutationNode>(c, i);
    } catch (const std::exception&) {
        return 0;
    }
    return 1;
}
""", "an order with values between the length of the array and its number of elements", "the permutation reads outside of the array")
