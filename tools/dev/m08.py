mm=N+"mathematical.cpp"; ix=N+"indexing.cpp"; fl=N+"flow.cpp"; cc=N+"collections.cpp"; nb=N+"numbers.cpp"; qm=N+"quadratic_model.cpp"; mh=I+"nodes/mathematical.hpp"; nh=I+"nodes/numbers.hpp"
M("nary-static", "P08", mm, "    std::vector<ssize_t> recompute_indices;\n", "    static std::vector<ssize_t> recompute_indices;\n    recompute_indices.clear();\n")
M("nary-tls", "P08", mm, "    std::vector<ssize_t> recompute_indices;\n", "    static thread_local std::vector<ssize_t> recompute_indices;\n")
M("int-static-dist", "P08", nb, "    std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);", "    static std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);")
M("int-mut", "P08", (nb, "    std::vector<double> number_data(this->size(), default_value());\n    initialize_state", "    if (!cached_) cached_ = default_value();\n    last_ = state.size();\n    std::vector<double> number_data(this->size(), *cached_);\n    initialize_state"), (nh, "    double lower_bound_;", "    mutable std::optional<double> cached_;\n    mutable int last_ = 0;\n    double lower_bound_;"))
M("where-copy", "P08", fl, "    std::unique_ptr<NodeStateData> copy() const override {\n        return std::make_unique<WhereNodeData>(*this);\n    }\n", "")
M("coll-copy", "P08", cc, "        return std::make_unique<CollectionStateData>(*this);", "        auto ptr = std::make_unique<CollectionStateData>(*this);\n        ptr->all_updates.clear();\n        return ptr;")
M("nary-iters", "P08", mm, "        iterators.clear();\n        for (const Array* node_ptr : operands_) {\n            iterators.push_back(node_ptr->begin(state));\n        }\n", "        if (iterators.size() != operands_.size()) {\n        iterators.clear();\n        for (const Array* node_ptr : operands_) {\n            iterators.push_back(node_ptr->begin(state));\n        }\n        }\n")
M("qm-copyctor", "P08", qm, "    double const* buff() const { return &value.value(); }\n", "    QuadraticModelNodeData(const QuadraticModelNodeData& other) : value_old(other.value_old), value(other.value), update(other.update), previous_state_(other.previous_state_) {}\n    double const* buff() const { return &value.value(); }\n")
M("int-copy-base", "P08", mm, "        return std::make_unique<NaryOpNodeData>(*this);", "        return std::make_unique<ArrayNodeStateData>(*this);")
M("shared-lists", "P08", (cc, "    std::vector<ssize_t> previous_list_sizes;\n};", "    std::vector<ssize_t> previous_list_sizes;\n    std::shared_ptr<std::vector<int>> scratch_ = std::make_shared<std::vector<int>>();\n};"))
R("copy-var", "P08", cc, "        return std::make_unique<CollectionStateData>(*this);", "        auto ptr = std::make_unique<CollectionStateData>(*this);\n        return ptr;")
R("copy-new", "P08", cc, "        return std::make_unique<CollectionStateData>(*this);", "        return std::unique_ptr<NodeStateData>(new CollectionStateData(*this));")
R("copy-default", "P08", qm, "    double const* buff() const { return &value.value(); }\n", "    QuadraticModelNodeData(const QuadraticModelNodeData& other) = default;\n    double const* buff() const { return &value.value(); }\n")
R("static-const", "P08", nb, "    std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);", "    static const double zero = 0;\n    std::uniform_int_distribution<ssize_t> value_dist(lower_bound_ + zero, upper_bound_);")
R("iters-assign", "P08", mm, "        iterators.clear();\n        for (const Array* node_ptr : operands_) {\n            iterators.push_back(node_ptr->begin(state));\n        }\n", "        iterators.resize(0);\n        for (std::size_t i = 0; i < operands_.size(); ++i) {\n            iterators.emplace_back(operands_[i]->begin(state));\n        }\n")
R("slot-helper", "P08", nb, "    state[this->topological_index()] = new_data_ptr(std::move(number_data));", "    const auto index = topological_index();\n    auto data = new_data_ptr(std::move(number_data));\n    state[index] = std::move(data);")
