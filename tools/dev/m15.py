g=S+"graph.cpp"; gh=I+"graph.hpp"; ch=I+"nodes/collections.hpp"
M("cons-break", "P15", g, "            if (ptr->topological_index_ < num_decisions) continue;  // we'll always keep these\n", "            if (ptr->topological_index_ < num_decisions) break;\n")
M("cons-le", "P15", g, "            if (ptr->topological_index_ < num_decisions) continue;", "            if (ptr->topological_index_ <= num_decisions) continue;")
M("cons-succ", "P15", g, "            if (ptr->topological_index_ < num_decisions) continue;", "            if (ptr->topological_index_ < num_decisions || ptr == objective_ptr_) continue;")
M("obj-gt", "P15", g, "objective_ptr_->topological_index_ >= num_decisions) {", "objective_ptr_->topological_index_ > num_decisions) {")
M("obj-none", "P15", g, "        if (objective_ptr_ && objective_ptr_->topological_index_ >= num_decisions) {\n            objective_ptr_->topological_index_ = keep;\n        }\n", "")
M("obj-noc", "P15", g, "        if (objective_ptr_ && objective_ptr_->topological_index_ >= num_decisions) {", "        if (constraints_.empty() && objective_ptr_ && objective_ptr_->topological_index_ >= num_decisions) {")
M("listen-2", "P15", g, "use_count() > 1) ptr", "use_count() > 2) ptr")
M("listen-inv", "P15", g, "        if (!ignore_listeners) {", "        if (!ignore_listeners && objective_ptr_) {")
M("listen-drop", "P15", g, "            for (auto& ptr : nodes_ | std::views::drop(num_decisions)) {\n                if (ptr->exp", "            for (auto& ptr : nodes_ | std::views::drop(num_decisions + 1)) {\n                if (ptr->exp")
M("rm-removable", "P15", g, "        if (!ptr->removable()) continue;  // some nodes can never be removed\n", "")
M("rm-succ", "P15", g, "        if (ptr->successors().size() > 0) continue;", "        if (ptr->successors().size() > 1) continue;")
M("rm-order", "P15", g, "std::views::drop(num_decisions) | std::views::reverse) {\n        if (!ptr->rem", "std::views::drop(num_decisions)) {\n        if (!ptr->rem")
M("rm-extra", "P15", g, "        if (ptr->successors().size() > 0) continue;", "        if (ptr->predecessors().size() > 5) continue;\n        if (ptr->successors().size() > 0) continue;")
M("rm-mark", "P15", g, "        if (ptr->topological_index_ == keep) continue;  // we marked these to keep", "        if (ptr->topological_index_ == -1) continue;")
M("rm-markskip", "P15", g, "        if (ptr->topological_index_ == keep) continue;  // we marked these to keep\n", "")
M("unlink-first", "P15", g, "        for (auto pred_ptr : ptr->predecessors_) {\n", "        for (auto pred_ptr : ptr->predecessors_) {\n            if (pred_ptr->topological_index_ == keep) continue;\n")
M("unlink-none", "P15", g, "        for (auto pred_ptr : ptr->predecessors_) {\n            std::erase_if(pred_ptr->successors_,\n                          [&ptr](const Node::SuccessorView& sv) { return sv.ptr == ptr.get(); });\n        }\n", "")
M("unlink-last", "P15", g, "            std::erase_if(pred_ptr->successors_,\n                          [&ptr](const Node::SuccessorView& sv) { return sv.ptr == ptr.get(); });\n        }\n", "            if (pred_ptr->successors_.back().ptr == ptr.get()) pred_ptr->successors_.pop_back();\n        }\n")
M("no-reset", "P15", g, "    reset_topological_sort();\n\n    // Finally", "    // Finally")
M("no-sort", "P15", g, "    topological_sort();\n\n    // We'll use this later", "    // We'll use this later")
M("count", "P15", g, "    return num_nodes_before - this->num_nodes();", "    return this->num_nodes() - num_nodes_before;")
M("fixed", "P15", ch, "    bool removable() const override { return false; }", "    bool removable() const override { return successors().empty(); }")
M("dec", "P15", g, "    for (auto& ptr : nodes_ | std::views::drop(num_decisions) | std::views::reverse) {", "    for (auto& ptr : nodes_ | std::views::reverse) {")
R("keep-helper", "P15", g, "            if (ptr->topological_index_ < num_decisions) continue;  // we'll always keep these\n            ptr->topological_index_ = keep;", "            if (ptr->topological_index_ >= num_decisions) {\n                ptr->topological_index_ = keep;\n            }")
R("one-cond", "P15", g, "        if (!ptr->removable()) continue;  // some nodes can never be removed\n        if (ptr->topological_index_ == keep) continue;  // we marked these to keep\n        if (ptr->successors().size() > 0) continue;  // this node is used by other nodes\n", "        if (!ptr->removable() || ptr->topological_index_ == keep || !ptr->successors().empty()) continue;\n")
R("idx-loop", "P15", (g, "    for (auto& ptr : nodes_ | std::views::drop(num_decisions) | std::views::reverse) {\n", "    for (ssize_t i = num_nodes() - 1; i >= num_decisions; --i) {\n        auto& ptr = nodes_[i];\n"))
R("erase-loop", "P15", g, "            std::erase_if(pred_ptr->successors_,\n                          [&ptr](const Node::SuccessorView& sv) { return sv.ptr == ptr.get(); });\n", "            const Node* gone = ptr.get();\n            auto& succ = pred_ptr->successors_;\n            succ.erase(std::remove_if(succ.begin(), succ.end(), [gone](const Node::SuccessorView& sv) { return sv.ptr == gone; }), succ.end());\n")
R("obj-nested", "P15", g, "        if (objective_ptr_ && objective_ptr_->topological_index_ >= num_decisions) {\n            objective_ptr_->topological_index_ = keep;\n        }\n", "        if (objective_ptr_ != nullptr) {\n            if (!(objective_ptr_->topological_index_ < num_decisions)) objective_ptr_->topological_index_ = keep;\n        }\n")
R("keepset", "P15", (g, "            ptr->topological_index_ = keep;\n        }\n\n        // as", "            kept.insert(ptr);\n        }\n\n        // as"), (g, "            objective_ptr_->topological_index_ = keep;", "            kept.insert(objective_ptr_);"), (g, "> 1) ptr->topological_index_ = keep;", "> 1) kept.insert(ptr.get());"), (g, "        if (ptr->topological_index_ == keep) continue;", "        if (kept.count(ptr.get())) continue;"), (g, "    constexpr ssize_t keep = -2;\n", "    std::unordered_set<const Node*> kept;\n"), (g, "#include \"dwave-optimization/graph.hpp\"\n", "#include \"dwave-optimization/graph.hpp\"\n#include <unordered_set>\n"))
M("obj-size", "P16", g, "objective_ptr->size() != 1) {", "objective_ptr->size() > 1) {")
M("obj-size2", "P16", g, "objective_ptr->size() != 1) {", "objective_ptr->size() != 1 && !objective_ptr->dynamic()) {")
M("con-log", "P16", g, "    if (!constraint_ptr->logical()) {", "    if (!constraint_ptr->integral()) {")
M("con-size", "P16", g, "    if (constraint_ptr->size() != 1) {\n        throw", "    if (constraint_ptr->size() > 1) {\n        throw")
M("con-early", "P16", g, "    if (!constraint_ptr->logical()) {", "    constraints_.emplace_back(constraint_ptr);\n    if (!constraint_ptr->logical()) {")
M("energy", "P16", g, "    return objective_ptr_->view(state).front();", "    return objective_ptr_->view(state).front() + 0 * constraints_.size() - (constraints_.size() > 4 ? 1 : 0);")
M("feas-skip", "P16", g, "        if (!(ptr->view(state)[0])) return false;", "        if (ptr->view(state)[0] < 0) return false;")
M("feas-drop", "P16", g, "    for (const Array* ptr : constraints_) {\n        assert(ptr->size(state) == 1);", "    for (const Array* ptr : constraints_ | std::views::drop(1)) {\n        assert(ptr->size(state) == 1);")
M("feas-cont", "P16", g, "        if (!(ptr->view(state)[0])) return false;", "        if (ptr == objective_ptr_) continue;\n        if (!(ptr->view(state)[0])) return false;")
M("logical-def", "P16", I+"array.hpp", "return integral() && min() >= 0 && max() <= 1;", "return integral() && max() <= 1;")
R("con-order", "P16", g, "    if (constraint_ptr->size() != 1) {\n        throw std::invalid_argument(\n                \"The truth value of an array with more than one element is ambiguous\");\n    }\n\n    constraints_.emplace_back(constraint_ptr);", "    if (constraint_ptr->size() == 1) {\n        constraints_.push_back(constraint_ptr);\n        return;\n    }\n    throw std::invalid_argument(\n                \"The truth value of an array with more than one element is ambiguous\");")
R("feas-allof", "P16", g, "    for (const Array* ptr : constraints_) {\n        assert(ptr->size(state) == 1);\n        if (!(ptr->view(state)[0])) return false;\n    }\n    return true;", "    return std::ranges::all_of(constraints_, [&](const ArrayNode* ptr) { return ptr->view(state)[0] != 0; });")
R("feas-flag", "P16", g, "        if (!(ptr->view(state)[0])) return false;\n    }\n    return true;", "        const double value = ptr->view(state).front();\n        if (value == 0) return false;\n    }\n    return true;")
R("energy-t", "P16", g, "    if (objective_ptr_ == nullptr) return 0;\n    return objective_ptr_->view(state).front();", "    return objective_ptr_ ? objective_ptr_->view(state)[0] : 0;")
