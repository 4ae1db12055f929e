mm=N+"mathematical.cpp"; ix=N+"indexing.cpp"; fl=N+"flow.cpp"; mn=N+"manipulation.cpp"; gh=I+"graph.hpp"; ch=I+"nodes/collections.hpp"
M("binop-b", "P06", mm, "    this->add_predecessor(b_ptr);\n", "")
M("binop-once", "P06", mm, "    this->add_predecessor(b_ptr);\n", "    if (a_ptr != b_ptr) this->add_predecessor(b_ptr);\n")
M("binop-order", "P06", mm, "    this->add_predecessor(a_ptr);\n    this->add_predecessor(b_ptr);\n", "    this->add_predecessor(b_ptr);\n    this->add_predecessor(a_ptr);\n")
M("where-order", "P06", fl, "    add_predecessor(x_ptr);\n    add_predecessor(y_ptr);", "    add_predecessor(y_ptr);\n    add_predecessor(x_ptr);")
M("where-cond", "P06", fl, "    add_predecessor(condition_ptr);\n", "    if (!condition_ptr->predecessors().empty()) add_predecessor(condition_ptr);\n")
M("adv-skip", "P06", ix, "            add_predecessor(std::get<ArrayNode*>(index));", "            if (std::get<ArrayNode*>(index) != array_ptr) add_predecessor(std::get<ArrayNode*>(index));")
M("concat-skip", "P06", mn, "    for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {\n        this->add_predecessor((*it));", "    for (auto it = array_ptrs.begin() + 1, stop = array_ptrs.end(); it != stop; ++it) {\n        this->add_predecessor((*it));")
M("perm", "P06", ix, "    this->add_predecessor(order_ptr);\n", "")
M("succ", "P06", gh, "        predecessor->successors_.emplace_back(this, this->predecessors_.size());\n        this->predecessors_.emplace_back(predecessor);", "        this->predecessors_.emplace_back(predecessor);\n        predecessor->successors_.emplace_back(this, this->predecessors_.size());")
M("succ2", "P06", gh, "        predecessor->successors_.emplace_back(this, this->predecessors_.size());\n", "        if (predecessor->successors_.empty() || predecessor->successors_.back().ptr != this)\n            predecessor->successors_.emplace_back(this, this->predecessors_.size());\n")
M("nary-link", "P06", mm, "    this->add_predecessor(node_ptr);\n    operands_.emplace_back(node_ptr);", "    if (operands_.empty() || operands_.back() != node_ptr) this->add_predecessor(node_ptr);\n    operands_.emplace_back(node_ptr);")
M("bitset-order", "P07", ch, "        if (set_index_ >= disjoint_bit_sets_node->num_disjoint_sets()) {\n            throw std::length_error(\"disjoint-bit-set node already has all output nodes\");\n        }\n        add_predecessor(disjoint_bit_sets_node);", "        add_predecessor(disjoint_bit_sets_node);\n        if (set_index_ >= disjoint_bit_sets_node->num_disjoint_sets()) {\n            throw std::length_error(\"disjoint-bit-set node already has all output nodes\");\n        }")
M("reshape-early", "P07", mn, "    // Don't (yet) support dynamic predecessors.\n", "    this->add_predecessor(node_ptr);\n")
M("nary-early", "P07", mm, "    check_operand(node_ptr);\n\n    this->add_predecessor(node_ptr);", "    this->add_predecessor(node_ptr);\n    check_operand(node_ptr);\n")
M("nary-nocheck", "P07", mm, "    for (const ArrayNode* ptr : node_ptrs) {\n        check_operand(ptr);\n    }\n", "")
M("emplace-lock", "P07", gh, "    if (topologically_sorted_) {\n        // \"locked\"", "    if (topologically_sorted_ && !nodes_.empty() && std::is_base_of_v<Decision, NodeType>) {\n        // \"locked\"")
M("perm-early", "P07", ix, "PermutationNode::PermutationNode(ArrayNode* array_ptr, ArrayNode* order_ptr)\n        : ArrayOutputMixin(array_ptr->shape()), array_ptr_(array_ptr), order_ptr_(order_ptr) {", "PermutationNode::PermutationNode(ArrayNode* array_ptr, ArrayNode* order_ptr)\n        : ArrayOutputMixin(array_ptr->shape()), array_ptr_(array_ptr), order_ptr_(order_ptr) {\n    this->add_predecessor(array_ptr);\n")
R("binop-init", "P06,P07", mm, "    this->add_predecessor(a_ptr);\n    this->add_predecessor(b_ptr);\n", "    for (ArrayNode* ptr : {a_ptr, b_ptr}) {\n        this->add_predecessor(ptr);\n    }\n")
R("concat-range", "P06,P07", mn, "    for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {\n        this->add_predecessor((*it));", "    for (ArrayNode* ptr : array_ptrs_) {\n        this->add_predecessor(ptr);")
R("concat-idx", "P06,P07", mn, "    for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {\n        this->add_predecessor((*it));", "    for (std::size_t i = 0; i < array_ptrs.size(); ++i) {\n        this->add_predecessor(array_ptrs[i]);")
R("adv-getif", "P06,P07", ix, "        if (std::holds_alternative<ArrayNode*>(index)) {\n            add_predecessor(std::get<ArrayNode*>(index));", "        if (auto pp = std::get_if<ArrayNode*>(&index)) {\n            add_predecessor(*pp);")
R("addpred-var", "P06,P07", gh, "        predecessor->successors_.emplace_back(this, this->predecessors_.size());\n        this->predecessors_.emplace_back(predecessor);", "        const int position = predecessors_.size();\n        predecessors_.push_back(predecessor);\n        predecessor->successors_.emplace_back(this, position);")
R("emplace-guard", "P06,P07", gh, "    if (topologically_sorted_) {\n        // \"locked\"", "    if (topologically_sorted()) {\n        // \"locked\"")
