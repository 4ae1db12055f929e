G = S + "graph.cpp"
M("no-sort", "P05", G, "std::sort(sources.begin(), sources.end(), [](const Node* n_ptr, const Node* m_ptr) {\n        return n_ptr->topological_index() < m_ptr->topological_index();\n    });", "")
M("sort-desc", "P05", G, "return n_ptr->topological_index() < m_ptr->topological_index();", "return n_ptr->topological_index() > m_ptr->topological_index();")
M("sort-part", "P05", G, "std::sort(sources.begin(), sources.end(), [](const", "std::sort(sources.begin() + 1, sources.end(), [](const")
M("no-mark", "P05", G, "state[m_ptr->topological_index()]->mark = true;\n", "")
M("no-clear", "P05", G, "    for (const Node* node_ptr : sources) {\n        state[node_ptr->topological_index()]->mark = false;\n    }", "")
M("clear-part", "P05", G, "    for (const Node* node_ptr : sources) {\n        state[node_ptr->topological_index()]->mark = false;\n    }", "    for (std::size_t i = 1; i < sources.size(); ++i) {\n        state[sources[i]->topological_index()]->mark = false;\n    }")
M("revert-skip", "P05", G, "[&state](const Node* n_ptr) { n_ptr->revert(state); }", "[&state](const Node* n_ptr) { if (n_ptr->predecessors().size()) n_ptr->revert(state); }")
M("commit-swap", "P05", G, "    if (accept(*this, state)) {\n        commit", "    if (!accept(*this, state)) {\n        commit")
M("no-revert", "P05", G, "    } else {\n        revert(state, changed);\n    }", "    }")
M("commit-first", "P05", G, "changed.begin(), changed.end(), [&state](const Node* n_ptr) { n_ptr->commit", "changed.begin() + 1, changed.end(), [&state](const Node* n_ptr) { n_ptr->commit")
M("prop-break", "P05", G, "        node_ptr->propagate(state);\n", "        node_ptr->propagate(state);\n        if (node_ptr->successors().empty()) break;\n")
M("prop-skip", "P05", G, "        node_ptr->propagate(state);\n", "        if (node_ptr->successors().empty()) continue;\n        node_ptr->propagate(state);\n")
M("leaf-skip", "P05", G, "            if (state[m_ptr->topological_index()]->mark) continue;\n", "            if (state[m_ptr->topological_index()]->mark) continue;\n            if (m_ptr->predecessors().size() > 8) continue;\n")
M("init-skip", "P05", G, "if (state[i]) continue;", "if (state[i] || nodes_[i]->successors().empty()) continue;")
M("init-short", "P05", G, "for (int i = 0, end = num_nodes(); i < end; ++i) {", "for (int i = 0, end = num_nodes(); i < end - 1; ++i) {")
M("rec-init", "P05", G, "    for (const dwave::optimization::Node* pred_ptr : ptr->predecessors()) {\n", "    for (const dwave::optimization::Node* pred_ptr : ptr->predecessors() | std::views::take(2)) {\n")
M("rec-reset", "P05", G, "if (successor_ptr->topological_index() < 0) continue;", "if (successor_ptr->topological_index() <= index) continue;\n        if (!state[successor_ptr->topological_index()]) continue;")
M("rec-reset2", "P05", G, "    state[index].reset();\n", "    if (!state[index]) return;\n    state[index].reset();\n")
M("topo-pre", "P05", G, [(0,0)] and "            visit(m_ptr, count_ptr, visit);\n        }\n\n        n_ptr->topological_index_ = *count_ptr;\n        *count_ptr -= 1;", "            visit(m_ptr, count_ptr, visit);\n        }\n\n        n_ptr->topological_index_ = *count_ptr;\n        *count_ptr += 1;")
M("reset-range", "P05", G, "nodes_.begin() + num_decisions(), nodes_.end(), [](const", "nodes_.begin() + num_decisions() + 1, nodes_.end(), [](const")
M("propose-sources", "P05", G, "    auto changed = descendants(state, std::move(sources));\n", "    auto changed = sources;\n")
M("both-list", "P05", G, "    if (accept(*this, state)) {\n        commit(state, changed);", "    if (accept(*this, state)) {\n        commit(state, std::move(sources));")
R("index-loop", "P05", G, "    for (const Node* node_ptr : queue_to_update) {\n        node_ptr->propagate(state);", "    for (std::size_t i = 0; i < queue_to_update.size(); ++i) {\n        queue_to_update[i]->propagate(state);")
R("range-commit", "P05", G, "std::for_each(\n            // std::execution::par_unseq,  // todo: test performance. Might help!\n            changed.begin(), changed.end(), [&state](const Node* n_ptr) { n_ptr->commit(state); });", "for (const Node* n : changed) n->commit(state);")
R("rev-revert", "P05", G, "std::for_each(\n            // std::execution::par_unseq,  // todo: test performance. Might help!\n            changed.begin(), changed.end(), [&state](const Node* n_ptr) { n_ptr->revert(state); });", "for (auto it = changed.rbegin(); it != changed.rend(); ++it) (*it)->revert(state);")
R("propose-var", "P05", G, "    if (accept(*this, state)) {\n        commit(state, changed);\n    } else {\n        revert(state, changed);\n    }", "    const bool accepted = accept(*this, state);\n    if (!accepted) {\n        revert(state, changed);\n        return;\n    }\n    commit(state, changed);")
R("desc-for", "P05", G, "    ssize_t exploration_index = 0;\n\n    while (exploration_index != static_cast<ssize_t>(sources.size())) {\n        const Node* n_ptr = sources[exploration_index++];", "    for (std::size_t q = 0; q < sources.size(); ++q) {\n        const Node* n_ptr = sources[q];")
R("desc-if", "P05", G, "            if (state[m_ptr->topological_index()]->mark) continue;\n\n            state[m_ptr->topological_index()]->mark = true;\n            sources.emplace_back(m_ptr);", "            auto& mark = state[m_ptr->topological_index()]->mark;\n            if (!mark) {\n                mark = true;\n                sources.push_back(m_ptr);\n            }")
R("sort-ranges", "P05", G, "std::sort(sources.begin(), sources.end(), [](const Node* n_ptr, const Node* m_ptr) {\n        return n_ptr->topological_index() < m_ptr->topological_index();\n    });", "std::ranges::sort(sources, [](const Node* a, const Node* b) { return b->topological_index() > a->topological_index(); });")
R("sort-proj", "P05", G, "std::sort(sources.begin(), sources.end(), [](const Node* n_ptr, const Node* m_ptr) {\n        return n_ptr->topological_index() < m_ptr->topological_index();\n    });", "std::ranges::sort(sources, std::less<>(), [](const Node* a) { return a->topological_index(); });")
R("clear-algo", "P05", G, "    for (const Node* node_ptr : sources) {\n        state[node_ptr->topological_index()]->mark = false;\n    }", "    std::ranges::for_each(sources, [&state](const Node* n) { state[n->topological_index()]->mark = false; });")
R("init-while", "P05", G, "    for (int i = 0, end = num_nodes(); i < end; ++i) {\n        if (state[i]) continue;  // should this clear any pending changes?\n\n        nodes_[i]->initialize_state(state);\n    }", "    ssize_t i = 0;\n    while (i < num_nodes()) {\n        if (!state[i]) nodes_[i]->initialize_state(state);\n        ++i;\n    }")
R("init-range", "P05", G, "    for (int i = 0, end = num_nodes(); i < end; ++i) {\n        if (state[i]) continue;  // should this clear any pending changes?\n\n        nodes_[i]->initialize_state(state);\n    }", "    for (const auto& n : nodes_) {\n        if (state[n->topological_index()] == nullptr) n->initialize_state(state);\n    }")
R("topo-rec", "P05", G, "    int count = num_nodes() - 1;\n    for (const std::unique_ptr<Node>& node_ptr : nodes_ | std::views::reverse) {\n        // todo: iterative version\n        visit(node_ptr.get(), &count, visit);\n    }", "    int count = num_nodes() - 1;\n    for (auto it = nodes_.rbegin(); it != nodes_.rend(); ++it) {\n        visit(it->get(), &count, visit);\n    }")
R("topo-postdec", "P05", G, "        n_ptr->topological_index_ = *count_ptr;\n        *count_ptr -= 1;", "        n_ptr->topological_index_ = (*count_ptr)--;")
R("reset-loop", "P05", G, "    std::for_each(\n            // std::execution::par_unseq,  // todo: performance testing. Probably won't help\n            nodes_.begin() + num_decisions(), nodes_.end(), [](const std::unique_ptr<Node>& n_ptr) {\n                assert(dynamic_cast<Decision*>(n_ptr.get()) == nullptr);  // not a decision\n                n_ptr->topological_index_ = -1;\n            });", "    for (ssize_t i = num_decisions(); i < num_nodes(); ++i) {\n        nodes_[i]->topological_index_ = -1;\n    }")
R("rec-reset", "P05", G, "        if (successor_ptr->topological_index() < 0) continue;  // nothing to reset\n        recursive_reset(state, successor_ptr);", "        if (successor_ptr->topological_index() >= 0) {\n            recursive_reset(state, successor_ptr);\n        }")
