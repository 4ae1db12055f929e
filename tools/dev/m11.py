nc=N+"numbers.cpp"; cc=N+"collections.cpp"; sh=N+"_state.hpp"
# content
M("col-exch","P11",cc,"        std::swap(elements[i], elements[j]);\n\n        all_updates","        elements[i] = elements[j];\n\n        all_updates")
M("col-rot1","P11",cc,"for (ssize_t i = dest_idx; i <= src_idx; i++) {","for (ssize_t i = dest_idx; i < src_idx; i++) {")
M("col-rot2","P11",cc,"for (ssize_t i = dest_idx; i >= src_idx; i--) {","for (ssize_t i = dest_idx; i > src_idx; i--) {")
M("col-rot3","P11",cc,"for (ssize_t i = dest_idx; i <= src_idx; i++) {","for (ssize_t i = dest_idx + 1; i <= src_idx + 1; i++) {")
M("dl-swap","P11",cc,"std::swap(list[element_i], list[element_j]);","list[element_j] = std::exchange(list[element_i], list[element_i]);")
M("dl-pop1","P11",cc,"        auto last_index_from = from_list.size() - 1;\n        for (size_t i = element_i;","        auto last_index_from = from_list.size() - 1;\n        for (size_t i = element_i + 1;")
M("dl-pop2","P11",cc,"        auto last_index_from = from_list.size() - 1;","        auto last_index_from = from_list.size() - 2;")
M("dl-pop3","P11",cc,"        from_list.pop_back();\n","        if (last_index_from > 0) from_list.pop_back();\n")
M("dl-push","P11",cc,"        to_list.push_back(value);","        to_list.push_back(from_list.size());")
M("dl-value","P11",cc,"        auto value = from_list[element_i];","        auto value = from_list.back();")
M("dl-swaploss","P11",cc,"            std::swap(to_list[i], value);","            to_list[i] = value;")
M("dl-fwd","P11",cc,"        for (size_t i = element_j; i < to_list.size(); i++) {","        for (size_t i = element_j; i + 1 < to_list.size(); i++) {")
M("bs-swap","P11",cc,"            std::swap(el0, el1);","            el1 = 1 - el1;")
M("bs-idx","P11",cc,"double& el1 = data[to_disjoint_set * primary_set_size + element];","double& el1 = data[to_disjoint_set * primary_set_size + element + 1];")
M("bs-idx2","P11",cc,"double& el1 = data[to_disjoint_set * primary_set_size + element];","double& el1 = data[to_disjoint_set * primary_set_size + (element + 1 < primary_set_size ? element + 1 : 0)];")
# sizes, draws
M("set-grow","P11",cc,"if (size < max_size_ && coin(rng)) {","if (size < max_value_ && coin(rng)) {")
M("set-grow2","P11",cc,"if (size < max_size_ && coin(rng)) {","if (size <= max_size_ && coin(rng)) {")
M("set-shrink","P11",cc,"} else if (size > min_size_) {","} else if (size > 0) {")
M("set-shrink2","P11",cc,"} else if (size > min_size_) {","} else if (size >= min_size_) {")
M("set-draw","P11",cc,"unused(size, max_size_ - 1);","unused(size, max_size_);")
M("set-draw2","P11",cc,"unused(size, max_size_ - 1);","unused(size + 1, max_size_ - 1);")
M("list-empty","P11",cc,"    if (this->size(state) == 0) return;  // there is nothing to move\n\n    std::uniform_int_distribution<std::size_t> dist(0","    std::uniform_int_distribution<std::size_t> dist(0")
M("list-draw","P11",cc,"dist(0, this->size(state) - 1);","dist(0, this->size(state));")
M("bits-draw","P11",cc,"dist_el(0, primary_set_size_ - 1);","dist_el(0, primary_set_size_);")
M("bits-draw2","P11",cc,"dist_sets(0, num_disjoint_sets_ - 1);","dist_sets(0, num_disjoint_sets_);")
M("dl-draw","P11",cc,"eli_dist(0, data->lists[list_i].size() - 1);","eli_dist(0, data->lists[list_i].size());")
M("dl-draw2","P11",cc,"elj_dist(0, data->lists[list_j].size());","elj_dist(0, data->lists[list_j].size() + 1);")
M("dl-draw3","P11",cc,"eli_dist(0, data->lists[list_i].size() - 1);","eli_dist(0, data->lists[list_j].size() - 1);")
M("dl-empty","P11",cc,"        if (size > 0) {\n            num_items","        if (size >= 0) {\n            num_items")
M("dl-lists","P11",cc,"dist_lists(0, data->lists.size() - 1);","dist_lists(0, data->lists.size());")
# values
M("int-move","P11",nc,"static_cast<ssize_t>(upper_bound_));\n    this","static_cast<ssize_t>(upper_bound_) + 1);\n    data_ptr<ArrayNodeStateData>(state)->set(index_dist(rng), value_dist(rng)); if (false) this")
M("int-set","P11",nc,"    if (!is_valid(value)) {\n        throw std::invalid_argument(\"Invalid integer value provided\");\n    }\n","")
M("int-set2","P11",nc,"    if (!is_valid(value)) {\n        throw std::invalid_argument(\"Invalid integer","    if (value < lower_bound()) {\n        throw std::invalid_argument(\"Invalid integer")
M("bin-flip","P11",nc,"        ptr->set(i, 1);","        ptr->set(i, ptr->get(i) - 1);")
M("bin-flip2","P11",nc,"        ptr->set(i, 0);\n    } else","        ptr->set(i, -1);\n    } else")
M("bin-unset","P11",nc,"->set(i, 0);\n}","->set(i, -1);\n}")
M("int-idx","P11",nc,"index_dist(0, this->size(state) - 1);\n    std::uniform_int_distribution<ssize_t> value","index_dist(0, this->size(state));\n    std::uniform_int_distribution<ssize_t> value")
# equivalents
R("e-tmp","P11",cc,"        std::swap(elements[i], elements[j]);\n\n        all_updates","        const double tmp_i = elements[i];\n        elements[i] = elements[j];\n        elements[j] = tmp_i;\n\n        all_updates")
R("e-rot","P11",cc,"for (ssize_t i = dest_idx; i <= src_idx; i++) {","for (ssize_t i = dest_idx; i < src_idx + 1; ++i) {")
R("e-while","P11",cc,"            for (ssize_t i = dest_idx; i <= src_idx; i++) {\n                std::swap(elements[i], prev);\n                all_updates.emplace_back(i, prev, elements[i]);\n                previous.emplace_back(i, prev, elements[i]);\n            }","            ssize_t i = dest_idx;\n            while (i <= src_idx) {\n                double moved = elements[i];\n                elements[i] = prev;\n                prev = moved;\n                all_updates.emplace_back(i, prev, elements[i]);\n                previous.emplace_back(i, prev, elements[i]);\n                ++i;\n            }")
R("e-erase","P11",cc,"            from_list[i] = from_list[i + 1];","            const double next = from_list[i + 1];\n            from_list[i] = next;")
R("e-set","P11",cc,"    if (size < max_size_ && coin(rng)) {","    const bool can_grow = !(size >= max_size_);\n    if (can_grow && coin(rng)) {")
R("e-int","P11",nc,"    this->set_value(state, index_dist(rng), value_dist(rng));","    const ssize_t index = index_dist(rng);\n    const ssize_t value = value_dist(rng);\n    this->set_value(state, index, value);")
R("e-flip","P11",nc,"    if (ptr->get(i)) {\n        ptr->set(i, 0);\n    } else {\n        ptr->set(i, 1);\n    }","    ptr->set(i, ptr->get(i) ? 0 : 1);")
R("e-flip2","P11",nc,"    if (ptr->get(i)) {\n        ptr->set(i, 0);\n    } else {\n        ptr->set(i, 1);\n    }","    ptr->set(i, 1 - ptr->get(i));")
R("e-bits","P11",cc,"            std::swap(el0, el1);","            const double moved = el0;\n            el0 = el1;\n            el1 = moved;")
R("e-lists","P11",cc,"    if (list_i != list_j) {","    const bool within = list_i == list_j;\n    if (!within) {")
R("e-draw","P11",cc,"    std::uniform_int_distribution<std::size_t> dist_lists(0, data->lists.size() - 1);\n    size_t list_j = dist_lists(rng);","    const std::size_t last_list = data->lists.size() - 1;\n    size_t list_j = std::uniform_int_distribution<std::size_t>(0, last_list)(rng);")
