mc=N+"mathematical.cpp"; fc=N+"flow.cpp"; sh=N+"_state.hpp"; ix=N+"indexing.cpp"; mn=N+"manipulation.cpp"; qc=N+"quadratic_model.cpp"; mh=I+"nodes/mathematical.hpp"
# binary
M("bin-both-skip-rhs","P04",mc,"            for (const auto& [index, _, __] : rhs_ptr->diff(state)) {\n                double old = values[index];\n                values[index] = func(*(lit + index), *(rit + index));\n","            for (const auto& [index, _, __] : rhs_ptr->diff(state)) {\n                double old = values[index];\n                if (values.size() > 1 && index == 0) continue;\n                values[index] = func(*(lit + index), *(rit + index));\n")
M("bin-both-order","P04",mc,"                values[index] = func(*(lit + index), *(rit + index));","                values[index] = func(*(rit + index), *(lit + index));")
M("bin-lhs-order","P04",mc,"values[index] = func(value, *(rit + index));","values[index] = func(*(rit + index), value);")
M("bin-lhs-old","P04",mc,"            for (const auto& [index, _, value] : lhs_ptr->diff(state)) {","            for (const auto& [index, value, _] : lhs_ptr->diff(state)) {")
M("bin-elseif","P04",mc,"        if (lhs_ptr->diff(state).size() && rhs_ptr->diff(state).size()) {","        if (lhs_ptr->diff(state).size() > 1 && rhs_ptr->diff(state).size()) {")
M("bin-scalar-noassign","P04",mc,"        if (lhs_ptr->diff(state).size()) {\n            // The lhs has changed","        if (lhs_ptr->diff(state).size() && !rhs_ptr->diff(state).size()) {\n            // The lhs has changed")
M("bin-scalar-bind","P04",mc,"auto unary_func = std::bind(func, std::placeholders::_1, rhs);","auto unary_func = std::bind(func, rhs, std::placeholders::_1);")
M("bin-scalar-noassign2","P04",mc,"        if (rhs_ptr->diff(state).size()) {\n            // The rhs has changed","        if (rhs_ptr->diff(state).size() > 1) {\n            // The rhs has changed")
M("bin-scalar-removed","P04",mc,"            auto update_func = [&unary_func](Update update) {\n                if (!update.removed())","            auto update_func = [&unary_func](Update update) {\n                if (!update.removed() && !update.placed())")
# state data
M("assign-shrink","P04",sh,"            buffer.resize(overlap_length);","            if (overlap_length) buffer.resize(overlap_length);")
M("assign-break","P04",sh,"if (*bit == *vit) continue;  // no change","if (*bit == *vit) break;  // no change")
M("update-old","P04",sh,"                buffer[index] = new_;","                if (update.old != new_) buffer[index] = new_;")
M("update-placed","P04",sh,"                buffer.emplace_back(new_);","                buffer.emplace_back(update.value + (buffer.empty() ? 1 : 0));")
M("set-sign","P04",sh,"        if (old == value) return false;\n\n        std::swap","        if (old == value || (old < 0 && value < old)) return false;\n\n        std::swap")
# unary
M("un-set-only-first","P04",mc,"            node_data->set(idx, func(value));","            if (node_data->updates.empty()) node_data->set(idx, func(value));")
M("un-placed","P04",mc,"            node_data->emplace_back(func(value));","            node_data->emplace_back(value);")
M("un-removed","P04",mc,"            assert(idx == static_cast<ssize_t>(node_data->buffer.size()) - 1);\n            node_data->pop_back();","            assert(idx == static_cast<ssize_t>(node_data->buffer.size()) - 1);\n            if (idx) node_data->pop_back();")
# nary
M("nary-drop2","P04",mc,"            for (auto it : iterators | std::views::drop(1)) {","            for (auto it : iterators | std::views::drop(2)) {")
M("nary-first","P04",mc,"            val = *(iterators[0] + index);","            val = *(iterators[0]);")
M("nary-inv-keep","P04",mc,"                    values[index] = func(new_reduced_val, new_val);","                    values[index] = func(values[index], new_val);")
M("nary-inv-isinf","P04",mc,"if (std::isnan(new_reduced_val) || std::isinf(new_reduced_val)) {","if (std::isinf(new_reduced_val)) {")
M("nary-break","P04",mc,"                    recompute_indices.push_back(index);\n                }\n            }","                    recompute_indices.push_back(index);\n                    if (input == operands_.back()) break;\n                }\n            }")
# where
M("where-noy","P04",fc,"            for (const Update& update : y_diff) {\n                assert(!update.placed() && !update.removed());  // shouldn't be dynamic\n                indices","            for (const Update& update : y_diff) {\n                if (x_diff.size()) break;\n                indices")
M("where-advance","P04",fc,"                yit += distance;\n","                yit += index;\n")
M("where-flip-last","P04",fc,"if (static_cast<bool>(old) != static_cast<bool>(new_)) flip = !flip;","flip = static_cast<bool>(old) != static_cast<bool>(new_);")
M("where-flip-any","P04",fc,"if (static_cast<bool>(old) != static_cast<bool>(new_)) flip = !flip;","if (!static_cast<bool>(old) && static_cast<bool>(new_)) flip = !flip;")
M("where-assign-y","P04",fc,"            // we're now pointing to y\n            node_data->assign(y_ptr_->view(state));","            // we're now pointing to y\n            node_data->update(y_ptr_->diff(state));")
M("where-swap","P04",fc,"            // we're pointing to x, so update ourselves according to x\n            node_data->update(x_ptr_->diff(state));","            // we're pointing to x, so update ourselves according to x\n            node_data->update(x_ptr_->diff(state).size() ? x_ptr_->diff(state) : y_ptr_->diff(state));")
M("where-oldeq","P04",fc,"            if (old == value) continue;  // nothing to update","            if (old == value) break;  // nothing to update")
# size / concat
M("concat-index","P04",mn,"            *update_it = diff.value;\n        }","            ptr->buffer[array_starts_[arr_i] + diff.index] = diff.value;\n        }")
M("concat-old","P04",mn,"            *update_it = diff.value;","            if (*update_it != diff.value || arr_i == 0) *update_it = arr_i > 1 ? diff.old : diff.value;")
# partial
M("part-step","P04",mc,"values[index] += (value - old);","values[index] += (value - (changes.size() ? 0 : old));")
M("part-mod","P04",mc,"        parent_flat_index = parent_flat_index % (stride / array_ptr_->itemsize());\n\n        if (current","        if (current_parent_axis) parent_flat_index = parent_flat_index % (stride / array_ptr_->itemsize());\n\n        if (current")
# reduce
M("and-placed","P04",mc,"            // added a value to the array\n            num_zero += !value;","            // added a value to the array\n            num_zero += !!value;")
M("and-removed","P04",mc,"            // removed a value from the array\n            num_zero -= !old;","            // removed a value from the array")
M("and-lt","P04",mc,"ptr->values.value = num_zero < 1;","ptr->values.value = num_zero <= 1;")
M("max-removed","P04",mc,"            if (update.old >= value) {","            if (update.old > value) {")
M("max-continue","P04",mc,"            value = std::max(update.value, value);","            value = std::max(update.value, value + (update.placed() ? 0 : 0 * value)), value = update.placed() ? update.value : value;")
M("min-eq","P04",mc,"        } else if (update.old == value && update.old != update.value) {\n            // we potentially made the current min larger","        } else if (update.old < value && update.old != update.value) {\n            // we potentially made the current min larger")
M("min-noreinit","P04",mc,"                // uh oh, we may have just removed the known min. So we need to\n                // recalculate everything from scratch\n                reinitialize = true;","                // uh oh, we may have just removed the known min. So we need to\n                // recalculate everything from scratch\n                reinitialize = update.old < value;")
M("prod-zero-placed","P04",mc,"            // added a zero\n            num_zero += 1;","            // added a zero\n            num_zero = 1;")
M("prod-tozero","P04",mc,"            // changed something else to a 0\n            nonzero /= update.old;\n","            // changed something else to a 0\n")
M("prod-fromzero","P04",mc,"            // changed a 0 to something else\n            nonzero *= update.value;\n            num_zero -= 1;","            // changed a 0 to something else\n            if (num_zero == 1) nonzero *= update.value;\n            num_zero -= 1;")
M("sum-removed","P04",mc,"        } else if (update.removed()) {\n            value -= update.old;","        } else if (update.removed()) {\n            value -= update.old * (array_ptr_->size(state) ? 1 : 0);")
M("sum-net","P04",mc,"            value += update.value - update.old;","            value += update.value - (update.index ? update.old : std::max(update.old, 0.0));")
M("reduce-init","P04",mc,"    if (this->init.has_value()) {\n        init = this->init.value();\n    } else {\n        // if there is no init, we use the first value in the array as the init\n        // we should only be here if the array is not dynamic and if it has at\n        // least one entry\n        assert(!array_ptr_->dynamic());\n        assert(array_ptr_->size(state) >= 1);\n        assert(start != end);\n\n        init = *start;\n        ++start;","    if (this->init.has_value()) {\n        init = this->init.value();\n    } else {\n        init = 0;")
# permutation
M("perm-block","P04",ix,"const ssize_t i = (j / mul * n + static_cast<ssize_t>(index)) * mul + j % mul;","const ssize_t i = (j / mul + static_cast<ssize_t>(index)) * mul + j % mul;")
M("perm-old","P04",ix,"offsets[i] += stride * (neo - old);","offsets[i] = stride * neo;")
M("perm-value","P04",ix,"                    values[i] = start[offsets[i]];","                    values[i] = start[old_offsets.back()];")
# quadratic
M("qm-plus","P04",qc,"                    value += (neo - old) *\n                             (quadratic_model_.get_quadratic(index) * (neo + old) +\n                              quadratic_model_.get_effective_linear_bias(index, previous_state));\n                    previous_state[index] = neo;\n                }\n            }\n        } else {","                    value += (neo - old) *\n                             (quadratic_model_.get_quadratic(index) * (neo) +\n                              quadratic_model_.get_effective_linear_bias(index, previous_state));\n                    previous_state[index] = neo;\n                }\n            }\n        } else {")
M("qm-noprev","P04",qc,"                    previous_state[index] = neo;\n                }\n            }\n        } else {","                }\n            }\n        } else {")
M("qm-noncontig","P04",qc,"                              quadratic_model_.get_effective_linear_bias(index, previous_state));\n                    previous_state[index] = neo;\n                }\n            }\n        }\n","                              quadratic_model_.get_linear(index));\n                    previous_state[index] = neo;\n                }\n            }\n        }\n")
M("mod-sign","P04",mh,"result += y;","result = -result;")
# quiet
R("r-bin-helper","P04,P03",mc,"                values[index] = func(value, *(rit + index));\n                changes.emplace_back(index, old, values[index]);","                const double fresh = func(value, *(rit + index));\n                values[index] = fresh;\n                changes.emplace_back(index, old, fresh);")
R("r-bin-equal","P04,P03",mc,"            for (const auto& [index, _, value] : lhs_ptr->diff(state)) {\n                double old = values[index];\n                values[index] = func(value, *(rit + index));\n","            auto litx = lhs_ptr->begin(state);\n            for (const auto& [index, _, value] : lhs_ptr->diff(state)) {\n                double old = values[index];\n                values[index] = func(*(litx + index), *(rit + index));\n")
R("r-bin-branches","P04,P03",mc,"        if (lhs_ptr->diff(state).size()) {\n            // The lhs has changed, so in this case we're probably changing\n            // everything, so just overwrite the state entirely.\n            auto rhs_view = rhs_ptr->view(state);\n            ptr->assign(rhs_view | std::views::transform(unary_func));\n        } else {","        const bool changed = !lhs_ptr->diff(state).empty();\n        if (changed) {\n            auto rhs_view = rhs_ptr->view(state);\n            ptr->assign(rhs_view | std::views::transform(unary_func));\n        } else {")
R("r-un-order","P04,P03",mc,"        if (update.placed()) {\n            assert(idx == static_cast<ssize_t>(node_data->buffer.size()));\n            node_data->emplace_back(func(value));\n        } else if (update.removed()) {\n            assert(idx == static_cast<ssize_t>(node_data->buffer.size()) - 1);\n            node_data->pop_back();\n        } else {\n            node_data->set(idx, func(value));\n        }","        if (update.removed()) {\n            node_data->pop_back();\n            continue;\n        }\n        const double out = func(value);\n        if (!update.placed()) {\n            node_data->set(idx, out);\n        } else {\n            node_data->emplace_back(out);\n        }")
R("r-nary-loop","P04,P03",mc,"            for (auto it : iterators | std::views::drop(1)) {\n                val = func(*(it + index), val);\n            }","            for (std::size_t k = 1; k < iterators.size(); ++k) {\n                val = func(*(iterators[k] + index), val);\n            }")
R("r-where-indices","P04,P03",fc,"            if (old == value) continue;  // nothing to update\n\n            updates.emplace_back(index, old, value);\n            old = value;","            if (old != value) {\n                updates.emplace_back(index, old, value);\n                old = value;\n            }")
R("r-where-flip","P04,P03",fc,"    bool flip = false;\n    for (const auto& [index, old, new_] : diff) {\n        assert(index == 0);  // should all be on a single value\n        if (static_cast<bool>(old) != static_cast<bool>(new_)) flip = !flip;\n    }\n    return flip;","    if (diff.empty()) return false;\n    const bool first = diff.front().old;\n    const bool last = diff.back().value;\n    return first != last;")
R("r-where-pick","P04,P03",fc,"        if (condition_ptr_->buff(state)[0]) {\n            // we're now pointing to x\n            node_data->assign(x_ptr_->view(state));\n        } else {\n            // we're now pointing to y\n            node_data->assign(y_ptr_->view(state));\n        }","        const bool useX = condition_ptr_->buff(state)[0];\n        node_data->assign((useX ? x_ptr_ : y_ptr_)->view(state));")
R("r-sum-old","P04",mc,"            value += update.value - update.old;","            value -= update.old;\n            value += update.value;")
R("r-sum-delta","P04",mc,"    auto& value = ptr->values.value;\n\n    for (const Update& update : array_ptr_->diff(state)) {\n        if (update.placed()) {\n            value += update.value;\n        } else if (update.removed()) {\n            value -= update.old;\n        } else {\n            value += update.value - update.old;\n        }\n    }","    double delta = 0;\n    for (const Update& update : array_ptr_->diff(state)) {\n        if (!update.removed()) delta += update.value;\n        if (!update.placed()) delta -= update.old;\n    }\n    ptr->values.value += delta;")
R("r-max-recompute","P04",mc,"    if (reinitialize) {\n        value = reduce(state);\n    }\n\n    Node::propagate(state);\n}\n\ntemplate <>\nvoid ReduceNode<functional::min","    if (!array_ptr_->diff(state).empty()) value = reduce(state);\n\n    Node::propagate(state);\n}\n\ntemplate <>\nvoid ReduceNode<functional::min")
R("r-prod-split","P04",mc,"            // something else to something else\n            nonzero *= (update.value / update.old);","            // something else to something else\n            nonzero /= update.old;\n            nonzero *= update.value;")
R("r-and-count","P04",mc,"        } else if (!old && value) {\n            // changed a 0 to a truthy value\n            num_zero -= 1;\n        } else if (old && !value) {\n            // changed a truthy value to a 0\n            num_zero += 1;\n        } else {","        } else if (static_cast<bool>(old) != static_cast<bool>(value)) {\n            num_zero += old ? 1 : -1;\n        } else {")
R("r-part-iter","P04,P03",mc,"        const double previous = values[index];\n        values[index] += (value - old);\n        changes.emplace_back(index, previous, values[index]);","        double& target = values[index];\n        const double previous = target;\n        target = target + value - old;\n        changes.emplace_back(index, previous, target);")
R("r-perm-loop","P04,P03",ix,"                for (ssize_t j = 0, stop = outer * mul; j < stop; ++j) {\n                    const ssize_t i = (j / mul * n + static_cast<ssize_t>(index)) * mul + j % mul;\n","                for (ssize_t a = 0; a < outer; ++a) for (ssize_t b = 0; b < mul; ++b) {\n                    const ssize_t i = (a * n + static_cast<ssize_t>(index)) * mul + b;\n")
R("r-qm-delta","P04",qc,"                    value += (neo - old) *\n                             (quadratic_model_.get_quadratic(index) * (neo + old) +\n                              quadratic_model_.get_effective_linear_bias(index, previous_state));\n                    previous_state[index] = neo;\n                }\n            }\n        } else {","                    const auto lin = quadratic_model_.get_effective_linear_bias(index, previous_state);\n                    const auto sq = quadratic_model_.get_quadratic(index);\n                    value += (neo - old) * lin + sq * (neo * neo - old * old);\n                    previous_state[index] = neo;\n                }\n            }\n        } else {")
R("r-concat-index","P04,P03",mn,"            *update_it = diff.value;","            ptr->buffer[buffer_index] = diff.value;")
R("r-assign-size","P04,P03",sh,"        const ssize_t overlap_length = std::min<ssize_t>(buffer.size(), std::ranges::size(values));","        const ssize_t have = buffer.size();\n        const ssize_t want = std::ranges::size(values);\n        const ssize_t overlap_length = have < want ? have : want;")
R("r-update-order","P04,P03",sh,"            if (update.removed()) {\n                assert(static_cast<std::size_t>(index) + 1 == buffer.size());\n                this->updates.emplace_back(Update::removal(index, buffer[index]));\n                buffer.pop_back();\n            } else if","            if (update.removed()) {\n                this->pop_back();\n            } else if")
