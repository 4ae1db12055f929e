ix=N+"indexing.cpp"
M("sl-stop","P03",ix,"            if (index >= stop) continue;  // after","            if (index > stop) continue;  // after")
M("sl-start","P03",ix,"            diff.emplace_back(index - start, old, value);","            diff.emplace_back(start ? index - start : index % stop, old, value);") if 0 else None
M("sl-false-old","P03",ix,"                if (std::isnan(diff[index].old)) {\n                    assert(!std::isnan(update.old));\n                    diff[index].old = update.old;\n                }","                diff[index].old = update.old;")
M("sl-false-value","P03",ix,"                diff[index].value = update.value;\n            } else","                if (std::isnan(diff[index].value)) diff[index].value = update.value;\n            } else")
M("sl-delta-old","P03",ix,"                if (std::isnan(diff[delta_index].old)) {","                if (!std::isnan(update.old)) {")
M("sl-fill","P03",ix,"                if (std::isnan(diff[i].old)) {\n                    diff[i].old = array_ptr_->view(state)[delta.stop - i - 1];\n                }","                (void)i;")
M("sl-fill-order","P03",ix,"array_ptr_->view(state)[delta.stop - i - 1];","array_ptr_->view(state)[delta.start + i];")
M("sl-coord","P03",ix,"                if (coordinate >= length) {","                if (coordinate > length) {")
M("sl-rem","P03",ix,"            if (skip || remainder) continue;","            if (skip) continue;")
M("sl-small","P03",ix,"            minimum_size = std::min(size, minimum_size);","            minimum_size = size;")
M("sl-cache-shrunk","P03",ix,"        for (ssize_t j = static_cast<ssize_t>(full_cache.size()) - 1; j >= i; --j) {","        for (ssize_t j = static_cast<ssize_t>(full_cache.size()) - 1; j > i; --j) {")
M("sl-commit-prev","P02,P03",ix,"    node_data->previous_size = size(state);\n    // reset","    // reset")
M("sl-commit-cache","P02,P03",ix,"    node_data->full_cache_.assign(begin(state), end(state));\n}","    node_data->full_cache_.resize(size(state));\n}")
M("sl-revert-shape","P01",ix,"        // first, which isn't safe to assume\n        update_dynamic_shape(state);","        // first, which isn't safe to assume")
M("sl-late-shape","P03,P04",ix,"            }\n        }\n\n        update_dynamic_shape(state);\n    } else if (contiguous_) {","            }\n        }\n\n        if (growing || shrinking) update_dynamic_shape(state);\n        else node_data->fitted_first_slice = previous_slice;\n    } else if (contiguous_) {")
M("sl-late-shape2","P03,P04",ix,"            }\n        }\n\n        update_dynamic_shape(state);\n    } else if (contiguous_) {","            }\n        }\n\n        if (diff.size() > 1) update_dynamic_shape(state);\n    } else if (contiguous_) {")
M("sl-dynstart","P04,P03",ix,"    return slice_start * array_ptr_->strides()[0] / static_cast<ssize_t>(sizeof(double));","    return slice_start * strides()[0] / static_cast<ssize_t>(sizeof(double));")
M("sl-shape-size","P04",ix,"    node_data->dynamic_shape[0] = node_data->fitted_first_slice.size();","    node_data->dynamic_shape[0] = node_data->fitted_first_slice.stop - node_data->fitted_first_slice.start;")
M("sl-cond","P03",ix,"            } else if (update.index < delta.start && update.index >= new_slice.start) {","            } else if (update.index <= delta.start && update.index >= new_slice.start) {")
M("sl-growval","P03",ix,"                diff[i].value = array_ptr_->view(state)[delta.start + i];","                diff[i].value = array_ptr_->view(state)[new_slice.start + i];")
M("sl-row","P03",ix,"            return Slice(rows.start * row_size, rows.stop * row_size);","            return rows;")
M("sl-empty","P03",ix,"            if (rows.size() == 0) rows = Slice(axis0_slice_.value().start, axis0_slice_.value().start);\n","")
R("sl-r-range","P01,P02,P03,P04",ix,"        for (const auto& [index, old, value] : array_ptr_->diff(state)) {\n            if (index < start) continue;  // before the range we care about\n            if (index >= stop) continue;  // after the range we care about\n\n            diff.emplace_back(index - start, old, value);\n        }","        for (const Update& update : array_ptr_->diff(state)) {\n            if (update.index >= start && update.index < stop) {\n                diff.push_back(Update(update.index - start, update.old, update.value));\n            }\n        }")
R("sl-r-cache","P01,P02,P03,P04",ix,"        for (; it != end(state); ++it, ++i) {\n            // Output array has grown\n            diff.emplace_back(Update::placement(static_cast<double>(i), *it));\n        }","        while (it != end(state)) {\n            // Output array has grown\n            diff.emplace_back(i, Update::nothing, *it);\n            ++i;\n            ++it;\n        }")
R("sl-r-helper","P01,P02,P03,P04",ix,"        bool growing = new_slice.size() > previous_slice.size();\n        bool shrinking = new_slice.size() < previous_slice.size();","        const auto new_length = new_slice.size();\n        const auto old_length = previous_slice.size();\n        const bool growing = old_length < new_length;\n        const bool shrinking = old_length > new_length;")
R("sl-r-min","P01,P02,P03,P04",ix,"            size--;\n            assert(size >= 0);\n            minimum_size = std::min(size, minimum_size);","            size -= 1;\n            assert(size >= 0);\n            if (size < minimum_size) minimum_size = size;")
R("sl-r-skip","P01,P02,P03,P04",ix,"            // skip anything that's outside of our range, or \"between\" steps\n            if (skip || remainder) continue;\n\n            diff.emplace_back(view_index, old, value);","            // skip anything that's outside of our range, or \"between\" steps\n            if (!skip && remainder == 0) {\n                diff.emplace_back(view_index, old, value);\n            }")
