F=N+"indexing.cpp"
ALL="P04,P02,P01,P03"
def X(n,*e): M(n,ALL,*[(F,e[i],e[i+1]) for i in range(0,len(e),2)])
X("rev-no-offsets-restore","            offsets_[update.index] = update.old;\n","")
X("rev-no-reverse-del","            if (!update.removed()) delete_from_reverse(update.index, update.value);\n","")
X("rev-no-reverse-add","            if (!update.placed()) add_to_reverse(update.index, update.old);\n","")
X("rev-forward","        for (auto& [index, old, _] : diff | std::views::reverse) {\n            data[index] = old;","        for (auto& [index, old, _] : diff) {\n            data[index] = old;")
X("rev-no-shrink","        if (old_offsets_size < static_cast<ssize_t>(offsets_.size())) {\n            offsets_.resize(old_offsets_size);\n        }\n","")
X("rev-no-grow","        if (old_data_size > static_cast<ssize_t>(data.size())) {\n            data.resize(old_data_size);\n        }\n","")
X("rev-offdiff-kept","        // Clear the diff\n        diff.clear();\n        offsets_diff.clear();","        // Clear the diff\n        diff.clear();")
X("com-size","        old_data_size = data.size();\n    }","    }")
X("com-osize","        old_offsets_size = offsets_.size();\n        old_data","        old_data")
X("com-offdiff","        diff.clear();\n        offsets_diff.clear();\n        old_offsets","        diff.clear();\n        old_offsets")
X("place-noreverse","        add_to_reverse(offsets_.size(), offset);\n        offsets_.push","        offsets_.push")
X("remove-noreverse","        delete_from_reverse(index, offsets_.back());\n","")
X("add-noreverse","        delete_from_reverse(index, old_offset);\n        add_to_reverse(index, offsets_[index]);\n","")
X("add-oldval","        offsets_diff.emplace_back(index, old_offset, offsets_[index]);","        offsets_diff.emplace_back(index, old_offset, delta);")
X("del-noerase","        if (idxs.size() == 0) {\n            reverse_offsets.erase(it);\n        }\n","")
X("del-last","        if (idxs.back() != index) {","        if (idxs.size() > 2) {")
X("del-swap","            *idxs_it = idxs.back();\n","")
X("fill-place-nodiff","            if constexpr (fill_diff) diff->emplace_back(Update::placement(data_index, new_val));\n","")
X("fill-rem-pop","            data.pop_back();\n","")
X("fill-order","            if constexpr (fill_diff) diff->emplace_back(data_index, data[data_index], new_val);\n            data[data_index] = new_val;","            data[data_index] = new_val;\n            if constexpr (fill_diff) diff->emplace_back(data_index, data[data_index], new_val);")
X("fill-nowrite","diff->emplace_back(data_index, data[data_index], new_val);\n            data[data_index] = new_val;","diff->emplace_back(data_index, data[data_index], new_val);")
X("fill-newval","diff->emplace_back(data_index, data[data_index], new_val);\n            data","diff->emplace_back(data_index, new_val, data[data_index]);\n            data")
X("fill-rem-fwd","            if (!removal) {\n                for (ssize_t i = 0;","            if (!removal || axis_size > 2) {\n                for (ssize_t i = 0;")
X("fill-outdim","data, data_offset + i * strides()[output_dim], output_dim + 1, diff);\n                }\n            } else","data, data_offset + i * strides()[output_dim], output_dim, diff);\n                }\n            } else")
X("init-map","                                                              !main_array_is_constant_node);","                                                              main_array_is_constant_node);")
X("gm-hit","            mapped_axis += hit_first_array ? 0 : std::get<ArrayNode*>(indices[i])->ndim();","            mapped_axis += std::get<ArrayNode*>(indices[i])->ndim();")
X("gm-nohit","            hit_first_array = true;\n        } else {","        } else {")
X("gm-itemsize","            offset += axis_index * strides[i] / itemsize;","            offset += axis_index * item_strides[i] / itemsize;")
X("pr-ge","            if (update.index >= new_indexers_size) {\n                continue;","            if (update.index > new_indexers_size) {\n                continue;")
X("pr-nocont","                ssize_t new_offset = stride * update.value;","                ssize_t new_offset = update.value;")
X("pr-delta","                ssize_t offset_delta = stride * (new_indexer_val - old_indexer_val);","                ssize_t offset_delta = stride * (old_indexer_val - new_indexer_val);")
X("pr-placed","                if (update.placed()) {\n                    old_indexer_val = 0;\n                } else","                if")
X("pr-removed","                } else if (update.removed()) {\n                    new_indexer_val = 0;\n                }","                }")
X("pr-shrinkloop","                 index >= new_indexers_size; --index) {\n                node_data->remove_offset();","                 index > new_indexers_size; --index) {\n                node_data->remove_offset();")
X("pr-first","        if (dim == first_array_index_) {\n            // If we shrank","        if (dim == 0) {\n            // If we shrank")
X("pr-dedup","    deduplicate_diff(node_data->offsets_diff);\n","")
X("pr-break","            } else if (offset_update.removed()) {\n                break;","            } else if (offset_update.removed()) {\n                return;")
X("pr-insert","            if (parent_array_changed) offset_idxs_updated.insert(offset_update.index);","            if (parent_array_changed && offset_update.placed()) offset_idxs_updated.insert(offset_update.index);")
X("pr-rem-order","        for (const auto& offset_update : offsets_diff | std::views::reverse) {\n            if (!offset_update.removed()) break;","        for (const auto& offset_update : offsets_diff) {\n            if (!offset_update.removed()) continue;")
X("pr-parent-skip","            if (update.index >= parent_size) continue;\n            // First part","            if (update.index > parent_size) continue;\n            // First part")
X("pr-contains","                    if (offset_idxs_updated.contains(idx)) continue;\n                    const","                    if (offset_idxs_updated.contains(idx)) break;\n                    const")
X("pr-nowrite","                    diff.emplace_back(new_index, update.old, update.value);\n                    data[new_index] = update.value;","                    diff.emplace_back(new_index, update.old, update.value);")
X("pr-norec","                    diff.emplace_back(new_index, update.old, update.value);\n","")
X("pr-first-idx","                for (const ssize_t& idx : *idxs) {\n                    if","                for (const ssize_t& idx : {idxs->front()}) {\n                    if")
X("pr-grow","ssize_t axis0_idx = old_axis0_size; axis0_idx < new_axis0_size;","ssize_t axis0_idx = old_axis0_size + 1; axis0_idx < new_axis0_size;")
X("pr-shr-order","                for (ssize_t offset_idx = node_data->offsets_size() - 1; offset_idx >= 0;\n                     --offset_idx) {","                for (ssize_t offset_idx = 0; offset_idx < node_data->offsets_size();\n                     ++offset_idx) {")
X("pr-unch","axis0_idx < unchanged_axis0_size; ++axis0_idx) {","axis0_idx + 1 < unchanged_axis0_size; ++axis0_idx) {")
X("pr-unch2","            if (update.index >= unchanged_parent_size) continue;","            if (update.index >= unchanged_parent_size - 1) continue;")
X("pr-insert2","            offset_idxs_updated.insert(offset_update.index);\n        }\n\n        // Finally","        }\n\n        // Finally")
X("pr-ret","    if (diff.size()) Node::propagate(state);\n}\n\nssize_t AdvancedIndexingNode::size_diff","    if (offsets_diff.size()) Node::propagate(state);\n}\n\nssize_t AdvancedIndexingNode::size_diff")
X("sd","        return static_cast<ssize_t>(ptr->data.size()) - ptr->old_data_size;","        return static_cast<ssize_t>(ptr->offsets_size()) - ptr->old_offsets_size;")
