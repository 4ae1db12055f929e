nc=N+"numbers.cpp"; cc=N+"collections.cpp"; nh=I+"nodes/numbers.hpp"
SZ="    if (number_data.size() != static_cast<size_t>(this->size())) {"
IV="    return (value >= lower_bound()) && (value <= upper_bound()) && (std::round(value) == value);"
M("num-size-lt","P10",nc,SZ,"    if (number_data.size() < static_cast<size_t>(this->size())) {")
M("num-lower","P10",nc,IV,IV.replace(">= lower",">= lower_bound() - 1 && value >= -1 + lower"))
M("num-lower2","P10",nc,"(value >= lower_bound())","(value > lower_bound())")
M("num-upper","P10",nc,"(value <= upper_bound())","(value <= upper_bound() + 1)")
M("num-noint","P10",nc," && (std::round(value) == value);",";")
M("num-floor","P10",nc,"(std::round(value) == value);","(std::round(value * 2) == value * 2);")
M("num-skipfirst","P10",nc,"std::find_if_not(number_data.begin(), number_data.end(),","std::find_if_not(number_data.begin() + 1, number_data.end(),")
M("num-any","P10",nc,"std::find_if_not(number_data.begin(), number_data.end(),\n                                   [&](double value) { return is_valid(value); });","std::find_if(number_data.begin(), number_data.end(),\n                                   [&](double value) { return is_valid(value); });")
M("num-default","P10",nc,"(lower_bound() <= 0 && upper_bound() >= 0) ? 0 : lower_bound();","(lower_bound() <= 0) ? 0 : lower_bound();")
M("num-rng","P10",nc,"std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);\n    return","std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_ + 1);\n    return")
M("num-rng2","P10",nc,"std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);\n    return","std::uniform_real_distribution<double> value_dist(lower_bound_, upper_bound_);\n    return")
CL="    for (const auto& val : contents) {\n        if (ssize_t(val) != val)"
M("col-min","P10",cc,"if (static_cast<ssize_t>(contents.size()) < min_size_) {","if (static_cast<ssize_t>(contents.size()) < min_size_ - 1) {")
M("col-max","P10",cc,"if (static_cast<ssize_t>(contents.size()) > max_size_) {","if (static_cast<ssize_t>(contents.size()) > max_value_) {")
M("col-neg","P10",cc,"if (val < 0) throw","if (val < -1) throw")
M("col-big","P10",cc,"if (val >= max_value_)","if (val > max_value_)")
M("col-int","P10",cc,'        if (ssize_t(val) != val) throw std::invalid_argument("contents must be integral");\n',"")
M("col-unique","P10",cc,"if (set.size() < contents.size()) {","if (set.size() + 1 < contents.size()) {")
M("col-uniq2","P10",cc,"set(contents.begin(), contents.end());","set(contents.begin() + 1, contents.end());")
M("col-vis","P10",cc,"CollectionStateData>(std::move(contents), set.size());","CollectionStateData>(std::move(contents), max_size_);")
M("col-rest","P10",cc,"    for (ssize_t i = 0; i < max_value_; ++i) {\n        if (set.count","    for (ssize_t i = 0; i < max_size_; ++i) {\n        if (set.count")
M("col-rest2","P10",cc,"if (set.count(static_cast<double>(i))) continue;","if (set.count(static_cast<double>(i + 1))) continue;")
M("col-rest1","P10",cc,"    for (ssize_t i = 0; i < max_value_; ++i) {\n        if (set.count","    for (ssize_t i = 1; i < max_value_; ++i) {\n        if (set.count")
M("dbs-size","P10",cc,"if (static_cast<ssize_t>(contents.size()) != num_disjoint_sets) {","if (static_cast<ssize_t>(contents.size()) < num_disjoint_sets) {")
M("dbs-inner","P10",cc,"if (static_cast<ssize_t>(contents[set_index].size()) != primary_set_size) {","if (static_cast<ssize_t>(contents[set_index].size()) < primary_set_size) {")
M("dbs-bin","P10",cc,"if (!(contents[set_index][el_index] == 0 || contents[set_index][el_index] == 1)) {","if (contents[set_index][el_index] < 0 || contents[set_index][el_index] > 1) {")
M("dbs-count","P10",cc,"            if (count != 1) {","            if (count > 1) {")
M("dbs-count0","P10",cc,"            if (count != 1) {","            if (count < 1) {")
M("dbs-last","P10",cc,"        for (ssize_t set_index = 0; set_index < num_disjoint_sets; ++set_index) {\n            if (static","        for (ssize_t set_index = 0; set_index < num_disjoint_sets - 1; ++set_index) {\n            if (static")
M("dbs-def","P10",cc,"        for (ssize_t i = 0; i < primary_set_size; ++i) {\n            data[i] = 1;","        for (ssize_t i = 1; i < primary_set_size; ++i) {\n            data[i] = 1;")
M("dbs-transp","P10",cc,"data[set_index * primary_set_size + el_index] = contents[set_index][el_index];","data[el_index * num_disjoint_sets + set_index] = contents[set_index][el_index];")
M("dl-size","P10",cc,"if (lists.size() != num_disjoint_lists) {","if (lists.size() > num_disjoint_lists) {")
M("dl-neg","P10",cc,"if (el < 0.0 || static_cast<double>(int_el) != el) {","if (static_cast<double>(int_el) != el && el >= 0) {")
M("dl-int","P10",cc,"if (el < 0.0 || static_cast<double>(int_el) != el) {","if (el < 0.0) {")
M("dl-big","P10",cc,"if (int_el >= primary_set_size) {","if (int_el > primary_set_size) {")
M("dl-uniq","P10",cc,"                if (!inserted) {","                if (!inserted && list.size() > 1) {")
M("dl-all","P10",cc,"if (elements.size() != primary_set_size) {","if (elements.size() > primary_set_size) {")
M("dl-def","P10",cc,"            lists[0].push_back(i);","            lists[0].push_back(i + 1);")
R("num-loop","P10",nc,"    if (auto it = std::find_if_not(number_data.begin(), number_data.end(),\n                                   [&](double value) { return is_valid(value); });\n        it != number_data.end()) {\n        throw","    for (const double& value : number_data) {\n        if (is_valid(value)) continue;\n        throw")
R("num-allof","P10",nc,"    if (auto it = std::find_if_not(number_data.begin(), number_data.end(),\n                                   [&](double value) { return is_valid(value); });\n        it != number_data.end()) {","    if (!std::all_of(number_data.begin(), number_data.end(), [&](double v) { return is_valid(v); })) {")
R("num-valid","P10",nc,IV,"    if (value < lower_bound_) return false;\n    if (value > upper_bound_) return false;\n    return std::floor(value) == value;")
R("num-def","P10",nc,"    return (lower_bound() <= 0 && upper_bound() >= 0) ? 0 : lower_bound();","    const double lb = lower_bound();\n    if (lb > 0 || upper_bound() < 0) return lb;\n    return 0.0;")
R("num-rngloop","P10",nc,"    std::generate(number_data.begin(), number_data.end(), [&]() { return generate_value(rng); });","    for (double& x : number_data) x = generate_value(rng);")
R("num-order","P10",nc,SZ,"    const auto expected = static_cast<size_t>(this->size());\n    if (!(number_data.size() == expected)) {")
R("col-onecond","P10",cc,'        if (val < 0) throw std::invalid_argument("contents must be non-negative");\n        if (val >= max_value_) throw std::invalid_argument("contents too large for the collection");','        if (val < 0 || !(val < max_value_)) throw std::invalid_argument("contents out of range");')
R("col-helper","P10",(cc,'        if (ssize_t(val) != val) throw std::invalid_argument("contents must be integral");\n        if (val < 0) throw std::invalid_argument("contents must be non-negative");\n        if (val >= max_value_) throw std::invalid_argument("contents too large for the collection");','        check_element(val, max_value_);'),(cc,"void CollectionNode::initialize_state(State& state, std::vector<double> contents) const {",'static void check_element(double val, ssize_t n) {\n    if (std::trunc(val) != val) throw std::invalid_argument("contents must be integral");\n    if (val < 0) throw std::invalid_argument("contents must be non-negative");\n    if (val >= n) throw std::invalid_argument("contents too large for the collection");\n}\n\nvoid CollectionNode::initialize_state(State& state, std::vector<double> contents) const {'))
R("col-ins","P10",(cc,"    std::unordered_set<double> set(contents.begin(), contents.end());\n    if (set.size() < contents.size()) {","    std::unordered_set<double> set;\n    for (const double& v : contents) set.insert(v);\n    if (set.size() != contents.size()) {"))
R("col-ins2","P10",(cc,"    std::unordered_set<double> set(contents.begin(), contents.end());\n    if (set.size() < contents.size()) {\n        throw std::invalid_argument(\"contents must be unique\");\n    }","    std::unordered_set<double> set;\n    for (const double& v : contents) {\n        if (!set.insert(v).second) throw std::invalid_argument(\"contents must be unique\");\n    }"))
R("col-vissize","P10",(cc,"    // finally, augment","    const ssize_t visible = contents.size();\n    // finally, augment"),(cc,"CollectionStateData>(std::move(contents), set.size());","CollectionStateData>(std::move(contents), visible);"))
R("col-push","P10",cc,"        if (set.count(static_cast<double>(i))) continue;  // already present\n        contents.emplace_back(i);","        if (!set.contains(static_cast<double>(i))) contents.push_back(i);")
R("col-flags","P10",(cc,"    for (ssize_t i = 0; i < max_value_; ++i) {\n        if (set.count(static_cast<double>(i))) continue;  // already present\n        contents.emplace_back(i);","    std::vector<bool> used(max_value_, false);\n    for (const double& v : set) used[static_cast<ssize_t>(v)] = true;\n    for (ssize_t i = 0; i < max_value_; ++i) {\n        if (used[i]) continue;\n        contents.emplace_back(i);"))
R("dbs-bin","P10",cc,"if (!(contents[set_index][el_index] == 0 || contents[set_index][el_index] == 1)) {","const double v = contents[set_index][el_index];\n                if (v != 0 && v != 1) {")
R("dbs-row","P10",(cc,"            for (ssize_t el_index = 0; el_index < primary_set_size; ++el_index) {\n                if (!(contents[set_index][el_index] == 0 || contents[set_index][el_index] == 1)) {","            const auto& row = contents[set_index];\n            for (ssize_t el_index = 0; el_index < primary_set_size; ++el_index) {\n                if (row[el_index] != 0 && row[el_index] != 1) {"))
R("dbs-anyof","P10",cc,"        for (const ssize_t& count : num_sets) {\n            if (count != 1) {\n                throw","        {\n            if (std::any_of(num_sets.begin(), num_sets.end(), [](ssize_t c) { return c != 1; })) {\n                throw")
R("dbs-fill","P10",cc,"        for (ssize_t i = 0; i < primary_set_size; ++i) {\n            data[i] = 1;\n        }","        std::fill(data.begin(), data.begin() + primary_set_size, 1);")
R("dl-split","P10",cc,"if (el < 0.0 || static_cast<double>(int_el) != el) {","const bool whole = static_cast<double>(int_el) == el;\n                if (!whole || el < 0) {")
R("dl-count","P10",cc,"                auto [_, inserted] = elements.insert(int_el);\n                if (!inserted) {","                if (!elements.insert(int_el).second) {")
R("dl-iota","P10",cc,"        for (ssize_t i = 0; i < primary_set_size; ++i) {\n            lists[0].push_back(i);\n        }","        lists[0].resize(primary_set_size);\n        std::iota(lists[0].begin(), lists[0].end(), 0);")
sy=Y+"symbols.pyx"
PB="        for i in range(arr.size):\n            items.push_back(arr[i])\n\n        # The validity of the state is checked in C++\n        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))\n\n    # An observing pointer to the C++ ListNode"
M("py-short","P10",sy,PB,PB.replace("range(arr.size)","range(arr.size - 1)"))
M("py-start","P10",sy,PB,PB.replace("range(arr.size)","range(1, arr.size)"))
M("py-rev","P10",sy,PB,PB.replace("push_back(arr[i])","push_back(arr[arr.size - 1 - i])"))
M("py-idx","P10",sy,PB,PB.replace("_states[index]","_states[0]"))
M("py-dt","P10",sy,"        cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp).flatten()\n\n        # Reset our state, and check whether that's possible\n        self.reset_state(index)\n\n        # Convert to a vector. We could skip this copy if it ever becomes\n        # a performance bottleneck\n        cdef vector[double] items\n        items.reserve(arr.size)\n        cdef Py_ssize_t i\n        for i in range(arr.size):\n            items.push_back(arr[i])\n\n        # The validity of the state is checked in C++\n        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))\n\n    def upper","        cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.int8).astype(np.intp).flatten()\n\n        # Reset our state, and check whether that's possible\n        self.reset_state(index)\n\n        # Convert to a vector. We could skip this copy if it ever becomes\n        # a performance bottleneck\n        cdef vector[double] items\n        items.reserve(arr.size)\n        cdef Py_ssize_t i\n        for i in range(arr.size):\n            items.push_back(arr[i])\n\n        # The validity of the state is checked in C++\n        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))\n\n    def upper")
M("py-dbs","P10",sy,"                sets[i].push_back(arr[i, j])","                sets[i].push_back(arr[i, arr.shape[1] - 1 - j])")
M("py-dbs2","P10",sy,"                sets[i].push_back(arr[i, j])","                if i or j: sets[i].push_back(arr[i, j])")
M("py-dl","P10",sy,"            for j in range(len(state[i])):\n                items[i].push_back(arr[j])","            for j in range(len(state[0])):\n                items[i].push_back(arr[j])")
R("py-each","P10",sy,PB,PB.replace("for i in range(arr.size):\n            items.push_back(arr[i])","for v in arr:\n            items.push_back(v)"))
R("py-enum","P10",sy,"            for j in range(len(state[i])):\n                items[i].push_back(arr[j])","            for j, v in enumerate(arr):\n                items[i].push_back(v)")
R("py-row","P10",sy,"        sets.resize(arr.shape[0])\n        cdef Py_ssize_t i\n        for i in range(arr.shape[0]):\n            for j in range(arr.shape[1]):\n                sets[i].push_back(arr[i, j])","        cdef vector[double] row\n        cdef Py_ssize_t i\n        for i in range(arr.shape[0]):\n            row.clear()\n            for j in range(arr.shape[1]):\n                row.push_back(arr[i, j])\n            sets.push_back(row)")
R("py-helper","P10",(sy,PB,PB.replace("        for i in range(arr.size):\n            items.push_back(arr[i])\n","        _fill(items, arr)\n")),(sy,"cdef bool _empty_slice(","cdef void _fill(vector[double]& items, Py_ssize_t[:] arr):\n    cdef Py_ssize_t i\n    for i in range(arr.shape[0]):\n        items.push_back(arr[i])\n\n\ncdef bool _empty_slice("))
ch=I+"nodes/collections.hpp"
M("dec-bounds","P10",nh,"if (upper_bound_ < lower_bound_) {","if (upper_bound_ + 1 < lower_bound_) {")
M("dec-eq","P10",nh,"if (upper_bound_ < lower_bound_) {","if (upper_bound_ <= lower_bound_) {")
M("dec-min","P10",ch,"        if (min_size > max_size) {","        if (min_size > max_value) {")
M("dec-max","P10",ch,"        if (max_size > max_value) {","        if (max_size > max_value + 1) {")
M("dec-neg","P10",ch,"        if (min_size < 0 || max_size < 0) {","        if (max_size < 0) {")
M("dec-dbs","P10",cc,'    if (primary_set_size < 0) throw std::invalid_argument("primary_set_size must be non-negative");\n',"")
R("dec-one","P10",ch,"        if (min_size > max_size) {","        const bool wrong = max_size < min_size;\n        if (wrong) {")
R("dec-member","P10",ch,"        if (max_size > max_value) {","        if (max_size_ > max_value_) {")
