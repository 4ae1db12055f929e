DIV="""        bool strictly_negative = rhs_ptr->min() < 0 && rhs_ptr->max() < 0;
        bool strictly_positive = rhs_ptr->min() > 0 && rhs_ptr->max() > 0;
        if (!strictly_negative && !strictly_positive) {"""
M("div-neg-max","P09",N+"mathematical.cpp","rhs_ptr->min() < 0 && rhs_ptr->max() < 0;","rhs_ptr->min() < 0;")
M("div-neg-le","P09",N+"mathematical.cpp","rhs_ptr->min() < 0 && rhs_ptr->max() < 0;","rhs_ptr->min() < 0 && rhs_ptr->max() <= 0;")
M("div-pos-ge","P09",N+"mathematical.cpp","rhs_ptr->min() > 0 && rhs_ptr->max() > 0;","rhs_ptr->min() >= 0 && rhs_ptr->max() > 0;")
M("div-or","P09",N+"mathematical.cpp","rhs_ptr->min() > 0 && rhs_ptr->max() > 0;","rhs_ptr->min() > 0 || rhs_ptr->max() > 0;")
M("div-lhs","P09",N+"mathematical.cpp","rhs_ptr->min() > 0 && rhs_ptr->max() > 0;","lhs_ptr->min() > 0 && rhs_ptr->max() > 0;")
M("div-eq","P09",N+"mathematical.cpp",DIV,"        if (rhs_ptr->min() == 0 || rhs_ptr->max() == 0) {")
M("div-scalar","P09",N+"mathematical.cpp","if (!strictly_negative && !strictly_positive) {","if (!strictly_negative && !strictly_positive && rhs_ptr->size() != 1) {")
R("div-minmax","P09",N+"mathematical.cpp",DIV,"        const double lo = rhs_ptr->min();\n        const double hi = rhs_ptr->max();\n        if (lo <= 0 && hi >= 0) {")
R("div-demorgan","P09",N+"mathematical.cpp",DIV,"        const bool ok = rhs_ptr->min() > 0 || rhs_ptr->max() < 0;\n        if (!ok) {")
R("div-mul","P09",N+"mathematical.cpp",DIV,"        if (rhs_ptr->min() * rhs_ptr->max() <= 0) {")
R("div-b","P09",N+"mathematical.cpp",DIV,"        auto excludes_zero = [&]() { return b_ptr->min() > 0 || b_ptr->max() < 0; };\n        if (!excludes_zero()) {")
R("div-nested","P09",N+"mathematical.cpp",DIV,"        if (rhs_ptr->min() <= 0) if (rhs_ptr->max() >= 0) {")
R("div-sign","P09",N+"mathematical.cpp",DIV,"        if (std::signbit(rhs_ptr->min()) != std::signbit(rhs_ptr->max()) || rhs_ptr->min() == 0 || rhs_ptr->max() == 0) {")
M("sqrt-le","P09",N+"mathematical.cpp","        if (node_ptr->min() < 0) {","        if (node_ptr->max() < 0) {")
M("sqrt-m1","P09",N+"mathematical.cpp","        if (node_ptr->min() < 0) {","        if (node_ptr->min() <= -1) {")
M("sqrt-dyn","P09",N+"mathematical.cpp","        if (node_ptr->min() < 0) {","        if (node_ptr->min() < 0 && !node_ptr->dynamic()) {")
R("sqrt-neg","P09",N+"mathematical.cpp","        if (node_ptr->min() < 0) {","        if (!(node_ptr->min() >= 0)) {")
R("sqrt-loc","P09",N+"mathematical.cpp","        if (node_ptr->min() < 0) {","        const double low = array_ptr_->min();\n        if (0 > low) {")
R("sqrt-pred","P09",N+"mathematical.cpp","""        if (node_ptr->min() < 0) {
            throw std::invalid_argument("SquareRoot's predecessors cannot take a negative value");
        }
    }
    add_predecessor(node_ptr);""","""        if (node_ptr->min() >= 0) { add_predecessor(node_ptr); return; }
            throw std::invalid_argument("SquareRoot's predecessors cannot take a negative value");
    }
    add_predecessor(node_ptr);""")
M("perm-gt","P09",N+"indexing.cpp","order_ptr_->max() >= array_shape[0]","order_ptr_->max() > array_shape[0]")
M("perm-and","P09",N+"indexing.cpp","order_ptr_->min() < 0 || order_ptr_->max() >=","order_ptr_->min() < 0 && order_ptr_->max() >=")
M("perm-int","P09",N+"indexing.cpp","    if (!order_ptr_->integral()) {","    if (!order_ptr_->integral() && order_ptr_->ndim() != 1) {")
M("perm-neg","P09",N+"indexing.cpp","order_ptr_->min() < 0 ||","order_ptr_->min() < -array_shape[0] ||")
M("perm-size","P09",N+"indexing.cpp","    if (array_shape[0] != order_ptr_->size()) {","    if (array_shape[0] < order_ptr_->size()) {")
M("perm-square","P09",N+"indexing.cpp","std::equal(array_shape.begin() + 1, array_shape.end(), array_shape.begin())","std::equal(array_shape.begin() + 1, array_shape.end(), array_shape.begin() + 1)")
R("perm-in","P09",N+"indexing.cpp","if (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0]) {","const bool inside = order_ptr_->min() >= 0 && order_ptr_->max() < array_shape[0];\n    if (!inside) {")
R("perm-sz","P09",N+"indexing.cpp","order_ptr_->max() >= array_shape[0]","order_ptr_->max() >= order_ptr_->size()")
R("perm-fr","P09",N+"indexing.cpp","order_ptr_->max() >= array_shape[0]","order_ptr_->max() + 1 > array_shape.front()")
R("perm-all","P09",N+"indexing.cpp","std::equal(array_shape.begin() + 1, array_shape.end(), array_shape.begin())","std::ranges::all_of(array_shape, [&](ssize_t n) { return n == array_shape[0]; })")
M("adv-gt","P09",N+"indexing.cpp","} else if (indexing_array_ptr->max() >= array_ptr->shape()[idx]) {","} else if (indexing_array_ptr->max() > array_ptr->shape()[idx]) {")
M("adv-0","P09",N+"indexing.cpp","} else if (indexing_array_ptr->max() >= array_ptr->shape()[idx]) {","} else if (indexing_array_ptr->max() >= array_ptr->shape()[0]) {")
M("adv-dyn","P09",N+"indexing.cpp","if (indexing_array_ptr->max() >= min_axis_size) {","if (indexing_array_ptr->max() > min_axis_size) {")
M("adv-neg","P09",N+"indexing.cpp","                if (indexing_array_ptr->min() < 0) {","                if (indexing_array_ptr->max() < 0) {")
M("adv-int","P09",N+"indexing.cpp","                if (!indexing_array_ptr->integral()) {","                if (!indexing_array_ptr->integral() && indexing_array_ptr->dynamic()) {")
M("adv-last","P09",N+"indexing.cpp","} else if (indexing_array_ptr->max() >= array_ptr->shape()[idx]) {","} else if (idx + 1 < array_ptr->ndim() && indexing_array_ptr->max() >= array_ptr->shape()[idx]) {")
R("adv-loc","P09",N+"indexing.cpp","} else if (indexing_array_ptr->max() >= array_ptr->shape()[idx]) {","} else if (const double top = indexing_array_ptr->max(); !(top < array_ptr->shape()[idx])) {")
R("adv-if","P09",N+"indexing.cpp","""            if (std::holds_alternative<ArrayNode*>(index)) {
                ArrayNode* indexing_array_ptr = std::get<ArrayNode*>(index);
""","""            if (ArrayNode** found = std::get_if<ArrayNode*>(const_cast<std::variant<ArrayNode*, Slice>*>(&index)); found) {
                ArrayNode* indexing_array_ptr = *found;
""")
R("adv-order","P09",N+"indexing.cpp","""                if (!indexing_array_ptr->integral()) {
                    throw std::out_of_range(""","""                const bool whole = indexing_array_ptr->integral();
                const double low = indexing_array_ptr->min();
                (void)low;
                if (!whole) {
                    throw std::out_of_range(""")
M("red-dyn","P09",N+"mathematical.cpp","""        : init(), array_ptr_(array_ptr) {
    if (array_ptr_->dynamic()) {""","""        : init(), array_ptr_(array_ptr) {
    if (array_ptr_->dynamic() && array_ptr_->ndim() > 1) {""")
M("red-size","P09",N+"mathematical.cpp","    } else if (array_ptr_->size() < 1) {\n        throw std::invalid_argument(\n                \"cannot do a reduction on an empty","    } else if (array_ptr_->size() < 0) {\n        throw std::invalid_argument(\n                \"cannot do a reduction on an empty")
R("red-le","P09",N+"mathematical.cpp","    } else if (array_ptr_->size() < 1) {\n        throw std::invalid_argument(\n                \"cannot do a reduction on an empty","    }\n    if (array_ptr->size() <= 0) {\n        throw std::invalid_argument(\n                \"cannot do a reduction on an empty")
R("red-one","P09",N+"mathematical.cpp","""    if (array_ptr_->dynamic()) {
        throw std::invalid_argument(
                "cannot do a reduction on a dynamic""","""    const ssize_t n = array_ptr_->size();
    if (n < 0) {
        throw std::invalid_argument(
                "cannot do a reduction on a dynamic""")
R("red-sizeinfo","P09",N+"mathematical.cpp","""    if (array_ptr_->dynamic()) {
        throw std::invalid_argument(
                "cannot do a reduction on a dynamic""","""    if (array_ptr_->dynamic() && array_ptr_->sizeinfo().min.value_or(0) < 1) {
        throw std::invalid_argument(
                "cannot do a reduction on a dynamic""")
DIVALL=DIV+"""
            throw std::invalid_argument("Divide's denominator predecessor must be either strictly positive or strictly negative");
        }"""
R("div-helper","P09",(N+"mathematical.cpp",DIVALL,"        require_nonzero(*rhs_ptr);"),(N+"mathematical.cpp","// BinaryOpNode *****","""static bool excludes_zero(const Array& a) { return a.min() > 0 || a.max() < 0; }
static void require_nonzero(const Array& a) {
    if (excludes_zero(a)) return;
    throw std::invalid_argument("Divide's denominator predecessor must be either strictly positive or strictly negative");
}
// BinaryOpNode *****"""))
R("div-end","P09",(N+"mathematical.cpp","""    if constexpr (std::is_same<BinaryOp, std::divides<double>>::value) {
"""+DIVALL+"""
    }

    this->add_predecessor(a_ptr);""","""    if constexpr (std::is_same_v<BinaryOp, std::divides<double>>) {
        const ArrayNode& denominator = *b_ptr;
        if (denominator.min() <= 0 && 0 <= denominator.max()) throw std::invalid_argument("denominator");
    }
    this->add_predecessor(a_ptr);"""))
R("perm-helper","P09",(N+"indexing.cpp","    if (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0]) {","    auto within = [](const Array& a, double lo, double hi) -> bool { if (a.min() < lo) return false; return a.max() < hi; };\n    if (!within(*order_ptr_, 0, array_shape[0])) {"))
R("perm-split","P09",(N+"indexing.cpp","    if (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0]) {","    if (order_ptr->min() < 0) throw std::invalid_argument(\"order may have values out of range\");\n    if (order_ptr->max() > array_shape[0] - 1) {"))
R("adv-bound","P09",(N+"indexing.cpp","                if (idx == 0 && array_ptr->shape()[0] < 0) {\n                    // 100","                const std::span<const ssize_t> extents = array_ptr->shape();\n                if (idx == 0 && extents[0] < 0) {\n                    // 100"),(N+"indexing.cpp","} else if (indexing_array_ptr->max() >= array_ptr->shape()[idx]) {","} else if (indexing_array_ptr->max() >= extents[idx]) {"))
R("adv-helper","P09",(N+"indexing.cpp","                if (indexing_array_ptr->min() < 0) {\n","                auto negative = [&]() { return indexing_array_ptr->min() < 0; };\n                if (negative()) {\n"),(N+"indexing.cpp","                if (idx == 0 && array_ptr->shape()[0] < 0) {\n                    // 100","                const bool open = idx == 0 && array_ptr->dynamic();\n                if (open) {\n                    // 100"))
R("adv-dynfirst","P09",(N+"indexing.cpp","                if (idx == 0 && array_ptr->shape()[0] < 0) {\n                    // 100","                const bool open = !idx && array_ptr->shape()[0] < 0;\n                if (open) {\n                    // 100"),(N+"indexing.cpp","                    ssize_t min_axis_size = (sizeinfo.min.value() * array_ptr->itemsize()) /\n                                            array_ptr->strides()[0];","                    const ssize_t row = array_ptr->strides()[0] / array_ptr->itemsize();\n                    const ssize_t min_axis_size = *sizeinfo.min / row;"))
R("adv-rows","P09",(N+"indexing.cpp","                    ssize_t min_axis_size = (sizeinfo.min.value() * array_ptr->itemsize()) /\n                                            array_ptr->strides()[0];","                    ssize_t row = 1;\n                    for (ssize_t a = 1; a < array_ptr->ndim(); ++a) row *= array_ptr->shape()[a];\n                    const ssize_t min_axis_size = *sizeinfo.min / row;"))
R("adv-iter","P09",(N+"indexing.cpp","} else if (indexing_array_ptr->max() >= array_ptr->shape()[idx]) {","} else if (indexing_array_ptr->max() >= *(array_ptr->shape().begin() + idx)) {"))
R("red-helper","P09",(N+"mathematical.cpp","    } else if (array_ptr_->size() < 1) {\n        throw std::invalid_argument(\n                \"cannot do a reduction on an empty","    } else if (std::ranges::any_of(array_ptr_->shape(), [](ssize_t n) { return n == 0; })) {\n        throw std::invalid_argument(\n                \"cannot do a reduction on an empty"))
R("red-min","P09",(N+"mathematical.cpp","    } else if (array_ptr_->size() < 1) {\n        throw std::invalid_argument(\n                \"cannot do a reduction on an empty","    } else if (!array_ptr_->size()) {\n        throw std::invalid_argument(\n                \"cannot do a reduction on an empty"))
