mc=N+"mathematical.cpp"; fc=N+"flow.cpp"; mn=N+"manipulation.cpp"; cc=N+"constants.cpp"; nc=N+"numbers.cpp"; mh=I+"nodes/mathematical.hpp"; ch=I+"nodes/collections.hpp"; ih=I+"nodes/indexing.hpp"; mah=I+"nodes/manipulation.hpp"; ah=I+"array.hpp"
M("bin-div-int","P12",mc,"    if constexpr (std::is_same<BinaryOp, std::divides<double>>::value) {\n        return false;","    if constexpr (std::is_same<BinaryOp, std::divides<double>>::value) {\n        return rhs_ptr->integral() && rhs_ptr->min() == 1 && rhs_ptr->max() <= 2;")
M("bin-int-or","P12",mc,"        return lhs_ptr->integral() && rhs_ptr->integral();","        return lhs_ptr->integral() || rhs_ptr->integral();")
M("bin-minus-max","P12",mc,"        return lhs_ptr->max() - rhs_ptr->min();","        return lhs_ptr->max() - rhs_ptr->max();")
M("bin-minus-min","P12",mc,"        return lhs_ptr->min() - rhs_ptr->max();","        return lhs_ptr->min() - rhs_ptr->min();")
M("bin-mod-max","P12",mc,"        return neg_max > pos_max ? neg_max : pos_max;","        return pos_max;")
R("bin-mod-min","P12",mc,"        return pos_min < neg_min ? pos_min : neg_min;","        return neg_min < 0 ? neg_min : 0;")
M("bin-mul-max","P12",mc,"        return std::max(\n                {lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high});","        return std::max({lhs_low * rhs_low, lhs_high * rhs_high});")
M("bin-mul-min","P12",mc,"        return std::min(\n                {lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high});","        return std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_high});")
M("bin-div-max","P12",mc,"        return std::max(\n                {lhs_low / rhs_low, lhs_low / rhs_high, lhs_high / rhs_low, lhs_high / rhs_high});","        return std::max({lhs_high / rhs_low, lhs_high / rhs_high});")
M("un-abs-max","P12",mc,"        return std::max<double>(max, -min);","        return max;")
M("un-abs-min","P12",mc,"    } else if (max >= 0) {\n        return 0;","    } else if (max >= 0) {\n        return std::min<double>(max, -min);")
M("un-neg","P12",mc,"    return -(array_ptr_->min());","    return -(array_ptr_->max());")
M("un-square-max","P12",mc,"    const double max = std::max<double>(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));","    const double max = array_ptr_->max();")
M("un-square-min","P12",mc,"    if (low <= 0 && high >= 0) return 0;\n","")
M("un-square-zero","P12",mc,"    if (low <= 0 && high >= 0) return 0;\n","    if (low < 0 && high > 0) return 1;\n")
M("un-sqrt","P12",mc,"    return std::sqrt(array_ptr_->min());","    return std::sqrt(array_ptr_->max());")
M("un-int","P12",mc,"    return Array::integral();\n}","    return array_ptr_->integral();\n}")
M("nary-sum-max","P12",mc,"[](double lhs, const Array* rhs) { return lhs + rhs->max(); });","[](double lhs, const Array* rhs) { return std::max(lhs, lhs + rhs->min()); });")
M("nary-mul-tmp","P12",mc,"            double tmp = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,\n                                   lhs_high * rhs_high});\n\n            lhs_high = std::max(","            lhs_low = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,\n                                   lhs_high * rhs_high});\n            double tmp = lhs_low;\n\n            lhs_high = std::max(")
M("nary-drop2","P12",mc,"        double lhs = operands_[0]->max();\n        for (const Array* rhs_ptr : operands_ | std::views::drop(1)) {","        double lhs = operands_[0]->max();\n        for (const Array* rhs_ptr : operands_ | std::views::drop(2)) {")
M("partial-noinit","P12",mc,"        return this->init.value_or(0) + array_ptr_->shape()[axis] * array_ptr_->max();","        return array_ptr_->shape()[axis] * array_ptr_->max();")
M("partial-axis","P12",mc,"        return this->init.value_or(0) + array_ptr_->shape()[axis] * array_ptr_->min();","        return this->init.value_or(0) + array_ptr_->shape()[0] * array_ptr_->min();")
M("partial-int","P12",mc,"        return array_ptr_->integral() && is_integer(init.value_or(0));","        return array_ptr_->integral();")
M("red-int","P12",mc,"        return array_ptr_->integral() && is_integer(init.value_or(0));\n    }\n\n    assert(false && \"not implemeted yet\");","        return array_ptr_->integral();\n    }\n\n    assert(false && \"not implemeted yet\");")
M("red-max-init","P12",mc,"        if (init.has_value()) return std::max(init.value(), array_ptr_->max());\n","")
M("red-empty","P12",mc,"        if (init.has_value() && possibly_empty(array_ptr_)) return init.value();\n        if (init.has_value()) return std::min(init.value(), array_ptr_->max());","        if (init.has_value()) return std::min(init.value(), array_ptr_->max());")
M("red-prod-dyn","P12",mc,"        if (array_ptr_->dynamic()) return Array::max();","        if (array_ptr_->dynamic() && !array_ptr_->sizeinfo().max) return Array::max();")
M("red-prod-one","P12",mc,"        if (array_ptr_->size() == 1) return std::max(init * low, init * high);","        if (array_ptr_->size() == 1) return init * high;")
M("red-prod-mixed","P12",mc,"            init * low * std::pow(high, size - 1),\n            init * high * std::pow(low, size - 1),\n        });\n    }\n    if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {\n        const double high","            init * low * std::pow(high, size - 1),\n        });\n    }\n    if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {\n        const double high")
M("red-sum-minmax","P12",mc,"            return init + sizeinfo.min.value_or(0) * high;","            return init + sizeinfo.max.value_or(0) * high;")
M("red-sum-nobound","P12",mc,"            if (!sizeinfo.max.has_value()) return Array::min();\n\n            return init + sizeinfo.max.value() * low;","            return init + sizeinfo.max.value_or(100) * low;")
M("red-sum-zero","P12",mc,"        if (low == 0) return init;","        if (low >= 0) return init + low;")
M("red-sum-init","P12",mc,"            return init + size * high;","            return size * high;")
M("where-max","P12",fc,"double WhereNode::max() const { return std::max(x_ptr_->max(), y_ptr_->max()); }","double WhereNode::max() const { return x_ptr_->max(); }")
M("where-int","P12",fc,"x_ptr_->integral() && y_ptr_->integral()","x_ptr_->integral()")
M("const-size1","P12",cc,"    if (values.size() == 1) return is_integer(values[0]);","    if (values.size() == 1) return values[0] == values[0];")
M("const-stats","P12",cc,"          max(std::ranges::max(buffer)) {","          max(std::max(buffer.front(), buffer.back())) {")
M("const-integral","P12",cc,"std::ranges::all_of(buffer, is_integer)","std::ranges::any_of(buffer, is_integer)")
M("coll-max","P12",ch,"    double max() const noexcept override { return max_value_ - 1; }","    double max() const noexcept override { return max_size_ - 1; }")
M("disj-max","P12",ch,"    double max() const noexcept override { return primary_set_size_ - 1; }","    double max() const noexcept override { return primary_set_size_ - 2; }")
M("number-min","P12",nc,"double NumberNode::min() const { return lower_bound_; }","double NumberNode::min() const { return std::max(lower_bound_, 0.0); }")
M("size-max","P12",mn,"    return array_ptr_->sizeinfo().max.value_or(std::numeric_limits<ssize_t>::max());","    return array_ptr_->sizeinfo().max.value_or(array_ptr_->sizeinfo().min.value_or(0));")
M("size-min","P12",mn,"    return array_ptr_->sizeinfo().min.value_or(0);","    return array_ptr_->sizeinfo().max.value_or(0);")
M("index-base","P12",ih,"    double min() const override { return array_ptr_->min(); }","    double min() const override { return std::max(0.0, array_ptr_->min()); }")
M("lowest","P12",ah,"return std::numeric_limits<double>::lowest(); }","return std::numeric_limits<double>::min(); }")
# behaviour kept
R("neg-var","P12",mc,"    return -(array_ptr_->min());","    const double low = array_ptr_->min();\n    return -low;")
R("sum-loop","P12",mc,"        return std::accumulate(operands_.begin(), operands_.end(), 0.0,\n                               [](double lhs, const Array* rhs) { return lhs + rhs->max(); });","        double total = 0;\n        for (const Array* ptr : operands_) total += ptr->max();\n        return total;")
R("abs-if","P12",mc,"        return std::max<double>(max, -min);","        return -min > max ? -min : max;")
R("mul-vars","P12",mc,"        return std::max(\n                {lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high});","        double best = lhs_low * rhs_low;\n        for (const double v : {lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high}) {\n            if (v > best) best = v;\n        }\n        return best;")
R("looser","P12",mc,"        return lhs_ptr->max() - rhs_ptr->min();","        return lhs_ptr->max() - rhs_ptr->min() + 1;")
R("const-stats-loop","P12",cc,"    if (values.size() == 1) return values[0];\n","    if (values.size() == 1) return values.front();\n")
R("where-helper","P12",fc,"double WhereNode::max() const { return std::max(x_ptr_->max(), y_ptr_->max()); }","static double larger(const Array* a, const Array* b) { return a->max() < b->max() ? b->max() : a->max(); }\ndouble WhereNode::max() const { return larger(x_ptr_, y_ptr_); }")
