ac="dwave/optimization/src/array.cpp"; ix=N+"indexing.cpp"; co=N+"collections.cpp"; ah=I+"array.hpp"; uh=I+"utils.hpp"; mc=N+"mathematical.cpp"
M("sub-floor","P13",ac,"        return (product.numerator() + product.denominator() - 1) / product.denominator();","        return product.numerator() / product.denominator();")
M("sub-clip","P13",ac,"    if (min) min = std::max<ssize_t>(0, *min + this->offset);","    if (min) min = *min + this->offset;")
M("sub-min-off","P13",ac,"    if (min) min = std::max<ssize_t>(0, *min + this->offset);","    if (min) min = std::max<ssize_t>(0, *min);")
M("sub-max-off","P13",ac,"        max = std::max<ssize_t>(0, *max + this->offset);","        max = std::max<ssize_t>(0, *max - this->offset);")
M("sub-offset","P13",ac,"        sizeinfo.offset = offset.numerator() + this->offset;","        sizeinfo.offset += this->offset;")
M("sub-rounding","P13",ac,"        (this->multiplier.numerator() == 1 || sizeinfo.multiplier.denominator() == 1)) {","        true) {")
M("sub-maxdrop","P13",ac,"        max = std::min<ssize_t>(max.value_or(product), product);","        max = product;")
R("sub-maxdrop-r","P13",ac,"        max = std::min<ssize_t>(max.value_or(product), product);","        if (!max || product < *max) max = product;")
M("sub-maxmin","P13",ac,"        max = std::min<ssize_t>(max.value_or(product), product);","        max = std::min<ssize_t>(this->offset + product, product);")
M("sub-fixed","P13",ac,"    if (min && min == max) {","    if (min && max) {")
M("eq-offset","P13",ac,"    return (this->multiplier == other.multiplier && this->offset == other.offset &&","    return (this->multiplier == other.multiplier &&")
M("eq-mult","P13",ac,"    return (this->multiplier == other.multiplier && this->offset == other.offset &&","    return (this->offset == other.offset &&")
M("eq-max","P13",ac,"            this->max == other.max);","            this->max.has_value() == other.max.has_value());")
M("eq-array","P13",ac,"    if (this->array_ptr != other.array_ptr) return false;\n","    if (!this->array_ptr || !other.array_ptr) return false;\n")
M("shape-eq","P13",ac,"    return lhs_size.substitute(100) == rhs_size.substitute(100);","    return lhs_size.substitute(100).max == rhs_size.substitute(100).max;")
R("shape-eq-1","P13",ac,"    return lhs_size.substitute(100) == rhs_size.substitute(100);","    auto lhs = lhs_size.substitute(100);\n    auto rhs = rhs_size.substitute(100);\n    return rhs == lhs;")
M("bas-removed","P13",ix,"    if (monotone && num_removed % step == 0 && (step == 1 || num_per_row == 1)) {","    if (monotone && (step == 1 || num_per_row == 1)) {")
M("bas-row","P13",ix,"    if (monotone && num_removed % step == 0 && (step == 1 || num_per_row == 1)) {","    if (monotone && num_removed % step == 0) {")
M("bas-mono","P13",ix,"    const bool monotone = start >= 0 || stop < 0 || stop == MAX;","    const bool monotone = true;")
M("bas-cap","P13",ix,"    if (max_rows) max_rows = (*max_rows + step - 1) / step;","    if (max_rows) max_rows = *max_rows / step;")
M("bas-start","P13",ix,"    const ssize_t num_removed = std::max<ssize_t>(start, 0) - std::min<ssize_t>(stop, 0);","    const ssize_t num_removed = std::max<ssize_t>(start, 0) + std::max<ssize_t>(-start, 0) - std::min<ssize_t>(stop, 0);")
M("bas-mult","P13",ix,"        sizeinfo.multiplier /= array_num_per_row;\n","")
M("bas-max-row","P13",ix,"        if (max_rows) sizeinfo.max = num_per_row * *max_rows;\n        return","        if (max_rows) sizeinfo.max = *max_rows;\n        return")
M("bas-min","P13",ix,"        if (array_sizeinfo.min) sizeinfo.min = num_per_row * num_rows(*array_sizeinfo.min);","        if (array_sizeinfo.max) sizeinfo.min = num_per_row * num_rows(*array_sizeinfo.max);")
R("bas-helper","P13",ix,"    if (max_rows) max_rows = (*max_rows + step - 1) / step;","    if (max_rows.has_value()) {\n        const ssize_t rows = max_rows.value() + step - 1;\n        max_rows = rows / step;\n    }")
M("adv-mult","P13",ix,"    sizeinfo.multiplier = fraction(num_per_row(this->shape()), index_num_per_row);","    sizeinfo.multiplier = fraction(num_per_row(this->shape()));")
M("adv-none","P13",ix,"    sizeinfo.multiplier = fraction(num_per_row(this->shape()), index_num_per_row);\n","")
M("col-swap","P13",co,"    return SizeInfo(this, min_size_, max_size_);","    return SizeInfo(this, max_size_, max_size_);")
M("col-max","P13",co,"    return SizeInfo(this, min_size_, max_size_);","    return SizeInfo(this, min_size_, max_size_ - 1);")
M("dl-max","P13",co,"    return SizeInfo(this, 0, primary_set_size_);","    return SizeInfo(this, 1, primary_set_size_);")
M("bin-lhs","P13",mc,"        assert(lhs_ptr->size() == 1);\n        return SizeInfo(rhs_ptr);","        assert(lhs_ptr->size() == 1);\n        return SizeInfo(lhs_ptr);")
M("fit-clip","P13",ah,"        } else if (stop >= size) {\n            // clip\n            stop = step < 0 ? size - 1 : size;","        } else if (stop > size) {\n            // clip\n            stop = step < 0 ? size - 1 : size - 1;")
M("fit-neg","P13",ah,"            if (start < 0) {\n                start = step < 0 ? -1 : 0;","            if (start < 0) {\n                start = 0;")
M("size-floor2","P13",ah,"                    return (static_cast<std::size_t>(stop) - start - 1) / step + 1;","                    return (static_cast<std::size_t>(stop) - start) / step;")
M("frac-sign","P13",uh,"        if (denominator_ < 0) {\n            numerator_ *= -1;\n            denominator_ *= -1;\n        }\n","")
M("frac-div","P13",uh,"        denominator_ *= n;\n        reduce();","        denominator_ *= n;")
R("frac-r","P13",uh,"        denominator_ *= n;\n        reduce();\n        return *this;","        denominator_ = denominator_ * n;\n        this->reduce();\n        return *this;")
R("fit-r","P13",ah,"        } else if (start >= size) {\n            // clip\n            start = step < 0 ? size - 1 : size;\n        }","        } else {\n            const ssize_t last = step < 0 ? size - 1 : size;\n            if (start >= size) start = last;\n        }")
