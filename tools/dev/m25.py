A=Y+"libcpp/array.pxd"; G=Y+"libcpp/graph.pxd"; D=Y+"libcpp/nodes.pxd"; SY=Y+"symbols.pyx"
M("x-slice","P25",A,"Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step) except+","Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step)")
for n,l in (("emplace","T* emplace_node[T](...)"),("rinit","void recursive_initialize(State&, Node*)"),("rreset","void recursive_reset(State&, Node*)"),("obj","void set_objective(ArrayNode*)"),("con","void add_constraint(ArrayNode*)"),("init","void initialize_state(State&)")):
    (R if n in ("rreset","obj","init") else M)("x-"+n,*(("P25",) if 1 else ()),G,l+" except+",l)
M("x-list","P25",D,"        ListNode(Py_ssize_t) except+\n        void initialize_state(State&, vector[double]) except+","        ListNode(Py_ssize_t) except+\n        void initialize_state(State&, vector[double])")
M("x-disj","P25",D,"        void initialize_state(State&, vector[vector[double]]) except+\n        Py_ssize_t primary","        void initialize_state(State&, vector[vector[double]])\n        Py_ssize_t primary")
M("x-int","P25",D,"        void initialize_state(State&, vector[double]) except+\n        double lower","        void initialize_state(State&, vector[double])\n        double lower")
M("x-add","P25",D,"        void add_node(ArrayNode*) except+","        void add_node(ArrayNode*)")
M("x-thr-remove","P25",S+"graph.cpp","ssize_t Graph::remove_unused_nodes(bool ignore_listeners) {","ssize_t Graph::remove_unused_nodes(bool ignore_listeners) {\n    if (topologically_sorted_) throw std::logic_error(\"cannot remove nodes from a locked model\");")
M("x-thr-min","P25",N+"numbers.cpp","double NumberNode::max() const { return upper_bound_; }","double NumberNode::max() const {\n    if (ndim() > 3) throw std::runtime_error(\"not supported\");\n    return upper_bound_;\n}")
M("x-abort","P25",S+"graph.cpp","        throw std::invalid_argument(\"objective must have a single output\");","        std::abort();")
M("x-cy","P25",Y+"states.pyx","    cdef void attach_states(self, vector[cppState] states) noexcept:\n","    cdef void attach_states(self, vector[cppState] states) noexcept:\n        if self._viewcount:\n            raise ValueError('states are in use')\n")
R("x-r-py","P25",(A,"Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step) except+","Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step)"),(SY,"        if index.step is not None:\n            step = <Py_ssize_t>(index.step)\n","        if index.step is not None:\n            if index.step == 0:\n                raise ValueError('slice step cannot be zero')\n            step = <Py_ssize_t>(index.step)\n"))
R("x-r-space","P25",G,"void set_objective(ArrayNode*) except+","void set_objective(ArrayNode*) except +")
R("x-r-throw","P25",S+"graph.cpp","        throw std::invalid_argument(\"objective must have a single output\");","        const char* msg = \"objective must have a single output\";\n        throw std::invalid_argument(msg);")

QP='        if not 0 <= u < self.num_variables():\n            raise ValueError(f"u out of range for a model with {self.num_variables()} variables")\n'
QC="    assert(0 <= u && static_cast<size_type>(u) < num_variables());\n    assert(0 <= v && static_cast<size_type>(v) < num_variables());\n"
QN="    if (u < 0 || static_cast<size_type>(u) >= num_variables()) throw std::out_of_range(\"u out of range\");\n    if (v < 0 || static_cast<size_type>(v) >= num_variables()) throw std::out_of_range(\"v out of range\");\n"
M("x-quad","P25",(SY,QP,""),(N+"quadratic_model.cpp",QC+"\n    if (u == v) {\n        return get",QN+"\n    if (u == v) {\n        return get"))
R("x-r-quad","P25",(N+"quadratic_model.cpp",QC+"\n    if (u == v) {\n        return get",QN+"\n    if (u == v) {\n        return get"))
