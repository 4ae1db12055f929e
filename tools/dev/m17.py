sy=Y+"symbols.pyx"; mo=Y+"_model.pyx"
LR='        if lhs.model is not rhs.model:\n            raise ValueError("lhs and rhs do not share the same underlying model")\n\n'
M("add-nocheck", "P17", sy, LR, "")
M("lm-lhs", "P17", sy, LR, LR.replace("rhs.model:", "lhs.model:"))
M("where-y", "P17", sy, '        if condition.model is not y.model:\n            raise ValueError("condition and y do not share the same underlying model")\n', "")
M("adv-idx", "P17", sy, '                if array_index.model is not model:\n                    raise ValueError("mismatched parent models")\n', '')
M("adv-first", "P17", sy, '                if array_index.model is not model:\n', '                if cppindices.empty() and array_index.model is not model:\n')
M("adv-dim", "P17", sy, '                if array_index.model is not model:\n', '                if array_index.ndim() and array_index.model is not model:\n')
NL='        for node in inputs:\n            if node.model != model:\n                raise ValueError("all predecessors must be from the same model")\n'
M("cat-skip", "P17", sy, NL, '        for node in inputs:\n            if node is inputs[-1] and node.model != model:\n                raise ValueError("all predecessors must be from the same model")\n')
M("cat-none", "P17", sy, NL, '        for node in inputs:\n')
M("cat-break", "P17", sy, NL, '        for node in inputs:\n            if node.model != model:\n                raise ValueError("all predecessors must be from the same model")\n            if len(inputs) > 2: break\n\n        for node in inputs:\n')
M("iadd", "P17", sy, '            if self.model is not rhs.model:\n                raise ValueError("mismatched parent models")\n            if self.model.is_locked():\n                raise RuntimeError("cannot add', '            if self.model.is_locked():\n                raise RuntimeError("cannot add')
M("iadd-late", "P17", sy, '            if self.model is not rhs.model:\n                raise ValueError("mismatched parent models")\n            if self.model.is_locked():\n                raise RuntimeError("cannot add', '            if self.model is not rhs.model and self.model.is_locked():\n                raise RuntimeError("cannot add')
M("minimize", "P17", mo, '        if value.model is not self:\n            raise ValueError("mismatched parent models")\n        self._graph.set_objective', '        self._graph.set_objective')
M("constr", "P17", mo, '        if value.model is not self:\n            raise ValueError("mismatched parent models")\n        # TODO', '        # TODO')
M("perm", "P17", sy, '        if array.model is not x.model:\n            raise ValueError("array and x do not', '        if array.model is not x.model and array.model is not None and array.model.is_locked():\n            raise ValueError("array and x do not')
M("perm-late", "P17", sy, '        if array.model is not x.model:\n            raise ValueError("array and x do not share the same underlying model")\n\n        self.ptr = array.model._graph.emplace_node[cppPermutationNode](array.array_ptr, x.array_ptr)\n', '        self.ptr = array.model._graph.emplace_node[cppPermutationNode](array.array_ptr, x.array_ptr)\n        if array.model is not x.model:\n            raise ValueError("array and x do not share the same underlying model")\n\n')
M("bind-x", "P17", sy, "        self.initialize_arraynode(array.model, self.ptr)\n", "        self.initialize_arraynode(array.model, self.ptr) if len(self.shape()) else None\n")
R("helper", "P17", (sy, LR+"        cdef _Graph model = lhs.model\n", "        cdef _Graph model = _common_model(lhs, rhs)\n"), (sy, "cdef bool _empty_slice(", '''cdef _Graph _common_model(ArraySymbol lhs, ArraySymbol rhs):
    if lhs.model is not rhs.model:
        raise ValueError("lhs and rhs do not share the same underlying model")
    return lhs.model


cdef bool _empty_slice('''))
R("checkhelper", "P17", (sy, LR, "        _check_models(lhs, rhs)\n\n"), (sy, "cdef bool _empty_slice(", '''cdef object _check_models(ArraySymbol lhs, ArraySymbol rhs):
    if lhs.model is rhs.model:
        return
    raise ValueError("lhs and rhs do not share the same underlying model")


cdef bool _empty_slice('''))
R("cat-any", "P17", sy, NL, '        if any(n.model is not model for n in inputs):\n            raise ValueError("all predecessors must be from the same model")\n        for node in inputs:\n')
R("cat-two", "P17", sy, NL, '        for node in inputs:\n            if node.model is not model:\n                raise ValueError("all predecessors must be from the same model")\n        for node in inputs:\n')
R("cat-is", "P17", sy, NL, NL.replace("node.model != model", "not node.model is model"))
R("cat-idx", "P17", sy, NL, '        for i in range(len(inputs)):\n            node = inputs[i]\n            if node.model != model:\n                raise ValueError("all predecessors must be from the same model")\n')
R("where-or", "P17", sy, '''        if condition.model is not x.model:
            raise ValueError("condition and x do not share the same underlying model")
        if condition.model is not y.model:
            raise ValueError("condition and y do not share the same underlying model")
''', '''        if not (condition.model is x.model and x.model is y.model):
            raise ValueError("condition, x and y do not share the same underlying model")
''')
R("where-loop", "P17", sy, '''        if condition.model is not x.model:
            raise ValueError("condition and x do not share the same underlying model")
        if condition.model is not y.model:
            raise ValueError("condition and y do not share the same underlying model")
''', '''        for operand in (x, y):
            if operand.model is not model:
                raise ValueError("condition, x and y do not share the same underlying model")
''')
R("iadd-order", "P17", sy, '            if self.model is not rhs.model:\n                raise ValueError("mismatched parent models")\n            if self.model.is_locked():\n                raise RuntimeError("cannot add an operand to a symbol of a locked model")\n', '            if self.model.is_locked():\n                raise RuntimeError("cannot add an operand to a symbol of a locked model")\n            if rhs.model is not self.model:\n                raise ValueError("mismatched parent models")\n')
