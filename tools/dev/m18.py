Y="dwave/optimization/"
sy=Y+"symbols.pyx"; mo=Y+"_model.pyx"; st=Y+"states.pyx"
M("ub-max", "P18", sy, "        shape_info = dict(\n            shape=self.shape(),\n            lb=self.lower_bound(),\n            ub=self.upper_bound(),\n", "        shape_info = dict(\n            shape=self.shape(),\n            lb=self.lower_bound(),\n            ub=self.upper_bound() - 1,\n")
M("lb-ub", "P18", sy, "                               upper_bound=shape_info[\"ub\"],\n", "                               upper_bound=shape_info[\"lb\"],\n")
M("lb-cond", "P18", sy, "            lb=self.lower_bound(),\n            ub=self.upper_bound(),\n            )\n", "            ub=self.upper_bound(),\n            )\n        if self.lower_bound() > 0:\n            shape_info['lb'] = self.lower_bound()\n")
M("lb-get", "P18", sy, "                               lower_bound=shape_info[\"lb\"],\n", "")
M("list-max", "P18", sy, "            max_value = int(self.ptr.max()) + 1,", "            max_value = int(self.ptr.max()),")
M("set-min", "P18", sy, '                           min_size=shape_info.get("min_size"),\n', '                           min_size=shape_info.get("max_size"),\n')
M("axis-drop", "P18", sy, "            return Concatenate(tuple(predecessors), axis=json.load(f))", "            return Concatenate(tuple(predecessors))")
M("cat-rev", "P18", sy, "            return Concatenate(tuple(predecessors), axis=json.load(f))", "            return Concatenate(tuple(reversed(predecessors)), axis=json.load(f))")
M("const32", "P18", sy, "            np.save(f, self, allow_pickle=False)", "            np.save(f, np.asarray(self, dtype=np.float32), allow_pickle=False)")
M("member", "P18", sy, '        zf.writestr(directory + "axis.json", encoder.encode(self.axis()))', '        if self.axis():\n            zf.writestr(directory + "axis.json", encoder.encode(self.axis()))')
M("basic-slice", "P18", sy, "        indices = [(idx.start, idx.stop, idx.step) if isinstance(idx, slice) else idx", "        indices = [(idx.start, idx.step, idx.stop) if isinstance(idx, slice) else idx")
M("adv-skip", "P18", sy, "                elif isinstance(index, list):\n                    indices.append(slice(None))\n", "                elif isinstance(index, list) and len(index) > 3:\n                    indices.append(slice(None))\n                elif isinstance(index, list):\n                    continue\n")
M("qm-swap", "P18", sy, "        return cls(predecessors[0], (qdata, coords), ldata)", "        return cls(predecessors[0], (ldata, coords), qdata)")
M("qm-file", "P18", sy, '        with zf.open(directory + "linear.npy", mode="w", force_zip64=True) as f:\n            np.save(f, ldata', '        with zf.open(directory + "linear.npy", mode="w", force_zip64=True) as f:\n            np.save(f, qdata')
M("sparse", "P18", sy, '''        # check if there is any state data saved (it can be sparse)
        try:
            zf.getinfo(directory+"set0")
        except KeyError:
            # no state data encoded
            return

''', "")
M("set-skip", "P18", sy, '''        for i, arr in enumerate(arrays):
            with zf.open(directory+f"set{i}", mode="w", force_zip64=True) as f:
''', '''        for i, arr in enumerate(arrays):
            if not arr.any():
                continue
            with zf.open(directory+f"set{i}", mode="w", force_zip64=True) as f:
''')
M("lists8", "P18", sy, "arrays = [li.state(state_index) for li in self.iter_successors()]", "arrays = [li.state(state_index).astype(np.int16) for li in self.iter_successors()]")
M("state32", "P18", mo, "            np.save(f, array, allow_pickle=False)", "            np.save(f, array.astype(np.float32), allow_pickle=False)")
M("state-idx", "P18", mo, "        self.set_state(state_index, state)\n\n    def _state_into", "        self.set_state(0, state)\n\n    def _state_into")
M("obj-zero", "P18", mo, "            if self.objective is not None and self.objective.topological_index() < stop:", "            if self.objective is not None and 0 < self.objective.topological_index() < stop:")
M("obj-load", "P18", mo, "                if not isinstance(objective_id, int) or not 0 <= objective_id < model.num_nodes():\n                    raise ValueError(\"objective must be an integer and a valid node id\")\n                model.minimize(", "                if not isinstance(objective_id, int) or not 0 <= objective_id < model.num_nodes():\n                    raise ValueError(\"objective must be an integer and a valid node id\")\n                if objective_id: model.minimize(")
M("obj-check", "P18", mo, "not 0 <= objective_id < model.num_nodes()", "not 0 <= objective_id <= model.num_nodes()")
M("con-check", "P18", mo, "not 0 <= cid < model.num_nodes()", "not cid < model.num_nodes()")
M("pid-check", "P18", mo, "if not 0 <= pid < node_id:", "if not 0 <= pid <= node_id:")
M("con-skip", "P18", mo, "                if c is not None and c.topological_index() < stop:", "                if c is not None and c.topological_index() < stop - 1:")
M("pred-set", "P18", mo, "                    for pred in node.iter_predecessors():\n                        f.write", "                    for pred in sorted(node.iter_predecessors(), key=lambda p: p.topological_index()):\n                        f.write")
M("pred-dup", "P18", mo, '''                    for pred in node.iter_predecessors():
                        f.write''', '''                    last = None
                    for pred in node.iter_predecessors():
                        if last is not None and pred.shares_memory(last): continue
                        last = pred
                        f.write''')
M("own-skip", "P18", mo, '''                directory = f"nodes/{node.topological_index()}/"
                node._into_zipfile''', '''                directory = f"nodes/{node.topological_index()}/"
                if node.state_size(): node._into_zipfile''')
M("states-compact", "P18", mo, '''                    for i in filter(node.has_state, range(num_states)):
                        directory = f"nodes/{node.topological_index()}/states/{i}/"''', '''                    for n, i in enumerate(filter(node.has_state, range(num_states))):
                        directory = f"nodes/{node.topological_index()}/states/{n}/"''')
M("states-break", "P18", mo, '''                    for i in filter(node.has_state, range(num_states)):
''', '''                    for i in range(num_states):
                        if not node.has_state(i): break
''')
M("states-first", "P18", mo, "                    for i in range(num_states):\n                        node._state_from", "                    for i in range(1, num_states):\n                        node._state_from")
M("num-states", "P18", mo, "num_states = max(0, min(self.states.size(), max_num_states))", "num_states = max(0, min(self.states.size() - 1, max_num_states))")
M("unlocked", "P18", mo, '''            # lock for the duration of the method
            with self.lock():
                return self.into_file(file, max''', '''            # sort, so that the indices are right
            self._graph.topological_sort()
            if max_num_states > 0:
              with self.lock():
                return self.into_file(file, max''')
M("header", "P18", mo, "len(header_data) + len(padding)))", "len(header_data)))")
M("from-file", "P18", st, "            if not n0.equals(n1):\n                raise", "            if type(n0) is not type(n1):\n                raise")
M("from-file2", "P18", st, "        if model.num_decisions() != self._model().num_decisions():\n            raise ValueError(\"cannot load states into a model with mismatched decisions\")\n        for n0, n1 in zip(model.iter_decisions(), self._model().iter_decisions()):\n            if not n0.equals(n1):\n                raise ValueError(\"cannot load states into a model with mismatched decisions\")\n", "")
# refactorings
R("json-direct", "P18", (sy, "        encoder = json.JSONEncoder(separators=(',', ':'))\n        zf.writestr(directory + \"axis.json\", encoder.encode(self.axis()))", "        zf.writestr(directory + \"axis.json\", json.dumps(self.axis()))"))
R("int-dict", "P18", (sy, "        shape_info = dict(\n            shape=self.shape(),\n            lb=self.lower_bound(),\n            ub=self.upper_bound(),\n            )\n", "        shape_info = {\n            'shape': self.shape(),\n            'lb': self.ptr.lower_bound(),\n            'ub': self.ptr.upper_bound(),\n            }\n"))
R("int-pos", "P18", (sy, '''        return IntegerVariable(model,
                               shape=shape_info["shape"],
                               lower_bound=shape_info["lb"],
                               upper_bound=shape_info["ub"],
                               )''', '''        lb, ub = shape_info["lb"], shape_info["ub"]
        return cls(model, shape_info["shape"], lb, ub)'''))
R("helper", "P18", (sy, '''        with zf.open(directory + "shape.json", "r") as f:
            shape_info = json.load(f)

        return ListVariable(model, n=shape_info["max_value"])''', '''        shape_info = _load_json(zf, directory + "shape.json")
        return ListVariable(model, n=shape_info["max_value"])'''), (sy, "cdef bool _empty_slice(", '''cdef object _load_json(zf, name):
    with zf.open(name, "r") as f:
        return json.load(f)


cdef bool _empty_slice('''))
R("cat-read", "P18", (sy, '''        with zf.open(directory + "axis.json", "r") as f:
            return Concatenate(tuple(predecessors), axis=json.load(f))''', '''        axis = json.loads(zf.read(directory + "axis.json"))
        return Concatenate(tuple(predecessors), axis)'''))
R("basic-loop", "P18", (sy, "        indices = [idx if isinstance(idx, int) else slice(*idx) for idx in indices]\n", '''        out = []
        for idx in indices:
            if isinstance(idx, int):
                out.append(idx)
            else:
                out.append(slice(idx[0], idx[1], idx[2]))
        indices = out
'''))
R("sets-try", "P18", (sy, '''        try:
            zf.getinfo(directory+"set0")
        except KeyError:
            # no state data encoded
            return

        arrays = []
        for i in range(self.num_disjoint_sets()):
            with zf.open(directory+f"set{i}", mode="r") as f:
                arrays.append(np.load(f, allow_pickle=False))
''', '''        if directory + "set0" not in zf.namelist():
            return

        arrays = []
        for i in range(self.num_disjoint_sets()):
            with zf.open(f"{directory}set{i}") as f:
                arrays.append(np.load(f, allow_pickle=False))
'''))
R("con-comp", "P18", (mo, '''            constraints = []  # todo: not yet available at the python level
            for c in self.iter_constraints():
                if c is not None and c.topological_index() < stop:
                    constraints.append(c.topological_index())
''', '''            constraints = [c.topological_index() for c in self.iter_constraints() if c.topological_index() < stop]
'''))
R("adj-join", "P18", (mo, '''                    f.write(f"{node.topological_index()}".encode("UTF-8"))
                    for pred in node.iter_predecessors():
                        f.write(f" {pred.topological_index()}".encode("UTF-8"))
                    f.write(b"\\n")
''', '''                    ids = [node.topological_index()]
                    ids += [pred.topological_index() for pred in node.iter_predecessors()]
                    f.write(" ".join(map(str, ids)).encode("UTF-8") + b"\\n")
'''))
R("states-if", "P18", (mo, '''                    for i in filter(node.has_state, range(num_states)):
                        directory''', '''                    for i in range(num_states):
                        if not node.has_state(i):
                            continue
                        directory'''))
R("states-swap", "P18", (mo, '''                for node in itertools.islice(model.iter_symbols(), 0, num_decisions):
                    for i in range(num_states):
                        node._state_from''', '''                for i in range(num_states):
                    for node in model.iter_decisions():
                        node._state_from'''))
R("obj-order", "P18", (mo, '''                if not isinstance(objective_id, int) or not 0 <= objective_id < model.num_nodes():
                    raise ValueError("objective must be an integer and a valid node id")
''', '''                if not isinstance(objective_id, int):
                    raise ValueError("objective must be an integer and a valid node id")
                if objective_id < 0 or objective_id >= model.num_nodes():
                    raise ValueError("objective must be an integer and a valid node id")
'''))
R("node-helper", "P18", (mo, '''                model.add_constraint(symbol_from_ptr(model, model._graph.nodes()[cid].get()))
''', '''                symbol = symbol_from_ptr(model, model._graph.nodes()[cid].get())
                model.add_constraint(symbol)
'''))
R("preds-comp", "P18", (mo, '''                    predecessors = []
                    for pid in predecessor_ids:
                        if not 0 <= pid < node_id:
                            raise ValueError("unexpected predecessor id")
                        predecessors.append(symbol_from_ptr(model, model._graph.nodes()[pid].get()))
''', '''                    if not all(0 <= pid < node_id for pid in predecessor_ids):
                        raise ValueError("unexpected predecessor id")
                    predecessors = [symbol_from_ptr(model, model._graph.nodes()[pid].get()) for pid in predecessor_ids]
'''))
R("hdr-vars", "P18", (mo, "        file.write(struct.pack('<I', len(header_data) + len(padding)))  # header length\n        file.write(header_data)\n        file.write(padding)\n", "        header_data += padding\n        file.write(struct.pack('<I', len(header_data)))\n        file.write(header_data)\n"))
R("lock-try", "P18", (mo, '''            # lock for the duration of the method
            with self.lock():
                return self.into_file(file, max_num_states=max_num_states, only_decision=only_decision)
''', '''            # lock for the duration of the method
            self.lock()
            try:
                return self.into_file(file, max_num_states=max_num_states, only_decision=only_decision)
            finally:
                self.unlock()
'''))
R("fromfile-any", "P18", (st, '''        for n0, n1 in zip(model.iter_decisions(), self._model().iter_decisions()):
            if not n0.equals(n1):
                raise ValueError("cannot load states into a model with mismatched decisions")
''', '''        if not all(n0.equals(n1) for n0, n1 in zip(model.iter_decisions(), self._model().iter_decisions())):
            raise ValueError("cannot load states into a model with mismatched decisions")
'''))
