mo=Y+"_model.pyx"; mp=Y+"model.py"; st=Y+"states.pyx"; sy=Y+"symbols.pyx"
M("bool-lock", "P14", mo, "        self._lock_count += 1\n", "        self._lock_count = 1\n")
M("lock-if", "P14", mo, "        self._lock_count += 1\n", "        if not self._lock_count:\n            self._lock_count += 1\n")
M("nosort", "P14", mo, "        self._graph.topological_sort()  # does nothing if already sorted, so safe to call always\n", "        if self.num_symbols() > 1: self._graph.topological_sort()\n")
M("unlock-all", "P14", mo, "        self._lock_count -= 1\n", "        self._lock_count = 0\n")
M("early", "P14", mo, "        if self._lock_count < 1:\n            self._graph.reset", "        if self._lock_count <= 1:\n            self._graph.reset")
M("never", "P14", mo, "        if self._lock_count < 1:\n            self._graph.reset", "        if self._lock_count < 0:\n            self._graph.reset")
M("neg", "P14", mo, "        if self._lock_count < 1:\n            return  # already", "        if self._lock_count < 0:\n            return  # already")
M("islocked", "P14", mo, "        return self._lock_count > 0", "        return self._lock_count == 1")
M("ctx-nofinally", "P14", mp, "    try:\n        yield\n    finally:\n        model.unlock()\n", "    yield\n    model.unlock()\n")
M("ctx-except", "P14", mp, "    try:\n        yield\n    finally:\n        model.unlock()\n", "    try:\n        yield\n    except Exception:\n        raise\n    else:\n        model.unlock()\n")
M("rm", "P14", mo, '        if self.is_locked():\n            raise ValueError("cannot remove symbols from a locked model")\n', '')
M("rm2", "P14", mo, '        if self.is_locked():\n            raise ValueError("cannot remove symbols from a locked model")\n', '        if self.is_locked() and self._lock_count > 1:\n            raise ValueError("cannot remove symbols from a locked model")\n')
M("states", "P14", mp, "        super().unlock()\n\n        if not self.is_locked():\n            self.states", "        super().unlock()\n\n        if self.is_locked():\n            self.states")
M("states2", "P14", mp, "        if not self.is_locked():\n            self.states._reset_intermediate_states()\n", "        if not self.is_locked() and self.objective is not None:\n            self.states._reset_intermediate_states()\n")
M("dup", "P14", mp, "        super().lock()\n        return locked(self)", "        if not self.is_locked():\n            super().lock()\n        return locked(self)")
M("discard-nodes", "P14", st, "        cdef Py_ssize_t num_decisions = self._model().num_decisions()\n", "        cdef Py_ssize_t num_decisions = self._model().num_nodes()\n")
M("discard-one", "P14", st, "        for i in range(self.size()):\n            self._states[i].resize(num_dec", "        for i in range(1, self.size()):\n            self._states[i].resize(num_dec")
M("infile", "P14", mo, "            with self.lock():\n                return self.into_file(file", "            self.lock()\n            if True:\n                return self.into_file(file")
M("iadd", "P14", sy, '            if self.model.is_locked():\n                raise RuntimeError("cannot add an operand to a symbol of a locked model")\n\n', '')
R("ge", "P14", mo, "        return self._lock_count > 0", "        return self._lock_count >= 1")
R("ne", "P14", mo, "        return self._lock_count > 0", "        return not self._lock_count == 0")
R("plus", "P14", mo, "        self._lock_count += 1\n", "        self._lock_count = self._lock_count + 1\n")
R("unl", "P14", mo, '''        if self._lock_count < 1:
            return  # already unlocked, nothing to do

        self._lock_count -= 1

        # if we're now unlocked, then reset the topological sort and the
        # non-decision states
        if self._lock_count < 1:
            self._graph.reset_topological_sort()
''','''        if self.is_locked():
            self._lock_count -= 1
            if not self.is_locked():
                self._graph.reset_topological_sort()
''')
R("unl-helper", "P14", mo, '''        if self._lock_count < 1:
            self._graph.reset_topological_sort()
''','''        if self._lock_count == 0:
            self._forget_order()

    def _forget_order(self):
        self._graph.reset_topological_sort()
''')
R("rmhelper", "P14", mo, '        if self.is_locked():\n            raise ValueError("cannot remove symbols from a locked model")\n        return self._graph.remove_unused_nodes()', '        if not self.is_locked():\n            return self._graph.remove_unused_nodes()\n        raise ValueError("cannot remove symbols from a locked model")')
R("model-unl", "P14", mp, "        if not self.is_locked():\n            return\n\n        super().unlock()\n\n        if not self.is_locked():\n            self.states._reset_intermediate_states()\n", "        was_locked = self.is_locked()\n        super().unlock()\n        if was_locked and not self.is_locked():\n            self.states._reset_intermediate_states()\n")
R("discard-var", "P14", st, "        for i in range(self.size()):\n            self._states[i].resize(num_dec", "        cdef Py_ssize_t n = self.size()\n        for i in range(n):\n            self._states[i].resize(num_dec")
R("ctxclass", "P14", mp, '''@contextlib.contextmanager
def locked(model: _Graph):
    """Context manager that hold a locked model and unlocks it when the context is exited."""
    try:
        yield
    finally:
        model.unlock()
''', '''class locked(contextlib.AbstractContextManager):
    """Context manager that hold a locked model and unlocks it when the context is exited."""
    def __init__(self, model):
        self.model = model

    def __exit__(self, *exc):
        self.model.unlock()
''')
