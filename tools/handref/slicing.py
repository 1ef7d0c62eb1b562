F = "slicing/mixin.py"
C = "slicing/context.py"
REFS = [
("add_prev_helper", F, [
('''        if pid == self.id:
            # in this case, inherit the previous parents, if any
            if self.prev is not None:
                for prev_pid, prev_syms in self.prev.raw_parents.items():
                    common = syms & prev_syms
                    if common:
                        self.raw_parents.setdefault(prev_pid, set()).update(common)
            return
        self.raw_parents.setdefault(pid, set()).update(syms)
        parent.raw_children.setdefault(self.id, set()).update(syms)

    def add_parent_edge(''', '''        if pid == self.id:
            self._inherit_prev_parents(syms)
        else:
            parent.raw_children.setdefault(self.id, set()).update(syms)
            self.raw_parents.setdefault(pid, set()).update(syms)

    def _inherit_prev_parents(self, syms: Set["Symbol"]) -> None:
        prev = self.prev
        if prev is None:
            return
        for prev_pid, prev_syms in prev.raw_parents.items():
            common = prev_syms & syms
            if not common:
                continue
            self.raw_parents.setdefault(prev_pid, set()).update(common)

    def add_parent_edge('''),
]),
("add_guard_merge", F, [
('''        if not syms:
            return
        parent = self._from_ref(parent_ref)
        pid = parent.id
        if pid in self.raw_children:
            return
''', '''        parent = self._from_ref(parent_ref)
        pid = parent.id
        if not syms or pid in self.raw_children:
            return
'''),
]),
("remove_unrolled", F, [
('''        for edges, eid in ((self.raw_parents, pid), (parent.raw_children, self.id)):
            sym_edges = edges.get(eid, set())
            if not sym_edges:
                continue
            sym_edges.difference_update(syms)
            if not sym_edges:
                del edges[eid]
''', '''        self._discard_edges(self.raw_parents, pid, syms)
        self._discard_edges(parent.raw_children, self.id, syms)

    @staticmethod
    def _discard_edges(edges, eid, syms) -> None:
        sym_edges = edges.get(eid)
        if not sym_edges:
            return
        sym_edges -= syms
        if not sym_edges:
            edges.pop(eid)
'''),
]),
("replace_common", F, [
('''        prev_parent = self._from_ref(prev_parent_ref)
        new_parent = self._from_ref(new_parent_ref)
        syms = self.raw_parents.pop(prev_parent.id)
        prev_parent.raw_children.pop(self.id)
''', '''        prev_parent, new_parent = (
            self._from_ref(prev_parent_ref),
            self._from_ref(new_parent_ref),
        )
        prev_parent.raw_children.pop(self.id)
        syms = self.raw_parents.pop(prev_parent.id)
'''),
]),
("raw_parents_helper", F, [
('''        flow_ = flow()
        # TODO: rather than asserting test context,
        #  assert that we're being called from the notebook
        assert not flow_.is_test
        settings = flow_.mut_settings
        parents: Dict[IdType, Set["Symbol"]] = {}
        for _ in settings.iter_slicing_contexts():
            for pid, syms in getattr(
                self, "directional_parents", self.raw_parents
            ).items():
                parents.setdefault(pid, set()).update(syms)
        return parents
''', '''        # TODO: rather than asserting test context,
        #  assert that we're being called from the notebook
        assert not flow().is_test
        parents: Dict[IdType, Set["Symbol"]] = {}
        for _ in flow().mut_settings.iter_slicing_contexts():
            edges = getattr(self, "directional_parents", self.raw_parents)
            for pid in edges:
                parents.setdefault(pid, set()).update(edges[pid])
        return parents
'''),
]),
("setter_early", F, [
('''        ctx = slicing_ctx_var.get()
        assert ctx is not None
        if ctx == SlicingContext.DYNAMIC:
            self.raw_dynamic_parents = new_parents
        elif ctx == SlicingContext.STATIC:
            self.raw_static_parents = new_parents
        else:
            assert False
''', '''        ctx = slicing_ctx_var.get()
        assert ctx in (SlicingContext.DYNAMIC, SlicingContext.STATIC)
        if ctx == SlicingContext.STATIC:
            self.raw_static_parents = new_parents
        else:
            self.raw_dynamic_parents = new_parents
'''),
]),
("helper_while", F, [
('''                parent = self.from_id(pid)
                while parent.timestamp > self.timestamp:
                    if getattr(parent, "override", False):
                        break
                    parent = parent.prev  # type: ignore[assignment]
                parent._make_slice_helper(closure)
''', '''                parent = self.from_id(pid)
                while parent.timestamp > self.timestamp and not getattr(
                    parent, "override", False
                ):
                    parent = parent.prev  # type: ignore[assignment]
                parent._make_slice_helper(closure)
'''),
]),
("helper_version", F, [
('''                parent = self.from_id(pid)
                while parent.timestamp > self.timestamp:
                    if getattr(parent, "override", False):
                        break
                    parent = parent.prev  # type: ignore[assignment]
                parent._make_slice_helper(closure)
''', '''                self._version_visible(self.from_id(pid))._make_slice_helper(closure)

    def _version_visible(self, parent: "SliceableMixin") -> "SliceableMixin":
        while parent.timestamp > self.timestamp:
            if getattr(parent, "override", False):
                return parent
            parent = parent.prev  # type: ignore[assignment]
        return parent
'''),
]),
("multi_seed", F, [
('''        for seed in seeds:
            slice_seed = (
                cls.at_timestamp(seed) if isinstance(seed, (Timestamp, int)) else seed
            )
            if seed_only:
                closure.add(slice_seed)
            else:
                slice_seed._make_slice_helper(closure)
        return sorted(closure, key=lambda dep: dep.timestamp)
''', '''        for seed in seeds:
            if isinstance(seed, (Timestamp, int)):
                seed = cls.at_timestamp(seed)
            if not seed_only:
                seed._make_slice_helper(closure)
                continue
            closure.add(seed)
        ordered = list(closure)
        ordered.sort(key=lambda dep: dep.timestamp)
        return ordered
'''),
]),
("cell_dict_loop", F, [
('''        for sliceable in closure:
            slice_text_by_cell_num.setdefault(sliceable.timestamp.cell_num, []).append(
                sliceable.text
            )
        return {
            cell_num: "\\n".join(text)
            for cell_num, text in slice_text_by_cell_num.items()
        }
''', '''        for sliceable in closure:
            cell_num = sliceable.timestamp.cell_num
            texts = slice_text_by_cell_num.setdefault(cell_num, [])
            texts.append(sliceable.text)
        ret = {}
        for cell_num, texts in slice_text_by_cell_num.items():
            ret[cell_num] = "\\n".join(texts)
        return ret
'''),
]),
("memo_seed", F, [
('''            mem_ctr = cells().at_timestamp(seed).skipped_due_to_memoization_ctr
            if mem_ctr == -1:
                processed_seeds.add(seed)
            else:
                if isinstance(seed, int):
                    processed_seeds.add(mem_ctr)
                else:
                    processed_seeds.add(Timestamp(mem_ctr, seed.stmt_num))
''', '''            mem_ctr = cells().at_timestamp(seed).skipped_due_to_memoization_ctr
            if mem_ctr != -1:
                is_counter = isinstance(seed, int)
                seed = mem_ctr if is_counter else Timestamp(mem_ctr, seed.stmt_num)
            processed_seeds.add(seed)
'''),
]),
("text_join", F, [
('''        sep = "\\n\\n" if self.include_cell_headers else "\\n"
        return sep.join(
            f"# Cell {cell_num}\\n" + content if self.include_cell_headers else content
            for cell_num, content in sorted(self.raw_slice.items())
        ).strip()
''', '''        if self.include_cell_headers:
            return "\\n\\n".join(
                f"# Cell {cell_num}\\n{self.raw_slice[cell_num]}"
                for cell_num in sorted(self.raw_slice)
            ).strip()
        return "\\n".join(
            self.raw_slice[cell_num] for cell_num in sorted(self.raw_slice)
        ).strip()
'''),
]),
("function_args", F, [
('''        arg_set_raw = {ref.ref.chain[0].value for ref in live_refs}
        arg_set = {arg for arg in arg_set_raw if isinstance(arg, str)}
        for arg in list(arg_set):
            if hasattr(builtins, arg) or arg in sys.modules:
                arg_set.discard(arg)
        args = list(arg_set)
''', '''        names = {ref.ref.chain[0].value for ref in live_refs}
        args = [
            name
            for name in names
            if isinstance(name, str)
            and name not in sys.modules
            and not hasattr(builtins, name)
        ]
'''),
]),
("ctx_direct", C, [
('''    with set_slicing_context(
        SlicingContext.STATIC if is_static else SlicingContext.DYNAMIC
    ):
        yield
''', '''    ctx = SlicingContext.DYNAMIC
    if is_static:
        ctx = SlicingContext.STATIC
    with set_slicing_context(ctx):
        yield
'''),
]),
]
