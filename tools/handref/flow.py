F = "flow.py"
REFS = [
("dev_mode_helper", F, [
('''        if self.is_dev_mode:
            os.environ[PYCCOLO_DEV_MODE_ENV_VAR] = "1"
        else:
            os.environ.pop(PYCCOLO_DEV_MODE_ENV_VAR, None)
        # Note''', '''        self._export_dev_mode()
        # Note'''),
('''        if self.is_dev_mode:
            os.environ[PYCCOLO_DEV_MODE_ENV_VAR] = "1"
        else:
            os.environ.pop(PYCCOLO_DEV_MODE_ENV_VAR, None)
        self.init_virtual''', '''        self._export_dev_mode()
        self.init_virtual'''),
('''    def register_comm_target(''', '''    def _export_dev_mode(self) -> None:
        if not self.is_dev_mode:
            os.environ.pop(PYCCOLO_DEV_MODE_ENV_VAR, None)
        else:
            os.environ[PYCCOLO_DEV_MODE_ENV_VAR] = "1"

    def register_comm_target('''),
]),
("settings_local", F, [
('''        iface = Interface(interface)
        if self.mut_settings.interface == iface:
            return
        self.mut_settings.interface = iface
        self.mut_settings.dataflow_enabled = getattr(
            config, "dataflow_enabled", kwargs.get("dataflow_enabled", True)
        )
        self.mut_settings.syntax_transforms_enabled = getattr(
            config,
            "syntax_transforms_enabled",
            kwargs.get("syntax_transforms_enabled", sys.version_info >= (3, 8)),
        )
''', '''        iface = Interface(interface)
        settings = self.mut_settings
        if settings.interface == iface:
            return
        settings.interface = iface
        settings.dataflow_enabled = getattr(
            config, "dataflow_enabled", kwargs.get("dataflow_enabled", True)
        )
        settings.syntax_transforms_enabled = getattr(
            config,
            "syntax_transforms_enabled",
            kwargs.get("syntax_transforms_enabled", sys.version_info >= (3, 8)),
        )
'''),
]),
("settings_mode_local", F, [
('''        self.mut_settings.exec_mode = ExecutionMode(
            getattr(
                config,
                "exec_mode",
                kwargs.get("exec_mode"),
            )
        )
        self.mut_settings.exec_schedule''', '''        exec_mode = getattr(config, "exec_mode", kwargs.get("exec_mode"))
        self.mut_settings.exec_mode = ExecutionMode(exec_mode)
        self.mut_settings.exec_schedule'''),
]),
("cell_parents_lookup", F, [
('''                try:
                    child_cell = cells().from_id(child)
                except KeyError:
                    continue
                for parent in parents:
                    try:
                        parent_cell = cells().from_id(parent)
                    except KeyError:
                        continue
                    child_cell.add_parent_edge(parent_cell, self.fake_edge_sym)
''', '''                child_cell = cells().from_id_nullable(child)
                if child_cell is None:
                    continue
                for parent in parents:
                    parent_cell = cells().from_id_nullable(parent)
                    if parent_cell is not None:
                        child_cell.add_parent_edge(parent_cell, self.fake_edge_sym)
'''),
]),
("cell_parents_else", F, [
('''                    try:
                        parent_cell = cells().from_id(parent)
                    except KeyError:
                        continue
                    child_cell.add_parent_edge(parent_cell, self.fake_edge_sym)
''', '''                    try:
                        parent_cell = cells().from_id(parent)
                    except KeyError:
                        pass
                    else:
                        child_cell.add_parent_edge(parent_cell, self.fake_edge_sym)
'''),
]),
("first_full_two", F, [
('''        self_alias = None
        for alias in self.aliases.get(obj_id, []):
            if alias.is_anonymous:
                continue
            if alias.name == "self":
                self_alias = alias
            else:
                # prefer non-self alias
                return alias
        return self_alias
''', '''        self_alias = None
        for alias in self.aliases.get(obj_id, set()):
            if not alias.is_anonymous:
                if alias.name != "self":
                    # prefer non-self alias
                    return alias
                self_alias = alias
        return self_alias
'''),
]),
("min_ready_nested", F, [
('''        return max(
            self._min_new_ready_cell_counter, self.cell_counter(), self.min_timestamp
        )
''', '''        return max(
            self.cell_counter(), max(self._min_new_ready_cell_counter, self.min_timestamp)
        )
'''),
]),
("override_before", F, [
('''        orig_override = self._override_child_cell
        try:
            self._override_child_cell = cell
            yield
        finally:
            self._override_child_cell = orig_override
''', '''        orig_override, self._override_child_cell = self._override_child_cell, cell
        try:
            yield
        finally:
            self._override_child_cell = orig_override
'''),
]),
("data_dep_split", F, [
('''        child_cell = self._override_child_cell or cells().at_timestamp(child)
        child_cell.used_symbols.add(sym)
        parent_cell = cells().at_timestamp(parent)
        # if it has already run, don't add the edge
        if child_cell.is_current and parent_cell.is_current:
            child_cell.add_parent_edge(parent_cell, sym)
        if not child.is_initialized:
            return
        if slicing_ctx_var.get() == SlicingContext.DYNAMIC:
            statements().at_timestamp(child).add_parent_edge(
                statements().at_timestamp(parent), sym
            )
        else:
            self.stmt_deferred_static_parents.setdefault(child, {}).setdefault(
                parent, set()
            ).add(sym)
''', '''        parent_cell = cells().at_timestamp(parent)
        child_cell = self._override_child_cell or cells().at_timestamp(child)
        child_cell.used_symbols.add(sym)
        # if it has already run, don't add the edge
        if parent_cell.is_current and child_cell.is_current:
            child_cell.add_parent_edge(parent_cell, sym)
        if child.is_initialized:
            self._add_statement_dep(child, parent, sym)

    def _add_statement_dep(
        self, child: Timestamp, parent: Timestamp, sym: Symbol
    ) -> None:
        if slicing_ctx_var.get() != SlicingContext.DYNAMIC:
            by_parent = self.stmt_deferred_static_parents.setdefault(child, {})
            by_parent.setdefault(parent, set()).add(sym)
            return
        child_stmt = statements().at_timestamp(child)
        parent_stmt = statements().at_timestamp(parent)
        child_stmt.add_parent_edge(parent_stmt, sym)
'''),
]),
("updated_reactive_any", F, [
('''        return (
            sym in self.updated_reactive_symbols
            or sym in self.updated_reactive_symbols_last_cell
        )
''', '''        if sym in self.updated_reactive_symbols:
            return True
        return sym in self.updated_reactive_symbols_last_cell
'''),
]),
("reset_assign", F, [
('''            sym._timestamp = sym._max_inner_timestamp = sym.required_timestamp = (
                Timestamp.uninitialized()
            )
''', '''            uninitialized = Timestamp.uninitialized()
            sym._timestamp = uninitialized
            sym._max_inner_timestamp = uninitialized
            sym.required_timestamp = uninitialized
'''),
]),
("exception_swap", F, [
('''        ret = self._exception_raised_during_execution
        self._exception_raised_during_execution = new_val
        if new_val is not None:
            self._last_exception_raised = new_val
            self.exception_counter += 1
        return ret
''', '''        ret, self._exception_raised_during_execution = (
            self._exception_raised_during_execution,
            new_val,
        )
        if new_val is None:
            return ret
        self.exception_counter = self.exception_counter + 1
        self._last_exception_raised = new_val
        return ret
'''),
('''        ret = self.exception_counter, self._last_exception_raised
        self.exception_counter = 0
        self._last_exception_raised = None
        return ret
''', '''        num_exceptions, last_exception = (
            self.exception_counter,
            self._last_exception_raised,
        )
        self.exception_counter, self._last_exception_raised = 0, None
        return num_exceptions, last_exception
'''),
]),
("position_get", F, [
('''            cell_num = self._cell_name_to_cell_num_mapping.get(frame.f_code.co_filename)
            if cell_num is None:
                cell_num = self.cell_counter()
            return cell_num, frame.f_lineno
''', '''            fname = frame.f_code.co_filename
            if fname in self._cell_name_to_cell_num_mapping:
                cell_num = self._cell_name_to_cell_num_mapping[fname]
            else:
                cell_num = self.cell_counter()
            return cell_num, frame.f_lineno
'''),
]),
("untracked_not", F, [
('''            cell = cells().from_id_nullable(cell_id)
            if cell is not None:
                continue
            cells().create_and_track(cell_id, content, (), bump_cell_counter=False)
''', '''            if cells().from_id_nullable(cell_id) is None:
                cells().create_and_track(cell_id, content, (), bump_cell_counter=False)
'''),
]),
("toggle_table", F, [
('''        if self.mut_settings.exec_mode == ExecutionMode.LAZY:
            self.mut_settings.exec_mode = ExecutionMode.REACTIVE
        elif self.mut_settings.exec_mode == ExecutionMode.REACTIVE:
            self.mut_settings.exec_mode = ExecutionMode.LAZY
        else:
            raise ValueError("unhandled exec mode: %s" % self.mut_settings.exec_mode)
''', '''        mode = self.mut_settings.exec_mode
        if mode == ExecutionMode.LAZY:
            new_mode = ExecutionMode.REACTIVE
        elif mode == ExecutionMode.REACTIVE:
            new_mode = ExecutionMode.LAZY
        else:
            raise ValueError("unhandled exec mode: %s" % mode)
        self.mut_settings.exec_mode = new_mode
'''),
]),
("check_link_flip", F, [
('''            if (
                DataflowTracer not in singletons.shell().registered_tracers
                or not DataflowTracer.initialized()
            ):
                return result
            return result.compute_frontend_checker_result(
                cells_to_check=cells_to_check,
                update_liveness_time_versions=update_liveness_time_versions,
                last_executed_cell_id=last_executed_cell_id,
            )
''', '''            is_tracing = (
                DataflowTracer in singletons.shell().registered_tracers
                and DataflowTracer.initialized()
            )
            if is_tracing:
                result = result.compute_frontend_checker_result(
                    cells_to_check=cells_to_check,
                    update_liveness_time_versions=update_liveness_time_versions,
                    last_executed_cell_id=last_executed_cell_id,
                )
            return result
'''),
]),
("check_link_helper", F, [
('''            if clear_updated_reactive_symbols:
                self.updated_reactive_symbols_last_cell.clear()
                self.updated_deep_reactive_symbols_last_cell.clear()

''', '''            if clear_updated_reactive_symbols:
                self._clear_last_cell_reactive_symbols()

    def _clear_last_cell_reactive_symbols(self) -> None:
        self.updated_deep_reactive_symbols_last_cell.clear()
        self.updated_reactive_symbols_last_cell.clear()

'''),
]),
("precheck_unsafe", F, [
('''        unsafe_order_cells = checker_result.unsafe_order_cells.get(cell.cell_id, None)
        if unsafe_order_cells is not None:
            self.out_of_order_usage_detected_counter = max(
                (cell.position, cell.cell_ctr) for cell in unsafe_order_cells
            )[1]
''', '''        if cell.cell_id in checker_result.unsafe_order_cells:
            unsafe_order_cells = checker_result.unsafe_order_cells[cell.cell_id]
            _, latest_ctr = max(
                (unsafe.position, unsafe.cell_ctr) for unsafe in unsafe_order_cells
            )
            self.out_of_order_usage_detected_counter = latest_ctr
'''),
]),
("override_live", F, [
('''        for live_sym_ref in cells().current_cell().override_live_refs or []:
            sym = SymbolRef.resolve(live_sym_ref)
            if sym is not None:
                with static_slicing_context():
                    self.add_data_dep(
                        Timestamp(self.cell_counter(), 0), sym.timestamp, sym
                    )
''', '''        refs = cells().current_cell().override_live_refs
        if not refs:
            return
        with static_slicing_context():
            for live_sym_ref in refs:
                sym = SymbolRef.resolve(live_sym_ref)
                if sym is None:
                    continue
                child = Timestamp(self.cell_counter(), 0)
                self.add_data_dep(child, sym.timestamp, sym)
'''),
]),
("dangling_helper", F, [
('''        cell = cells().at_counter(self.cell_counter())
        prev_cell = cell.prev_cell
        if prev_cell is None:
            return
        for _ in SlicingContext.iter_slicing_contexts():
            for prev_pid, sym_edges in list(prev_cell.raw_parents.items()):
                # remove anything not in the current parent set
                cell.remove_parent_edges(
                    prev_pid, sym_edges - cell.raw_parents.get(prev_pid, set())
                )
''', '''        cell = cells().at_counter(self.cell_counter())
        if cell.prev_cell is not None:
            self._remove_edges_of_prev_cell(cell, cell.prev_cell)

    @staticmethod
    def _remove_edges_of_prev_cell(cell: Cell, prev_cell: Cell) -> None:
        for _ in SlicingContext.iter_slicing_contexts():
            for prev_pid, sym_edges in list(prev_cell.raw_parents.items()):
                # remove anything not in the current parent set
                gone = sym_edges - cell.raw_parents.get(prev_pid, set())
                cell.remove_parent_edges(prev_pid, gone)
'''),
]),
("all_symbols_nested", F, [
('''        for alias_set in self.aliases.values():
            yield from alias_set
''', '''        for alias_set in self.aliases.values():
            for sym in alias_set:
                yield sym
'''),
]),
("test_clear_swap", F, [
('''        ret = self.waiter_usage_detected
        self.waiter_usage_detected = False
        return ret
''', '''        detected, self.waiter_usage_detected = self.waiter_usage_detected, False
        return detected
'''),
]),
("gc_phases", F, [
('''        if prev_cell_ctr > 0:
            for sym in self.all_symbols():
                if sym.defined_cell_num != prev_cell_ctr:
                    continue
                if sym.is_anonymous or sym.is_new_garbage():
                    sym.mark_garbage()
        garbage_syms = [sym for sym in self.all_symbols() if sym.is_garbage]
        for sym in garbage_syms:
            sym.collect_self_garbage()
        garbage_namespaces = [ns for ns in self.namespaces.values() if ns.is_garbage]
        for ns in garbage_namespaces:
            if ns.size == 0:
                ns.collect_self_garbage()
            else:
                ns.unmark_garbage()
''', '''        if prev_cell_ctr > 0:
            self._mark_garbage_of_cell(prev_cell_ctr)
        for sym in [sym for sym in self.all_symbols() if sym.is_garbage]:
            sym.collect_self_garbage()
        for ns in list(self.namespaces.values()):
            if not ns.is_garbage:
                continue
            if ns.size > 0:
                ns.unmark_garbage()
            else:
                ns.collect_self_garbage()

    def _mark_garbage_of_cell(self, cell_ctr: int) -> None:
        for sym in self.all_symbols():
            if sym.defined_cell_num == cell_ctr and (
                sym.is_anonymous or sym.is_new_garbage()
            ):
                sym.mark_garbage()
'''),
]),
("gc_prev", F, [
('''        prev_cell = cells().at_counter(self.cell_counter()).prev_cell
        prev_cell_ctr = -1 if prev_cell is None else prev_cell.cell_ctr
        if prev_cell_ctr > 0:
            for sym in self.all_symbols():
                if sym.defined_cell_num != prev_cell_ctr:
                    continue
                if sym.is_anonymous or sym.is_new_garbage():
                    sym.mark_garbage()
''', '''        prev_cell = cells().at_counter(self.cell_counter()).prev_cell
        if prev_cell is not None and prev_cell.cell_ctr > 0:
            prev_cell_ctr = prev_cell.cell_ctr
            for sym in self.all_symbols():
                if sym.defined_cell_num == prev_cell_ctr:
                    if sym.is_anonymous or sym.is_new_garbage():
                        sym.mark_garbage()
'''),
]),
("retrieve_flip", F, [
('''                if is_subscript:
                    # TODO: more complete list of things that are checkable
                    #  or could cause side effects upon subscripting
                    if type(obj) is defaultdict:
                        raise TypeError("subscript on defaultdict not allowed")
                    return obj[attr_or_sub]
                else:
                    if self.is_dev_mode:
                        assert isinstance(attr_or_sub, str)
                    return getattr(obj, cast(str, attr_or_sub))
''', '''                if not is_subscript:
                    if self.is_dev_mode:
                        assert isinstance(attr_or_sub, str)
                    return getattr(obj, cast(str, attr_or_sub))
                # TODO: more complete list of things that are checkable
                #  or could cause side effects upon subscripting
                if type(obj) is defaultdict:
                    raise TypeError("subscript on defaultdict not allowed")
                return obj[attr_or_sub]
'''),
]),
]
