F = "frontend.py"
REFS = [
    ("cond_helper_readiness", F, [("""                    if (
                        max(cell.cell_ctr, flow_.min_timestamp) < par.cell_ctr
                        and (
                            flow_.mut_settings.pull_reactive_updates
                            or par.cell_ctr
                            in {sym.shallow_timestamp.cell_num for sym in syms}
                        )
                    ) or par.cell_ctr in {
                        sym.visible_timestamp.cell_num
                        for sym in syms
                        if sym.visible_timestamp is not None
                        and sym.visible_timestamp.cell_num
                        != sym.shallow_timestamp.cell_num
                    }:
""", """                    if self._parent_has_newer_updates(cell, par, syms):
"""), ("""    def _compute_readiness(
""", """    @staticmethod
    def _parent_has_newer_updates(cell: Cell, par: Cell, syms) -> bool:
        flow_ = flow()
        if max(cell.cell_ctr, flow_.min_timestamp) < par.cell_ctr:
            if flow_.mut_settings.pull_reactive_updates:
                return True
            update_ctrs = {sym.shallow_timestamp.cell_num for sym in syms}
            if par.cell_ctr in update_ctrs:
                return True
        visible_ctrs = set()
        for sym in syms:
            visible_ts = sym.visible_timestamp
            if visible_ts is None:
                continue
            if visible_ts.cell_num != sym.shallow_timestamp.cell_num:
                visible_ctrs.add(visible_ts.cell_num)
        return par.cell_ctr in visible_ctrs

    def _compute_readiness(
""")]),
    ("shadow_helper_both", F, [("""                        should_skip = False
                        if (
                            flow_order == FlowDirection.IN_ORDER
                            and slicing_ctx_var.get() == SlicingContext.STATIC
                        ):
                            for (
                                other_pid,
                                other_syms,
                            ) in cell.directional_parents.items():
                                other_parent = cells().from_id(other_pid)
                                if other_parent.position <= par.position:
                                    continue
                                if (
                                    syms <= other_syms
                                    or flow_.fake_edge_sym in other_syms
                                ):
                                    should_skip = True
                                    break
                        if should_skip:
                            continue
""", """                        if (
                            flow_order == FlowDirection.IN_ORDER
                            and slicing_ctx_var.get() == SlicingContext.STATIC
                            and self._is_shadowed(cell, par, syms)
                        ):
                            continue
"""), ("""    def _compute_readiness(
""", """    def _is_shadowed(self, cell: Cell, par: Cell, syms) -> bool:
        fake_edge_sym = flow().fake_edge_sym
        return any(
            syms <= other_syms or fake_edge_sym in other_syms
            for other_pid, other_syms in cell.directional_parents.items()
            if cells().from_id(other_pid).position > par.position
        )

    def _compute_readiness(
""")]),
    ("schedule_helper", F, [("""        if flow_.mut_settings.exec_schedule not in (
            ExecutionSchedule.DAG_BASED,
            ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED,
        ):
            return
""", """        if not _uses_dag(flow_.mut_settings.exec_schedule):
            return
"""), ("""        if flow_.mut_settings.exec_schedule in (
            ExecutionSchedule.DAG_BASED,
            ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED,
        ):
            latest_par""", """        if _uses_dag(exec_schedule):
            latest_par"""), ("""            if flow_.mut_settings.exec_schedule in (
                ExecutionSchedule.DAG_BASED,
                ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED,
            ):
""", """            if _uses_dag(flow_.mut_settings.exec_schedule):
"""), ("""class FrontendCheckerResult(NamedTuple):
""", """_DAG_SCHEDULES = frozenset(
    {
        ExecutionSchedule.DAG_BASED,
        ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED,
    }
)


def _uses_dag(schedule: ExecutionSchedule) -> bool:
    return schedule in _DAG_SCHEDULES


class FrontendCheckerResult(NamedTuple):
""")]),
    ("to_json_helper", F, [("""            "waiter_links": {
                cell_id: list(linked_cell_ids)
                for cell_id, linked_cell_ids in self.waiter_links.items()
            },
            "ready_maker_links": {
                cell_id: list(linked_cell_ids)
                for cell_id, linked_cell_ids in self.ready_maker_links.items()
            },
            "stale_parents": {
                cell_id: list(linked_cell_ids)
                for cell_id, linked_cell_ids in self.stale_parents.items()
            },
""", """            "waiter_links": _jsonify_links(self.waiter_links),
            "ready_maker_links": _jsonify_links(self.ready_maker_links),
            "stale_parents": _jsonify_links(self.stale_parents),
"""), ("""            "cell_parents": {
                cell_id: list(parent_ids)
                for cell_id, parent_ids in self.cell_parents.items()
            },
            "cell_children": {
                cell_id: list(child_ids)
                for cell_id, child_ids in self.cell_children.items()
            },
""", """            "cell_parents": _jsonify_links(self.cell_parents),
            "cell_children": _jsonify_links(self.cell_children),
"""), ("""class FrontendCheckerResult(NamedTuple):
""", """def _jsonify_links(links: Dict[IdType, Set[IdType]]) -> Dict[IdType, List[IdType]]:
    result: Dict[IdType, List[IdType]] = {}
    for cell_id, linked_ids in links.items():
        result[cell_id] = list(linked_ids)
    return result


class FrontendCheckerResult(NamedTuple):
""")]),
    ("waiter_closure_loop", F, [("""        waiter_link_changes = True
        # transitive closure up until we hit non-waiting ready-making cells
        while waiter_link_changes:
            waiter_link_changes = False
            for waiting_cell_id in self.waiting_cells:
                new_waiter_links = set(self.waiter_links[waiting_cell_id])
                original_length = len(new_waiter_links)
                for ready_making_cell_id in self.waiter_links[waiting_cell_id]:
                    if ready_making_cell_id not in self.waiting_cells:
                        continue
                    new_waiter_links |= self.waiter_links[ready_making_cell_id]
                new_waiter_links.discard(waiting_cell_id)
                waiter_link_changes = waiter_link_changes or original_length != len(
                    new_waiter_links
                )
                self.waiter_links[waiting_cell_id] = new_waiter_links
""", """        # transitive closure up until we hit non-waiting ready-making cells
        while True:
            changed = False
            for waiting_cell_id in self.waiting_cells:
                current_links = self.waiter_links[waiting_cell_id]
                new_waiter_links = set(current_links)
                for ready_making_cell_id in current_links:
                    if ready_making_cell_id in self.waiting_cells:
                        new_waiter_links.update(self.waiter_links[ready_making_cell_id])
                new_waiter_links.discard(waiting_cell_id)
                if len(new_waiter_links) != len(current_links):
                    changed = True
                self.waiter_links[waiting_cell_id] = new_waiter_links
            if not changed:
                break
""")]),
    ("dag_waiters_any", F, [("""                for _ in flow_.mut_settings.iter_slicing_contexts():
                    if cell.directional_parents.keys() & (
                        self.ready_cells | self.waiting_cells
                    ):
                        self.waiting_cells.add(cell.cell_id)
                        continue
            if prev""", """                for _ in flow_.mut_settings.iter_slicing_contexts():
                    if any(
                        pid in self.ready_cells or pid in self.waiting_cells
                        for pid in cell.directional_parents
                    ):
                        self.waiting_cells.add(cell.cell_id)
            if prev""")]),
    ("dag_waiters_size", F, [("""        prev_waiting_cells: Set[IdType] = set()
        while True:
""", """        num_waiting = -1
        while num_waiting != len(self.waiting_cells):
            num_waiting = len(self.waiting_cells)
"""), ("""            if prev_waiting_cells == self.waiting_cells:
                break
            prev_waiting_cells = set(self.waiting_cells)
""", "")]),
    ("dag_waiters_minus", F, [("""        self.ready_cells.difference_update(self.waiting_cells)
        self.new_ready_cells.difference_update(self.waiting_cells)
        for cell_id in self.waiting_cells:
            cells().from_id(cell_id).set_ready(False)
""", """        for cell_id in self.waiting_cells:
            cells().from_id(cell_id).set_ready(False)
            self.ready_cells.discard(cell_id)
            self.new_ready_cells.discard(cell_id)
""")]),
    ("reactive_loop", F, [("""            max_used_ctr = cell.get_max_used_live_symbol_cell_counter(
                checker_results_by_cid[cell_id].live, filter_to_reactive=True
            )
            if max_used_ctr > max(
                cell.cell_ctr, flow_.min_forced_reactive_cell_counter()
            ):
                self.forced_reactive_cells.add(cell_id)
            max_used_ctr = cell.get_max_used_live_symbol_cell_counter(
                checker_results_by_cid[cell_id].live, filter_to_cascading_reactive=True
            )
            if max_used_ctr > max(
                cell.cell_ctr, flow_.min_forced_reactive_cell_counter()
            ):
                self.forced_cascading_reactive_cells.add(cell_id)
""", """            live = checker_results_by_cid[cell_id].live
            threshold = max(cell.cell_ctr, flow_.min_forced_reactive_cell_counter())
            if (
                cell.get_max_used_live_symbol_cell_counter(
                    live, filter_to_reactive=True
                )
                > threshold
            ):
                self.forced_reactive_cells.add(cell_id)
            if (
                cell.get_max_used_live_symbol_cell_counter(
                    live, filter_to_cascading_reactive=True
                )
                > threshold
            ):
                self.forced_cascading_reactive_cells.add(cell_id)
""")]),
    ("check_one_split", F, [("""        if flow_.mut_settings.flow_order == FlowDirection.IN_ORDER:
            for live_sym in checker_result.live:
                if not live_sym.is_deep or not live_sym.timestamp.is_initialized:
                    continue
                updated_cell = cells().at_timestamp(live_sym.timestamp)
                if updated_cell.position > cell.position:
                    self.unsafe_order_cells[cell_id].add(updated_cell)
        if flow_""", """        if flow_.mut_settings.flow_order == FlowDirection.IN_ORDER:
            self._add_unsafe_order_cells(cell, checker_result)
        if flow_"""), ("""    def _check_one_cell(
""", """    def _add_unsafe_order_cells(
        self, cell: Cell, checker_result: CheckerResult
    ) -> None:
        for live_sym in checker_result.live:
            if live_sym.is_deep and live_sym.timestamp.is_initialized:
                updated_cell = cells().at_timestamp(live_sym.timestamp)
                if updated_cell.position > cell.position:
                    self.unsafe_order_cells[cell.cell_id].add(updated_cell)

    def _check_one_cell(
""")]),
    ("check_one_tail", F, [("""        if flow_.mut_settings.flow_order == FlowDirection.IN_ORDER:
            if (
                last_executed_cell_pos is not None
                and cell.position <= last_executed_cell_pos
            ):
                # prevent this cell from being considered as newly ready so that
                # it is not reactively executed
                return checker_result
        if is_new_ready or (
            cell.cell_ctr > 0
            and not was_ready
            and is_ready
            and flow_.cell_counter() >= flow_.min_new_ready_cell_counter()
        ):
            self.new_ready_cells.add(cell_id)
        return checker_result
""", """        # in-order semantics prevents this cell from being considered as newly
        # ready so that it is not reactively executed
        is_before_last_executed = (
            flow_.mut_settings.flow_order == FlowDirection.IN_ORDER
            and last_executed_cell_pos is not None
            and cell.position <= last_executed_cell_pos
        )
        became_ready = (
            is_ready
            and not was_ready
            and cell.cell_ctr > 0
            and flow_.min_new_ready_cell_counter() <= flow_.cell_counter()
        )
        if not is_before_last_executed and (is_new_ready or became_ready):
            self.new_ready_cells.add(cell_id)
        return checker_result
""")]),
    ("waiting_union", F, [("""                waiting_syms = waiting_symbols_by_cell_id.get(waiting_cell_id, set())
                ready_making_cell_ids = ready_making_cell_ids.union(
                    *(
                        killing_cell_ids_for_symbol[waiting_sym]
                        for waiting_sym in waiting_syms
                    )
                )
""", """                for waiting_sym in waiting_symbols_by_cell_id.get(waiting_cell_id, ()):
                    ready_making_cell_ids |= killing_cell_ids_for_symbol[waiting_sym]
"""), ("""                ready_making_cell_ids = {
                    cid
                    for cid in ready_making_cell_ids
                    if cells().from_id(cid).position
                    < cells().from_id(waiting_cell_id).position
                }
""", """                waiting_position = cells().from_id(waiting_cell_id).position
                ready_making_cell_ids = set(
                    filter(
                        lambda cid: cells().from_id(cid).position < waiting_position,
                        ready_making_cell_ids,
                    )
                )
""")]),
    ("filtered_parents_helper", F, [("""                    if (
                        parent.last_check_result is not None
                        and syms <= parent.static_writes
                        and len(parent.last_check_result.modified & syms) == 0
                    ):
                        continue
                    if parent.cell_ctr >= 0 and not any(
                        parent.cell_ctr
                        in {ts.cell_num for ts in sym.updated_timestamps}
                        for sym in syms
                    ):
                        continue
""", """                    if self._is_stale_edge(parent, syms):
                        continue
"""), ("""    def _compute_filtered_parents(self""", """    @staticmethod
    def _is_stale_edge(parent: Cell, syms) -> bool:
        last_result = parent.last_check_result
        if last_result is not None and syms <= parent.static_writes:
            if not (last_result.modified & syms):
                return True
        if parent.cell_ctr < 0:
            return False
        for sym in syms:
            for ts in sym.updated_timestamps:
                if ts.cell_num == parent.cell_ctr:
                    return False
        return True

    def _compute_filtered_parents(self""")]),
    ("children_loop", F, [("""        for cell_id, parents in self.cell_parents.items():
            for parent_id in parents:
                self.cell_children.setdefault(parent_id, set()).add(cell_id)
        for cell in cells_to_check:
            self.cell_children.setdefault(cell.cell_id, set())
""", """        for cell in cells_to_check:
            if cell.cell_id not in self.cell_children:
                self.cell_children[cell.cell_id] = set()
        for cell_id, parents in self.cell_parents.items():
            for parent_id in parents:
                if parent_id not in self.cell_children:
                    self.cell_children[parent_id] = set()
                self.cell_children[parent_id].add(cell_id)
""")]),
    ("unsafe_usage_split", F, [("""                used_node = sym.used_node_by_used_time.get(used_ts, None)
                if used_node is None or not all(
                    hasattr(used_node, pos_attr)
                    for pos_attr in (
                        "lineno",
                        "end_lineno",
                        "col_offset",
                        "end_col_offset",
                    )
                ):
                    continue
""", """                used_node = sym.used_node_by_used_time.get(used_ts)
                if used_node is None:
                    continue
                if not _has_position(used_node):
                    continue
"""), ("""class FrontendCheckerResult(NamedTuple):
""", """_POSITION_ATTRS = ("lineno", "end_lineno", "col_offset", "end_col_offset")


def _has_position(node: ast.AST) -> bool:
    return all(hasattr(node, attr) for attr in _POSITION_ATTRS)


class FrontendCheckerResult(NamedTuple):
""")]),
    ("stale_makers", F, [("""                            for executed_cell in cells_so_far_that_update_symbol.get(
                                sym, []
                            ):
                                self.stale_parents_by_executed_cell_by_child.setdefault(
                                    cell.cell_id, {}
                                ).setdefault(executed_cell.cell_id, set()).add(pid)
                                self.stale_parents_by_child_by_executed_cell.setdefault(
                                    executed_cell.cell_id, {}
                                ).setdefault(cell.cell_id, set()).add(pid)
""", """                            for executed_cell in cells_so_far_that_update_symbol.get(
                                sym, []
                            ):
                                executed_id = executed_cell.cell_id
                                by_executed = (
                                    self.stale_parents_by_executed_cell_by_child.setdefault(
                                        cell.cell_id, {}
                                    )
                                )
                                by_executed.setdefault(executed_id, set()).add(pid)
                                by_child = (
                                    self.stale_parents_by_child_by_executed_cell.setdefault(
                                        executed_id, {}
                                    )
                                )
                                by_child.setdefault(cell.cell_id, set()).add(pid)
""")]),
]
