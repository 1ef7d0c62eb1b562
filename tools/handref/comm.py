F = "comm_manager.py"
REFS = [
("handle_flow", F, [
('''        if response is self.NO_RESPONSE:
            return
        if comm is None:
            comm = self._comm
        if comm is None:
            return
        if response is None:
            response = {}
        response["type"] = response.get("type", request_type)
        response["success"] = response.get("success", True)
''', '''        comm = self._comm if comm is None else comm
        if response is self.NO_RESPONSE or comm is None:
            return
        response = {} if response is None else response
        response.setdefault("type", request_type)
        response.setdefault("success", True)
'''),
]),
("handle_send_helper", F, [
('''        if response is None:
            response = {}
        response["type"] = response.get("type", request_type)
        response["success"] = response.get("success", True)
        try:
            comm.send(response)
        except TypeError as e:
            raise Exception(
                "unable to serialize response for request of type %s" % request_type
            ) from e
''', '''        self._send_response(comm, request_type, response)

    @staticmethod
    def _send_response(comm, request_type, response) -> None:
        if response is None:
            response = {}
        response["success"] = response.get("success", True)
        response["type"] = response.get("type", request_type)
        try:
            comm.send(response)
        except TypeError as err:
            raise Exception(
                "unable to serialize response for request of type %s" % request_type
            ) from err
'''),
]),
("handle_try_key", F, [
('''        handler = self._comm_handlers.get(request_type)
        if handler is None:
            dbg_msg = "Unsupported request type for request %s" % request
            logger.error(dbg_msg)
            self.flow._saved_debug_message = dbg_msg
            return
''', '''        if request_type not in self._comm_handlers:
            dbg_msg = "Unsupported request type for request %s" % request
            logger.error(dbg_msg)
            self.flow._saved_debug_message = dbg_msg
            return
        handler = self._comm_handlers[request_type]
'''),
]),
("responder_flip", F, [
('''            request = msg["content"]["data"]
            if (
                request.get("type") == "compute_exec_schedule"
                and self.debounced_exec_schedule_pending
            ):
                return
            self.handle(request, comm=comm)
''', '''            request = msg["content"]["data"]
            is_schedule_request = request.get("type") == "compute_exec_schedule"
            if not (is_schedule_request and self.debounced_exec_schedule_pending):
                self.handle(request, comm=comm)
'''),
]),
("schedule_active", F, [
('''        if self.flow.active_cell_id is None:
            active_cell_id = request.get("active_cell_id")
            if active_cell_id is not None:
                self.flow.set_active_cell(active_cell_id)
            if self.flow.active_cell_id is not None:
                prev_cell = cells().current_cell()
                if prev_cell.is_placeholder_id:
                    prev_cell.update_id(self.flow.active_cell_id)
''', '''        active_cell_id = request.get("active_cell_id")
        if self.flow.active_cell_id is None and active_cell_id is not None:
            self.flow.set_active_cell(active_cell_id)
            prev_cell = cells().current_cell()
            if prev_cell.is_placeholder_id:
                prev_cell.update_id(active_cell_id)
'''),
]),
("schedule_null", F, [
('''        if cell_metadata_by_id is None:
            # bail if we don't have this
            null_vals = []
            if cell_metadata_by_id is None:
                null_vals.append("cell_metadata_by_id")
            return {"success": False, "error": f"null value for {', '.join(null_vals)}"}
        cells_to_check = list(
            cell
            for cell in (
                cells().from_id_nullable(cell_id) for cell_id in cell_metadata_by_id
            )
            if cell is not None
        )
''', '''        if cell_metadata_by_id is None:
            # bail if we don't have this
            return {"success": False, "error": "null value for cell_metadata_by_id"}
        cells_to_check = []
        for cell_id in cell_metadata_by_id:
            cell = cells().from_id_nullable(cell_id)
            if cell is not None:
                cells_to_check.append(cell)
'''),
]),
("schedule_update", F, [
('''        response["type"] = "compute_exec_schedule"
        response["exec_mode"] = self.flow.mut_settings.exec_mode.value
        response["exec_schedule"] = exec_schedule.value
        response["flow_order"] = self.flow.mut_settings.flow_order.value
''', '''        settings = self.flow.mut_settings
        response["exec_mode"] = settings.exec_mode.value
        response["type"] = "compute_exec_schedule"
        response["flow_order"] = settings.flow_order.value
        response["exec_schedule"] = exec_schedule.value
'''),
]),
("schedule_new_ready", F, [
('''        response = self.flow.check_and_link_multiple_cells(
            cells_to_check=cells_to_check,
            last_executed_cell_id=last_cell_id,
            allow_new_ready=request.get(
                "allow_new_ready",
                allow_new_ready
                and exec_schedule
                in (
                    ExecutionSchedule.LIVENESS_BASED,
                    ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED,
                ),
            ),
        ).to_json()
''', '''        is_liveness_based = exec_schedule in (
            ExecutionSchedule.LIVENESS_BASED,
            ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED,
        )
        allow_new_ready = request.get(
            "allow_new_ready", allow_new_ready and is_liveness_based
        )
        result = self.flow.check_and_link_multiple_cells(
            cells_to_check=cells_to_check,
            last_executed_cell_id=last_cell_id,
            allow_new_ready=allow_new_ready,
        )
        response = result.to_json()
'''),
]),
("recompute_any", F, [
('''        should_recompute_exec_schedule = force
        for cell_id, content in content_by_cell_id.items():
            if should_recompute_exec_schedule:
                break
            cell = cells().from_id_nullable(cell_id)
            if cell is None:
                continue
            is_same_content = cell.current_content == content
            is_same_counter = cell.cell_ctr == (cell.last_check_cell_ctr or 0)
            if not is_same_content or not is_same_counter:
                should_recompute_exec_schedule = True
        if not should_recompute_exec_schedule:
            return False
''', '''        if not force and not any(
            self._needs_recheck(cell_id, content)
            for cell_id, content in content_by_cell_id.items()
        ):
            return False
'''),
('''    def _recompute_ast_for_cells(
''', '''    @staticmethod
    def _needs_recheck(cell_id: IdType, content: str) -> bool:
        cell = cells().from_id_nullable(cell_id)
        if cell is None:
            return False
        if cell.current_content != content:
            return True
        return cell.cell_ctr != (cell.last_check_cell_ctr or 0)

    def _recompute_ast_for_cells(
'''),
]),
("recompute_prev", F, [
('''                if cell.last_check_result is None:
                    prev_resolved_live_syms: Set[ResolvedSymbol] = set()
                else:
                    prev_resolved_live_syms = cell.last_check_result.live
                prev_live_syms = {resolved.sym for resolved in prev_resolved_live_syms}
                live_syms: Set[Symbol] = {resolved.sym for resolved in result.live}
                cell.static_removed_symbols |= prev_live_syms
''', '''                prev_result = cell.last_check_result
                prev_live_syms: Set[Symbol] = set()
                if prev_result is not None:
                    prev_live_syms = {resolved.sym for resolved in prev_result.live}
                live_syms: Set[Symbol] = {resolved.sym for resolved in result.live}
                cell.static_removed_symbols |= prev_live_syms
'''),
]),
("recompute_else", F, [
('''                cell.last_check_content = cell.current_content
                cell.last_check_result = result
                cell.last_check_cell_ctr = cell.cell_ctr
                should_recompute_exec_schedule = True
            except SyntaxError:
                cell.current_content = prev_content
''', '''                cell.last_check_cell_ctr = cell.cell_ctr
                cell.last_check_result = result
                cell.last_check_content = cell.current_content
            except SyntaxError:
                cell.current_content = prev_content
            else:
                should_recompute_exec_schedule = True
'''),
]),
("notify_structure", F, [
('''        is_cell_structure_change = self.flow._prev_cell_metadata_by_id is None or len(
            self.flow._prev_cell_metadata_by_id
        ) != len(cell_metadata_by_id)
        self.flow._prev_cell_metadata_by_id = cell_metadata_by_id
''', '''        prev_metadata_by_id = self.flow._prev_cell_metadata_by_id
        is_cell_structure_change = True
        if prev_metadata_by_id is not None:
            is_cell_structure_change = len(prev_metadata_by_id) != len(
                cell_metadata_by_id
            )
        self.flow._prev_cell_metadata_by_id = cell_metadata_by_id
'''),
]),
("notify_loop", F, [
('''        order_index_by_id = {
            cell_id: metadata["index"]
            for cell_id, metadata in cell_metadata_by_id.items()
        }
''', '''        order_index_by_id = {}
        for cell_id, metadata in cell_metadata_by_id.items():
            order_index_by_id[cell_id] = metadata["index"]
'''),
('''        content_by_cell_id = {
            cell_id: metadata["content"]
            for cell_id, metadata in cell_metadata_by_id.items()
        }
        override_live''', '''        content_by_cell_id = {
            cid: meta["content"] for cid, meta in cell_metadata_by_id.items()
        }
        override_live'''),
]),
("notify_return", F, [
('''        if should_recompute_exec_schedule:
            return self.handle_compute_exec_schedule(
                request, notify_content_changed=False, allow_new_ready=False
            )
        else:
            return None
''', '''        if not should_recompute_exec_schedule:
            return None
        return self.handle_compute_exec_schedule(
            request, notify_content_changed=False, allow_new_ready=False
        )
'''),
]),
("placeholder_next", F, [
('''                for candidate in list(placeholder_cells):
                    if candidate.current_content == content:
                        candidate.update_id(cell_id)
                        placeholder_cells.remove(candidate)
                        break
''', '''                match = next(
                    (c for c in placeholder_cells if c.current_content == content), None
                )
                if match is not None:
                    match.update_id(cell_id)
                    placeholder_cells.remove(match)
'''),
]),
("cleanup_order", F, [
('''        self.flow.min_cascading_reactive_cell_num = self.flow.cell_counter()
        self.flow._min_new_ready_cell_counter = self.flow.cell_counter() + 1
        self.flow.updated_reactive_symbols.clear()
        self.flow.updated_deep_reactive_symbols.clear()
''', '''        cell_counter = self.flow.cell_counter()
        self.flow.updated_deep_reactive_symbols.clear()
        self.flow.updated_reactive_symbols.clear()
        self.flow._min_new_ready_cell_counter = 1 + cell_counter
        self.flow.min_cascading_reactive_cell_num = cell_counter
'''),
]),
("upsert_deps", F, [
('''        dep_symbols = set()
        for dep in request.get("deps", []):
            dep_sym = SymbolRef.resolve(dep)
            if dep_sym is not None:
                dep_symbols.add(dep_sym)
        obj = user_globals.get(symbol_name)
''', '''        resolved_deps = [SymbolRef.resolve(dep) for dep in request.get("deps", [])]
        dep_symbols = {dep_sym for dep_sym in resolved_deps if dep_sym is not None}
        obj = user_globals[symbol_name]
'''),
]),
("last_updated_else", F, [
('''        try:
            last_updated_cell_id = cells().at_timestamp(sym.timestamp).id
        except KeyError:
            return {"success": False}
        return {
            "symbol": symbol_name,
            "cell_id": last_updated_cell_id,
        }
''', '''        try:
            cell = cells().at_timestamp(sym.timestamp)
        except KeyError:
            return {"success": False}
        return {"symbol": symbol_name, "cell_id": cell.id}
'''),
]),
]
