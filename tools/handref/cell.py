F = "data_model/cell.py"
REFS = [
("helper_is_in_order", F, [
('''        parents = self.raw_parents
        if flow().mut_settings.flow_order == FlowDirection.IN_ORDER:
            parents = {
                sid: syms
                for sid, syms in parents.items()
                if self.position > self.from_id(sid).position
            }
        return cast("Mapping[IdType, FrozenSet[Symbol]]", parents)''',
'''        if not self._in_order():
            return cast("Mapping[IdType, FrozenSet[Symbol]]", self.raw_parents)
        own_pos = self.position
        earlier = {}
        for sid, syms in self.raw_parents.items():
            if self.from_id(sid).position >= own_pos:
                continue
            earlier[sid] = syms
        return cast("Mapping[IdType, FrozenSet[Symbol]]", earlier)'''),
('''        if flow().mut_settings.flow_order == FlowDirection.IN_ORDER:
            children = {''', '''        if self._in_order():
            children = {'''),
('''    @property
    def directional_parents''', '''    @staticmethod
    def _in_order() -> bool:
        return flow().mut_settings.flow_order == FlowDirection.IN_ORDER

    @property
    def directional_parents'''),
]),
("latest_parent_locals", F, [
('''                syms = raw_syms - self.static_removed_symbols - {flow_.fake_edge_sym}
                parent = cells().from_id(par_id)
                for sym in syms:
                    if (
                        parent.position
                        >= latest_par_by_ts.get(sym.shallow_timestamp, parent).position
                    ):
                        latest_par_by_ts[sym.shallow_timestamp] = parent''',
'''                parent = cells().from_id(par_id)
                for sym in raw_syms:
                    if (
                        sym in self.static_removed_symbols
                        or sym is flow_.fake_edge_sym
                    ):
                        continue
                    ts = sym.shallow_timestamp
                    best = latest_par_by_ts.get(ts)
                    if best is None or parent.position >= best.position:
                        latest_par_by_ts[ts] = parent'''),
]),
("update_id_helper", F, [
('''                parent.raw_children = {
                    (new_id if cid == old_id else cid): syms
                    for cid, syms in parent.raw_children.items()
                }''', '''                parent.raw_children = self._rekey(parent.raw_children, old_id, new_id)'''),
('''                child.raw_parents = {
                    (new_id if pid == old_id else pid): syms
                    for pid, syms in child.raw_parents.items()
                }''', '''                child.raw_parents = self._rekey(child.raw_parents, old_id, new_id)'''),
('''    def add_used_cell_counter(self''', '''    @staticmethod
    def _rekey(edges, old_id: IdType, new_id: IdType):
        return {
            (new_id if key == old_id else key): syms for key, syms in edges.items()
        }

    def add_used_cell_counter(self'''),
]),
("update_id_if", F, [
('''        pos = self._position_by_cell_id.pop(old_id, None)
        if pos is not None:
            self._position_by_cell_id[new_id] = pos
        current_cell = self._current_cell_by_cell_id.pop(old_id, None)
        if current_cell is not None:
            assert current_cell is self
            self._current_cell_by_cell_id[new_id] = current_cell
        for reactive_cells in self._reactive_cells_by_tag.values():
            if old_id in reactive_cells:
                reactive_cells.discard(old_id)
                reactive_cells.add(new_id)''',
'''        if old_id in self._position_by_cell_id:
            self._position_by_cell_id[new_id] = self._position_by_cell_id.pop(old_id)
        if old_id in self._current_cell_by_cell_id:
            current_cell = self._current_cell_by_cell_id.pop(old_id)
            assert current_cell is self
            self._current_cell_by_cell_id[new_id] = current_cell
        for reactive_cells in self._reactive_cells_by_tag.values():
            if old_id not in reactive_cells:
                continue
            reactive_cells.remove(old_id)
            reactive_cells.add(new_id)'''),
]),
("memoize_helper_inputs", F, [
('''                    unchanged = [
                        top
                        for top in sym.gen_top_level_symbols()
                        if top.is_user_accessible
                        and top.containing_scope.is_global
                        and (top.is_import or top.timestamp.cell_num < self.cell_ctr)
                    ]
''', '''                    unchanged = self._unchanged_tops(sym)
'''),
('''    def _maybe_memoize_params(self)''', '''    def _unchanged_tops(self, sym: "Symbol"):
        tops = []
        for top in sym.gen_top_level_symbols():
            if not top.is_user_accessible or not top.containing_scope.is_global:
                continue
            if top.is_import or top.timestamp.cell_num < self.cell_ctr:
                tops.append(top)
        return tops

    def _maybe_memoize_params(self)'''),
]),
("memoize_outputs_comp", F, [
('''        outputs: Dict["Symbol", MemoizedOutput] = {}
        for sym in flow().updated_symbols:
            if not sym.is_user_accessible or not sym.containing_scope.is_global:
                continue
            outputs[sym] = MemoizedOutput(sym, sym.shallow_timestamp, sym.obj)
''', '''        outputs = {
            sym: MemoizedOutput(sym, sym.shallow_timestamp, sym.obj)
            for sym in flow().updated_symbols
            if sym.is_user_accessible and sym.containing_scope.is_global
        }
'''),
('''        self._memoized_executions.setdefault(self.executed_content, {})[
            self.cell_ctr
        ] = MemoizedCellExecution(
            list(inputs.values()),
            list(outputs.values()),
            self.captured_output,
            self.cell_ctr,
        )''', '''        execution = MemoizedCellExecution(
            list(inputs.values()),
            list(outputs.values()),
            self.captured_output,
            self.cell_ctr,
        )
        by_ctr = self._memoized_executions.setdefault(self.executed_content, {})
        by_ctr[self.cell_ctr] = execution'''),
]),
("memoize_skip_cond", F, [
('''                    if sym.is_anonymous or not (
                        scope.is_global or scope.is_namespace_scope
                    ):
                        continue
''', '''                    if sym.is_anonymous:
                        continue
                    if not scope.is_global and not scope.is_namespace_scope:
                        continue
'''),
('''                    for top in unchanged:
                        if top in inputs:
                            continue
                        inputs[top] = MemoizedInput(
                            top,
                            top.timestamp,
                            top.memoize_timestamp,
                            top.obj_id,
                            top.make_memoize_comparable()[0],
                        )''', '''                    for top in unchanged:
                        if top not in inputs:
                            comparable, _eq = top.make_memoize_comparable()
                            inputs[top] = MemoizedInput(
                                top,
                                top.timestamp,
                                top.memoize_timestamp,
                                top.obj_id,
                                comparable,
                            )'''),
]),
("create_helper_inherit", F, [
('''        if prev_cell is not None:
            cell.history = prev_cell.history + cell.history
            cell.raw_static_children = prev_cell.raw_static_children
            cell.raw_dynamic_children = prev_cell.raw_dynamic_children
            for tag in prev_cell.tags:
                cls._cells_by_tag[tag].discard(prev_cell)
            for tag in prev_cell.reactive_tags:
                cls._reactive_cells_by_tag[tag].discard(prev_cell.cell_id)
''', '''        if prev_cell is not None:
            cell._take_over_from(prev_cell)
'''),
('''    @classmethod
    def create_and_track(''', '''    def _take_over_from(self, prev_cell: "Cell") -> None:
        cls = type(self)
        for tag in prev_cell.reactive_tags:
            cls._reactive_cells_by_tag[tag].discard(prev_cell.cell_id)
        for tag in prev_cell.tags:
            cls._cells_by_tag[tag].discard(prev_cell)
        self.raw_static_children = prev_cell.raw_static_children
        self.raw_dynamic_children = prev_cell.raw_dynamic_children
        self.history = prev_cell.history + self.history

    @classmethod
    def create_and_track('''),
]),
("create_counter_helper", F, [
('''        if bump_cell_counter:
            cls._cell_counter += 1
            cell_ctr = cls._cell_counter
            if validate_ipython_counter and cell_ctr != ipy_cell_counter():
                actual_counter = get_ipython().execution_count
                if flow().is_dev_mode:
                    logger.warning(
                        "mismatch between cell counter (%d) and saved ipython counter (%d)",
                        cell_ctr,
                        ipy_cell_counter(),
                    )
                    logger.warning("fixing up to actual counter of %d", actual_counter)
                cell_ctr = cls._cell_counter = _IPY.cell_counter = actual_counter
        else:
            cell_ctr = -1
        prev_cell = cls.from_id_nullable(cell_id)
        if cell_ctr == -1:
            assert prev_cell is None
        if prev_cell is not None:
            tags = tuple(set(tags) | set(prev_cell.tags))
''', '''        cell_ctr = (
            cls._bump_counter(validate_ipython_counter) if bump_cell_counter else -1
        )
        prev_cell = cls.from_id_nullable(cell_id)
        if cell_ctr == -1:
            assert prev_cell is None
        if prev_cell is not None:
            tags = tuple(set(tags).union(prev_cell.tags))
'''),
('''    @classmethod
    def create_and_track(''', '''    @classmethod
    def _bump_counter(cls, validate_ipython_counter: bool) -> int:
        cls._cell_counter += 1
        cell_ctr = cls._cell_counter
        if not validate_ipython_counter or cell_ctr == ipy_cell_counter():
            return cell_ctr
        actual_counter = get_ipython().execution_count
        if flow().is_dev_mode:
            logger.warning(
                "mismatch between cell counter (%d) and saved ipython counter (%d)",
                cell_ctr,
                ipy_cell_counter(),
            )
            logger.warning("fixing up to actual counter of %d", actual_counter)
        cls._cell_counter = actual_counter
        _IPY.cell_counter = actual_counter
        return actual_counter

    @classmethod
    def create_and_track('''),
]),
("positions_early_return", F, [
('''        settings = flow().mut_settings
        if (
            settings.flow_order == FlowDirection.IN_ORDER
            and settings.interface != Interface.IPYTHON
        ):
            # copy so that the caller's mapping stays as it is
            order_index_by_cell_id = dict(order_index_by_cell_id)
            for cell_id in cls._position_by_cell_id:
                order_index_by_cell_id.setdefault(cell_id, cast(int, float("inf")))
            cls._cell_id_by_position = {
                pos: cell_id
                for cell_id, pos in order_index_by_cell_id.items()
                if pos != float("inf")
            }
        cls._position_by_cell_id = order_index_by_cell_id
''', '''        settings = flow().mut_settings
        in_order = settings.flow_order == FlowDirection.IN_ORDER
        if not in_order or settings.interface == Interface.IPYTHON:
            cls._position_by_cell_id = order_index_by_cell_id
            return
        infinity = cast(int, float("inf"))
        positions = dict(order_index_by_cell_id)
        for cell_id in cls._position_by_cell_id:
            if cell_id not in positions:
                positions[cell_id] = infinity
        id_by_position = {}
        for cell_id, pos in positions.items():
            if pos != infinity:
                id_by_position[pos] = cell_id
        cls._cell_id_by_position = id_by_position
        cls._position_by_cell_id = positions
'''),
]),
("override_refs_helper", F, [
('''        for cell_id, override_live_refs in override_live_refs_by_cell_id.items():
            cell = cls.from_id_nullable(cell_id)
            if cell is not None:
                cell.override_live_refs = override_live_refs
''', '''        for cell_id, override_live_refs in override_live_refs_by_cell_id.items():
            if not cls.has_id(cell_id):
                continue
            cls.from_id(cell_id).override_live_refs = override_live_refs
'''),
]),
("memo_counter_helper", F, [
('''            for sym, in_ts, mem_ts, obj_id, comparable in inputs:
                if comparable is not symbols_.NULL:
                    # prefer the comparable check if it is available
                    current_comp, eq = sym.make_memoize_comparable()
                    if current_comp is symbols_.NULL or eq is None:
                        break
                    if eq(current_comp, comparable):
                        continue
                    else:
                        break
                if sym.is_import or sym.timestamp.cell_num == in_ts.cell_num:
                    continue
                elif sym.obj_id == obj_id and sym.memoize_timestamp in (
                    in_ts,
                    mem_ts or Timestamp.uninitialized(),
                ):
                    continue
                else:
                    break
            else:
                return ctr
        return None
''', '''            if all(self._input_is_unchanged(inp) for inp in inputs):
                return ctr
        return None

    @staticmethod
    def _input_is_unchanged(inp) -> bool:
        sym, in_ts, mem_ts, obj_id, comparable = inp
        null = symbols().NULL
        if comparable is not null:
            # prefer the comparable check if it is available
            current_comp, eq = sym.make_memoize_comparable()
            if current_comp is null or eq is None:
                return False
            return bool(eq(current_comp, comparable))
        if sym.is_import or sym.timestamp.cell_num == in_ts.cell_num:
            return True
        if sym.obj_id != obj_id:
            return False
        return sym.memoize_timestamp in (in_ts, mem_ts or Timestamp.uninitialized())
'''),
('''        symbols_ = symbols()
        for (''', '''        for ('''),
]),
("memo_counter_changed_flag", F, [
('''            if ctr >= self.cell_ctr:
                continue
            if any(output.is_changed_since(ctr) for output in outputs):
                continue
            for sym''', '''            if ctr >= self.cell_ctr or any(
                output.is_changed_since(ctr) for output in outputs
            ):
                continue
            for sym'''),
('''                if sym.is_import or sym.timestamp.cell_num == in_ts.cell_num:
                    continue
                elif sym.obj_id == obj_id and sym.memoize_timestamp in (
                    in_ts,
                    mem_ts or Timestamp.uninitialized(),
                ):
                    continue
                else:
                    break''', '''                same_cell = sym.timestamp.cell_num == in_ts.cell_num
                if not sym.is_import and not same_cell:
                    candidates = (in_ts, mem_ts or Timestamp.uninitialized())
                    if sym.obj_id != obj_id or sym.memoize_timestamp not in candidates:
                        break'''),
]),
("memo_content_inline", F, [
('''        if ctr is None:
            ctr = self.get_memoized_counter()
        if ctr is None:
            return None
        if self.memoized_output_level == MemoizedOutputLevel.QUIET:
            return "pass"
        else:
            return f"Out.get({ctr})"''', '''        ctr = self.get_memoized_counter() if ctr is None else ctr
        if ctr is None:
            return None
        quiet = self.memoized_output_level == MemoizedOutputLevel.QUIET
        return "pass" if quiet else "Out.get({})".format(ctr)'''),
('''        if len(cell_lines) == 0:
            return None, None
        first_line = cell_lines[0].lstrip()
        memoize_magic = r"%%memoize"
        if not first_line.startswith(memoize_magic):
            return None, None
        return "".join(cell_lines[1:]), parse_verbosity(
            first_line[len(memoize_magic) :].strip()
        )''', '''        if not cell_lines:
            return None, None
        memoize_magic = r"%%memoize"
        first_line, *rest = cell_lines
        first_line = first_line.lstrip()
        if first_line.startswith(memoize_magic):
            level = parse_verbosity(first_line[len(memoize_magic) :].strip())
            return "".join(rest), level
        return None, None'''),
]),
("to_ast_helper", F, [
('''        if (
            self._cached_ast is None
            or self.last_ast_content is None
            or len(self.last_ast_content) != len(self.current_content)
            or self.last_ast_content != self.current_content
        ):
            path = self.make_ipython_name()
            rewriter, content = self._rewriter_and_sanitized_content(path=path)
            self._cached_ast = ast.parse(content)
            self.last_ast_content = self.current_content
            if rewriter is not None:
                with self.override_current_cell():
                    rewriter.visit(self._cached_ast)
        return self._cached_ast
''', '''        if not self._ast_is_fresh():
            path = self.make_ipython_name()
            rewriter, content = self._rewriter_and_sanitized_content(path=path)
            tree = ast.parse(content)
            self._cached_ast = tree
            self.last_ast_content = self.current_content
            if rewriter is not None:
                with self.override_current_cell():
                    rewriter.visit(tree)
        return self._cached_ast

    def _ast_is_fresh(self) -> bool:
        if self._cached_ast is None or self.last_ast_content is None:
            return False
        return self.last_ast_content == self.current_content
'''),
]),
("current_cell_if", F, [
('''        return cls._override_current_cell or cls._cell_by_cell_ctr[cls._cell_counter]
''', '''        if cls._override_current_cell is not None:
            return cls._override_current_cell
        return cls._cell_by_cell_ctr[cls._cell_counter]
'''),
('''        for cell_id, cell_pos in cls._position_by_cell_id.items():
            if cell_pos == pos:
                return cls.from_id(cell_id)
        return None
''', '''        cell_id = next(
            (cid for cid, cpos in cls._position_by_cell_id.items() if cpos == pos), None
        )
        if cell_id is None:
            return None
        return cls.from_id(cell_id)
'''),
('''        if isinstance(ts, Timestamp):
            return cls.at_counter(ts.cell_num)
        else:
            return cls.at_counter(ts)
''', '''        ctr = ts.cell_num if isinstance(ts, Timestamp) else ts
        return cls.at_counter(ctr)
'''),
]),
("max_used_helper", F, [
('''        min_allowed_cell_position_by_symbol: Optional[Dict["Symbol", int]] = None
        flow_ = flow()
        if (
            flow_.mut_settings.exec_schedule
            == ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED
            and flow_.mut_settings.flow_order == FlowDirection.IN_ORDER
        ):
            min_allowed_cell_position_by_symbol = {}
            for _ in flow_.mut_settings.iter_slicing_contexts():
                for pid, syms in self.directional_parents.items():
                    for sym in syms:
                        min_allowed_cell_position_by_symbol[sym] = max(
                            min_allowed_cell_position_by_symbol.get(sym, -1),
                            self.from_id(pid).position,
                        )
''', '''        flow_ = flow()
        min_allowed_cell_position_by_symbol = self._min_allowed_positions()
'''),
('''    def get_max_used_live_symbol_cell_counter(''', '''    def _min_allowed_positions(self) -> Optional[Dict["Symbol", int]]:
        settings = flow().mut_settings
        if settings.exec_schedule != ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED:
            return None
        if settings.flow_order != FlowDirection.IN_ORDER:
            return None
        positions: Dict["Symbol", int] = {}
        for _ in settings.iter_slicing_contexts():
            for pid, syms in self.directional_parents.items():
                parent_pos = self.from_id(pid).position
                for sym in syms:
                    positions[sym] = max(positions.get(sym, -1), parent_pos)
        return positions

    def get_max_used_live_symbol_cell_counter('''),
]),
("max_used_skip_helper", F, [
('''                if resolved.is_blocking:
                    continue
                if filter_to_cascading_reactive and not resolved.is_cascading_reactive:
                    continue
                if (
                    filter_to_reactive
                    and not resolved.is_reactive
                    and not flow().is_updated_reactive(resolved.sym)
                ):
                    continue
''', '''                if self._is_filtered_out(
                    resolved, filter_to_reactive, filter_to_cascading_reactive
                ):
                    continue
'''),
('''                    if this_cell_pos >= used_cell_position:
                        if (
                            min_allowed_cell_position_by_symbol is None
                            or used_cell_position
                            >= min_allowed_cell_position_by_symbol.get(
                                resolved.sym, cast(int, float("inf"))
                            )
                        ):
                            max_used_cell_ctr = max(
                                max_used_cell_ctr,
                                live_sym_updated_cell_ctr,
                                resolved.sym._override_ready_liveness_cell_num,
                            )
''', '''                    if used_cell_position > this_cell_pos:
                        continue
                    if min_allowed_cell_position_by_symbol is not None:
                        min_allowed = min_allowed_cell_position_by_symbol.get(
                            resolved.sym, cast(int, float("inf"))
                        )
                        if used_cell_position < min_allowed:
                            continue
                    max_used_cell_ctr = max(
                        max_used_cell_ctr,
                        live_sym_updated_cell_ctr,
                        resolved.sym._override_ready_liveness_cell_num,
                    )
'''),
('''    def get_max_used_live_symbol_cell_counter(''', '''    @staticmethod
    def _is_filtered_out(resolved, reactive_only: bool, cascading_only: bool) -> bool:
        if resolved.is_blocking:
            return True
        if cascading_only and not resolved.is_cascading_reactive:
            return True
        if not reactive_only:
            return False
        return not (resolved.is_reactive or flow().is_updated_reactive(resolved.sym))

    def get_max_used_live_symbol_cell_counter('''),
]),
("max_used_dead_helper", F, [
('''            for sym in dead_symbols or []:
                if not sym.is_import:
                    continue
                try:
                    module_symbol = flow_.global_scope.lookup_symbol_by_qualified_name(
                        sym.imported_module
                    )
                except (ValueError, TypeError):
                    module_symbol = None
                if module_symbol is None:
                    continue
                max_used_cell_ctr = max(
                    max_used_cell_ctr,
                    module_symbol._override_ready_liveness_cell_num,
                )
''', '''            if dead_symbols is not None:
                for sym in dead_symbols:
                    module_symbol = self._imported_module_symbol(sym)
                    if module_symbol is not None:
                        max_used_cell_ctr = max(
                            max_used_cell_ctr,
                            module_symbol._override_ready_liveness_cell_num,
                        )
'''),
('''    def get_max_used_live_symbol_cell_counter(''', '''    @staticmethod
    def _imported_module_symbol(sym: "Symbol"):
        if not sym.is_import:
            return None
        try:
            return flow().global_scope.lookup_symbol_by_qualified_name(
                sym.imported_module
            )
        except (ValueError, TypeError):
            return None

    def get_max_used_live_symbol_cell_counter('''),
]),
("check_resolve_loops", F, [
('''            modified_symbols |= set(
                subsym
                for subsym in sym.get_namespace_symbols(recurse=True)
                if not subsym._timestamp.is_initialized
            )
''', '''            for subsym in sym.get_namespace_symbols(recurse=True):
                if not subsym._timestamp.is_initialized:
                    modified_symbols.add(subsym)
'''),
('''            if resolved.is_deep:
                resolved.sym.cells_where_deep_live.add(self)
            else:
                resolved.sym.cells_where_shallow_live.add(self)
            self.add_used_cell_counter(resolved.sym, resolved.timestamp.cell_num)
        used_cells = {resolved.timestamp.cell_num for resolved in live_resolved_symbols}
''', '''            live_in = (
                resolved.sym.cells_where_deep_live
                if resolved.is_deep
                else resolved.sym.cells_where_shallow_live
            )
            live_in.add(self)
        used_cells = set()
        for resolved in live_resolved_symbols:
            ctr = resolved.timestamp.cell_num
            self.add_used_cell_counter(resolved.sym, ctr)
            used_cells.add(ctr)
'''),
]),
("check_resolve_writes", F, [
('''        if (
            self.last_check_content is None
            or self.last_check_content == self.current_content
        ):
            dead_symbols |= self.static_writes
            modified_symbols |= self.static_writes
''', '''        checked = self.last_check_content
        if checked is None or checked == self.current_content:
            for symbols_ in (dead_symbols, modified_symbols):
                symbols_.update(self.static_writes)
'''),
('''                live_symbol_refs = {
                    LiveSymbolRef.from_string(ref) for ref in self.override_live_refs
                }''', '''                live_symbol_refs = set(
                    map(LiveSymbolRef.from_string, self.override_live_refs)
                )'''),
]),
("reproduce_while", F, [
('''        cell_to_repro = self
        for _ in range(lookback):
            assert cell_to_repro.prev_cell is not None
            cell_to_repro = cell_to_repro.prev_cell
''', '''        cell_to_repro = self._version_before(lookback)
'''),
('''    def reproduce(''', '''    def _version_before(self, lookback: int) -> "Cell":
        version = self
        for _ in range(lookback):
            prev = version.prev_cell
            assert prev is not None
            version = prev
        return version

    def reproduce('''),
('''            print_ = print
            print_(cell_to_repro.executed_content or "")
            max_len = max(
                (
                    len(line)
                    for line in (cell_to_repro.executed_content or "").splitlines()
                ),
                default=0,
            )
            print_("-" * max_len)''', '''            content = cell_to_repro.executed_content or ""
            print_ = print
            print_(content)
            widths = [len(line) for line in content.splitlines()]
            print_("-" * max(widths, default=0))'''),
]),
("slice_early", F, [
('''        timestamps: Set[Timestamp] = set()
        for cell in slice_cells:
            timestamps |= cell._get_stmt_timestamps()
        return cast(''', '''        timestamps = {
            ts for cell in slice_cells for ts in cell._get_stmt_timestamps()
        }
        return cast('''),
('''        if stmts:
            return self.format_multi_slice(
                self.compute_slice_stmts(),
                blacken=True,
                seed_only=seed_only,
                format_type=format_type,
                include_cell_headers=include_cell_headers,
            )
        else:
            return self.format_slice(
                blacken=False,
                seed_only=seed_only,
                format_type=format_type,
                include_cell_headers=include_cell_headers,
            )''', '''        kwargs = dict(
            seed_only=seed_only,
            format_type=format_type,
            include_cell_headers=include_cell_headers,
        )
        if stmts:
            return self.format_multi_slice(
                self.compute_slice_stmts(), blacken=True, **kwargs
            )
        return self.format_slice(blacken=False, **kwargs)'''),
]),
("phantom_loop", F, [
('''        used_cell_counters_by_cell_id = defaultdict(set)
        used_cell_counters_by_cell_id[self.cell_id].add(self.exec_counter())
        for cell_num in used_cells:
            used_cell_counters_by_cell_id[self.at_timestamp(cell_num).cell_id].add(
                cell_num
            )
        return {
            cell_id: cell_execs
            for cell_id, cell_execs in used_cell_counters_by_cell_id.items()
            if len(cell_execs) >= 2
        }''', '''        counters_by_id: Dict[IdType, Set[int]] = {self.cell_id: {self.exec_counter()}}
        for cell_num in used_cells:
            used_id = self.at_timestamp(cell_num).cell_id
            counters_by_id.setdefault(used_id, set()).add(cell_num)
        return {cid: execs for cid, execs in counters_by_id.items() if len(execs) > 1}'''),
]),
]
