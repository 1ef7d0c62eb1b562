F = "data_model/symbol.py"
REFS = [
("version_ts_next", F, [
('''            max_leq_ubound = Timestamp.uninitialized()
            for ts in reversed(self._snapshot_timestamps):
                if ts <= version_ubound:
                    max_leq_ubound = ts
                    break
            if max_leq_ubound.is_initialized:
                timestamps = {max_leq_ubound}
            else:
                timestamps = set()
''', '''            latest = next(
                (
                    ts
                    for ts in reversed(self._snapshot_timestamps)
                    if not ts > version_ubound
                ),
                None,
            )
            if latest is None or not latest.is_initialized:
                timestamps = set()
            else:
                timestamps = {latest}
'''),
]),
("version_ts_early", F, [
('''        ns = self.namespace
        if ns is None:
            return timestamps
        if seen is None:
            seen = set()
        if self in seen:
            return timestamps
        seen.add(self)
        for sym in ns.all_symbols_this_indentation():
            timestamps |= sym._compute_namespace_timestamps(
                seen=seen, version_ubound=version_ubound
            )
        return timestamps
''', '''        seen = set() if seen is None else seen
        ns = self.namespace
        if ns is not None and self not in seen:
            seen.add(self)
            for member in ns.all_symbols_this_indentation():
                timestamps.update(
                    member._compute_namespace_timestamps(
                        version_ubound=version_ubound, seen=seen
                    )
                )
        return timestamps
'''),
]),
("ts_for_version", F, [
('''        if ts.cell_num == -1:
            return {Timestamp(self.defined_cell_num, ts.stmt_num)}
        else:
            return self._compute_namespace_timestamps(
                # members can be newer than the symbol's own update in its version
                version_ubound=(
                    None
                    if version == -1
                    else self._snapshot_timestamp_ubounds[version]
                )
            ) - {Timestamp.uninitialized()}
''', '''        if ts.cell_num == -1:
            return {Timestamp(self.defined_cell_num, ts.stmt_num)}
        ubound = None
        if version != -1:
            ubound = self._snapshot_timestamp_ubounds[version]
        timestamps = self._compute_namespace_timestamps(version_ubound=ubound)
        timestamps.discard(Timestamp.uninitialized())
        return timestamps
'''),
]),
("cascading_cellnum", F, [
('''        cell_num = self._cascading_reactive_cell_num
        ns = self.namespace
        ret = (
            cell_num
            if ns is None
            else max(
                cell_num,
                ns.max_cascading_reactive_cell_num(seen),
            )
        )
        if not consider_containing_symbols:
            return ret
        for sym in self.iter_containing_symbols():
            ret = max(ret, sym.cascading_reactive_cell_num(seen=seen))
        return ret
''', '''        ret = self._cascading_reactive_cell_num
        ns = self.namespace
        if ns is not None:
            ret = max(ret, ns.max_cascading_reactive_cell_num(seen))
        if consider_containing_symbols:
            for sym in self.iter_containing_symbols():
                containing_num = sym.cascading_reactive_cell_num(seen=seen)
                if containing_num > ret:
                    ret = containing_num
        return ret
'''),
('''        self._cascading_reactive_cell_num = max(
            self._cascading_reactive_cell_num,
            flow().cell_counter() if ctr is None else ctr,
        )''', '''        if ctr is None:
            ctr = flow().cell_counter()
        if ctr > self._cascading_reactive_cell_num:
            self._cascading_reactive_cell_num = ctr'''),
]),
("imported_helper", F, [
('''        if isinstance(self.stmt_node, ast.Import):
            for alias in self.stmt_node.names:
                name = alias.asname or alias.name
                if name == self.name:
                    return alias.name
            raise ValueError(
                "Unable to find module for symbol %s is stmt %s"
                % (self, ast.dump(self.stmt_node))
            )
        elif isinstance(self.stmt_node, ast.ImportFrom):
            assert''', '''        if isinstance(self.stmt_node, ast.Import):
            return self._name_imported_by(self.stmt_node)
        elif isinstance(self.stmt_node, ast.ImportFrom):
            assert'''),
('''            for alias in self.stmt_node.names:
                name = alias.asname or alias.name
                if name == self.name:
                    return alias.name
            raise ValueError(
                "Unable to find module for symbol %s is stmt %s"
                % (self, ast.dump(self.stmt_node))
            )
        else:
            raise TypeError(
                "Invalid stmt type for import symbol: %s" % None
                if self.stmt_node is None
                else ast.dump(self.stmt_node)
            )

    def is_cascading''', '''            return self._name_imported_by(self.stmt_node)
        else:
            raise TypeError(
                "Invalid stmt type for import symbol: %s" % None
                if self.stmt_node is None
                else ast.dump(self.stmt_node)
            )

    def _name_imported_by(self, stmt) -> str:
        for alias in stmt.names:
            bound_name = alias.name if not alias.asname else alias.asname
            if bound_name == self.name:
                return alias.name
        raise ValueError(
            "Unable to find module for symbol %s is stmt %s" % (self, ast.dump(stmt))
        )

    def is_cascading'''),
]),
("top_level_next", F, [
('''        if not self.containing_scope.is_namespace_scope:
            return self
        else:
            containing_scope = cast("Namespace", self.containing_scope)
            for alias in flow().aliases.get(containing_scope.obj_id, []):
                if alias.is_globally_accessible:
                    return alias.get_top_level()
            return None
''', '''        containing_ns = self.containing_namespace
        if containing_ns is None:
            return self
        candidates = flow().aliases.get(containing_ns.obj_id, [])
        accessible = next((a for a in candidates if a.is_globally_accessible), None)
        return None if accessible is None else accessible.get_top_level()
'''),
]),
("gen_top_level_ns", F, [
('''            if sym.containing_scope.is_namespace_scope:
                containing_ns = cast("Namespace", sym.containing_scope)
                worklist.extend(flow().aliases.get(containing_ns.obj_id, []))
            else:
                yield sym
''', '''            containing_ns = sym.containing_namespace
            if containing_ns is None:
                yield sym
                continue
            for alias in flow().aliases.get(containing_ns.obj_id, []):
                worklist.append(alias)
'''),
]),
("anonymous_expr", F, [
('''        if self.symbol_type == SymbolType.ANONYMOUS:
            return True
        ns = self.containing_namespace
        if ns is not None and ns.is_anonymous:
            return True
        return False
''', '''        if self.symbol_type == SymbolType.ANONYMOUS:
            return True
        ns = self.containing_namespace
        return ns is not None and ns.is_anonymous
'''),
('''        return (
            self.is_globally_accessible
            and not self.is_anonymous
            and not self.is_garbage
            and not (
                self.containing_namespace is not None
                and (
                    self.containing_namespace.is_anonymous
                    or self.containing_namespace.is_garbage
                )
            )
        )
''', '''        if not self.is_globally_accessible:
            return False
        if self.is_anonymous or self.is_garbage:
            return False
        ns = self.containing_namespace
        if ns is None:
            return True
        return not ns.is_anonymous and not ns.is_garbage
'''),
]),
("garbage_registered", F, [
('''        containing_ns = self.containing_namespace
        if self.is_subscript and containing_ns is not None:
            registered_syms: Dict[Any, "Symbol"] = containing_ns._subscript_symbol_by_name
        elif not self.is_subscript:
            registered_syms = self.containing_scope._symbol_by_name
        else:
            registered_syms = {}
            logger.warning(
                "could not find symbol %s in its scope %s", self, self.containing_scope
            )
        # the name may have been rebound to a different symbol in the meantime
        if registered_syms.get(self.name) is self:
            del registered_syms[self.name]
''', '''        registered_syms = self._registered_syms()
        # the name may have been rebound to a different symbol in the meantime
        if registered_syms.get(self.name) is self:
            registered_syms.pop(self.name)
'''),
('''    def collect_self_garbage(self)''', '''    def _registered_syms(self) -> Dict[Any, "Symbol"]:
        if not self.is_subscript:
            return self.containing_scope._symbol_by_name
        containing_ns = self.containing_namespace
        if containing_ns is not None:
            return containing_ns._subscript_symbol_by_name
        logger.warning(
            "could not find symbol %s in its scope %s", self, self.containing_scope
        )
        return {}

    def collect_self_garbage(self)'''),
('''        if ns is not None and all(alias.is_garbage for alias in self.aliases):
            ns.mark_garbage()
''', '''        if ns is None:
            return
        for alias in self.aliases:
            if not alias.is_garbage:
                return
        ns.mark_garbage()
'''),
]),
("objref_helper_observers", F, [
('''        if self._num_ipywidget_observers > 0:
            try:
                self.obj.unobserve_all()
            except Exception:
                pass
            self._num_ipywidget_observers = 0
        if self._num_mercury_widget_observers > 0:
            try:
                self._mercury_widgets_manager.get_widget(
                    self.obj.code_uid
                ).unobserve_all()
            except Exception:
                pass
            self._num_mercury_widget_observers = 0
''', '''        self._unobserve_widgets()
'''),
('''    def update_obj_ref(self, obj: Any''', '''    def _unobserve_widgets(self) -> None:
        if self._num_ipywidget_observers > 0:
            try:
                self.obj.unobserve_all()
            except Exception:
                pass
            self._num_ipywidget_observers = 0
        if self._num_mercury_widget_observers > 0:
            try:
                manager = self._mercury_widgets_manager
                manager.get_widget(self.obj.code_uid).unobserve_all()
            except Exception:
                pass
            self._num_mercury_widget_observers = 0

    def update_obj_ref(self, obj: Any'''),
]),
("objref_helper_rename", F, [
('''        if self.cached_obj_id is not None and self.cached_obj_id != self.obj_id:
            new_ns = flow().namespaces.get(self.obj_id, None)
            # don't overwrite existing namespace for this obj
            old_ns = flow().namespaces.get(self.cached_obj_id, None)
            if (
                old_ns is not None
                and old_ns.full_namespace_path == self.full_namespace_path
            ):
                if new_ns is None:
                    logger.info("create fresh copy of namespace %s", old_ns)
                    new_ns = old_ns.fresh_copy(obj)
                    old_ns.transfer_symbols_to(new_ns)
                else:
                    new_ns.scope_name = old_ns.scope_name
                    new_ns.parent_scope = old_ns.parent_scope
            self._handle_aliases()
            if (
                old_ns is not None
                and len(flow().aliases.get(self.cached_obj_id, [])) == 0
            ):
                old_ns.mark_garbage()
        if refresh_cached:
            self._refresh_cached_obj()
''', '''        if self.cached_obj_id is not None and self.cached_obj_id != self.obj_id:
            self._move_namespace(obj)
        if refresh_cached:
            self._refresh_cached_obj()

    def _move_namespace(self, obj: Any) -> None:
        flow_ = flow()
        old_id = self.cached_obj_id
        old_ns = flow_.namespaces.get(old_id)
        new_ns = flow_.namespaces.get(self.obj_id)
        same_path = (
            old_ns is not None
            and old_ns.full_namespace_path == self.full_namespace_path
        )
        if same_path and new_ns is not None:
            new_ns.parent_scope = old_ns.parent_scope
            new_ns.scope_name = old_ns.scope_name
        elif same_path:
            logger.info("create fresh copy of namespace %s", old_ns)
            old_ns.transfer_symbols_to(old_ns.fresh_copy(obj))
        self._handle_aliases()
        if old_ns is not None and not flow_.aliases.get(old_id):
            old_ns.mark_garbage()
'''),
]),
("cancel_propagation", F, [
('''        if (
            flow().blocked_reactive_timestamps_by_symbol.get(self, -1)
            == self.timestamp.cell_num
        ):
            return False
        if not self._cached_out_of_sync or self.obj_id == self.cached_obj_id:
            return True
        if self.obj is None or prev_obj is Symbol.NULL:
            return self.obj is None and prev_obj is Symbol.NULL
        return False
''', '''        blocked_ts = flow().blocked_reactive_timestamps_by_symbol.get(self, -1)
        if blocked_ts == self.timestamp.cell_num:
            return False
        same_obj = self.obj_id == self.cached_obj_id
        if same_obj or not self._cached_out_of_sync:
            return True
        return self.obj is None and prev_obj is Symbol.NULL
'''),
]),
("definition_args", F, [
('''        args = list(getattr(self.func_def_stmt.args, "posonlyargs", None) or [])
        for arg in self.func_def_stmt.args.args + self.func_def_stmt.args.kwonlyargs:
            args.append(arg)
        if self.func_def_stmt.args.vararg is not None:
            args.append(self.func_def_stmt.args.vararg)
        if self.func_def_stmt.args.kwarg is not None:
            args.append(self.func_def_stmt.args.kwarg)
        return args
''', '''        arguments = self.func_def_stmt.args
        args = list(getattr(arguments, "posonlyargs", None) or [])
        args.extend(arguments.args)
        args.extend(arguments.kwonlyargs)
        for variadic in (arguments.vararg, arguments.kwarg):
            if variadic is not None:
                args.append(variadic)
        return args
'''),
]),
("waiting_helper", F, [
('''        if self.disable_warnings or self._temp_disable_warnings:
            return False
        if self.waiting_timestamp < self.required_timestamp.cell_num:
            return True
        elif flow().min_timestamp == -1:
            return len(self.namespace_waiting_symbols) > 0
        else:
            # TODO: guard against infinite recurision
            return any(sym.is_waiting for sym in self.namespace_waiting_symbols)
''', '''        if self.disable_warnings or self._temp_disable_warnings:
            return False
        if self.is_shallow_stale:
            return True
        waiting_members = self.namespace_waiting_symbols
        if flow().min_timestamp == -1:
            return bool(waiting_members)
        # TODO: guard against infinite recurision
        for sym in waiting_members:
            if sym.is_waiting:
                return True
        return False
'''),
('''        if updated_dep is self:
            return False
        return True
''', '''        return updated_dep is not self
'''),
]),
("waiting_at_position", F, [
('''        if deep:
            if not self.is_waiting:
                return False
        else:
            if not self.is_shallow_stale:
                return False
        if flow().mut_settings.flow_order == FlowDirection.ANY_ORDER:
            return True
        if cells().exec_counter() > self._last_computed_ready_or_waiting_cache_ts:
            self._is_ready_or_waiting_at_position_cache.clear()
            self._last_computed_ready_or_waiting_cache_ts = cells().exec_counter()
        if (pos, deep) in self._is_ready_or_waiting_at_position_cache:
            return self._is_ready_or_waiting_at_position_cache[pos, deep]
        # preemptively set this entry to 'False' in the cache to avoid infinite loops
        self._is_ready_or_waiting_at_position_cache[pos, deep] = False
        is_waiting = self._is_ready_or_waiting_at_position_impl(pos, deep)
        self._is_ready_or_waiting_at_position_cache[pos, deep] = is_waiting
        return is_waiting
''', '''        is_stale = self.is_waiting if deep else self.is_shallow_stale
        if not is_stale:
            return False
        if flow().mut_settings.flow_order == FlowDirection.ANY_ORDER:
            return True
        exec_counter = cells().exec_counter()
        cache = self._is_ready_or_waiting_at_position_cache
        if exec_counter > self._last_computed_ready_or_waiting_cache_ts:
            self._last_computed_ready_or_waiting_cache_ts = exec_counter
            cache.clear()
        key = (pos, deep)
        if key not in cache:
            # preemptively set this entry to 'False' in the cache to avoid infinite loops
            cache[key] = False
            cache[key] = self._is_ready_or_waiting_at_position_impl(pos, deep)
        return cache[key]
'''),
]),
("waiting_impl_helper", F, [
('''        if deep:
            for sym in self.namespace_waiting_symbols:
                if sym.is_waiting_at_position(pos):
                    return True
        return False

    def is_waiting_at_position''', '''        return deep and any(
            sym.is_waiting_at_position(pos) for sym in self.namespace_waiting_symbols
        )

    def is_waiting_at_position'''),
('''                for updated_ts in par.updated_timestamps:
                    if cells().at_timestamp(updated_ts).position > dep_introduced_pos:
                        continue
                    if updated_ts''', '''                for updated_ts in par.updated_timestamps:
                    updated_pos = cells().at_timestamp(updated_ts).position
                    if dep_introduced_pos < updated_pos:
                        continue
                    if updated_ts'''),
]),
("simple_assign", F, [
('''        if not isinstance(self.stmt_node, (ast.Assign, ast.AnnAssign)):
            return False
        if len(new_deps) != 1:
            return False
        only_dep: Symbol = next(iter(new_deps))
''', '''        is_assign = isinstance(self.stmt_node, (ast.Assign, ast.AnnAssign))
        if not is_assign or len(new_deps) != 1:
            return False
        (only_dep,) = new_deps
'''),
]),
("update_deps_edges", F, [
('''        if overwrite:
            for parent in self.parents.keys() - new_deps:
                parent.children.pop(self, None)
                self.parents.pop(parent, None)

        for new_parent in new_deps - self.parents.keys():
            if new_parent is None:
                continue
            new_parent.children.setdefault(self, []).append(Timestamp.current())
            self.parents.setdefault(new_parent, []).append(Timestamp.current())
''', '''        if overwrite:
            for parent in list(self.parents):
                if parent not in new_deps:
                    parent.children.pop(self, None)
                    self.parents.pop(parent)

        self._link_to_parents(new_deps)
'''),
('''    def mutate(
''', '''    def _link_to_parents(self, new_deps: Set["Symbol"]) -> None:
        for new_parent in new_deps - self.parents.keys():
            if new_parent is not None:
                now = Timestamp.current()
                new_parent.children.setdefault(self, []).append(now)
                self.parents.setdefault(new_parent, []).append(now)

    def mutate(
'''),
]),
("update_deps_mut_virtual", F, [
('''        if (
            (mutated or overwrite)
            and Timestamp.current().is_initialized
            and not self.is_immutable
            and not self.is_mutation_virtual_symbol
            and self.is_globally_accessible
            and not self.is_underscore
            and not self.is_implicit
            and self.obj_type is not type
            and not self.is_class
            and self.namespace is not None
        ):
            self.namespace.upsert''', '''        if (mutated or overwrite) and self._needs_mutation_symbol():
            self.namespace.upsert'''),
('''    def mutate(
''', '''    def _needs_mutation_symbol(self) -> bool:
        if not Timestamp.current().is_initialized:
            return False
        if self.is_immutable or self.is_mutation_virtual_symbol:
            return False
        if self.is_underscore or self.is_implicit:
            return False
        if self.is_class or self.obj_type is type:
            return False
        return self.is_globally_accessible and self.namespace is not None

    def mutate(
'''),
]),
("update_deps_overwrite", F, [
('''        overwrite = overwrite and self not in new_deps
        overwrite = overwrite and not any(
            self in new_dep.parents for new_dep in new_deps
        )
''', '''        if overwrite and self in new_deps:
            overwrite = False
        if overwrite:
            for new_dep in new_deps:
                if self in new_dep.parents:
                    overwrite = False
                    break
'''),
('''        try:
            prev_cell = cells().current_cell().prev_cell
        except KeyError:
            prev_cell = None
        prev_cell_ctr = -1 if prev_cell is None else prev_cell.cell_ctr
''', '''        prev_cell_ctr = -1
        try:
            prev_cell = cells().current_cell().prev_cell
            if prev_cell is not None:
                prev_cell_ctr = prev_cell.cell_ctr
        except KeyError:
            pass
'''),
]),
("update_deps_cascade", F, [
('''        if is_cascading_reactive is not None:
            is_cascading_reactive = is_cascading_reactive or any(
                sym.is_cascading_reactive_at_counter(prev_cell_ctr) for sym in new_deps
            )
        if is_cascading_reactive:
            self.bump_cascading_reactive_cell_num()
''', '''        if is_cascading_reactive is not None and (
            is_cascading_reactive
            or any(
                sym.is_cascading_reactive_at_counter(prev_cell_ctr) for sym in new_deps
            )
        ):
            self.bump_cascading_reactive_cell_num()
'''),
('''            self.refresh(
                # rationale: if this is a mutation for which we have more precise information,
                # then we don't need to update the ns descendents as this will already have happened.
                # also don't update ns descendents for things like `a = b`
                refresh_descendent_namespaces=propagate
                and not (mutated and not propagate_to_namespace_descendents)
                and not self._is_underscore_or_simple_assign(new_deps),
            )
''', '''            # rationale: if this is a mutation for which we have more precise information,
            # then we don't need to update the ns descendents as this will already have happened.
            # also don't update ns descendents for things like `a = b`
            imprecise = not mutated or propagate_to_namespace_descendents
            self.refresh(
                refresh_descendent_namespaces=(
                    propagate
                    and imprecise
                    and not self._is_underscore_or_simple_assign(new_deps)
                ),
            )
'''),
]),
("update_deps_tail", F, [
('''        ns = self.namespace
        if ns is not None and isinstance(self.name, str):
            # fixup namespace name if necessary
            # can happen if symbol for 'self' was created in a previous __init__
            if ns.scope_name == "self":
                ns.scope_name = self.name
            if ns.original_symbol is not None and ns.original_symbol.name == "self":
                ns.original_symbol = self
        if overwrite and''', '''        self._fixup_namespace_name()
        if overwrite and'''),
('''    def mutate(
''', '''    def _fixup_namespace_name(self) -> None:
        # can happen if symbol for 'self' was created in a previous __init__
        ns = self.namespace
        if ns is None or not isinstance(self.name, str):
            return
        if ns.scope_name == "self":
            ns.scope_name = self.name
        original = ns.original_symbol
        if original is not None and original.name == "self":
            ns.original_symbol = self

    def mutate(
'''),
('''            try:
                pending_class_ns = tracer().pending_class_namespaces.pop()
                pending_class_ns.update_obj_ref(self.obj)
            except IndexError:
                pass
''', '''            pending = tracer().pending_class_namespaces
            if pending:
                pending.pop().update_obj_ref(self.obj)
'''),
]),
("usage_one_ts", F, [
('''        flow_ = flow()
        is_usage = is_static or updated_time < used_time
        if is_usage:
            with slicing_context(is_static=is_static):
                flow_.add_data_dep(
                    used_time,
                    updated_time,
                    self,
                )
        if is_static:
            is_usage = cells().at_timestamp(updated_time).is_visible
        return is_usage
''', '''        if not is_static and updated_time >= used_time:
            return False
        with slicing_context(is_static=is_static):
            flow().add_data_dep(used_time, updated_time, self)
        if not is_static:
            return True
        return cells().at_timestamp(updated_time).is_visible
'''),
]),
("usage_helper", F, [
('''        if not is_blocking:
            is_usage = False
            ts_to_use = self._initialized_timestamp
            for updated_ts in sorted(self.updated_timestamps, reverse=True):
                if not updated_ts.is_initialized:
                    continue
                is_usage = self.update_usage_info_one_timestamp(
                    used_time,
                    updated_ts,
                    is_static=is_static,
                )
                if is_usage or not is_static:
                    break
            if is_usage and used_time.is_initialized:
                timestamp_by_used_time[used_time] = ts_to_use
                if used_node is not None:
                    self.used_node_by_used_time[used_time] = used_node
''', '''        if not is_blocking:
            ts_to_use = self._initialized_timestamp
            is_usage = self._record_usage(used_time, is_static)
            if is_usage and used_time.is_initialized:
                timestamp_by_used_time[used_time] = ts_to_use
                if used_node is not None:
                    self.used_node_by_used_time[used_time] = used_node
'''),
('''    def update_usage_info(
''', '''    def _record_usage(self, used_time: Timestamp, is_static: bool) -> bool:
        is_usage = False
        for updated_ts in sorted(self.updated_timestamps, reverse=True):
            if updated_ts.is_initialized:
                is_usage = self.update_usage_info_one_timestamp(
                    used_time, updated_ts, is_static=is_static
                )
                if is_usage or not is_static:
                    break
        return is_usage

    def update_usage_info(
'''),
]),
("usage_inline_dict", F, [
('''        timestamp_by_used_time = (
            self.timestamp_by_liveness_time
            if is_static
            else self.timestamp_by_used_time
        )
''', '''        if is_static:
            timestamp_by_used_time = self.timestamp_by_liveness_time
        else:
            timestamp_by_used_time = self.timestamp_by_used_time
'''),
('''        if exclude_ns:
            return self
        for sym in self.get_namespace_symbols(recurse=True):
            sym.update_usage_info(
                used_time=used_time,
                used_node=None,
                exclude_ns=True,
                is_static=is_static,
                is_blocking=is_blocking,
            )
        return self
''', '''        if not exclude_ns:
            for member in self.get_namespace_symbols(recurse=True):
                member.update_usage_info(
                    used_time=used_time,
                    exclude_ns=True,
                    is_static=is_static,
                    is_blocking=is_blocking,
                )
        return self
'''),
]),
("refresh_helper", F, [
('''        ns = self.containing_namespace
        if ns is not None:
            # logger.error("bump version of %s due to %s (value %s)", ns.full_path, self.full_path, self.obj)
            ns.max_descendent_timestamp = max(
                ns.max_descendent_timestamp, self._timestamp
            )
            flow_ = flow()
            for alias in flow_.aliases.get(ns.obj_id, []):
                for cell in alias.cells_where_deep_live:
                    cell.add_used_cell_counter(alias, self._timestamp.cell_num)
        self.namespace_waiting''', '''        self._bump_containing_namespace()
        self.namespace_waiting'''),
('''    def refresh(
''', '''    def _bump_containing_namespace(self) -> None:
        ns = self.containing_namespace
        if ns is None:
            return
        ts = self._timestamp
        if ts > ns.max_descendent_timestamp:
            ns.max_descendent_timestamp = ts
        for alias in flow().aliases.get(ns.obj_id, []):
            for cell in alias.cells_where_deep_live:
                cell.add_used_cell_counter(alias, ts.cell_num)

    def refresh(
'''),
]),
("refresh_tail", F, [
('''        if not refresh_descendent_namespaces:
            return
        if seen is None:
            seen = set()
        seen.add(self)
        ns = self.namespace
        if ns is None:
            return
''', '''        if not refresh_descendent_namespaces:
            return
        seen = set() if seen is None else seen
        seen.add(self)
        ns = self.namespace
        if ns is None:
            return
'''),
('''        if take_timestamp_snapshots and (
            orig_timestamp < self._timestamp or len(self._snapshot_timestamps) == 0
        ):
            self._take''', '''        is_new = orig_timestamp < self._timestamp
        if take_timestamp_snapshots and (is_new or not self._snapshot_timestamps):
            self._take'''),
]),
("resync_helper", F, [
('''            for alias in aliases_to_check:
                if alias.is_implicit_virtual:
                    continue
                containing_namespace = alias.containing_namespace
                if containing_namespace is None:
                    continue
                containing_obj = containing_namespace.obj
                if containing_obj is None:
                    continue
                # TODO: handle dict case too
                if isinstance(containing_obj, list) and containing_obj[-1] is obj:
                    containing_namespace._subscript_symbol_by_name.pop(alias.name, None)
                    alias.name = len(containing_obj) - 1
                    alias.update_obj_ref(obj)
                    containing_namespace._subscript_symbol_by_name[alias.name] = alias
''', '''            for alias in aliases_to_check:
                alias._resync_in_list(obj)
'''),
('''    def resync_if_necessary(''', '''    def _resync_in_list(self, obj: Any) -> None:
        if self.is_implicit_virtual:
            return
        containing_namespace = self.containing_namespace
        if containing_namespace is None:
            return
        # TODO: handle dict case too
        lst = containing_namespace.obj
        if isinstance(lst, list) and lst[-1] is obj:
            subscripts = containing_namespace._subscript_symbol_by_name
            subscripts.pop(self.name, None)
            self.name = len(lst) - 1
            self.update_obj_ref(obj)
            subscripts[self.name] = self

    def resync_if_necessary('''),
]),
("resync_reorder", F, [
('''            flow_ = flow()
            if len(flow_.aliases.get(id(obj), [])) == 0:
                aliases_to_check = flow_.aliases.get(
                    self.cached_obj_id or -1, set()
                ) | flow_.aliases.get(self.obj_id, set())
            else:
                aliases_to_check = set()
''', '''            flow_ = flow()
            aliases_to_check: Set["Symbol"] = set()
            if not flow_.aliases.get(id(obj)):
                aliases_to_check.update(
                    flow_.aliases.get(self.cached_obj_id or -1, ())
                )
                aliases_to_check.update(flow_.aliases.get(self.obj_id, ()))
'''),
('''        elif self.obj_len != self.cached_obj_len:
            self._refresh_cached_obj()
        else:
            return
        if refresh:
            self.refresh()
''', '''        else:
            if self.obj_len == self.cached_obj_len:
                return
            self._refresh_cached_obj()
        if refresh:
            self.refresh()
'''),
]),
("list_eq_all", F, [
('''            if not isinstance(comp2, tuple) or comp1[0] is not comp2[0]:
                return False
            lst1, lst2 = comp1[1], comp2[1]
            if len(lst1) != len(lst2):
                return False
            for eq, obj1, obj2 in zip(eqs, lst1, lst2):
                if not eq(obj1, obj2):
                    return False
            return True
''', '''            if not isinstance(comp2, tuple):
                return False
            type1, lst1 = comp1
            if type1 is not comp2[0] or len(lst1) != len(comp2[1]):
                return False
            return all(
                eq(obj1, obj2) for eq, obj1, obj2 in zip(eqs, lst1, comp2[1])
            )
'''),
('''        try:
            return (
                type(obj1) is type(obj2)
                and obj1.dtype == obj2.dtype
                and bool(np.array_equal(obj1, obj2))
            )
        except Exception:
            return False
''', '''        if type(obj1) is not type(obj2):
            return False
        try:
            if obj1.dtype != obj2.dtype:
                return False
            return bool(np.array_equal(obj1, obj2))
        except Exception:
            return False
'''),
]),
("memo_comparable_helper", F, [
('''        if isinstance(obj, (dict, frozenset, list, set, tuple)):
            size = 0
            comp = []''', '''        if isinstance(obj, (dict, frozenset, list, set, tuple)):
            return cls._make_container_comparable(obj, seen_ids)
        elif getattr(obj, "__closure__", None):
            # the definition alone does not determine the behavior
            return cls.NULL, None, -1
        elif type(obj) in (type, FunctionType):
            # try to determine it based on the symbol
            for sym in flow().aliases.get(id(obj), []):
                comp, eq = sym.make_memoize_comparable(seen_ids=seen_ids)
                if comp is not cls.NULL and eq is not None:
                    return comp, eq, 1
            return cls.NULL, None, -1
        return cls._make_library_comparable(obj)

    @classmethod
    def _make_container_comparable(cls, obj: Any, seen_ids: Set[int]):
        if True:
            size = 0
            comp = []'''),
('''            return ret, iter_eq, size
        elif getattr(obj, "__closure__", None):
            # the definition alone does not determine the behavior
            return cls.NULL, None, -1
        elif type(obj) in (type, FunctionType):
            # try to determine it based on the symbol
            for sym in flow().aliases.get(id(obj), []):
                comp, eq = sym.make_memoize_comparable(seen_ids=seen_ids)
                if comp is not cls.NULL and eq is not None:
                    return comp, eq, 1
            return cls.NULL, None, -1
        else:
''', '''            return ret, iter_eq, size

    @classmethod
    def _make_library_comparable(cls, obj: Any):
        if True:
'''),
]),
("memo_comparable_def", F, [
('''        obj, eq, size = self.make_memoize_comparable_for_obj(self.obj, seen_ids)
        if size > self._MAX_MEMOIZE_COMPARABLE_SIZE:
            return self.NULL, None
        else:
            return obj, eq
''', '''        comparable = self.make_memoize_comparable_for_obj(self.obj, seen_ids)
        too_large = comparable[2] > self._MAX_MEMOIZE_COMPARABLE_SIZE
        return (self.NULL, None) if too_large else comparable[:2]
'''),
('''        if isinstance(
            self.stmt_node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)
        ):
            if self.timestamp.cell_num != self.shallow_timestamp.cell_num:
                # something was changed since the definition
                return self.NULL, None
            comps''', '''        definitions = (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)
        if isinstance(self.stmt_node, definitions):
            changed_since = self.timestamp.cell_num != self.shallow_timestamp.cell_num
            if changed_since:
                return self.NULL, None
            comps'''),
]),
("observe_split", F, [
('''        if msg.get("name") != "value" or "new" not in msg:
            return
        ns = self.namespace
        if ns is None:
            return
        sym = ns.lookup_symbol_by_name_this_indentation("value")
        if sym is None:
            return
''', '''        if "new" not in msg:
            return
        if msg.get("name") != "value":
            return
        ns = self.namespace
        sym = (
            None if ns is None else ns.lookup_symbol_by_name_this_indentation("value")
        )
        if sym is None:
            return
'''),
('''        if (
            Widget is None
            or self.is_obj_lazy_module
            or not isinstance(self.obj, Widget)
            or not hasattr(self.obj, "observe")
            or not hasattr(self.obj, "value")
        ):
            return
''', '''        if Widget is None or self.is_obj_lazy_module:
            return
        if not isinstance(self.obj, Widget):
            return
        if not all(hasattr(self.obj, attr) for attr in ("observe", "value")):
            return
'''),
]),
]
