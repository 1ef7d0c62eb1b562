F = "data_model/statement.py"
U = "data_model/utils/update_protocol.py"
N = "data_model/namespace.py"
REFS = [
("override_helper", F, [
('''            prev = cls.at_timestamp(timestamp)
            all_with_prev_id = cls._stmts_by_id.pop(prev.id)
            assert len(all_with_prev_id) == 1
            assert not cls.has_id(stmt.stmt_id)
            cls._stmts_by_ts[stmt.timestamp] = [stmt]
            cls._stmts_by_id[stmt.stmt_id] = [stmt]
            for _ in SlicingContext.iter_slicing_contexts():
                for cid in list(prev.raw_children.keys()):
                    cls.from_id(cid).replace_parent_edges(prev, stmt)
                for pid in list(prev.raw_parents.keys()):
                    cls.from_id(pid).replace_child_edges(prev, stmt)
''', '''            cls._replace_stmt(cls.at_timestamp(timestamp), stmt)
'''),
('''    def is_module_stmt(self)''', '''    @classmethod
    def _replace_stmt(cls, prev: "Statement", stmt: "Statement") -> None:
        all_with_prev_id = cls._stmts_by_id.pop(prev.id)
        assert len(all_with_prev_id) == 1
        assert not cls.has_id(stmt.stmt_id)
        cls._stmts_by_id[stmt.stmt_id] = [stmt]
        cls._stmts_by_ts[stmt.timestamp] = [stmt]
        for _ in SlicingContext.iter_slicing_contexts():
            for parent_id in list(prev.raw_parents):
                cls.from_id(parent_id).replace_child_edges(prev, stmt)
            for child_id in list(prev.raw_children):
                cls.from_id(child_id).replace_parent_edges(prev, stmt)

    def is_module_stmt(self)'''),
]),
("deferred_pop", F, [
('''        with static_slicing_context():
            for parent, syms in (
                flow().stmt_deferred_static_parents.get(stmt.timestamp, {}).items()
            ):
                stmt.add_parent_edges(parent, syms)
        flow().stmt_deferred_static_parents.pop(stmt.timestamp, None)
        return stmt
''', '''        deferred = flow().stmt_deferred_static_parents.pop(stmt.timestamp, {})
        with static_slicing_context():
            for parent, syms in deferred.items():
                stmt.add_parent_edges(parent, syms)
        return stmt
'''),
('''        if isinstance(ts, Timestamp):
            ts_to_use = ts
        else:
            ts_to_use = Timestamp(ts, stmt_num)
        return cls._stmts_by_ts[ts_to_use][0]
''', '''        key = ts if isinstance(ts, Timestamp) else Timestamp(ts, stmt_num)
        first, *_ = cls._stmts_by_ts[key]
        return first
'''),
('''        return len(cls._stmts_by_id.get(stmt_id, [])) > 0
''', '''        return bool(cls._stmts_by_id.get(stmt_id))
'''),
]),
("cascading_cached", F, [
('''        if self._stmt_contains_cascading_reactive_rval is None:
            self._stmt_contains_cascading_reactive_rval = (
                stmt_contains_cascading_reactive_rval(self.stmt_node)
            )
        return self._stmt_contains_cascading_reactive_rval
''', '''        cached = self._stmt_contains_cascading_reactive_rval
        if cached is not None:
            return cached
        cached = stmt_contains_cascading_reactive_rval(self.stmt_node)
        self._stmt_contains_cascading_reactive_rval = cached
        return cached
'''),
]),
("call_scope_helper", F, [
('''        if not self.finished:
            prev_call_scope = func_sym.call_scope
            # we need a new scope upon call to prevent picking up outer scope's overwritten nonlocals
            new_call_scope = prev_call_scope.parent_scope.make_child_scope(  # type: ignore[union-attr]
                func_sym.name
            )
            if prev_call_scope.symtab is not None:
                # we need to keep the previous call scope's symtab since it came from the function's containing scope
                new_call_scope.symtab = prev_call_scope.symtab
            func_sym.call_scope = new_call_scope
            func_sym.create_symbols_for_call_args(call_frame)
        return func_sym.call_scope
''', '''        if self.finished:
            return func_sym.call_scope
        # we need a new scope upon call to prevent picking up outer scope's overwritten nonlocals
        func_sym.call_scope = self._make_call_scope(func_sym)
        func_sym.create_symbols_for_call_args(call_frame)
        return func_sym.call_scope

    @staticmethod
    def _make_call_scope(func_sym: Symbol) -> Scope:
        prev_call_scope = func_sym.call_scope
        new_call_scope = prev_call_scope.parent_scope.make_child_scope(func_sym.name)
        if prev_call_scope.symtab is not None:
            # we need to keep the previous call scope's symtab since it came from the function's containing scope
            new_call_scope.symtab = prev_call_scope.symtab
        return new_call_scope
'''),
]),
("reactive_store_helper", F, [
('''                if resolved.is_blocking:
                    blocking_seen = True
                if resolved.is_reactive and not blocking_seen:
                    if resolved.is_cascading_reactive:
                        flow().updated_deep_reactive_symbols.add(resolved.sym)
                    else:
                        flow().updated_deep_reactive_symbols_last_cell.add(resolved.sym)
                    reactive_seen = True
                    if not resolved.is_live and resolved.atom.is_cascading_reactive:
                        resolved.sym.bump_cascading_reactive_cell_num()
                    if resolved.is_last:
                        resolved.sym.refresh()
                if reactive_seen and not blocking_seen:
                    if resolved.is_cascading_reactive:
                        flow().updated_reactive_symbols.add(resolved.sym)
                    else:
                        flow().updated_reactive_symbols_last_cell.add(resolved.sym)
                if blocking_seen and resolved.sym not in flow().updated_symbols:
                    flow().blocked_reactive_timestamps_by_symbol[
                        resolved.sym
                    ] = flow().cell_counter()
''', '''                flow_ = flow()
                sym = resolved.sym
                blocking_seen = blocking_seen or resolved.is_blocking
                if blocking_seen:
                    if sym not in flow_.updated_symbols:
                        flow_.blocked_reactive_timestamps_by_symbol[
                            sym
                        ] = flow_.cell_counter()
                    continue
                if resolved.is_reactive:
                    deep_updated = (
                        flow_.updated_deep_reactive_symbols
                        if resolved.is_cascading_reactive
                        else flow_.updated_deep_reactive_symbols_last_cell
                    )
                    deep_updated.add(sym)
                    reactive_seen = True
                    if resolved.atom.is_cascading_reactive and not resolved.is_live:
                        sym.bump_cascading_reactive_cell_num()
                    if resolved.is_last:
                        sym.refresh()
                if not reactive_seen:
                    continue
                if resolved.is_cascading_reactive:
                    flow_.updated_reactive_symbols.add(sym)
                else:
                    flow_.updated_reactive_symbols_last_cell.add(sym)
'''),
]),
("assign_target_both_ways", F, [
('''        subscript_vals_to_use = [is_subscript]
        if scope.is_namespace_scope:
            namespace = cast(Namespace, scope)
            for modname, classname in DUPED_ATTRSUB_CLASSES:
                module = sys.modules.get(modname)
                if module is None:
                    continue
                clazz = getattr(module, classname, None)
                if clazz is None:
                    continue
                if isinstance(namespace.obj, clazz) and name in namespace.obj.columns:
                    subscript_vals_to_use.append(not is_subscript)
                    break
        for subscript_val''', '''        subscript_vals_to_use = [is_subscript]
        if scope.is_namespace_scope and self._is_duped_attrsub(
            cast(Namespace, scope), name
        ):
            subscript_vals_to_use.append(not is_subscript)
        for subscript_val'''),
('''    def _handle_store_target_tuple_unpack_from_deps(''', '''    @staticmethod
    def _is_duped_attrsub(namespace: Namespace, name) -> bool:
        for modname, classname in DUPED_ATTRSUB_CLASSES:
            clazz = getattr(sys.modules.get(modname), classname, None)
            if clazz is None or not isinstance(namespace.obj, clazz):
                continue
            if name in namespace.obj.columns:
                return True
        return False

    def _handle_store_target_tuple_unpack_from_deps(''', 0),
]),
("assign_target_fixup", F, [
('''        self._handle_reactive_store(target)
        if maybe_fixup_literal_namespace:
            namespace_for_upsert = flow().namespaces.get(id(obj), None)
            if namespace_for_upsert is not None and namespace_for_upsert.is_anonymous:
                namespace_for_upsert.scope_name = str(name)
                namespace_for_upsert.parent_scope = scope
''', '''        self._handle_reactive_store(target)
        if not maybe_fixup_literal_namespace:
            return
        obj_ns = flow().namespaces.get(id(obj))
        if obj_ns is None or not obj_ns.is_anonymous:
            return
        obj_ns.parent_scope = scope
        obj_ns.scope_name = str(name)
'''),
]),
("assign_target_resolve_helper", F, [
('''            # if flow().is_test:
            #     raise ke
            self._handle_mutated_container(target, deps)
            return
        if iter_namespace is not None:
            iter_namespace.upsert_symbol_for_name(
                Symbol.IPYFLOW_ITER_VIRTUAL_SYMBOL_NAME,
                obj,
                set(),
                is_anonymous=True,
                propagate=False,
                implicit=True,
            )
''', '''            # if flow().is_test:
            #     raise ke
            self._handle_mutated_container(target, deps)
            return
        if iter_namespace is not None:
            self._upsert_iter_symbol(iter_namespace, obj)
'''),
('''    def _handle_store_target_tuple_unpack_from_deps(''', '''    @staticmethod
    def _upsert_iter_symbol(iter_namespace: Namespace, obj) -> None:
        iter_namespace.upsert_symbol_for_name(
            Symbol.IPYFLOW_ITER_VIRTUAL_SYMBOL_NAME,
            obj,
            set(),
            is_anonymous=True,
            propagate=False,
            implicit=True,
        )

    def _handle_store_target_tuple_unpack_from_deps(''', 0),
]),
("starred_filter", F, [
('''        for i, inner_dep in enumerate(inner_deps):
            if inner_dep is None:
                continue
            ns.upsert_symbol_for_name(
                i,
                inner_dep.obj,
                {inner_dep} | extra_deps,
                self.stmt_node,
                is_subscript=True,
                is_cascading_reactive=self.stmt_contains_cascading_reactive_rval,
            )
        sym = scope.upsert_symbol_for_name(
            name,
            obj,
            deps if None in inner_deps else extra_deps,
''', '''        has_unknown = False
        for i, inner_dep in enumerate(inner_deps):
            if inner_dep is None:
                has_unknown = True
            else:
                ns.upsert_symbol_for_name(
                    i,
                    inner_dep.obj,
                    extra_deps | {inner_dep},
                    self.stmt_node,
                    is_subscript=True,
                    is_cascading_reactive=self.stmt_contains_cascading_reactive_rval,
                )
        sym = scope.upsert_symbol_for_name(
            name,
            obj,
            deps if has_unknown else extra_deps,
'''),
('''        ns_was_none = ns is None
        if ns is None:
            ns = Namespace(obj, str(name), parent_scope=scope)
''', '''        ns_was_none = ns is None
        if ns_was_none:
            ns = Namespace(obj, str(name), parent_scope=scope)
'''),
('''        if ns_was_none and ns is not None:
            ns.original_symbol = sym
''', '''        if ns_was_none:
            ns.original_symbol = sym
'''),
]),
("unpack_ns_helper", F, [
('''            if isinstance(inner_target, (ast.List, ast.Tuple)):
                inner_namespace = flow().namespaces.get(inner_dep.obj_id)
                if is_for or not self._can_unpack_from_namespace(inner_namespace):
                    self._handle_store_target_tuple_unpack_from_deps(
                        inner_target, inner_deps, iter_namespace=iter_namespace
                    )
                else:
                    self._handle_store_target_tuple_unpack_from_namespace(
                        inner_target,
                        cast(Namespace, inner_namespace),
                        inner_deps,
                        extra_deps,
                    )
            else:
                self._handle_assign_target_for_deps(
                    inner_target,
                    inner_deps,
                    iter_namespace=iter_namespace,
                    maybe_fixup_literal_namespace=True,
                )
''', '''            if not isinstance(inner_target, (ast.List, ast.Tuple)):
                self._handle_assign_target_for_deps(
                    inner_target,
                    inner_deps,
                    iter_namespace=iter_namespace,
                    maybe_fixup_literal_namespace=True,
                )
                continue
            inner_namespace = flow().namespaces.get(inner_dep.obj_id)
            can_unpack = self._can_unpack_from_namespace(inner_namespace)
            if can_unpack and not is_for:
                self._handle_store_target_tuple_unpack_from_namespace(
                    inner_target,
                    cast(Namespace, inner_namespace),
                    inner_deps,
                    extra_deps,
                )
            else:
                self._handle_store_target_tuple_unpack_from_deps(
                    inner_target, inner_deps, iter_namespace=iter_namespace
                )
'''),
]),
("store_target_iter_next", F, [
('''        iter_symbol = None
        if is_for:
            for dep in deps:
                if dep.obj is saved_assign_rhs_obj:
                    iter_symbol = dep
                    break
''', '''        iter_symbol = None
        if is_for:
            iter_symbol = next(
                (dep for dep in deps if dep.obj is saved_assign_rhs_obj), None
            )
'''),
('''            if not is_for or isinstance(saved_assign_rhs_obj, (enumerate, zip)):
                rhs_namespace = flow().namespaces.get(id(saved_assign_rhs_obj))
            else:
                # if we're in a for loop and the loop iter is not a special case of an enumerate or a zip, don't try to
                # unpack from the namespace for the individual loop variables -- this very namespace is where we will
                # end up inserting the virtual iteration symbol for mutation propagation, and we want such mutations to
                # propagate to all loop vars.
                rhs_namespace = None
''', '''            rhs_namespace = None
            if not is_for or isinstance(saved_assign_rhs_obj, (enumerate, zip)):
                rhs_namespace = flow().namespaces.get(id(saved_assign_rhs_obj))
'''),
]),
("store_target_extra_deps", F, [
('''                extra_deps: Set[Symbol] = set()
                if isinstance(value, ast.Call):
                    # in this case, every target should depend on whatever was called
                    extra_deps = deps
                self''', '''                # if this is a call, every target should depend on whatever was called
                extra_deps = deps if isinstance(value, ast.Call) else set()
                self'''),
('''        if isinstance(target, (ast.List, ast.Tuple)):
            if not is_for''', '''        iter_namespace = None if iter_symbol is None else iter_symbol.namespaced()
        if isinstance(target, (ast.List, ast.Tuple)):
            if not is_for'''),
('''                    iter_namespace=(
                        None if iter_symbol is None else iter_symbol.namespaced()
                    ),
''', '''                    iter_namespace=iter_namespace,
'''),
('''                iter_namespace=(
                    None if iter_symbol is None else iter_symbol.namespaced()
                ),
            )

    def _handle_store(''', '''                iter_namespace=iter_namespace,
            )

    def _handle_store('''),
]),
("lval_flags", F, [
('''        should_overwrite = not isinstance(self.stmt_node, ast.AugAssign)
        is_function_def = isinstance(
            self.stmt_node, (ast.FunctionDef, ast.AsyncFunctionDef)
        )
        is_class_def = isinstance(self.stmt_node, ast.ClassDef)
        is_import = isinstance(self.stmt_node, (ast.Import, ast.ImportFrom))
''', '''        node = self.stmt_node
        should_overwrite = not isinstance(node, ast.AugAssign)
        is_function_def = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef))
        is_class_def = isinstance(node, ast.ClassDef)
        is_import = isinstance(node, (ast.Import, ast.ImportFrom))
'''),
('''                if isinstance(
                    self.stmt_node,
                    (
                        ast.FunctionDef,
                        ast.ClassDef,
                        ast.AsyncFunctionDef,
                        ast.Import,
                        ast.ImportFrom,
                    ),
                ):
                    self._handle''', '''                if is_function_def or is_class_def or is_import:
                    self._handle'''),
]),
("lval_import_helper", F, [
('''                if isinstance(self.stmt_node, ast.ImportFrom):
                    modname = self.stmt_node.module or ""
                    module = sys.modules.get(
                        f"{modname}.{dep_node_as_alias.name}"
                    ) or sys.modules.get(modname)
                    if module is not None and self.frame.f_locals is shell().user_ns:  # type: ignore[union-attr]
                        for alias in self.stmt_node.names:
                            if alias.name == "*":
                                flow().starred_import_modules.add(module.__name__)
                                break
                else:
                    module = sys.modules.get(dep_node_as_alias.name)
''', '''                module = self._imported_module(dep_node_as_alias)
'''),
('''    def _make_lval_symbols_old(self)''', '''    def _imported_module(self, alias_node: ast.alias):
        if not isinstance(self.stmt_node, ast.ImportFrom):
            return sys.modules.get(alias_node.name)
        modname = self.stmt_node.module or ""
        module = sys.modules.get(f"{modname}.{alias_node.name}")
        if not module:
            module = sys.modules.get(modname)
        if module is not None and self.frame.f_locals is shell().user_ns:
            if any(alias.name == "*" for alias in self.stmt_node.names):
                flow().starred_import_modules.add(module.__name__)
        return module

    def _make_lval_symbols_old(self)'''),
]),
("lval_import_module_sym", F, [
('''                if module not in (None, builtins):
                    module_sym = tracer().create_if_not_exists_module_symbol(
                        module,
                        self.stmt_node,
                        is_load=False,
                        is_named=dep_node_as_alias.asname is None,
                    )
                    if module_sym is not None:
                        rval_deps.update(flow().aliases.get(module_sym.obj_id, set()))
                target_as_str = cast(str, target)
                if target_as_str == "*" or "." in target_as_str:
                    continue
''', '''                if module is not None and module is not builtins:
                    module_sym = tracer().create_if_not_exists_module_symbol(
                        module,
                        self.stmt_node,
                        is_load=False,
                        is_named=dep_node_as_alias.asname is None,
                    )
                    if module_sym is not None:
                        rval_deps |= flow().aliases.get(module_sym.obj_id, set())
                if target == "*" or "." in cast(str, target):
                    continue
'''),
]),
("delete_split", F, [
('''            try:
                scope, obj, name, is_subscript = tracer().resolve_del_data_for_target(
                    target
                )
                scope.delete_symbol_for_name(name, is_subscript=is_subscript)
            except KeyError as e:
                # this will happen if, e.g., a __delitem__ triggered a call
                # logger.info("got key error while trying to handle %s: %s", ast.dump(self.stmt_node), e)
                logger.info("got key error: %s", e)
                self._handle_mutated_container(target, set())
''', '''            self._handle_delete_target(target)

    def _handle_delete_target(self, target: ast.AST) -> None:
        try:
            scope, _obj, name, is_sub = tracer().resolve_del_data_for_target(target)
            scope.delete_symbol_for_name(name, is_subscript=is_sub)
        except KeyError as e:
            # this will happen if, e.g., a __delitem__ triggered a call
            logger.info("got key error: %s", e)
            self._handle_mutated_container(target, set())
'''),
]),
("hook_watchpoints", F, [
('''        if self._finished:
            return
        self.handle_dependencies()
        with tracer().dataflow_tracing_disabled():
            for sym in list(tracer().this_stmt_updated_symbols):
                passing_watchpoints = sym.watchpoints(
                    sym.obj,
                    position=(
                        flow().get_position(self.frame)[0],  # type: ignore[arg-type]
                        self.lineno,
                    ),
                    symbol_name=sym.readable_name,
                )
                if passing_watchpoints:
                    flow().active_watchpoints.append((passing_watchpoints, sym))
        self.mark_finished()
''', '''        if not self._finished:
            self.handle_dependencies()
            self._check_watchpoints()
            self.mark_finished()

    def _check_watchpoints(self) -> None:
        with tracer().dataflow_tracing_disabled():
            for sym in tuple(tracer().this_stmt_updated_symbols):
                passing = sym.watchpoints(
                    sym.obj,
                    position=(flow().get_position(self.frame)[0], self.lineno),
                    symbol_name=sym.readable_name,
                )
                if not passing:
                    continue
                flow().active_watchpoints.append((passing, sym))
'''),
]),
("handle_deps_else", F, [
('''        if self._contains_lval():
            self._make_lval_symbols()
        elif isinstance(self.stmt_node, ast.Delete):
            self._handle_delete()
        else:
            # make sure usage timestamps get bumped
            resolve_rval_symbols(self.stmt_node)
''', '''        if self._contains_lval():
            self._make_lval_symbols()
            return
        if isinstance(self.stmt_node, ast.Delete):
            self._handle_delete()
            return
        # make sure usage timestamps get bumped
        resolve_rval_symbols(self.stmt_node)
'''),
]),
("up_directly", U, [
('''        directly_updated_symbols = (
            set(flow().aliases[self.updated_sym.obj_id])
            if mutated
            else {self.updated_sym}
        )
        directly_updated_symbols |= self._maybe_get_duped_attrsub_updated_syms()
''', '''        directly_updated_symbols = self._maybe_get_duped_attrsub_updated_syms()
        if mutated:
            directly_updated_symbols.update(flow().aliases[self.updated_sym.obj_id])
        else:
            directly_updated_symbols.add(self.updated_sym)
'''),
]),
("up_refresh_comp", U, [
('''        if refresh:
            for updated_sym in directly_updated_symbols:
                if not updated_sym.is_waiting and updated_sym is not self.updated_sym:
                    updated_sym.refresh()
        self.seen |= new_deps  # don't propagate to stuff on RHS
''', '''        if refresh:
            for other in directly_updated_symbols - {self.updated_sym}:
                if not other.is_waiting:
                    other.refresh()
        self.seen.update(new_deps)  # don't propagate to stuff on RHS
'''),
('''        updated_symbols_with_ancestors = set(self.seen)
''', '''        updated_symbols_with_ancestors = list(self.seen)
'''),
('''        tracer().this_stmt_updated_symbols |= self.seen
''', '''        tracer().this_stmt_updated_symbols.update(self.seen)
'''),
]),
("up_collect_guard", U, [
('''            if sym.is_import or sym in self.seen:
                continue
            # TODO: why was this present before?
            # sym.updated_timestamps.add(Timestamp.current())
            sym.required_timestamp = Timestamp.uninitialized()
            self.seen.add(sym)
''', '''            if sym in self.seen:
                continue
            if sym.is_import:
                continue
            self.seen.add(sym)
            # TODO: why was this present before?
            # sym.updated_timestamps.add(Timestamp.current())
            sym.required_timestamp = Timestamp.uninitialized()
'''),
('''            if refresh_descendent_namespaces:
                sym_ns = sym.namespace
                if sym_ns is not None:
                    self._collect''', '''            sym_ns = sym.namespace if refresh_descendent_namespaces else None
            if True:
                if sym_ns is not None:
                    self._collect'''),
]),
("up_collect_containing", U, [
('''                containing_ns.namespace_waiting_symbols.discard(sym)
                containing_ns.max_descendent_timestamp = Timestamp.current()
                self._collect_updated_symbols_and_refresh_namespaces(
                    flow().aliases.get(containing_ns.obj_id, set()),
                    refresh_descendent_namespaces,
                )
''', '''                self._mark_member_updated(containing_ns, sym)
                self._collect_updated_symbols_and_refresh_namespaces(
                    flow().aliases.get(containing_ns.obj_id, ()),
                    refresh_descendent_namespaces,
                )
'''),
('''    def _propagate_waiting_to_namespace_parents(
        self, sym''', '''    @staticmethod
    def _mark_member_updated(containing_ns, sym: "Symbol") -> None:
        containing_ns.max_descendent_timestamp = Timestamp.current()
        containing_ns.namespace_waiting_symbols.discard(sym)

    def _propagate_waiting_to_namespace_parents(
        self, sym'''),
]),
("up_parents_aliases", U, [
('''        for containing_alias in flow().aliases.get(containing_ns.obj_id, []):
            self._propagate_waiting_to_namespace_parents(containing_alias)

        for containing_alias in flow().aliases.get(containing_ns.obj_id, []):
            # do''', '''        containing_aliases = flow().aliases.get(containing_ns.obj_id, [])
        for containing_alias in containing_aliases:
            self._propagate_waiting_to_namespace_parents(containing_alias)

        for containing_alias in containing_aliases:
            # do'''),
('''            if child_namespace is not None and child_namespace.cloned_from is not None:
                if child_namespace.cloned_from.obj_id == sym.obj_id:
                    continue
            yield child
''', '''            cloned_from = getattr(child_namespace, "cloned_from", None)
            if cloned_from is None or cloned_from.obj_id != sym.obj_id:
                yield child
'''),
]),
("up_deps_merge", U, [
('''        if (
            sym not in flow().updated_symbols
            and sym not in tracer().this_stmt_updated_symbols
        ):
            if sym.should_mark_waiting(self.updated_sym):
                sym.fresher_ancestors.add(self.updated_sym)
                sym.fresher_ancestor_timestamps.add(self.updated_sym.timestamp)
                sym.required_timestamp = Timestamp.current()
                self._propagate_waiting_to_namespace_parents(sym, skip_seen_check=True)
                self._propagate_waiting_to_namespace_children(sym, skip_seen_check=True)
''', '''        was_updated = (
            sym in flow().updated_symbols or sym in tracer().this_stmt_updated_symbols
        )
        if not was_updated and sym.should_mark_waiting(self.updated_sym):
            sym.required_timestamp = Timestamp.current()
            sym.fresher_ancestors.add(self.updated_sym)
            sym.fresher_ancestor_timestamps.add(self.updated_sym.timestamp)
            self._propagate_waiting_to_namespace_parents(sym, skip_seen_check=True)
            self._propagate_waiting_to_namespace_children(sym, skip_seen_check=True)
'''),
]),
("up_seen_helper", U, [
('''        if not skip_seen_check and sym in self.seen:
            return
        self.seen.add(sym)
        containing_ns = sym''', '''        if not self._visit(sym, skip_seen_check):
            return
        containing_ns = sym'''),
('''        if not skip_seen_check and sym in self.seen:
            return
        self.seen.add(sym)
        self_ns =''', '''        if not self._visit(sym, skip_seen_check):
            return
        self_ns ='''),
('''        if not skip_seen_check and sym in self.seen:
            return
        self.seen.add(sym)
        if (
            sym not in''', '''        if not self._visit(sym, skip_seen_check):
            return
        if (
            sym not in'''),
('''    def _maybe_get_duped''', '''    def _visit(self, sym: "Symbol", skip_seen_check: bool) -> bool:
        if sym in self.seen and not skip_seen_check:
            return False
        self.seen.add(sym)
        return True

    def _maybe_get_duped'''),
]),
("ns_anonymous", N, [
('''        containing_ns = self.namespace_parent_scope
        if containing_ns is not None and containing_ns.is_anonymous:
            return True
        else:
            return False
''', '''        parent_ns = self.namespace_parent_scope
        return False if parent_ns is None else parent_ns.is_anonymous
'''),
('''        return max(
            (
                sym.cascading_reactive_cell_num(
                    seen=seen, consider_containing_symbols=False
                )
                for sym in self.all_symbols_this_indentation()
            ),
            default=-1,
        )
''', '''        largest = -1
        for sym in self.all_symbols_this_indentation():
            largest = max(
                largest,
                sym.cascading_reactive_cell_num(
                    seen=seen, consider_containing_symbols=False
                ),
            )
        return largest
'''),
]),
("ns_lookup", N, [
('''        if is_subscript is None:
            ret = self._symbol_by_name.get(name, None)
            if ret is None:
                ret = self._lookup_subscript(name)
        elif is_subscript:
            ret = self._lookup_subscript(name)
        else:
            ret = self._symbol_by_name.get(name, None)
        if (
            not skip_cloned_lookup
            and ret is None
            and self.cloned_from is not None
            and not is_subscript
            and isinstance(name, str)
        ):
            if name not in getattr(self.obj, "__dict__", {}):
                # only fall back to the class sym if it's not present in the corresponding obj for this scope
                ret = self.cloned_from.lookup_symbol_by_name_this_indentation(
                    name, is_subscript=is_subscript, **kwargs
                )
        return ret
''', '''        ret = None
        if not is_subscript:
            ret = self._symbol_by_name.get(name)
        if ret is None and (is_subscript is None or is_subscript):
            ret = self._lookup_subscript(name)
        if ret is not None or skip_cloned_lookup or self.cloned_from is None:
            return ret
        if is_subscript or not isinstance(name, str):
            return ret
        if name in getattr(self.obj, "__dict__", {}):
            return ret
        # only fall back to the class sym if it's not present in the corresponding obj for this scope
        return self.cloned_from.lookup_symbol_by_name_this_indentation(
            name, is_subscript=is_subscript, **kwargs
        )
'''),
]),
("ns_subscript_lookup", N, [
('''        ret = self._subscript_symbol_by_name.get(name)
        if (
            isinstance(self.obj, Sequence)
            and isinstance(name, int)
            and hasattr(self.obj, "__len__")
        ):
            if name < 0 and ret is None:
                name = len(self.obj) + name
                ret = self._subscript_symbol_by_name.get(name)
        return ret
''', '''        ret = self._subscript_symbol_by_name.get(name)
        if ret is not None or not isinstance(name, int) or name >= 0:
            return ret
        if not isinstance(self.obj, Sequence) or not hasattr(self.obj, "__len__"):
            return ret
        return self._subscript_symbol_by_name.get(name + len(self.obj))
'''),
]),
("ns_shuffle", N, [
('''        for idx in range(len(self.obj) - 1, pos, -1):
            prev_obj = self.obj[idx + 1] if idx < len(self.obj) - 1 else None
            self._remap_sym(idx - 1, idx, prev_obj)
''', '''        last = len(self.obj) - 1
        for idx in range(last, pos, -1):
            prev_obj = None if idx >= last else self.obj[idx + 1]
            self._remap_sym(idx - 1, idx, prev_obj)
'''),
('''        for idx in range(pos + 1, len(self.obj) + 1):
            prev_obj = self.obj[idx - 2] if idx > pos + 1 else None
            self._remap_sym(idx, idx - 1, prev_obj)
''', '''        first = pos + 1
        for idx in range(first, len(self.obj) + 1):
            prev_obj = None
            if idx > first:
                prev_obj = self.obj[idx - 2]
            self._remap_sym(idx, idx - 1, prev_obj)
'''),
]),
("ns_shuffle_bounds", N, [
('''        for idx in range(pos + 1, len(self.obj) + 1):
            prev_obj = self.obj[idx - 2] if idx > pos + 1 else None
            self._remap_sym(idx, idx - 1, prev_obj)
''', '''        for new_idx in range(pos, len(self.obj)):
            prev_obj = self.obj[new_idx - 1] if new_idx > pos else None
            self._remap_sym(new_idx + 1, new_idx, prev_obj)
'''),
]),
("ns_delete", N, [
('''        if is_subscript:
            if isinstance(self.obj, list) and isinstance(name, int) and name < 0:
                # it will have already been deleted, so account for its slot
                name += len(self.obj) + 1
            sym = self._subscript_symbol_by_name.pop(name, None)
            if sym is not None:
                sym.update_deps(set(), deleted=True)
                sym.mark_garbage()
            if isinstance(self.obj, list) and isinstance(name, int):
                self._shuffle_symbols_downward_to(name)
        else:
            super().delete_symbol_for_name(name)
''', '''        if not is_subscript:
            super().delete_symbol_for_name(name)
            return
        is_list_index = isinstance(self.obj, list) and isinstance(name, int)
        if is_list_index and name < 0:
            # it will have already been deleted, so account for its slot
            name = name + len(self.obj) + 1
        sym = self._subscript_symbol_by_name.pop(name, None)
        if sym is not None:
            sym.update_deps(set(), deleted=True)
            sym.mark_garbage()
        if is_list_index:
            self._shuffle_symbols_downward_to(name)
'''),
]),
("ns_all_symbols", N, [
('''        if is_subscript is None:
            sym_collections_to_chain: List[Iterable] = [
                self._symbol_by_name.values(),
                self._subscript_symbol_by_name.values(),
            ]
        elif is_subscript:
            sym_collections_to_chain = [self._subscript_symbol_by_name.values()]
        else:
            sym_collections_to_chain = [self._symbol_by_name.values()]
''', '''        sym_collections_to_chain: List[Iterable] = []
        if is_subscript is None or not is_subscript:
            sym_collections_to_chain.append(self._symbol_by_name.values())
        if is_subscript is None or is_subscript:
            sym_collections_to_chain.append(self._subscript_symbol_by_name.values())
'''),
]),
("ns_transfer_helper", N, [
('''        for sym in list(
            self.all_symbols_this_indentation(exclude_class=True, is_subscript=False)
        ):
            try:
                inner_obj = flow().retrieve_namespace_attr_or_sub(
                    new_ns.obj, sym.name, is_subscript=False
                )
            except AttributeError:
                continue
            except TypeError:
                break
            sym.update_obj_ref(inner_obj)
            logger.info("shuffle %s from %s to %s", sym, self, new_ns)
            self._symbol_by_name.pop(sym.name, None)
            new_ns._symbol_by_name[sym.name] = sym
            sym.containing_scope = new_ns
        for sym in list(
            self.all_symbols_this_indentation(exclude_class=True, is_subscript=True)
        ):
            try:
                inner_obj = flow().retrieve_namespace_attr_or_sub(
                    new_ns.obj, sym.name, is_subscript=True
                )
            except (IndexError, KeyError):
                continue
            except TypeError:
                break
            sym.update_obj_ref(inner_obj)
            logger.info("shuffle %s from %s to %s", sym, self, new_ns)
            self._subscript_symbol_by_name.pop(sym.name, None)
            new_ns._subscript_symbol_by_name[sym.name] = sym
            sym.containing_scope = new_ns
''', '''        self._transfer(new_ns, False, (AttributeError,))
        self._transfer(new_ns, True, (IndexError, KeyError))

    def _transfer(self, new_ns: "Namespace", is_subscript: bool, missing) -> None:
        old_syms = self.symbol_by_name(is_subscript)
        new_syms = new_ns.symbol_by_name(is_subscript)
        for sym in list(
            self.all_symbols_this_indentation(
                exclude_class=True, is_subscript=is_subscript
            )
        ):
            try:
                inner_obj = flow().retrieve_namespace_attr_or_sub(
                    new_ns.obj, sym.name, is_subscript=is_subscript
                )
            except missing:
                continue
            except TypeError:
                break
            sym.update_obj_ref(inner_obj)
            logger.info("shuffle %s from %s to %s", sym, self, new_ns)
            old_syms.pop(sym.name, None)
            new_syms[sym.name] = sym
            sym.containing_scope = new_ns
'''),
]),
("ns_earliest", N, [
('''        ret = None
        if self.namespace_parent_scope is not None:
            ret = self.namespace_parent_scope.get_earliest_ancestor_containing(
                obj_id, is_subscript
            )
        if ret is not None:
            return ret
        if obj_id in (
            sym.obj_id
            for sym in self.all_symbols_this_indentation(is_subscript=is_subscript)
        ):
            return self
        else:
            return None
''', '''        parent_ns = self.namespace_parent_scope
        if parent_ns is not None:
            ancestor = parent_ns.get_earliest_ancestor_containing(obj_id, is_subscript)
            if ancestor is not None:
                return ancestor
        for sym in self.all_symbols_this_indentation(is_subscript=is_subscript):
            if sym.obj_id == obj_id:
                return self
        return None
'''),
]),
]
