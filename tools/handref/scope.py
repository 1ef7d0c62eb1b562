F = "data_model/scope.py"
REFS = [
("symtab_one_except", F, [
('''            except KeyError:
                pass
            except ValueError:
                pass
''', '''            except (KeyError, ValueError):
                pass
'''),
]),
("lookup_early_return", F, [
('''        ret = self.lookup_symbol_by_name_this_indentation(name, **kwargs)
        if ret is None and self.non_namespace_parent_scope is not None:
            ret = self.non_namespace_parent_scope.lookup_symbol_by_name(name, **kwargs)
        return ret
''', '''        ret = self.lookup_symbol_by_name_this_indentation(name, **kwargs)
        if ret is not None:
            return ret
        parent = self.non_namespace_parent_scope
        if parent is None:
            return None
        return parent.lookup_symbol_by_name(name, **kwargs)
'''),
]),
("parent_scope_local", F, [
('''        if self.is_global:
            return None
        if self.parent_scope.is_namespace_scope:  # type: ignore[union-attr]
            return self.parent_scope.non_namespace_parent_scope  # type: ignore[union-attr]
        return self.parent_scope
''', '''        parent = self.parent_scope
        if parent is None:
            return None
        return parent.non_namespace_parent_scope if parent.is_namespace_scope else parent
'''),
]),
("chain_merge", F, [
('''            is_last = i == len(symbol_ref.chain) - 1
            if atom.is_callpoint:
                next_sym = cur_scope.lookup_symbol_by_name(atom.value)
                if next_sym is not None:
                    yield next_sym, atom, None if is_last else symbol_ref.chain[i + 1]
                break
            next_sym = cur_scope.lookup_symbol_by_name(atom.value)
            if next_sym is None:
                break
            else:
                yield next_sym, atom, None if is_last else symbol_ref.chain[i + 1]
            ns = next_sym.namespace
            if ns is None:
                break
            else:
                cur_scope = ns
''', '''            next_sym = cur_scope.lookup_symbol_by_name(atom.value)
            if next_sym is None:
                return
            is_last = i == len(symbol_ref.chain) - 1
            next_atom = None if is_last else symbol_ref.chain[i + 1]
            yield next_sym, atom, next_atom
            ns = next_sym.namespace
            if atom.is_callpoint or ns is None:
                return
            cur_scope = ns
'''),
]),
("chain_last", F, [
('''            is_last = i == len(symbol_ref.chain) - 1
            if atom''', '''            is_last = i + 1 == len(symbol_ref.chain)
            if atom'''),
('''        ret = None
        for sym, atom, next_atom in self.gen_symbols_for_attrsub_chain(chain):
            ret = sym, atom, next_atom
        return ret
''', '''        most_specific = None
        for found in self.gen_symbols_for_attrsub_chain(chain):
            most_specific = found
        return most_specific
'''),
]),
("fully_resolve", F, [
('''        sym, next_atom = None, None
        for sym, _, next_atom in self.gen_symbols_for_attrsub_chain(chain):
            pass
        return sym if next_atom is None else None
''', '''        ret = self.get_most_specific_symbol_for_attrsub_chain(chain)
        if ret is None:
            return None
        sym, _, next_atom = ret
        if next_atom is not None:
            return None
        return sym
'''),
]),
("symbol_type_asserts", F, [
('''        if is_function_def:
            assert overwrite
            assert not is_subscript
            return SymbolType.FUNCTION
        elif is_import:
            assert overwrite
            assert not is_subscript
            return SymbolType.IMPORT
        elif is_module:
            assert overwrite
            assert not is_subscript
            return SymbolType.MODULE
        elif class_scope is not None:
            assert overwrite
            assert not is_subscript
            return SymbolType.CLASS
        elif is_subscript:
            return SymbolType.SUBSCRIPT
        elif is_anonymous:
            return SymbolType.ANONYMOUS
        elif isinstance(obj, ModuleType):
            return SymbolType.MODULE
        else:
            return SymbolType.DEFAULT
''', '''        if is_function_def or is_import or is_module or class_scope is not None:
            assert overwrite and not is_subscript
        if is_function_def:
            return SymbolType.FUNCTION
        if is_import:
            return SymbolType.IMPORT
        if is_module:
            return SymbolType.MODULE
        if class_scope is not None:
            return SymbolType.CLASS
        if is_subscript:
            return SymbolType.SUBSCRIPT
        if is_anonymous:
            return SymbolType.ANONYMOUS
        return SymbolType.MODULE if isinstance(obj, ModuleType) else SymbolType.DEFAULT
'''),
]),
("import_all", F, [
('''        for import_name in sym.stmt_node.names:
            if (
                import_name.name == "*"
                or SymbolRef.from_string(import_name.asname or import_name.name)
                not in dead
            ):
                return False
        return True
''', '''        return all(
            alias.name != "*"
            and SymbolRef.from_string(alias.asname or alias.name) in dead
            for alias in sym.stmt_node.names
        )
'''),
]),
("static_assign", F, [
('''        if sym.symbol_node is None or sym.stmt_node is None:
            return False
        try:
            return (
                SymbolRef(sym.symbol_node, scope=self).canonical()
                in compute_live_dead_symbol_refs(sym.stmt_node, self)[1]
            )
        except TypeError:
            return False
''', '''        symbol_node, stmt_node = sym.symbol_node, sym.stmt_node
        if stmt_node is None or symbol_node is None:
            return False
        try:
            ref = SymbolRef(symbol_node, scope=self).canonical()
            _, dead = compute_live_dead_symbol_refs(stmt_node, self)
            return ref in dead
        except TypeError:
            return False
'''),
('''        if sym.stmt_node is None:
            return False
        dead = compute_live_dead_symbol_refs(sym.stmt_node, self)[1]
        return isinstance(sym.name, str) and SymbolRef.from_string(sym.name) in dead
''', '''        if sym.stmt_node is None or not isinstance(sym.name, str):
            return False
        _live, dead = compute_live_dead_symbol_refs(sym.stmt_node, self)
        return SymbolRef.from_string(sym.name) in dead
'''),
]),
("static_dispatch", F, [
('''        if not scope.is_global or sym.stmt_node is None:
            return False
        elif not pyc.is_outer_stmt(id(sym.stmt_node)):
            return False
        elif isinstance(sym.stmt_node, ast.Assign):
            # TODO: must be module level to be a static write
            return scope._compute_is_static_write_for_assign(sym)
        elif isinstance(
            sym.stmt_node, (ast.AsyncFunctionDef, ast.ClassDef, ast.FunctionDef)
        ):
            return scope._compute_is_static_write_for_def(sym)
        elif isinstance(sym.stmt_node, (ast.Import, ast.ImportFrom)):
            return scope._compute_is_static_write_for_import(sym)
        else:
            return False
''', '''        stmt = sym.stmt_node
        if stmt is None or not scope.is_global or not pyc.is_outer_stmt(id(stmt)):
            return False
        if isinstance(stmt, (ast.Import, ast.ImportFrom)):
            return scope._compute_is_static_write_for_import(sym)
        if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return scope._compute_is_static_write_for_def(sym)
        if isinstance(stmt, ast.Assign):
            # TODO: must be module level to be a static write
            return scope._compute_is_static_write_for_assign(sym)
        return False
'''),
]),
("upsert_type_if", F, [
('''        symbol_type = symbol_type or self._resolve_symbol_type(
            obj=obj,
            overwrite=overwrite,
            is_subscript=is_subscript,
            is_function_def=is_function_def,
            is_import=is_import,
            is_module=is_module,
            is_anonymous=is_anonymous,
            class_scope=class_scope,
        )
        deps = set(
            [] if deps is None else deps
        )  # make a copy since we mutate it (see below fixme)
''', '''        if not symbol_type:
            symbol_type = self._resolve_symbol_type(
                obj=obj,
                overwrite=overwrite,
                is_subscript=is_subscript,
                is_function_def=is_function_def,
                is_import=is_import,
                is_module=is_module,
                is_anonymous=is_anonymous,
                class_scope=class_scope,
            )
        # make a copy since we mutate it (see below fixme)
        deps = set() if deps is None else set(deps)
'''),
]),
("upsert_shadow_helper", F, [
('''        if (
            prev_sym is None
            and not implicit
            and symbol_type == SymbolType.DEFAULT
            and isinstance(name, str)
            and self.cloned_from is not None
            and self.cloned_from.lookup_symbol_by_name_this_indentation(
                name, is_subscript=False
            )
            is not None
        ):
            # `name` will no longer refer to the name in the namespace that we cloned from. this counts as a mutation.
            for parent in flow().aliases.get(cast("Namespace", self).obj_id, []):
                parent.mutate(set(), propagate=False)
''', '''        if (
            prev_sym is None
            and not implicit
            and symbol_type == SymbolType.DEFAULT
            and self._shadows_name_of_original(name)
        ):
            # `name` will no longer refer to the name in the namespace that we cloned from. this counts as a mutation.
            for parent in flow().aliases.get(cast("Namespace", self).obj_id, []):
                parent.mutate(set(), propagate=False)
'''),
('''    def _upsert_symbol_for_name_inner(
''', '''    def _shadows_name_of_original(self, name: SupportedIndexType) -> bool:
        if not isinstance(name, str) or self.cloned_from is None:
            return False
        original = self.cloned_from.lookup_symbol_by_name_this_indentation(
            name, is_subscript=False
        )
        return original is not None

    def _upsert_symbol_for_name_inner(
'''),
]),
("upsert_writes_helper", F, [
('''        try:
            is_static_write = self._compute_is_static_write(sym)
        except SyntaxError:
            is_static_write = False
        current_cell = cells().current_cell()
        sym_ns = sym.namespace
        for subsym in itertools.chain([sym], sym.get_namespace_symbols(recurse=True)):
            if subsym.containing_namespace is not sym_ns:
                # likely it's coming from the original class; don't count it as a write here
                continue
            if is_static_write and subsym not in current_cell.dynamic_writes:
                current_cell._pending_dynamic_writes.discard(subsym)
                current_cell.static_writes.add(subsym)
            else:
                current_cell.static_writes.discard(sym)
                current_cell._pending_dynamic_writes.add(sym)
        return sym
''', '''        self._record_write(sym)
        return sym

    def _record_write(self, sym: Symbol) -> None:
        try:
            is_static_write = self._compute_is_static_write(sym)
        except SyntaxError:
            is_static_write = False
        cell = cells().current_cell()
        sym_ns = sym.namespace
        for subsym in itertools.chain([sym], sym.get_namespace_symbols(recurse=True)):
            if subsym.containing_namespace is sym_ns:
                if not is_static_write or subsym in cell.dynamic_writes:
                    cell.static_writes.discard(sym)
                    cell._pending_dynamic_writes.add(sym)
                else:
                    cell._pending_dynamic_writes.discard(subsym)
                    cell.static_writes.add(subsym)
'''),
]),
("inner_prev", F, [
('''        if prev_sym is not None:
            prev_obj = Symbol.NULL if prev_sym.obj is None else prev_sym.obj
            if (
                prev_sym.symbol_type != SymbolType.MODULE
                and symbol_type != SymbolType.IMPORT
            ):
                prev_sym.symbol_type = symbol_type
            if name in self.symbol_by_name(prev_sym.is_subscript):
                prev_sym.update_obj_ref(obj, refresh_cached=False)
                # old_sym.update_type(symbol_type)
                prev_sym.update_stmt_node(stmt_node)
                prev_sym.symbol_node = symbol_node
                return prev_sym, prev_sym, prev_obj
            else:
''', '''        if prev_sym is not None:
            prev_obj = prev_sym.obj
            if prev_obj is None:
                prev_obj = Symbol.NULL
            keeps_type = (
                prev_sym.symbol_type == SymbolType.MODULE
                or symbol_type == SymbolType.IMPORT
            )
            if not keeps_type:
                prev_sym.symbol_type = symbol_type
            own_symbols = self.symbol_by_name(prev_sym.is_subscript)
            if name in own_symbols:
                prev_sym.symbol_node = symbol_node
                prev_sym.update_stmt_node(stmt_node)
                prev_sym.update_obj_ref(obj, refresh_cached=False)
                return prev_sym, prev_sym, prev_obj
            else:
'''),
]),
("inner_ns", F, [
('''        if (
            ns_self is not None
            and symbol_type == SymbolType.DEFAULT
            and ns_self.cloned_from is not None
        ):
            # add the cloned symbol as a dependency of the symbol about to be created
            new_dep = ns_self.cloned_from.lookup_symbol_by_name_this_indentation(
                name, is_subscript=False
            )
            if new_dep is not None:
                deps.add(new_dep)
''', '''        original_ns = None if ns_self is None else ns_self.cloned_from
        if original_ns is not None and symbol_type == SymbolType.DEFAULT:
            # add the cloned symbol as a dependency of the symbol about to be created
            new_dep = original_ns.lookup_symbol_by_name_this_indentation(
                name, is_subscript=False
            )
            if new_dep is not None:
                deps.add(new_dep)
'''),
]),
("delete_early", F, [
('''        sym = self._symbol_by_name.pop(name, None)
        if sym is not None:
            sym.update_deps(set(), deleted=True)
            sym.mark_garbage()
''', '''        try:
            sym = self._symbol_by_name.pop(name)
        except KeyError:
            return
        sym.update_deps(set(), deleted=True)
        sym.mark_garbage()
'''),
]),
("delete_in", F, [
('''        sym = self._symbol_by_name.pop(name, None)
        if sym is not None:
            sym.update_deps(set(), deleted=True)
            sym.mark_garbage()
''', '''        sym = self._symbol_by_name.get(name)
        if sym is None:
            return
        del self._symbol_by_name[name]
        sym.update_deps(set(), deleted=True)
        sym.mark_garbage()
'''),
]),
("global_scope_loop", F, [
('''        if self.is_global:
            return self
        return self.parent_scope.global_scope
''', '''        scope = self
        while not scope.is_global:
            scope = scope.parent_scope
        return scope
'''),
]),
("globally_accessible", F, [
('''        if self.is_global:
            return True
        elif self.is_namespace_scope:
            return self.parent_scope is self or self.parent_scope.is_globally_accessible
        else:
            return False
''', '''        if self.is_global:
            return True
        if not self.is_namespace_scope:
            return False
        parent = self.parent_scope
        return parent is self or parent.is_globally_accessible
'''),
]),
("ns_path", F, [
('''        if self.parent_scope is not None:
            prefix = self.parent_scope.full_namespace_path
        else:
            prefix = ""
        if prefix:
            if self.scope_name.isdecimal() or getattr(self, "is_subscript", False):
                return f"{prefix}[{self.scope_name}]"
            else:
                return f"{prefix}.{self.scope_name}"
        else:
            return self.scope_name
''', '''        parent = self.parent_scope
        prefix = "" if parent is None else parent.full_namespace_path
        if not prefix:
            return self.scope_name
        is_item = self.scope_name.isdecimal() or getattr(self, "is_subscript", False)
        return f"{prefix}[{self.scope_name}]" if is_item else f"{prefix}.{self.scope_name}"
'''),
]),
]
