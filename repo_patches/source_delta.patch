From 203fd4932cd2f4436a086ab97c6d25ec8c5fc4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 01/65] fix: route debugger attach/detach schedule requests
 through the comm manager

---
 core/ipyflow/kernel/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/kernel/kernel.py b/core/ipyflow/kernel/kernel.py
index 310a6eb..57ca674 100644
--- a/core/ipyflow/kernel/kernel.py
+++ b/core/ipyflow/kernel/kernel.py
@@ -121,7 +121,7 @@ class IPyflowKernel(singletons.IPyflowKernel, IPythonKernel):  # type: ignore
         flow_ = flow()
         settings = flow_.mut_settings
         if msg.get("command") == "attach":
-            flow_.handle(
+            flow_.comm_manager.handle(
                 {
                     "type": "compute_exec_schedule",
                     "cell_metadata_by_id": {},
@@ -131,7 +131,7 @@ class IPyflowKernel(singletons.IPyflowKernel, IPythonKernel):  # type: ignore
             settings.dataflow_enabled = False
         elif msg.get("command") == "disconnect":
             settings.dataflow_enabled = True
-            flow_.handle({"type": "compute_exec_schedule"})
+            flow_.comm_manager.handle({"type": "compute_exec_schedule"})
         return await super().do_debug_request(msg)
 
     @classmethod
-- 
2.43.0


From 8792ee46f34d00837f33f0fa7a08af7a6e33871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 02/65] fix: compare lengths when matching memoized container
 inputs

---
 core/ipyflow/data_model/symbol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 3f57875..a6f591c 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1470,6 +1470,8 @@ class Symbol:
         eqs: List[Callable[[Any, Any], bool]],
     ) -> Callable[[List[Any], List[Any]], bool]:
         def list_eq(lst1: List[Any], lst2: List[Any]) -> bool:
+            if len(lst1) != len(lst2):
+                return False
             for eq, obj1, obj2 in zip(eqs, lst1, lst2):
                 if not eq(obj1, obj2):
                     return False
-- 
2.43.0


From 01e5d8e1c9e4f463d5b105178c436ccd43be0043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 03/65] fix: keep types apart in memoized-input comparables

---
 core/ipyflow/data_model/symbol.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index a6f591c..31d790a 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1447,7 +1447,7 @@ class Symbol:
 
     @staticmethod
     def _equal(obj1: Any, obj2: Any) -> bool:
-        return obj1 == obj2
+        return type(obj1) is type(obj2) and obj1 == obj2
 
     @staticmethod
     def _array_equal(obj1: Any, obj2: Any) -> bool:
@@ -1468,8 +1468,11 @@ class Symbol:
     @staticmethod
     def _make_list_eq(
         eqs: List[Callable[[Any, Any], bool]],
-    ) -> Callable[[List[Any], List[Any]], bool]:
-        def list_eq(lst1: List[Any], lst2: List[Any]) -> bool:
+    ) -> Callable[[Tuple[Any, ...], Any], bool]:
+        def list_eq(comp1: Tuple[Any, ...], comp2: Any) -> bool:
+            if not isinstance(comp2, tuple) or comp1[0] is not comp2[0]:
+                return False
+            lst1, lst2 = comp1[1], comp2[1]
             if len(lst1) != len(lst2):
                 return False
             for eq, obj1, obj2 in zip(eqs, lst1, lst2):
@@ -1484,7 +1487,8 @@ class Symbol:
         cls, obj: Any, seen_ids: Set[int]
     ) -> Tuple[Any, Optional[Callable[[Any, Any], bool]], int]:
         if isinstance(obj, (bool, bytes, bytearray, int, float, str)):
-            return obj, cls._equal, 1
+            # tag with the type since e.g. 1 == 1.0 == True
+            return (type(obj), obj), cls._equal, 1
         if not isinstance(obj, tuple):
             if id(obj) in seen_ids:
                 return cls.NULL, None, -1
@@ -1494,7 +1498,7 @@ class Symbol:
             comp = []
             eqs: List[Callable[[Any, Any], bool]] = []
             if isinstance(obj, dict):
-                iterable: "Iterable[Any]" = sorted(obj.items())
+                iterable: "Iterable[Any]" = obj.items()
             else:
                 iterable = obj
             for inner in iterable:
@@ -1514,7 +1518,15 @@ class Symbol:
                 return cls.NULL, None, -1
             else:
                 iter_eq = cls._make_list_eq(eqs)
-            ret = frozenset(comp) if isinstance(obj, (frozenset, set)) else comp
+            try:
+                ret = (
+                    type(obj),
+                    frozenset(comp)
+                    if isinstance(obj, (frozenset, set))
+                    else tuple(comp),
+                )
+            except TypeError:
+                return cls.NULL, None, -1
             return ret, iter_eq, size
         elif type(obj) in (type, FunctionType):
             # try to determine it based on the symbol
@@ -1533,7 +1545,7 @@ class Symbol:
                 else:
                     numpy = sys.modules.get("numpy")
                     if numpy is not None and isinstance(obj, numpy.number):
-                        return obj, cls._equal, 1
+                        return (type(obj), obj), cls._equal, 1
             elif module.startswith(("modin", "pandas")):
                 name = getattr(type(obj), "__name__", "")
                 if name.endswith(("DataFrame", "Series")):
@@ -1545,7 +1557,7 @@ class Symbol:
                     and isinstance(obj, ipywidgets.Widget)
                     and hasattr(obj, "value")
                 ):
-                    return obj.value, cls._equal, 1
+                    return (type(obj), obj.value), cls._equal, 1
             return cls.NULL, None, -1
 
     def make_memoize_comparable(
@@ -1562,7 +1574,7 @@ class Symbol:
                 if par_comp is self.NULL or eq is not self._equal:
                     return self.NULL, None
                 comps.append(par_comp)
-            return comps, self._equal
+            return tuple(comps), self._equal
         obj, eq, size = self.make_memoize_comparable_for_obj(self.obj, seen_ids)
         if size > self._MAX_MEMOIZE_COMPARABLE_SIZE:
             return self.NULL, None
-- 
2.43.0


From 30b86c3388a852608ad4b6c40beac1082f96ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 04/65] fix: snapshot mutable memoized inputs and compare
 arrays by shape

---
 core/ipyflow/data_model/symbol.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 31d790a..6b1d8f8 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1454,7 +1454,11 @@ class Symbol:
         import numpy as np
 
         try:
-            return np.alltrue(obj1 == obj2)  # type: ignore
+            return (
+                type(obj1) is type(obj2)
+                and obj1.dtype == obj2.dtype
+                and bool(np.array_equal(obj1, obj2))
+            )
         except Exception:
             return False
 
@@ -1488,7 +1492,8 @@ class Symbol:
     ) -> Tuple[Any, Optional[Callable[[Any, Any], bool]], int]:
         if isinstance(obj, (bool, bytes, bytearray, int, float, str)):
             # tag with the type since e.g. 1 == 1.0 == True
-            return (type(obj), obj), cls._equal, 1
+            value = bytes(obj) if isinstance(obj, bytearray) else obj
+            return (type(obj), value), cls._equal, 1
         if not isinstance(obj, tuple):
             if id(obj) in seen_ids:
                 return cls.NULL, None, -1
@@ -1541,7 +1546,8 @@ class Symbol:
             if module.startswith("numpy"):
                 name = getattr(type(obj), "__name__", "")
                 if name.endswith("ndarray"):
-                    return obj, cls._array_equal, obj.size
+                    # snapshot, since the array could be mutated in-place later
+                    return obj.copy(), cls._array_equal, obj.size
                 else:
                     numpy = sys.modules.get("numpy")
                     if numpy is not None and isinstance(obj, numpy.number):
@@ -1549,7 +1555,7 @@ class Symbol:
             elif module.startswith(("modin", "pandas")):
                 name = getattr(type(obj), "__name__", "")
                 if name.endswith(("DataFrame", "Series")):
-                    return obj, cls._dataframe_equal, obj.size
+                    return obj.copy(), cls._dataframe_equal, obj.size
             elif module.startswith("ipywidgets"):
                 ipywidgets = sys.modules.get("ipywidgets")
                 if (
-- 
2.43.0


From 35f9b280d6903d8a286196bae8fa249190616d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 05/65] fix: reset all cell and statement registries between
 sessions

---
 core/ipyflow/data_model/cell.py      | 3 +++
 core/ipyflow/data_model/statement.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index d434ae8..8ed6078 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -237,6 +237,9 @@ class Cell(SliceableMixin):
         cls._cell_by_cell_ctr = {}
         cls._cell_counter = 0
         cls._position_by_cell_id = {}
+        cls._cell_id_by_position = {}
+        cls._override_current_cell = None
+        cls._memoized_executions = {}
         cls._cells_by_tag.clear()
         cls._reactive_cells_by_tag.clear()
 
diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index 782ad97..1b561f6 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -166,6 +166,7 @@ class Statement(SliceableMixin):
     @classmethod
     def clear(cls):
         cls._stmts_by_ts = {}
+        cls._stmts_by_id = {}
 
     @classmethod
     def at_timestamp(
-- 
2.43.0


From 741fd9273512235dcaf9174c7223b751fca880fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 06/65] fix: do not pollute the alias registry while
 propagating updates

---
 core/ipyflow/data_model/utils/update_protocol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/utils/update_protocol.py b/core/ipyflow/data_model/utils/update_protocol.py
index 509ba7e..603c17d 100644
--- a/core/ipyflow/data_model/utils/update_protocol.py
+++ b/core/ipyflow/data_model/utils/update_protocol.py
@@ -38,7 +38,9 @@ class UpdateProtocol:
             self.updated_sym.children,
         )
         directly_updated_symbols = (
-            flow().aliases[self.updated_sym.obj_id] if mutated else {self.updated_sym}
+            set(flow().aliases[self.updated_sym.obj_id])
+            if mutated
+            else {self.updated_sym}
         )
         directly_updated_symbols |= self._maybe_get_duped_attrsub_updated_syms()
         self._collect_updated_symbols_and_refresh_namespaces(
-- 
2.43.0


From 816523afd50494cf58aa7161eae8c748a1157e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 07/65] fix: keep the hash of a cell stable when its id changes

---
 core/ipyflow/data_model/cell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 8ed6078..86b83e9 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -260,7 +260,8 @@ class Cell(SliceableMixin):
     __str__ = __repr__
 
     def __hash__(self):
-        return hash((self.cell_id, self.cell_ctr))
+        # the id can change while the cell sits in sets (see update_id)
+        return hash(id(self))
 
     def update_id(self, new_id: IdType, update_edges: bool = True) -> None:
         old_id = self.cell_id
-- 
2.43.0


From 7090254bdb054590c5506dbb97c91daa9a0376ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 08/65] fix: stop liveness analysis from recursing forever on
 recursive functions

---
 core/ipyflow/analysis/live_refs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index bcee1d5..4ebe336 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -358,6 +358,7 @@ class ComputeLiveSymbolRefs(
             and node.func.id in self._func_ast_by_name
             and node.func.id not in self._visiting_func_calls
         ):
+            self._visiting_func_calls.add(node.func.id)
             func_ast = self._func_ast_by_name[node.func.id]
             call_scope = None  # TODO: figure this out
             call_dead = {
-- 
2.43.0


From e0f25bf03e81be69243757ca6b3c0e0d4173bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 09/65] fix: do not treat keyword-only defaults as parameters
 in liveness analysis

---
 core/ipyflow/analysis/live_refs.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 4ebe336..2deb814 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -365,7 +365,6 @@ class ComputeLiveSymbolRefs(
                 SymbolRef.from_string(arg.arg, scope=self._scope)
                 for arg in itertools.chain(
                     func_ast.args.args or [],
-                    func_ast.args.kw_defaults or [],
                     [a for a in [func_ast.args.vararg, func_ast.args.kwarg] if a],
                     getattr(func_ast.args, "posonlyargs", None) or [],
                     getattr(func_ast.args, "kwonlyargs", None) or [],
-- 
2.43.0


From 03f1bfd1661448a47c71c06a935c3f63241c54b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 10/65] fix: untag the cell in the tag registry too

---
 core/ipyflow/line_magics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ipyflow/line_magics.py b/core/ipyflow/line_magics.py
index 29a15f0..7002df8 100644
--- a/core/ipyflow/line_magics.py
+++ b/core/ipyflow/line_magics.py
@@ -375,6 +375,7 @@ def tag(line: str) -> None:
     cell_tags = set(cell.tags)
     if args.remove:
         cell.tags = tuple(cell_tags - {tag_name})
+        cells()._cells_by_tag[tag_name].discard(cell)
     else:
         cell.tags = tuple(cell_tags | {tag_name})
         cells()._cells_by_tag[tag_name].add(cell)
-- 
2.43.0


From 6e0242ea90b621f4f0d9b0fbc66013c682458ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 11/65] fix: surface the original error when a cell could not
 be run

---
 core/ipyflow/shell/interactiveshell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ipyflow/shell/interactiveshell.py b/core/ipyflow/shell/interactiveshell.py
index 73bcf7e..3468432 100644
--- a/core/ipyflow/shell/interactiveshell.py
+++ b/core/ipyflow/shell/interactiveshell.py
@@ -410,6 +410,7 @@ class IPyflowInteractiveShell(singletons.IPyflowShell, InteractiveShell):
         should_trace = settings.dataflow_enabled
         is_already_recording_output = raw_cell.strip().startswith("%%capture")
         self._should_capture_output = should_trace and not is_already_recording_output
+        ret = None
         try:
             with (
                 self._tracing_context(
@@ -455,6 +456,9 @@ class IPyflowInteractiveShell(singletons.IPyflowShell, InteractiveShell):
             if settings.is_dev_mode:
                 logger.exception("exception occurred")
             self.on_exception(e)
+            if ret is None:
+                # the cell itself never ran
+                raise
         else:
             self.on_exception(None)
         return ret
-- 
2.43.0


From 2151a5d68b7427b2eb968f0ee12ec7bd3461c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 12/65] fix: skip the bodies of async loops and context
 managers when computing edges

---
 core/ipyflow/analysis/symbol_edges.py   | 4 ++++
 core/ipyflow/tracing/symbol_resolver.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/ipyflow/analysis/symbol_edges.py b/core/ipyflow/analysis/symbol_edges.py
index 485026c..8ddbc59 100644
--- a/core/ipyflow/analysis/symbol_edges.py
+++ b/core/ipyflow/analysis/symbol_edges.py
@@ -60,6 +60,8 @@ class GetSymbolEdges(
         self.edges.append((node.target, node.iter))
         self.visit(node.iter)
 
+    visit_AsyncFor = visit_For
+
     def visit_If(self, node):
         # skip body here too
         self.visit(node.test)
@@ -84,6 +86,8 @@ class GetSymbolEdges(
         # skip body
         self.visit(node.items)
 
+    visit_AsyncWith = visit_With
+
     def visit_withitem(self, node):
         aliases = node.optional_vars
         if aliases is not None:
diff --git a/core/ipyflow/tracing/symbol_resolver.py b/core/ipyflow/tracing/symbol_resolver.py
index 5de8290..838788e 100644
--- a/core/ipyflow/tracing/symbol_resolver.py
+++ b/core/ipyflow/tracing/symbol_resolver.py
@@ -228,6 +228,8 @@ class ResolveRvalSymbols(
         # skip body -- will have dummy since this visitor works line-by-line
         self.visit(node.iter)
 
+    visit_AsyncFor = visit_For  # type: ignore[assignment]
+
     def visit_If(self, node: ast.If):
         # skip body here too
         self.visit(node.test)
@@ -252,6 +254,8 @@ class ResolveRvalSymbols(
         # skip body
         self.generic_visit(node.items)
 
+    visit_AsyncWith = visit_With  # type: ignore[assignment]
+
     def visit_withitem(self, node: ast.withitem):
         self.visit(node.context_expr)
 
-- 
2.43.0


From d0c33f7231870100b2e0c7ed70f2ee2b2b99c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 13/65] fix: remove dependency edges at both ends when given a
 live symbol set

---
 core/ipyflow/slicing/mixin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ipyflow/slicing/mixin.py b/core/ipyflow/slicing/mixin.py
index ca389d6..f58934b 100644
--- a/core/ipyflow/slicing/mixin.py
+++ b/core/ipyflow/slicing/mixin.py
@@ -325,6 +325,8 @@ class SliceableMixin(Protocol):
             return
         parent = self._from_ref(parent_ref)
         pid = parent.id
+        # the caller may pass one of the sets being updated below
+        syms = set(syms)
         for edges, eid in ((self.raw_parents, pid), (parent.raw_children, self.id)):
             sym_edges = edges.get(eid, set())
             if not sym_edges:
-- 
2.43.0


From 1415f166b4f1e357b17f7ea62c138c34b4b1c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 14/65] fix: keep globals, defaults and closures of lambdas
 passed to library calls live

---
 core/ipyflow/tracing/ipyflow_tracer.py |  2 +-
 core/ipyflow/tracing/uninstrument.py   | 48 +++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index f66e931..84e0e56 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1172,7 +1172,7 @@ class DataflowTracer(StackFrameManager):
             ext_call_cand.modname != "builtins"
             and getattr(arg_obj, "__name__", None) == "<lambda>"
         ):
-            return uninstrument(arg_obj)
+            return uninstrument(arg_obj, override_globals=False)
         return None
 
     def _save_external_call_candidate(
diff --git a/core/ipyflow/tracing/uninstrument.py b/core/ipyflow/tracing/uninstrument.py
index 11dc779..c752e3d 100644
--- a/core/ipyflow/tracing/uninstrument.py
+++ b/core/ipyflow/tracing/uninstrument.py
@@ -21,6 +21,7 @@ def _make_uninstrumented_function(
     func_text: str,
     func_node: ast.AST,
     seen: Set[int],
+    override_globals: bool = True,
 ):
     if isinstance(func_node, (ast.AsyncFunctionDef, ast.FunctionDef)):
         func_name = func_node.name
@@ -36,7 +37,7 @@ def _make_uninstrumented_function(
             kwargs[cell_name] = cell.cell_contents
     global_overrides: Dict[str, Any] = {}
     for name in obj.__code__.co_names:
-        if name in obj.__globals__:
+        if override_globals and name in obj.__globals__:
             referenced_global = obj.__globals__[name]
             uninstrumented = uninstrument(referenced_global, seen=seen)
             if uninstrumented is not None:
@@ -57,6 +58,19 @@ def {PYCCOLO_BUILTIN_PREFIX}_make_closure({", ".join(kwargs.keys())}):
     try:
         exec(func_text, global_env, local_env)
         new_obj = local_env[func_name]
+        if not getattr(func_node, "decorator_list", []):
+            # share defaults and closure cells with the original function
+            # rather than taking a snapshot of them
+            closure = dict(zip(obj.__code__.co_freevars, obj.__closure__ or ()))
+            new_obj = FunctionType(
+                new_obj.__code__,
+                global_env,
+                obj.__name__,
+                obj.__defaults__,
+                tuple(closure[name] for name in new_obj.__code__.co_freevars),
+            )
+            new_obj.__kwdefaults__ = obj.__kwdefaults__
+            new_obj.__dict__.update(obj.__dict__)
     except Exception:
         return None
     if hasattr(obj, "__name__") and hasattr(new_obj, "__name__"):
@@ -67,19 +81,39 @@ def {PYCCOLO_BUILTIN_PREFIX}_make_closure({", ".join(kwargs.keys())}):
         return None
 
 
+def _unparse_function(func_node: ast.AST) -> str:
+    args = getattr(func_node, "args", None)
+    if args is not None and not getattr(func_node, "decorator_list", []):
+        # the defaults of the original function will be used; do not reevaluate them
+        func_node = copy.copy(func_node)
+        func_node.args = copy.copy(args)  # type: ignore[attr-defined]
+        func_node.args.defaults = []  # type: ignore[attr-defined]
+        func_node.args.kw_defaults = [None] * len(args.kw_defaults)  # type: ignore[attr-defined]
+    return astunparse.unparse(func_node)
+
+
 def _get_uninstrumented_decorator(obj: FunctionType, seen: Set[int]):
     func_node, decorator_idx = flow().deco_metadata_by_obj_id.get(id(obj), (None, None))
     if func_node is None:
         return None
     func_node = copy.deepcopy(func_node)
     func_node.decorator_list = func_node.decorator_list[:decorator_idx]
-    func_text = astunparse.unparse(func_node)
+    func_text = _unparse_function(func_node)
     return _make_uninstrumented_function(obj, func_text, func_node, seen)
 
 
 def uninstrument(
-    obj: FunctionType, seen: Optional[Set[int]] = None
+    obj: FunctionType,
+    seen: Optional[Set[int]] = None,
+    override_globals: bool = True,
 ) -> Optional[FunctionType]:
+    """
+    Recreate `obj` without instrumentation. If `override_globals` is set, the
+    functions it refers to are uninstrumented as well, in which case the result
+    uses a snapshot of the globals; that is only suitable for serialization.
+    """
+    if not isinstance(obj, FunctionType):
+        return None
     if seen is None:
         seen = set()
     if id(obj) in seen:
@@ -96,9 +130,13 @@ def uninstrument(
             continue
         if alias.func_def_stmt is None:
             continue
-        func_text = astunparse.unparse(alias.func_def_stmt)
+        func_text = _unparse_function(alias.func_def_stmt)
         new_obj = _make_uninstrumented_function(
-            obj, func_text, alias.func_def_stmt, seen
+            obj,
+            func_text,
+            alias.func_def_stmt,
+            seen,
+            override_globals=override_globals,
         )
         if new_obj is not None:
             return new_obj
-- 
2.43.0


From 05f67c9dfac679028f9b4bcd7cb06bd470d7087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 15/65] fix: do not compare functions and classes by their
 definition alone when they changed since

---
 core/ipyflow/data_model/symbol.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 6b1d8f8..001576e 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1533,6 +1533,9 @@ class Symbol:
             except TypeError:
                 return cls.NULL, None, -1
             return ret, iter_eq, size
+        elif getattr(obj, "__closure__", None):
+            # the definition alone does not determine the behavior
+            return cls.NULL, None, -1
         elif type(obj) in (type, FunctionType):
             # try to determine it based on the symbol
             for sym in flow().aliases.get(id(obj), []):
@@ -1574,6 +1577,9 @@ class Symbol:
         if isinstance(
             self.stmt_node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)
         ):
+            if self.timestamp.cell_num != self.shallow_timestamp.cell_num:
+                # something was changed since the definition
+                return self.NULL, None
             comps = [astunparse.unparse(self.stmt_node)]
             for sym in sorted(self.parents.keys()):
                 par_comp, eq = sym.make_memoize_comparable(seen_ids=seen_ids)
-- 
2.43.0


From 0ac530116432ec10fcdd6fa12fd6d1fbf2e70f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 16/65] fix: detect memoized inputs and outputs that were
 changed since they were recorded

---
 core/ipyflow/data_model/cell.py        | 47 +++++++++++++++++---------
 core/ipyflow/data_model/symbol.py      | 17 ++++++++++
 core/ipyflow/memoization/__init__.py   |  6 ++++
 core/ipyflow/shell/interactiveshell.py |  6 ++--
 4 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 86b83e9..3b3135b 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -321,6 +321,12 @@ class Cell(SliceableMixin):
     def get_reactive_ids_for_tag(cls, tag: str) -> Set[IdType]:
         return cls._reactive_cells_by_tag.get(tag, set())
 
+    @staticmethod
+    def _record_updated_objects() -> None:
+        # memoized inputs and outputs may be changed by any cell, memoized or not
+        for sym in flow().updated_symbols:
+            sym.last_updated_timestamp_by_obj_id[sym.obj_id] = sym.timestamp
+
     def _maybe_memoize_params(self) -> None:
         if self.is_error:
             return
@@ -328,27 +334,34 @@ class Cell(SliceableMixin):
         for _ in flow().mut_settings.iter_slicing_contexts():
             for edges in self.raw_parents.values():
                 for sym in edges:
-                    if sym in inputs:
-                        continue
-                    sym_ts = sym.timestamp
-                    if sym_ts.cell_num == self.cell_ctr:
-                        continue
-                    elif (
-                        not sym.is_user_accessible or not sym.containing_scope.is_global
+                    scope = sym.containing_scope
+                    if sym.is_anonymous or not (
+                        scope.is_global or scope.is_namespace_scope
                     ):
                         continue
-                    elif sym_ts.cell_num > self.cell_ctr:
+                    unchanged = [
+                        top
+                        for top in sym.gen_top_level_symbols()
+                        if top.is_user_accessible
+                        and top.containing_scope.is_global
+                        and (top.is_import or top.timestamp.cell_num < self.cell_ctr)
+                    ]
+                    if not unchanged:
+                        # this cell changed its own input, so that we can no
+                        # longer tell what it looked like before
                         return
-                    inputs[sym] = MemoizedInput(
-                        sym,
-                        sym_ts,
-                        sym.memoize_timestamp,
-                        sym.obj_id,
-                        sym.make_memoize_comparable()[0],
-                    )
+                    for top in unchanged:
+                        if top in inputs:
+                            continue
+                        inputs[top] = MemoizedInput(
+                            top,
+                            top.timestamp,
+                            top.memoize_timestamp,
+                            top.obj_id,
+                            top.make_memoize_comparable()[0],
+                        )
         outputs: Dict["Symbol", MemoizedOutput] = {}
         for sym in flow().updated_symbols:
-            sym.last_updated_timestamp_by_obj_id[sym.obj_id] = sym.timestamp
             if not sym.is_user_accessible or not sym.containing_scope.is_global:
                 continue
             outputs[sym] = MemoizedOutput(sym, sym.shallow_timestamp, sym.obj)
@@ -585,6 +598,8 @@ class Cell(SliceableMixin):
         ).values():
             if ctr >= self.cell_ctr:
                 continue
+            if any(output.is_changed_since(ctr) for output in outputs):
+                continue
             for sym, in_ts, mem_ts, obj_id, comparable in inputs:
                 if comparable is not symbols_.NULL:
                     # prefer the comparable check if it is available
diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 001576e..f64de8f 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -514,6 +514,23 @@ class Symbol:
                     return alias.get_top_level()
             return None
 
+    def gen_top_level_symbols(self) -> Generator["Symbol", None, None]:
+        """
+        Generates every symbol outside of any namespace through which this one is reachable.
+        """
+        seen: Set["Symbol"] = set()
+        worklist: List["Symbol"] = [self]
+        while worklist:
+            sym = worklist.pop()
+            if sym in seen:
+                continue
+            seen.add(sym)
+            if sym.containing_scope.is_namespace_scope:
+                containing_ns = cast("Namespace", sym.containing_scope)
+                worklist.extend(flow().aliases.get(containing_ns.obj_id, []))
+            else:
+                yield sym
+
     def get_import_string(self) -> str:
         if not self.is_import:
             raise ValueError("only IMPORT symbols support recreating the import string")
diff --git a/core/ipyflow/memoization/__init__.py b/core/ipyflow/memoization/__init__.py
index 5c3d52b..5c0d7ca 100644
--- a/core/ipyflow/memoization/__init__.py
+++ b/core/ipyflow/memoization/__init__.py
@@ -39,6 +39,12 @@ class MemoizedOutput(NamedTuple):
     ts_at_execution: "Timestamp"
     value: Any
 
+    def is_changed_since(self, ctr: int) -> bool:
+        if isinstance(self.value, (bool, bytes, int, float, str)):
+            return False
+        updated_ts = self.symbol.last_updated_timestamp_by_obj_id.get(id(self.value))
+        return updated_ts is not None and updated_ts.cell_num > ctr
+
 
 class MemoizedCellExecution(NamedTuple):
     inputs: List[MemoizedInput]
diff --git a/core/ipyflow/shell/interactiveshell.py b/core/ipyflow/shell/interactiveshell.py
index 3468432..df3668c 100644
--- a/core/ipyflow/shell/interactiveshell.py
+++ b/core/ipyflow/shell/interactiveshell.py
@@ -644,8 +644,10 @@ class IPyflowInteractiveShell(singletons.IPyflowShell, InteractiveShell):
                         stmt.remove_parent_edges(parent, syms)
                     for parent, syms in prev_stmt.raw_parents.items():
                         stmt.add_parent_edges(parent, syms)
-        elif cell.is_memoized:
-            cell._maybe_memoize_params()
+        else:
+            cell._record_updated_objects()
+            if cell.is_memoized:
+                cell._maybe_memoize_params()
 
     def _handle_output(self) -> None:
         flow_ = singletons.flow()
-- 
2.43.0


From 0a668a0894312972f6491bd41ac85e69cc1db59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 17/65] fix: handle negative indices when a list element is
 deleted

---
 core/ipyflow/data_model/namespace.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/ipyflow/data_model/namespace.py b/core/ipyflow/data_model/namespace.py
index 6dd8c2c..69f5a69 100644
--- a/core/ipyflow/data_model/namespace.py
+++ b/core/ipyflow/data_model/namespace.py
@@ -314,12 +314,10 @@ class Namespace(Scope):
         self, name: SupportedIndexType, is_subscript: bool = False
     ) -> None:
         if is_subscript:
+            if isinstance(self.obj, list) and isinstance(name, int) and name < 0:
+                # it will have already been deleted, so account for its slot
+                name += len(self.obj) + 1
             sym = self._subscript_symbol_by_name.pop(name, None)
-            if sym is None and name == -1 and isinstance(self.obj, list):
-                name = len(
-                    self.obj
-                )  # it will have already been deleted, so don't subtract 1
-                sym = self._subscript_symbol_by_name.pop(name, None)
             if sym is not None:
                 sym.update_deps(set(), deleted=True)
             if isinstance(self.obj, list) and isinstance(name, int):
-- 
2.43.0


From 95e7c649bd18c553db4c16f020493a2a2f13d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 18/65] fix: associate class body frames of one-line classes
 with the class statement

---
 core/ipyflow/tracing/ipyflow_tracer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 84e0e56..cc508b0 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1696,7 +1696,7 @@ class DataflowTracer(StackFrameManager):
         try:
             stmt_node = self.stmt_by_lineno_by_module_id[cell_num][lineno]
             if event == pyc.call and not isinstance(
-                stmt_node, (ast.AsyncFunctionDef, ast.FunctionDef)
+                stmt_node, (ast.AsyncFunctionDef, ast.ClassDef, ast.FunctionDef)
             ):
                 # TODO: this is bad and I should feel bad. Need a better way to figure out which
                 #  stmt is executing than by using line numbers.
@@ -1710,7 +1710,10 @@ class DataflowTracer(StackFrameManager):
                 if (
                     parent_node is not None
                     and getattr(parent_node, "lineno", None) == lineno
-                    and isinstance(parent_node, (ast.AsyncFunctionDef, ast.FunctionDef))
+                    and isinstance(
+                        parent_node,
+                        (ast.AsyncFunctionDef, ast.ClassDef, ast.FunctionDef),
+                    )
                 ):
                     stmt_node = parent_node
             return stmt_node
-- 
2.43.0


From e4ef320801764f39b43c4b2ec1bb6319ed287d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 19/65] fix: retire symbols of deleted elements and keep
 deleted symbols retired

---
 core/ipyflow/data_model/namespace.py |  1 +
 core/ipyflow/data_model/symbol.py    | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/data_model/namespace.py b/core/ipyflow/data_model/namespace.py
index 69f5a69..4d8ae41 100644
--- a/core/ipyflow/data_model/namespace.py
+++ b/core/ipyflow/data_model/namespace.py
@@ -320,6 +320,7 @@ class Namespace(Scope):
             sym = self._subscript_symbol_by_name.pop(name, None)
             if sym is not None:
                 sym.update_deps(set(), deleted=True)
+                sym.mark_garbage()
             if isinstance(self.obj, list) and isinstance(name, int):
                 self._shuffle_symbols_downward_to(name)
         else:
diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index f64de8f..7bd730d 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -706,13 +706,17 @@ class Symbol:
             child.parents.pop(self, None)
         containing_ns = self.containing_namespace
         if self.is_subscript and containing_ns is not None:
-            containing_ns._subscript_symbol_by_name.pop(self.name, None)
+            registered_syms: Dict[Any, "Symbol"] = containing_ns._subscript_symbol_by_name
         elif not self.is_subscript:
-            self.containing_scope._symbol_by_name.pop(self.name, None)
+            registered_syms = self.containing_scope._symbol_by_name
         else:
+            registered_syms = {}
             logger.warning(
                 "could not find symbol %s in its scope %s", self, self.containing_scope
             )
+        # the name may have been rebound to a different symbol in the meantime
+        if registered_syms.get(self.name) is self:
+            del registered_syms[self.name]
         # TODO: remove from static / dynamic parent / children edges
         # need to keep this around for readable_name to work
         # self.containing_scope = None
@@ -1419,7 +1423,7 @@ class Symbol:
             )
 
     def resync_if_necessary(self, refresh: bool) -> None:
-        if not self.containing_scope.is_global:
+        if self.is_garbage or not self.containing_scope.is_global:
             return
         try:
             obj = shell().user_ns[self.name]
-- 
2.43.0


From 277213ab99006c083f958e885ecd6acb6a27216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 20/65] fix: ListInsert/ListPop/NamespaceClear handle all
 argument forms of the methods they model

---
 .../tracing/external_calls/base_handlers.py      | 16 ++++++----------
 .../tracing/external_calls/list_handlers.py      | 14 +++++++++++---
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/core/ipyflow/tracing/external_calls/base_handlers.py b/core/ipyflow/tracing/external_calls/base_handlers.py
index 4bd12a6..b09c7c1 100644
--- a/core/ipyflow/tracing/external_calls/base_handlers.py
+++ b/core/ipyflow/tracing/external_calls/base_handlers.py
@@ -318,16 +318,12 @@ class NamespaceClear(StandardMutation):
         namespace = mutated_sym.namespace
         if namespace is None:
             return
-        for name in sorted(
-            (
-                sym.name
-                for sym in namespace.all_symbols_this_indentation(
-                    exclude_class=True, is_subscript=True
-                )
-            ),
-            reverse=True,
-            key=lambda n: n or -1,
-        ):
+        for name in [
+            sym.name
+            for sym in namespace.all_symbols_this_indentation(
+                exclude_class=True, is_subscript=True
+            )
+        ]:
             namespace.delete_symbol_for_name(name, is_subscript=True)
 
 
diff --git a/core/ipyflow/tracing/external_calls/list_handlers.py b/core/ipyflow/tracing/external_calls/list_handlers.py
index 19ebe02..40be092 100644
--- a/core/ipyflow/tracing/external_calls/list_handlers.py
+++ b/core/ipyflow/tracing/external_calls/list_handlers.py
@@ -55,10 +55,16 @@ class ListInsert(ListMethod):
         }
         if len(inserted_syms) > 1:
             return
-        namespace.shuffle_symbols_upward_from(self.insert_pos)
+        # follow the list.insert() conventions for negative / too-large positions
+        orig_len = len(namespace.obj) - 1
+        insert_pos = self.insert_pos
+        if insert_pos < 0:
+            insert_pos = max(insert_pos + orig_len, 0)
+        insert_pos = min(insert_pos, orig_len)
+        namespace.shuffle_symbols_upward_from(insert_pos)
         namespace.upsert_symbol_for_name(
-            self.insert_pos,
-            namespace.obj[self.insert_pos],
+            insert_pos,
+            namespace.obj[insert_pos],
             inserted_syms,
             self.stmt_node,
             overwrite=False,
@@ -87,5 +93,7 @@ class ListRemove(ListMethod):
 
 
 class ListPop(ListRemove):
+    remove_pos: Optional[int] = -1
+
     def process_arg(self, pop_pos: int) -> None:
         self.remove_pos = pop_pos
-- 
2.43.0


From 61f5848f41bccb3a62930aacc2f77eb4aa39ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 21/65] fix: treat slice and mask stores / deletes as mutations
 of the container

---
 core/ipyflow/data_model/statement.py   | 12 ++++++++++++
 core/ipyflow/tracing/ipyflow_tracer.py | 20 ++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index 1b561f6..d957cc3 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -340,6 +340,16 @@ class Statement(SliceableMixin):
         except TypeError:
             return
 
+    @staticmethod
+    def _handle_mutated_container(
+        target: Union[str, int, ast.AST], deps: Set[Symbol]
+    ) -> None:
+        # some stores and deletes (e.g. to slices) can't be attributed
+        # to a single element; treat these as mutations of the container
+        mutated_sym = tracer().resolve_mutated_symbol_for_target(target)
+        if mutated_sym is not None:
+            mutated_sym.mutate(set(deps))
+
     def _handle_assign_target_for_deps(
         self,
         target: ast.AST,
@@ -372,6 +382,7 @@ class Statement(SliceableMixin):
                 )
             # if flow().is_test:
             #     raise ke
+            self._handle_mutated_container(target, deps)
             return
         if iter_namespace is not None:
             iter_namespace.upsert_symbol_for_name(
@@ -590,6 +601,7 @@ class Statement(SliceableMixin):
                 # this will happen if, e.g., a __delitem__ triggered a call
                 # logger.info("got key error while trying to handle %s: %s", ast.dump(self.stmt_node), e)
                 logger.info("got key error: %s", e)
+                self._handle_mutated_container(target, set())
 
     def _make_lval_symbols(self) -> None:
         if isinstance(self.stmt_node, (ast.Assign, ast.For, ast.AsyncFor)):
diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index cc508b0..f03587e 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -188,6 +188,8 @@ class DataflowTracer(StackFrameManager):
         self.node_id_to_saved_store_data: Dict[NodeId, SavedStoreData] = {}
         self.node_id_to_saved_live_subscript_refs: Dict[NodeId, Set[Symbol]] = {}
         self.node_id_to_saved_del_data: Dict[NodeId, SavedDelData] = {}
+        # symbol for the container of each store / del target
+        self.node_id_to_saved_mutated_symbol: Dict[NodeId, Symbol] = {}
         self.node_id_to_loaded_literal_scope: Dict[NodeId, Namespace] = {}
         self.node_id_to_saved_dict_key: Dict[NodeId, Any] = {}
         self.this_stmt_updated_symbols: Set[Symbol] = set()
@@ -339,6 +341,7 @@ class DataflowTracer(StackFrameManager):
             return
         # ensures we only handle del's and not delitem's
         self.node_id_to_saved_del_data.clear()
+        self.node_id_to_saved_mutated_symbol.clear()
         new_scope = trace_stmt.get_post_call_scope(trace_stmt.frame or frame)
         with self.call_stack.push():
             # TODO: figure out a better way to determine if we're inside a lambda
@@ -616,6 +619,14 @@ class DataflowTracer(StackFrameManager):
         (scope, obj, attr_or_sub, is_subscript) = self.node_id_to_saved_del_data[target]
         return scope, obj, attr_or_sub, is_subscript
 
+    def resolve_mutated_symbol_for_target(
+        self, target: Union[str, int, ast.AST]
+    ) -> Optional[Symbol]:
+        resolved_target = self._partial_resolve_ref(target)
+        if isinstance(resolved_target, str):
+            return None
+        return self.node_id_to_saved_mutated_symbol.get(resolved_target)
+
     def resolve_loaded_symbols(
         self, symbol_ref: Union[str, int, ast.AST, Symbol]
     ) -> List[Symbol]:
@@ -972,7 +983,16 @@ class DataflowTracer(StackFrameManager):
             ).append(sym)
 
         try:
+            if (
+                not event.value.endswith("_load")
+                and sym_for_obj is not None
+                and sym_for_obj.obj is obj
+            ):
+                # fallback if we can't resolve the store / del to a single element
+                self.node_id_to_saved_mutated_symbol[top_level_node_id] = sym_for_obj
             if isinstance(attr_or_subscript, list):
+                if not event.value.endswith("_load"):
+                    return
                 attr_or_subscript = tuple(attr_or_subscript)
             if isinstance(attr_or_subscript, tuple):
                 if not all(
-- 
2.43.0


From 3ce4cdbd787df46ab8e6d4a118f7d57f534f7d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 22/65] fix: cell positions cover newly added cells and leave
 the caller's mapping alone

---
 core/ipyflow/data_model/cell.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 3b3135b..6fc20c7 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -440,18 +440,23 @@ class Cell(SliceableMixin):
             settings.flow_order == FlowDirection.IN_ORDER
             and settings.interface != Interface.IPYTHON
         ):
-            cls._cell_id_by_position.clear()
+            # copy so that the caller's mapping stays as it is
+            order_index_by_cell_id = dict(order_index_by_cell_id)
             for cell_id in cls._position_by_cell_id:
-                if cell_id not in order_index_by_cell_id:
-                    order_index_by_cell_id[cell_id] = cast(int, float("inf"))
-                else:
-                    cls._cell_id_by_position[order_index_by_cell_id[cell_id]] = cell_id
+                order_index_by_cell_id.setdefault(cell_id, cast(int, float("inf")))
+            cls._cell_id_by_position = {
+                pos: cell_id
+                for cell_id, pos in order_index_by_cell_id.items()
+                if pos != float("inf")
+            }
         cls._position_by_cell_id = order_index_by_cell_id
 
     @classmethod
     def iterate_over_notebook_in_position_order(cls) -> Generator["Cell", None, None]:
         for pos in sorted(cls._cell_id_by_position.keys()):
-            yield cls.from_id(cls._cell_id_by_position[pos])
+            cell = cls.from_id_nullable(cls._cell_id_by_position[pos])
+            if cell is not None:
+                yield cell
 
     @classmethod
     def iterate_over_notebook_in_counter_order(cls) -> Generator["Cell", None, None]:
-- 
2.43.0


From ea7d5143aadc7f0d81b0e0640923c5b4b749a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 23/65] fix: override refs of never executed cells no longer
 fail the request

---
 core/ipyflow/comm_manager.py    |  4 ++++
 core/ipyflow/data_model/cell.py | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/ipyflow/comm_manager.py b/core/ipyflow/comm_manager.py
index 83da98d..25df679 100644
--- a/core/ipyflow/comm_manager.py
+++ b/core/ipyflow/comm_manager.py
@@ -343,6 +343,10 @@ class CommManager:
                         placeholder_cells.remove(candidate)
                         break
         self.flow._create_untracked_cells_for_content(content_by_cell_id)
+        # again, for the cells that were not tracked before
+        cells().set_override_refs(
+            override_live_refs_by_cell_id, override_dead_refs_by_cell_id
+        )
         if should_recompute_exec_schedule:
             return self.handle_compute_exec_schedule(
                 request, notify_content_changed=False, allow_new_ready=False
diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 6fc20c7..e161aef 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -471,11 +471,13 @@ class Cell(SliceableMixin):
         override_dead_refs_by_cell_id: Dict[IdType, List[str]],
     ):
         for cell_id, override_live_refs in override_live_refs_by_cell_id.items():
-            cell = cls.from_id(cell_id)
-            cell.override_live_refs = override_live_refs
+            cell = cls.from_id_nullable(cell_id)
+            if cell is not None:
+                cell.override_live_refs = override_live_refs
         for cell_id, override_dead_refs in override_dead_refs_by_cell_id.items():
-            cell = cls.from_id(cell_id)
-            cell.override_dead_refs = override_dead_refs
+            cell = cls.from_id_nullable(cell_id)
+            if cell is not None:
+                cell.override_dead_refs = override_dead_refs
 
     @classmethod
     @contextmanager
-- 
2.43.0


From 0988ebf715e4e023dee96abcd2f1aeb420e7a17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 24/65] fix: keep the interface option a session is started
 with

---
 core/ipyflow/flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/flow.py b/core/ipyflow/flow.py
index 3f02798..b6ba2ec 100644
--- a/core/ipyflow/flow.py
+++ b/core/ipyflow/flow.py
@@ -84,12 +84,12 @@ class NotebookFlow(singletons.NotebookFlow):
                 getattr(config, "mark_phantom_cell_usages_unsafe", False),
             ),
         )
-        interface = kwargs.pop("interface", Interface.UNKNOWN)
+        interface = Interface(kwargs.pop("interface", Interface.UNKNOWN))
         self.mut_settings: MutableDataflowSettings = MutableDataflowSettings(
             dataflow_enabled=kwargs.pop("dataflow_enabled", True),
             trace_messages_enabled=kwargs.pop("trace_messages_enabled", False),
             highlights=kwargs.pop("highlights", Highlights.EXECUTED),
-            interface=kwargs.pop("interface", Interface.UNKNOWN),
+            interface=interface,
             static_slicing_enabled=kwargs.pop(
                 "static_slicing_enabled",
                 getattr(config, "static_slicing_enabled", True),
-- 
2.43.0


From ffa6251a2389240dde61e0d264a2c12906805544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 25/65] fix: keep the code transformers that a cell registers

---
 core/ipyflow/utils/ipython_utils.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/core/ipyflow/utils/ipython_utils.py b/core/ipyflow/utils/ipython_utils.py
index e93932e..a7a6a2e 100644
--- a/core/ipyflow/utils/ipython_utils.py
+++ b/core/ipyflow/utils/ipython_utils.py
@@ -2,7 +2,7 @@
 import ast
 import logging
 from contextlib import contextmanager
-from typing import Callable, Generator, List, Optional
+from typing import Any, Callable, Generator, List, Optional
 
 from IPython.core.interactiveshell import ExecutionResult
 from traitlets import MetaHasTraits
@@ -13,6 +13,14 @@ logger = logging.getLogger(__name__)
 logger.setLevel(logging.WARNING)
 
 
+def _remove_by_identity(items: List[Any], to_remove: List[Any]) -> None:
+    for item in to_remove:
+        for idx, existing in enumerate(items):
+            if existing is item:
+                del items[idx]
+                break
+
+
 class _IpythonState:
     def __init__(self) -> None:
         self.cell_counter: Optional[int] = None
@@ -29,23 +37,23 @@ class _IpythonState:
     def ast_transformer_context(
         self, transformers: List[ast.NodeTransformer]
     ) -> Generator[None, None, None]:
-        old = shell().ast_transformers
-        shell().ast_transformers = old + transformers
+        # add and remove in place, so that registrations by the cell itself are kept
+        shell().ast_transformers.extend(transformers)
         try:
             yield
         finally:
-            shell().ast_transformers = old
+            _remove_by_identity(shell().ast_transformers, transformers)
 
     @contextmanager
     def input_transformer_context(
         self, transformers: List[Callable[[List[str]], List[str]]]
     ) -> Generator[None, None, None]:
-        old = shell().input_transformers_post
-        shell().input_transformers_post = old + transformers
+        # add and remove in place, so that registrations by the cell itself are kept
+        shell().input_transformers_post.extend(transformers)
         try:
             yield
         finally:
-            shell().input_transformers_post = old
+            _remove_by_identity(shell().input_transformers_post, transformers)
 
 
 _IPY = _IpythonState()
-- 
2.43.0


From 9830bd057498d163bd3cf6d9321f523ec6fe9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 26/65] fix: track the output variable of %%capture cells that
 pass options

---
 core/ipyflow/shell/interactiveshell.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/ipyflow/shell/interactiveshell.py b/core/ipyflow/shell/interactiveshell.py
index df3668c..a2a496e 100644
--- a/core/ipyflow/shell/interactiveshell.py
+++ b/core/ipyflow/shell/interactiveshell.py
@@ -439,13 +439,21 @@ class IPyflowInteractiveShell(singletons.IPyflowShell, InteractiveShell):
                 )  # pragma: no cover
                 cell.error_in_exec = ret.error_in_exec
                 if is_already_recording_output:
-                    outvar = (
-                        raw_cell.strip().splitlines()[0][len("%%capture") :].strip()
-                    )
-                    # TODO: add all live refs as dependencies
-                    singletons.flow().global_scope.upsert_symbol_for_name(
-                        outvar, get_ipython().user_ns.get(outvar)
+                    # the output variable (if any) comes along with options
+                    outvar = next(
+                        (
+                            arg
+                            for arg in raw_cell.strip().splitlines()[0].split()[1:]
+                            if not arg.startswith("-")
+                        ),
+                        None,
                     )
+                    user_ns = get_ipython().user_ns
+                    if outvar is not None and outvar in user_ns:
+                        # TODO: add all live refs as dependencies
+                        singletons.flow().global_scope.upsert_symbol_for_name(
+                            outvar, user_ns[outvar]
+                        )
             # Stage 3:  Run post-execute hook
             if should_trace:
                 self.after_run_cell(raw_cell)
-- 
2.43.0


From 02c26ad98a1c52930becb96e407647e4de3adfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 27/65] fix: treat default values of lambdas and keyword-only
 parameters as reads in liveness

---
 core/ipyflow/analysis/live_refs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 2deb814..484ab72 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -265,7 +265,7 @@ class ComputeLiveSymbolRefs(
     def generic_visit_function_def(
         self, node: Union[ast.FunctionDef, ast.AsyncFunctionDef]
     ) -> None:
-        self.generic_visit(node.args.defaults)
+        self.visit(node.args)
         self.generic_visit(node.decorator_list)
         self.dead.add(SymbolRef(node).canonical())
         self._func_ast_by_name[node.name] = node
@@ -433,7 +433,8 @@ class ComputeLiveSymbolRefs(
     )
 
     def visit_Lambda(self, node: ast.Lambda) -> None:
-        with self.kill_context():
+        # only the defaults are evaluated when the lambda is created
+        with self.attrsub_context(False):
             self.visit(node.args)
 
     def visit_arg(self, node) -> None:
-- 
2.43.0


From f46ea7172d77e5f323dd1468d351944ab62d00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 28/65] fix: treat the operands of compound expressions at the
 start of a chain as reads

---
 core/ipyflow/analysis/live_refs.py  | 39 +++++++++++++----------------
 core/ipyflow/analysis/symbol_ref.py | 16 +++---------
 2 files changed, 22 insertions(+), 33 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 484ab72..5ada92f 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -39,17 +39,6 @@ logger.setLevel(logging.ERROR)
 _RESOLVER_EXCEPTIONS = ("get_ipython", "run_line_magic", "run_cell_magic")
 
 
-def _chain_root(node: ast.AST):
-    while True:
-        if isinstance(node, (ast.Attribute, ast.Subscript)):
-            node = node.value
-        elif isinstance(node, ast.Call):
-            node = node.func
-        else:
-            break
-    return node
-
-
 # TODO: have the logger warnings additionally raise exceptions for tests
 class ComputeLiveSymbolRefs(
     SaveOffAttributesMixin, SkipUnboundArgsMixin, VisitListsMixin, ast.NodeVisitor
@@ -221,7 +210,8 @@ class ComputeLiveSymbolRefs(
     if sys.version_info >= (3, 8):
 
         def visit_NamedExpr(self, node: ast.NamedExpr) -> None:
-            self.visit_Assign_impl([node.target], node.value)
+            with self.attrsub_context(False):
+                self.visit_Assign_impl([node.target], node.value)
 
     def visit_Assign(self, node: ast.Assign) -> None:
         self.visit_Assign_impl(node.targets, node.value)
@@ -349,9 +339,10 @@ class ComputeLiveSymbolRefs(
             self.generic_visit(node.args)
             for kwarg in node.keywords:
                 self.visit(kwarg.value)
-        if not self._inside_attrsub and not isinstance(_chain_root(node), ast.BinOp):
+        if not self._inside_attrsub:
             self._add_attrsub_to_live_if_eligible(SymbolRef(node))
-        with self.attrsub_context():
+        # the chain of a call on the result of a call does not include the latter
+        with self.attrsub_context(not isinstance(node.func, ast.Call)):
             self.visit(node.func)
         if (
             isinstance(node.func, ast.Name)
@@ -384,15 +375,19 @@ class ComputeLiveSymbolRefs(
             self._visiting_func_calls.discard(node.func.id)
 
     def visit_Attribute(self, node: ast.Attribute) -> None:
-        if not self._inside_attrsub and not isinstance(_chain_root(node), ast.BinOp):
+        if not self._inside_attrsub:
             self._add_attrsub_to_live_if_eligible(SymbolRef(node))
         with self.attrsub_context():
             self.visit(node.value)
 
-    def visit_BinOp(self, node: ast.BinOp) -> None:
-        with self.attrsub_context(False):
-            self.visit(node.left)
-            self.visit(node.right)
+    def generic_visit(self, node) -> None:
+        if isinstance(node, ast.expr):
+            # the operands of an expression are reads of their own, also if
+            # the result of that expression is the start of a chain
+            with self.attrsub_context(False):
+                super().generic_visit(node)
+        else:
+            super().generic_visit(node)
 
     def visit_Subscript(self, node: ast.Subscript) -> None:
         if isinstance(node.value, ast.Name) and node.value.id in (
@@ -407,7 +402,7 @@ class ComputeLiveSymbolRefs(
         ):
             # skip quasiquoted values
             return
-        if not self._inside_attrsub and not isinstance(_chain_root(node), ast.BinOp):
+        if not self._inside_attrsub:
             self._add_attrsub_to_live_if_eligible(SymbolRef(node))
         with self.attrsub_context():
             self.visit(node.value)
@@ -418,7 +413,9 @@ class ComputeLiveSymbolRefs(
         pass
 
     def generic_visit_comprehension(self, node) -> None:
-        with self.killed_context([gen.target for gen in node.generators]):
+        with self.attrsub_context(False), self.killed_context(
+            [gen.target for gen in node.generators]
+        ):
             if isinstance(node, ast.DictComp):
                 self.visit(node.key)
                 self.visit(node.value)
diff --git a/core/ipyflow/analysis/symbol_ref.py b/core/ipyflow/analysis/symbol_ref.py
index d581630..9411b80 100644
--- a/core/ipyflow/analysis/symbol_ref.py
+++ b/core/ipyflow/analysis/symbol_ref.py
@@ -232,17 +232,10 @@ class SymbolRefVisitor(ast.NodeVisitor):
         elif isinstance(node.func, ast.Name):
             self.visit(node.func)
             self.symbol_chain[-1].is_callpoint = True
-        elif isinstance(node.func, ast.Call):
-            # TODO: handle this case too, e.g. f.g()().h
-            pass
-        elif isinstance(node.func, ast.Lambda):
-            # TODO: handle this case too, e.g. (lambda: [1, 2])()
-            pass
         else:
-            # probably a user error that happens to not be a syntax error;
-            # probably will fail at runtime
-            # logger.error("invalid type for node.func %s" % ast.dump(node.func))
-            pass
+            # TODO: handle calls (e.g. f.g()().h) and
+            #  lambdas (e.g. (lambda: [1, 2])()) too
+            raise ValueError("ref cannot start at the result of an expression")
 
     def visit_Attribute(self, node: ast.Attribute) -> None:
         self._append_atom(node, node.attr)
@@ -314,9 +307,8 @@ class SymbolRefVisitor(ast.NodeVisitor):
         raise ValueError("ref cannot contain literals in chain")
 
     def generic_visit(self, node) -> None:
-        # raise ValueError('we should never get here: %s' % node)
         # give up
-        return
+        raise ValueError("ref cannot start at the result of an expression")
 
 
 visit_stack: List[ast.AST] = []
-- 
2.43.0


From 8bc1ab5551d5f07b57e5ab7e9d3a72459ce10ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 29/65] fix: take names killed before a branch or loop into
 account inside of it

---
 core/ipyflow/analysis/live_refs.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 5ada92f..f0226a1 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -307,23 +307,16 @@ class ComputeLiveSymbolRefs(
             self.visit(node.test)
         if hasattr(node, "iter"):
             self.visit(node.iter)
-        body_live: Set[LiveSymbolRef] = set()
-        body_dead: Set[SymbolRef] = set()
-        if hasattr(node, "target"):
-            with self.push_attributes(dead=body_dead):
+        # names that were killed before are also killed inside
+        body_dead = set(self.dead)
+        orelse_dead = set(self.dead)
+        with self.push_attributes(dead=body_dead):
+            if hasattr(node, "target"):
                 with self.kill_context():
                     self.visit(node.target)
-        with self.push_attributes(live=body_live, dead=body_dead):
             self.generic_visit(node.body)
-        orelse_live: Set[LiveSymbolRef] = set()
-        orelse_dead: Set[SymbolRef] = set()
-        with self.push_attributes(live=orelse_live, dead=orelse_dead):
+        with self.push_attributes(dead=orelse_dead):
             self.generic_visit(node.orelse)
-        new_live = body_live | orelse_live
-        for ref in list(new_live):
-            if ref.ref in self.dead:
-                new_live.discard(ref)
-        self.live |= new_live
         self.dead |= body_dead & orelse_dead
         self.modified |= body_dead | orelse_dead
 
-- 
2.43.0


From 838faf4a32ff49339a7ea5cb9c05139e07797c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 30/65] fix: do not treat names bound on some paths of try and
 match statements as killed

---
 core/ipyflow/analysis/live_refs.py     | 52 ++++++++++++++++++++++++++
 core/ipyflow/tracing/ipyflow_tracer.py |  6 +--
 2 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index f0226a1..3a16a94 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -322,6 +322,58 @@ class ComputeLiveSymbolRefs(
 
     visit_For = visit_AsyncFor = visit_If = visit_While = generic_visit_branch_or_loop
 
+    def visit_Try(self, node) -> None:
+        # each handler may start anywhere in the body
+        handler_deads = []
+        body_dead = set(self.dead)
+        with self.push_attributes(dead=body_dead):
+            self.generic_visit(node.body)
+            self.generic_visit(node.orelse)
+        for handler in node.handlers:
+            handler_dead = set(self.dead)
+            with self.push_attributes(dead=handler_dead):
+                self.visit(handler)
+            self.modified |= handler_dead
+            if not isinstance(handler.body[-1], (ast.Raise, ast.Return)):
+                handler_deads.append(handler_dead)
+        self.modified |= body_dead
+        self.dead |= body_dead.intersection(*handler_deads)
+        self.generic_visit(node.finalbody)
+
+    visit_TryStar = visit_Try
+
+    def visit_ExceptHandler(self, node: ast.ExceptHandler) -> None:
+        if node.type is not None:
+            self.visit(node.type)
+        if node.name is not None:
+            self._kill_name(node.name)
+        self.generic_visit(node.body)
+
+    def _kill_name(self, name: str) -> None:
+        self.dead.add(SymbolRef.from_string(name, scope=self._scope).canonical())
+
+    def visit_Match(self, node) -> None:
+        self.visit(node.subject)
+        case_deads = []
+        for case in node.cases:
+            case_dead = set(self.dead)
+            with self.push_attributes(dead=case_dead):
+                self.visit(case)
+            case_deads.append(case_dead)
+        self.modified = self.modified.union(*case_deads)
+        last_case = node.cases[-1]
+        if last_case.guard is None and getattr(last_case.pattern, "pattern", 0) is None:
+            # some case always matches
+            self.dead |= set.intersection(*case_deads)
+
+    def visit_match_capture(self, node) -> None:
+        self.generic_visit(node)
+        name = node.rest if hasattr(node, "rest") else node.name
+        if name is not None:
+            self._kill_name(name)
+
+    visit_MatchAs = visit_MatchStar = visit_MatchMapping = visit_match_capture
+
     def visit_ClassDef(self, node: ast.ClassDef) -> None:
         self.generic_visit(node.bases)
         self.generic_visit(node.decorator_list)
diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index f03587e..73524aa 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1552,15 +1552,15 @@ class DataflowTracer(StackFrameManager):
             self.tracing_disabled_since_last_stmt = False
 
     def _handle_skipped_sub_statements(self, stmt: ast.stmt) -> None:
-        live, dead, *_ = compute_live_dead_symbol_refs(stmt)
-        for sym in {ref.to_symbol() for ref in {r.ref for r in live} | dead}:
+        live, _, modified = compute_live_dead_symbol_refs(stmt)
+        for sym in {ref.to_symbol() for ref in {r.ref for r in live} | modified}:
             if sym is None or sym in self.this_stmt_updated_symbols:
                 continue
             sym.resync_if_necessary(refresh=True)
         user_ns = shell().user_ns
         global_scope = flow().global_scope
         unavailable = object()
-        for ref in dead:
+        for ref in modified:
             if ref.to_symbol() is not None:
                 continue
             if len(ref.chain) != 1:
-- 
2.43.0


From d7cbf5b39a4c2834145c3afe639e74a42f66b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 31/65] fix: evaluate the first iterable of a comprehension
 outside of its scope in liveness

---
 core/ipyflow/analysis/live_refs.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 3a16a94..4b305db 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -458,17 +458,19 @@ class ComputeLiveSymbolRefs(
         pass
 
     def generic_visit_comprehension(self, node) -> None:
-        with self.attrsub_context(False), self.killed_context(
-            [gen.target for gen in node.generators]
-        ):
-            if isinstance(node, ast.DictComp):
-                self.visit(node.key)
-                self.visit(node.value)
-            else:
-                self.visit(node.elt)
-            for gen in node.generators:
-                self.visit(gen.iter)
-                self.visit(gen.ifs)
+        with self.attrsub_context(False):
+            # the first iterable is evaluated outside of the comprehension's scope
+            self.visit(node.generators[0].iter)
+            with self.killed_context([gen.target for gen in node.generators]):
+                for gen in node.generators:
+                    if gen is not node.generators[0]:
+                        self.visit(gen.iter)
+                    self.visit(gen.ifs)
+                if isinstance(node, ast.DictComp):
+                    self.visit(node.key)
+                    self.visit(node.value)
+                else:
+                    self.visit(node.elt)
 
     visit_DictComp = visit_ListComp = visit_SetComp = visit_GeneratorExp = (
         generic_visit_comprehension
-- 
2.43.0


From 7b9a305ad357f392c36831f3f6e566f3d583fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 32/65] fix: treat containers in nested targets and in del
 statements as used in liveness

---
 core/ipyflow/analysis/live_refs.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 4b305db..dfeace2 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -145,8 +145,7 @@ class ComputeLiveSymbolRefs(
                 self.visit(value)
             with self.push_attributes(_is_lhs=True):
                 for target in targets:
-                    if isinstance(target, (ast.Attribute, ast.Subscript)):
-                        self.visit(target.value)
+                    self.visit_target_containers(target)
         # make a copy, then track the new dead
         this_assign_dead = set(self.dead)
         with self.push_attributes(dead=this_assign_dead):
@@ -454,8 +453,22 @@ class ComputeLiveSymbolRefs(
         with self.attrsub_context(inside=False):
             self.visit(node.slice)
 
+    def visit_target_containers(self, target: ast.expr) -> None:
+        if isinstance(target, (ast.Attribute, ast.Subscript)):
+            self.visit(target.value)
+        elif isinstance(target, (ast.Tuple, ast.List)):
+            for elt in target.elts:
+                self.visit_target_containers(elt)
+        elif isinstance(target, ast.Starred):
+            self.visit_target_containers(target.value)
+
     def visit_Delete(self, node: ast.Delete) -> None:
-        pass
+        with self.push_attributes(_is_lhs=True):
+            for target in node.targets:
+                self.visit_target_containers(target)
+        for target in node.targets:
+            if isinstance(target, ast.Subscript):
+                self.visit(target.slice)
 
     def generic_visit_comprehension(self, node) -> None:
         with self.attrsub_context(False):
-- 
2.43.0


From 315ea0c0beea35c27fdef4637807760e3c07946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 33/65] fix: take reads in class bodies and class keywords into
 account in liveness

---
 core/ipyflow/analysis/live_refs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index dfeace2..19780e1 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -375,7 +375,15 @@ class ComputeLiveSymbolRefs(
 
     def visit_ClassDef(self, node: ast.ClassDef) -> None:
         self.generic_visit(node.bases)
+        self.generic_visit(node.keywords)
         self.generic_visit(node.decorator_list)
+        # the body runs right away, but what it binds is local to it
+        with self.push_attributes(
+            dead=set(self.dead),
+            modified=set(),
+            _func_ast_by_name=dict(self._func_ast_by_name),
+        ):
+            self.generic_visit(node.body)
         self.dead.add(SymbolRef(node).canonical())
 
     def visit_Call(self, node: ast.Call) -> None:
-- 
2.43.0


From 3a7d48428dede57f6ee55c6cb763679aeadc15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 34/65] fix: annotations without a value kill nothing, and
 calls see what was killed before them, in liveness

---
 core/ipyflow/analysis/live_refs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 19780e1..04c138a 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -216,6 +216,9 @@ class ComputeLiveSymbolRefs(
         self.visit_Assign_impl(node.targets, node.value)
 
     def visit_AnnAssign(self, node: ast.AnnAssign) -> None:
+        if node.value is None:
+            # binds nothing
+            return
         self.visit_Assign_impl([node.target], node.value)
 
     def visit_AugAssign(self, node: ast.AugAssign) -> None:
@@ -417,7 +420,7 @@ class ComputeLiveSymbolRefs(
             func_ast_by_name = dict(self._func_ast_by_name)
             with self.push_attributes(
                 _scope=call_scope,
-                dead=call_dead,
+                dead=call_dead | self.dead,
                 live=call_live,
                 modified=set(),
                 _func_ast_by_name=func_ast_by_name,
-- 
2.43.0


From e9b3fbb882a799d78046f17b1967e09ed884f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 35/65] fix: do not treat names bound by operands that may not
 be evaluated as killed

---
 core/ipyflow/analysis/live_refs.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 04c138a..d34651d 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -297,6 +297,26 @@ class ComputeLiveSymbolRefs(
 
     visit_List = visit_Set = visit_Tuple = visit_container_literal
 
+    def visit_BoolOp(self, node: ast.BoolOp) -> None:
+        with self.attrsub_context(False):
+            self.visit(node.values[0])
+            # the other operands may not be evaluated
+            with self.push_attributes(dead=set(self.dead)):
+                self.generic_visit(node.values[1:])
+                self.modified |= self.dead
+
+    def visit_IfExp(self, node: ast.IfExp) -> None:
+        with self.attrsub_context(False):
+            self.visit(node.test)
+            deads = []
+            for branch in (node.body, node.orelse):
+                branch_dead = set(self.dead)
+                with self.push_attributes(dead=branch_dead):
+                    self.visit(branch)
+                self.modified |= branch_dead
+                deads.append(branch_dead)
+        self.dead |= set.intersection(*deads)
+
     def visit_Dict(self, node: ast.Dict) -> None:
         with self.attrsub_context(False):
             self.generic_visit([k for k in node.keys if k])
-- 
2.43.0


From 93c4856969977065287c4668c8cd81a92b7fb38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 36/65] fix: treat subscripts and arguments inside of
 assignment targets as complete reads

---
 core/ipyflow/analysis/live_refs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index d34651d..56f5547 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -103,7 +103,12 @@ class ComputeLiveSymbolRefs(
         return self.push_attributes(_in_kill_context=False)
 
     def attrsub_context(self, inside=True):
-        return self.push_attributes(_inside_attrsub=inside, _skip_simple_names=inside)
+        return self.push_attributes(
+            _inside_attrsub=inside,
+            _skip_simple_names=inside,
+            # subscripts and arguments inside of a target are ordinary reads
+            _is_lhs=self._is_lhs and inside,
+        )
 
     def _add_attrsub_to_live_if_eligible(self, ref: SymbolRef) -> None:
         is_killed = ref.canonical() in self.dead
-- 
2.43.0


From 7abe3085b2f09f6191050eb9fdb6baa9dcb1cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 37/65] fix: treat attributes and subscripts bound by loops and
 with statements like assignment targets in liveness

---
 core/ipyflow/analysis/live_refs.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 56f5547..08cfdaa 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -272,8 +272,7 @@ class ComputeLiveSymbolRefs(
     def visit_withitem(self, node: ast.withitem) -> None:
         self.visit(node.context_expr)
         if node.optional_vars is not None:
-            with self.kill_context():
-                self.visit(node.optional_vars)
+            self.visit_bound_target(node.optional_vars)
 
     def visit_Name(self, node: ast.Name) -> None:
         ref = SymbolRef(node, scope=self._scope)
@@ -339,8 +338,7 @@ class ComputeLiveSymbolRefs(
         orelse_dead = set(self.dead)
         with self.push_attributes(dead=body_dead):
             if hasattr(node, "target"):
-                with self.kill_context():
-                    self.visit(node.target)
+                self.visit_bound_target(node.target)
             self.generic_visit(node.body)
         with self.push_attributes(dead=orelse_dead):
             self.generic_visit(node.orelse)
@@ -498,6 +496,12 @@ class ComputeLiveSymbolRefs(
         elif isinstance(target, ast.Starred):
             self.visit_target_containers(target.value)
 
+    def visit_bound_target(self, target: ast.expr) -> None:
+        with self.push_attributes(_is_lhs=True):
+            self.visit_target_containers(target)
+        with self.kill_context():
+            self.visit_Assign_target(target)
+
     def visit_Delete(self, node: ast.Delete) -> None:
         with self.push_attributes(_is_lhs=True):
             for target in node.targets:
-- 
2.43.0


From dfe14ad784368d2e2b24a72db67413649a1e4a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 38/65] fix: count subscripts of variables that share a
 quasiquote macro's name as reads

---
 core/ipyflow/analysis/live_refs.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 08cfdaa..d2493dc 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -467,8 +467,8 @@ class ComputeLiveSymbolRefs(
         else:
             super().generic_visit(node)
 
-    def visit_Subscript(self, node: ast.Subscript) -> None:
-        if isinstance(node.value, ast.Name) and node.value.id in (
+    def _is_quasiquote_macro(self, node: ast.expr) -> bool:
+        if not isinstance(node, ast.Name) or node.id not in (
             "f",
             "q",
             "ast_literal",
@@ -478,6 +478,16 @@ class ComputeLiveSymbolRefs(
             "imap",
             "reduce",
         ):
+            return False
+        # the names of macros may also be names of ordinary variables
+        ref = SymbolRef(node, scope=self._scope)
+        if ref in self.dead or ref in self.modified:
+            return False
+        scope = self._scope or flow().global_scope
+        return scope.lookup_symbol_by_name(node.id) is None
+
+    def visit_Subscript(self, node: ast.Subscript) -> None:
+        if self._is_quasiquote_macro(node.value):
             # skip quasiquoted values
             return
         if not self._inside_attrsub:
-- 
2.43.0


From ccd95c42ed61f185a6e278b9fd8e241dff1b7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 39/65] fix: record output written with writelines

---
 core/ipyflow/tracing/output_recorder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ipyflow/tracing/output_recorder.py b/core/ipyflow/tracing/output_recorder.py
index adc3d9b..b4c5cce 100644
--- a/core/ipyflow/tracing/output_recorder.py
+++ b/core/ipyflow/tracing/output_recorder.py
@@ -27,6 +27,10 @@ class Tee:
         self.out1.write(data)
         self.out2.write(data)
 
+    def writelines(self, lines):
+        for line in lines:
+            self.write(line)
+
     def flush(self):
         self.out1.flush()
         self.out2.flush()
-- 
2.43.0


From 7079c255f16474b43701e8410223ccaa9004e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 40/65] fix: keep recording output when a cell wraps or
 replaces a standard stream

---
 core/ipyflow/tracing/output_recorder.py | 26 ++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/core/ipyflow/tracing/output_recorder.py b/core/ipyflow/tracing/output_recorder.py
index b4c5cce..3633d1e 100644
--- a/core/ipyflow/tracing/output_recorder.py
+++ b/core/ipyflow/tracing/output_recorder.py
@@ -99,17 +99,27 @@ class IPyflowCapturedIO(CapturedIO):
 
 
 class StdstreamProxy:
-    def __init__(self, capture_output_tee: "CaptureOutputTee", name: str) -> None:
+    def __init__(
+        self, capture_output_tee: "CaptureOutputTee", name: str, stream: Any
+    ) -> None:
         self._capture_output_tee = capture_output_tee
         self._name = name
+        # the stream this proxy replaces
+        self._stream_ = stream
         self._inited = True
 
     def _stream(self, include_tee: bool = True) -> Union[TextIOBase, Tee]:
         stream = None
-        if include_tee and threading.current_thread().name == "MainThread":
+        # a proxy that user code wrapped and put back in place of the proxy must
+        # not record as well, since what it receives already went through the tee
+        if (
+            include_tee
+            and threading.current_thread().name == "MainThread"
+            and getattr(self._capture_output_tee, f"sys_{self._name}") is self._stream_
+        ):
             stream = getattr(self._capture_output_tee, f"tee_sys_{self._name}")
         if stream is None:
-            stream = getattr(self._capture_output_tee, f"sys_{self._name}")
+            stream = self._stream_
         return stream
 
     def __getattr__(self, item: str) -> object:
@@ -203,11 +213,13 @@ class OutputRecorder(pyc.BaseTracer):
 
     @pyc.register_raw_handler(pyc.init_module)
     def init_module(self, *_, **__):
+        # user code may have replaced either stream since the previous cell
         if not isinstance(sys.stdout, StdstreamProxy):
-            self.capture_output_tee.sys_stdout = sys.stdout
-            self.capture_output_tee.sys_stderr = sys.stderr
-            sys.stdout = StdstreamProxy(self.capture_output_tee, "stdout")
-            sys.stderr = StdstreamProxy(self.capture_output_tee, "stderr")
+            sys.stdout = StdstreamProxy(self.capture_output_tee, "stdout", sys.stdout)
+        if not isinstance(sys.stderr, StdstreamProxy):
+            sys.stderr = StdstreamProxy(self.capture_output_tee, "stderr", sys.stderr)
+        self.capture_output_tee.sys_stdout = sys.stdout._stream_
+        self.capture_output_tee.sys_stderr = sys.stderr._stream_
         self.capturing_output = True
         self.capture_output = self.capture_output_tee.__enter__()
 
-- 
2.43.0


From 684b7d908a305dec19b1b77e9b8bfa8d65693f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 41/65] fix: re-run cells that displayed data which is not text

---
 core/ipyflow/shell/interactiveshell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/shell/interactiveshell.py b/core/ipyflow/shell/interactiveshell.py
index a2a496e..2411b19 100644
--- a/core/ipyflow/shell/interactiveshell.py
+++ b/core/ipyflow/shell/interactiveshell.py
@@ -674,7 +674,11 @@ class IPyflowInteractiveShell(singletons.IPyflowShell, InteractiveShell):
             captured = prev_cell.captured_output
             if captured is not None and (
                 sum(
-                    sum(len(datum) for datum in output.data.values())
+                    sum(
+                        # not all mime types have textual data
+                        len(datum if isinstance(datum, (str, bytes)) else str(datum))
+                        for datum in output.data.values()
+                    )
                     for output in captured.outputs
                 )
                 + len(captured.stdout)
-- 
2.43.0


From 2f72c8b218370a72996980abf9fe44843fe05427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 42/65] fix: reproduce cells that executed no code of their own

---
 core/ipyflow/data_model/cell.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index e161aef..831c903 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -1017,8 +1017,11 @@ class Cell(SliceableMixin):
             print_ = print
             print_(cell_to_repro.executed_content or "")
             max_len = max(
-                len(line)
-                for line in (cell_to_repro.executed_content or "").splitlines()
+                (
+                    len(line)
+                    for line in (cell_to_repro.executed_content or "").splitlines()
+                ),
+                default=0,
             )
             print_("-" * max_len)
         if show_output and cell_to_repro.captured_output is not None:
-- 
2.43.0


From 006a3c302808d173a7a378266625fa5b3665d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 43/65] fix: reads of subscripts are not unsafe because there
 is no such attribute

---
 core/ipyflow/analysis/resolved_symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ipyflow/analysis/resolved_symbols.py b/core/ipyflow/analysis/resolved_symbols.py
index f044a59..998e2c2 100644
--- a/core/ipyflow/analysis/resolved_symbols.py
+++ b/core/ipyflow/analysis/resolved_symbols.py
@@ -172,6 +172,7 @@ class ResolvedSymbol(CommonEqualityMixin):
             return True
         if (
             not self.atom.is_callpoint
+            and not self.next_atom.is_subscript
             and not isinstance(self.sym.obj, (dict, list, tuple))
             and isinstance(self.next_atom.value, str)
             and (
@@ -181,7 +182,6 @@ class ResolvedSymbol(CommonEqualityMixin):
                 and not hasattr(self.sym.obj, self.next_atom.value)
             )
         ):
-            # TODO: fix this once we can distinguish between attrs and subscripts in the chain
             return True
         return False
 
-- 
2.43.0


From b3593765c51c1f269868cfaa9b67b61c936112cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 44/65] fix: members of an unknown item are not members of its
 container

---
 core/ipyflow/analysis/symbol_ref.py | 43 ++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/core/ipyflow/analysis/symbol_ref.py b/core/ipyflow/analysis/symbol_ref.py
index 9411b80..0916bfb 100644
--- a/core/ipyflow/analysis/symbol_ref.py
+++ b/core/ipyflow/analysis/symbol_ref.py
@@ -215,6 +215,11 @@ class SymbolRefVisitor(ast.NodeVisitor):
             )
         )
 
+    def _drop_members_of_unknown(self) -> None:
+        # these are members of something unknown, and not of what it was taken from
+        while len(self.symbol_chain) > 0 and not self.symbol_chain[-1].is_callpoint:
+            self.symbol_chain.pop()
+
     def visit_Call(self, node: ast.Call) -> None:
         if isinstance(node.func, ast.Attribute):
             self._append_atom(node.func, node.func.attr, is_callpoint=True)
@@ -228,6 +233,8 @@ class SymbolRefVisitor(ast.NodeVisitor):
                 self.symbol_chain.append(
                     Atom(str(sliceval), is_callpoint=True, is_subscript=True)
                 )
+            else:
+                self._drop_members_of_unknown()
             self.visit(node.func.value)
         elif isinstance(node.func, ast.Name):
             self.visit(node.func)
@@ -243,23 +250,27 @@ class SymbolRefVisitor(ast.NodeVisitor):
 
     def visit_Subscript(self, node: ast.Subscript) -> None:
         resolved = resolve_slice_to_constant(node)
-        if resolved is not None:
-            if isinstance(resolved, ast.Name):
-                if self.scope is None:
-                    # FIXME: hack to make the static checker stop here
-                    # In the future, it should *always* try to attempt to resolve
-                    # the value of the ast.Name node
-                    pass
-                else:
-                    sym = self.scope.lookup_symbol_by_name(resolved.id)
-                    if (
-                        sym is not None
-                        and not sym.is_obj_lazy_module
-                        and isinstance(sym.obj, SubscriptIndices.types)
-                    ):
-                        self.symbol_chain.append(Atom(sym.obj, is_subscript=True))
+        if isinstance(resolved, ast.Name):
+            # FIXME: hack to make the static checker stop here if there is no scope
+            # In the future, it should *always* try to attempt to resolve
+            # the value of the ast.Name node
+            sym = (
+                None
+                if self.scope is None
+                else self.scope.lookup_symbol_by_name(resolved.id)
+            )
+            if (
+                sym is not None
+                and not sym.is_obj_lazy_module
+                and isinstance(sym.obj, SubscriptIndices.types)
+            ):
+                resolved = sym.obj
             else:
-                self.symbol_chain.append(Atom(resolved, is_subscript=True))
+                resolved = None
+        if resolved is None:
+            self._drop_members_of_unknown()
+        else:
+            self.symbol_chain.append(Atom(resolved, is_subscript=True))
         self.visit(node.value)
 
     def visit_Name(self, node: ast.Name) -> None:
-- 
2.43.0


From 00b9c4d9367ff5c4e5cfb32a4e72651522ce934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 45/65] fix: positional-only parameters are parameters

---
 core/ipyflow/data_model/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 7bd730d..7d8eadb 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -841,7 +841,7 @@ class Symbol:
         assert isinstance(
             self.func_def_stmt, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
         ), ("got %s" % self.func_def_stmt)
-        args = []
+        args = list(getattr(self.func_def_stmt.args, "posonlyargs", None) or [])
         for arg in self.func_def_stmt.args.args + self.func_def_stmt.args.kwonlyargs:
             args.append(arg)
         if self.func_def_stmt.args.vararg is not None:
-- 
2.43.0


From dba0301d1d4a55d62b56ec9043216b262255f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 46/65] fix: an item of a container depends on the subscript it
 was selected with

---
 core/ipyflow/tracing/ipyflow_tracer.py  |  7 +++++++
 core/ipyflow/tracing/symbol_resolver.py | 28 ++++++++++++++++++-------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 73524aa..8459a47 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1117,6 +1117,13 @@ class DataflowTracer(StackFrameManager):
             for sym in resolve_rval_symbols(arg_node, should_update_usage_info=False)
             if sym.obj is arg_obj
         ]
+        if len(resolved) > 1:
+            # e.g. an item that happens to be the same object as its subscript
+            resolved = [
+                sym
+                for sym in set(self.resolve_loaded_symbols(arg_node))
+                if sym.obj is arg_obj
+            ]
         if len(resolved) == 1:
             return resolved[0].update_usage_info(used_node=arg_node)
         else:
diff --git a/core/ipyflow/tracing/symbol_resolver.py b/core/ipyflow/tracing/symbol_resolver.py
index 838788e..3e894c5 100644
--- a/core/ipyflow/tracing/symbol_resolver.py
+++ b/core/ipyflow/tracing/symbol_resolver.py
@@ -30,14 +30,21 @@ class ResolveRvalSymbols(
         self.dead: Set[Symbol] = set()
         self._in_kill_context = False
         self.exclude_ns = False
+        self.include_slices = True
 
     def __call__(self, node: ast.AST) -> Set[Symbol]:
         self.visit(node)
         return {sym for sym in self.symbols if sym is not None}
 
-    def _resolve_symbols_without_side_effects(self, node: ast.AST) -> List[Symbol]:
+    def _resolve_symbols_without_side_effects(
+        self, node: ast.AST, include_slices: bool = True
+    ) -> List[Symbol]:
         with self.push_attributes(
-            symbols=[], dead=set(), _in_kill_context=False, update_usage_info=False
+            symbols=[],
+            dead=set(self.dead),
+            _in_kill_context=False,
+            update_usage_info=False,
+            include_slices=include_slices,
         ):
             self.visit(node)
             return [sym for sym in self.symbols if sym is not None]
@@ -65,9 +72,9 @@ class ResolveRvalSymbols(
         symbols = set(symbols)
         if self._in_kill_context:
             self.dead |= set(symbols)
-        elif self.update_usage_info:
+        else:
             symbols = [symbol for symbol in symbols if symbol not in self.dead]
-            if should_update_usage_info:
+            if self.update_usage_info and should_update_usage_info:
                 Timestamp.update_usage_info(
                     symbols, used_node=used_node, exclude_ns=self.exclude_ns
                 )
@@ -124,7 +131,9 @@ class ResolveRvalSymbols(
     def _get_attr_or_subscript_namespace(
         self, node: Union[ast.Attribute, ast.Subscript]
     ) -> Optional[Namespace]:
-        symbols = self._resolve_symbols_without_side_effects(node.value)
+        symbols = self._resolve_symbols_without_side_effects(
+            node.value, include_slices=False
+        )
         if len(symbols) != 1 or symbols[0] is None:
             return None
         return flow().namespaces.get(symbols[0].obj_id, None)
@@ -155,10 +164,11 @@ class ResolveRvalSymbols(
     def visit_Subscript(self, node: ast.Subscript):
         if isinstance(node.value, ast.Call):
             self.visit(node.value)
-        symbols = tracer().resolve_loaded_symbols(node)
+        symbols = list(tracer().resolve_loaded_symbols(node))
         self._add_to_resolved(symbols, node, should_extend=False)
         # add slice to RHS to avoid propagating to it
-        symbols.extend(self._resolve_symbols_without_side_effects(node.slice))
+        if self.include_slices:
+            symbols.extend(self._resolve_symbols_without_side_effects(node.slice))
         if len(symbols) > 0:
             self.symbols.extend(symbols)
             return
@@ -167,7 +177,9 @@ class ResolveRvalSymbols(
             slice = resolve_slice_to_constant(node)
             if slice is None or isinstance(slice, ast.Name):
                 return
-            symbols = self._resolve_symbols_without_side_effects(node.value)
+            symbols = self._resolve_symbols_without_side_effects(
+                node.value, include_slices=False
+            )
             if len(symbols) != 1 or symbols[0] is None:
                 return
             ns = self._get_attr_or_subscript_namespace(node)
-- 
2.43.0


From ce32de238f3026d24c390a3f3fd2775d6cd8e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 47/65] fix: a lambda depends on whatever its defaults were
 computed from

---
 core/ipyflow/tracing/ipyflow_tracer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 8459a47..1ac0027 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1456,11 +1456,12 @@ class DataflowTracer(StackFrameManager):
     def after_lambda(
         self, obj: Any, lambda_node_id: int, _frame: FrameType, *_, **__
     ) -> None:
-        sym_deps = []
+        sym_deps: Set[Symbol] = set()
         node = self.ast_node_by_id[lambda_node_id]
         assert isinstance(node, ast.Lambda)
-        for kw_default in node.args.defaults:
-            sym_deps.extend(self.resolve_loaded_symbols(kw_default))
+        for default in node.args.defaults + node.args.kw_defaults:
+            if default is not None:
+                sym_deps.update(resolve_rval_symbols(default))
         sym = self.active_scope.upsert_symbol_for_name(
             "<lambda_sym_%d>" % id(obj),
             obj,
-- 
2.43.0


From e4266f96e72c2a05bdc7eadb4ce03abcc6152e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 48/65] fix: track every name that a with statement binds

---
 core/ipyflow/analysis/symbol_edges.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/ipyflow/analysis/symbol_edges.py b/core/ipyflow/analysis/symbol_edges.py
index 8ddbc59..cdd404e 100644
--- a/core/ipyflow/analysis/symbol_edges.py
+++ b/core/ipyflow/analysis/symbol_edges.py
@@ -92,11 +92,15 @@ class GetSymbolEdges(
         aliases = node.optional_vars
         if aliases is not None:
             # TODO: ideally we should unpack from the namespace
-            if isinstance(aliases, list):
-                for alias in aliases:
-                    self.edges.append((alias, node.context_expr))
-            else:
-                self.edges.append((aliases, node.context_expr))
+            self._add_target_edges(aliases, node.context_expr)
+        self.visit(node.context_expr)
+
+    def _add_target_edges(self, target: ast.AST, value: ast.AST) -> None:
+        if isinstance(target, (ast.List, ast.Tuple)):
+            for elt in target.elts:
+                self._add_target_edges(elt, value)
+        else:
+            self.edges.append((target, value))
 
     def visit_ExceptHandler(self, node: ast.ExceptHandler):
         # TODO: this needs test coverage I think
-- 
2.43.0


From 129d004cc7604fd9f211545962c4822e8ef965b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 49/65] fix: classes depend on their keyword arguments

---
 core/ipyflow/tracing/symbol_resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ipyflow/tracing/symbol_resolver.py b/core/ipyflow/tracing/symbol_resolver.py
index 3e894c5..e815cc7 100644
--- a/core/ipyflow/tracing/symbol_resolver.py
+++ b/core/ipyflow/tracing/symbol_resolver.py
@@ -260,6 +260,7 @@ class ResolveRvalSymbols(
 
     def visit_ClassDef(self, node: ast.ClassDef):
         self.generic_visit(node.bases)
+        self.generic_visit(node.keywords)
         self.generic_visit(node.decorator_list)
 
     def visit_With(self, node: ast.With):
-- 
2.43.0


From 002cefdc932831766381a140a5490049bd66c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:44 +0000
Subject: [PATCH 50/65] fix: the negation of an index refers to another item

---
 core/ipyflow/analysis/symbol_ref.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/analysis/symbol_ref.py b/core/ipyflow/analysis/symbol_ref.py
index 0916bfb..ae15d08 100644
--- a/core/ipyflow/analysis/symbol_ref.py
+++ b/core/ipyflow/analysis/symbol_ref.py
@@ -56,7 +56,8 @@ def resolve_slice_to_constant(
         slc = slc.operand
 
     if isinstance(slc, ast.Name):
-        return slc
+        # the negation of a name refers to some other item than the name does
+        return None if negate else slc
 
     if not isinstance(
         slc,
@@ -79,7 +80,9 @@ def resolve_slice_to_constant(
     else:
         return None
 
-    if isinstance(slc, int) and negate:
+    if negate:
+        if not isinstance(slc, (int, float, complex)):
+            return None
         slc = -slc  # type: ignore
     return slc  # type: ignore
 
-- 
2.43.0


From 4224948f3c72fac2cf4ef2a5a11f671532b58256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:58 +0000
Subject: [PATCH 51/65] fix: annotations without a value leave what is known of
 the name alone

---
 core/ipyflow/analysis/symbol_edges.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/analysis/symbol_edges.py b/core/ipyflow/analysis/symbol_edges.py
index cdd404e..4d4a82e 100644
--- a/core/ipyflow/analysis/symbol_edges.py
+++ b/core/ipyflow/analysis/symbol_edges.py
@@ -50,7 +50,9 @@ class GetSymbolEdges(
         self.visit(node.value)
 
     def visit_AnnAssign(self, node):
-        self.visit_AugAssign_or_AnnAssign(node)
+        # annotations without a value don't bind anything
+        if node.value is not None:
+            self.visit_AugAssign_or_AnnAssign(node)
 
     def visit_AugAssign(self, node):
         self.visit_AugAssign_or_AnnAssign(node)
-- 
2.43.0


From ef810f052befb6d8c79302a094c86b2a8a86d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:58 +0000
Subject: [PATCH 52/65] fix: names bound in class bodies depend on the outer
 names they were computed from

---
 core/ipyflow/tracing/ipyflow_tracer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 1ac0027..2479655 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -636,7 +636,13 @@ class DataflowTracer(StackFrameManager):
         if isinstance(symbol_ref, int):
             return self.node_id_to_loaded_symbols.get(symbol_ref, [])
         elif isinstance(symbol_ref, str):
-            ret = self.cur_frame_original_scope.lookup_symbol_by_name(symbol_ref)
+            scope = self.cur_frame_original_scope
+            ret = scope.lookup_symbol_by_name(symbol_ref)
+            if ret is None and scope.is_namespace_scope:
+                # class bodies can read names from the scopes that enclose them
+                enclosing_scope = scope.non_namespace_parent_scope
+                if enclosing_scope is not None:
+                    ret = enclosing_scope.lookup_symbol_by_name(symbol_ref)
             if ret is None:
                 return []
             else:
-- 
2.43.0


From ed018c6bfd5ab1440db711a40f05f8db5955e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:17 +0000
Subject: [PATCH 53/65] fix: track every name that an assignment expression
 binds

---
 core/ipyflow/analysis/symbol_edges.py | 21 +++++++++++++++++++--
 core/ipyflow/data_model/statement.py  | 17 ++++++++++-------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/core/ipyflow/analysis/symbol_edges.py b/core/ipyflow/analysis/symbol_edges.py
index 4d4a82e..3011231 100644
--- a/core/ipyflow/analysis/symbol_edges.py
+++ b/core/ipyflow/analysis/symbol_edges.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 import ast
 import logging
-from typing import List, Sequence, Tuple, Union
+from typing import List, Optional, Sequence, Tuple, Union
 
 from ipyflow.analysis.mixins import (
     SaveOffAttributesMixin,
@@ -17,6 +17,7 @@ class GetSymbolEdges(
 ):
     def __init__(self) -> None:
         self.edges: List[Tuple[Union[str, ast.AST], ast.AST]] = []
+        self._outermost_comprehension: Optional[ast.AST] = None
 
     def __call__(self, node: ast.AST) -> List[Tuple[Union[str, ast.AST], ast.AST]]:
         self.visit(node)
@@ -33,9 +34,25 @@ class GetSymbolEdges(
             super().generic_visit(node)
 
     def visit_NamedExpr(self, node):
-        self.edges.append((node.target, node.value))
+        # names bound inside of comprehensions outlive the comprehension's own variables
+        self.edges.append((node.target, self._outermost_comprehension or node.value))
         self.visit(node.value)
 
+    def visit_GeneratorExp_or_DictComp_or_ListComp_or_SetComp(self, node):
+        with self.push_attributes(
+            _outermost_comprehension=self._outermost_comprehension or node
+        ):
+            super().generic_visit(node)
+
+    visit_GeneratorExp = visit_GeneratorExp_or_DictComp_or_ListComp_or_SetComp
+    visit_DictComp = visit_GeneratorExp_or_DictComp_or_ListComp_or_SetComp
+    visit_ListComp = visit_GeneratorExp_or_DictComp_or_ListComp_or_SetComp
+    visit_SetComp = visit_GeneratorExp_or_DictComp_or_ListComp_or_SetComp
+
+    def visit_Lambda(self, node):
+        # names bound in the body are local to the lambda
+        self.visit(node.args)
+
     def generic_visit(self, node: Union[ast.AST, Sequence[ast.AST]]):
         # The purpose of this is to make sure we call our visit_expr method if we see an expr
         if node is None:
diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index d957cc3..283b32e 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -581,6 +581,12 @@ class Statement(SliceableMixin):
             )
 
     def _handle_store(self, node: Union[ast.Assign, ast.For, ast.AsyncFor]) -> None:
+        for target, value in get_symbol_edges(node):
+            if target is not getattr(node, "target", None):
+                # bound by an assignment expression
+                self._handle_assign_target_for_deps(
+                    cast(ast.AST, target), resolve_rval_symbols(value)
+                )
         if isinstance(node, ast.Assign):
             for target in node.targets:
                 self._handle_store_target(target, node.value)
@@ -617,11 +623,8 @@ class Statement(SliceableMixin):
         )
         is_class_def = isinstance(self.stmt_node, ast.ClassDef)
         is_import = isinstance(self.stmt_node, (ast.Import, ast.ImportFrom))
-        if is_function_def or is_class_def:
-            assert len(symbol_edges) == 1
-            # assert not lval_symbol_refs.issubset(rval_symbol_refs)
-
         for target, dep_node in symbol_edges:
+            is_definition = dep_node is self.stmt_node
             rval_deps = resolve_rval_symbols(dep_node)
             if is_import:
                 dep_node_as_alias = cast(ast.alias, dep_node)
@@ -650,7 +653,7 @@ class Statement(SliceableMixin):
                 if target_as_str == "*" or "." in target_as_str:
                     continue
             logger.info("create edges from %s to %s", rval_deps, target)
-            if is_class_def:
+            if is_class_def and is_definition:
                 assert self.class_scope is not None
                 class_ref = self.frame.f_locals[cast(ast.ClassDef, self.stmt_node).name]  # type: ignore[union-attr]
                 self.class_scope.promote_to_namespace(class_ref)
@@ -671,9 +674,9 @@ class Statement(SliceableMixin):
                     self.stmt_node,
                     overwrite=should_overwrite,
                     is_subscript=is_subscript,
-                    is_function_def=is_function_def,
+                    is_function_def=is_function_def and is_definition,
                     is_import=is_import,
-                    class_scope=self.class_scope,
+                    class_scope=self.class_scope if is_definition else None,
                     propagate=not isinstance(self.stmt_node, (ast.For, ast.AsyncFor)),
                     symbol_node=target if isinstance(target, ast.AST) else None,
                     is_cascading_reactive=self.stmt_contains_cascading_reactive_rval,
-- 
2.43.0


From 98fb80c9894fd40def401cc3f583917abeeb0f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 54/65] fix: what is unpacked depends on the values it was
 unpacked from

---
 core/ipyflow/data_model/namespace.py    |  8 ++-
 core/ipyflow/data_model/statement.py    | 92 +++++++++++++++++--------
 core/ipyflow/tracing/ipyflow_tracer.py  | 31 ++++++---
 core/ipyflow/tracing/symbol_resolver.py |  2 +-
 core/ipyflow/tracing/utils.py           | 64 ++++++++++++-----
 5 files changed, 136 insertions(+), 61 deletions(-)

diff --git a/core/ipyflow/data_model/namespace.py b/core/ipyflow/data_model/namespace.py
index 4d8ae41..1e14d85 100644
--- a/core/ipyflow/data_model/namespace.py
+++ b/core/ipyflow/data_model/namespace.py
@@ -113,10 +113,12 @@ class Namespace(Scope):
         for i in range(limit):
             yield self.lookup_symbol_by_name_this_indentation(i, is_subscript=True)
 
+    @property
+    def is_sequence(self) -> bool:
+        return self._force_allow_iteration or isinstance(self.obj, (list, tuple))
+
     def __iter__(self) -> Iterator[Optional[Symbol]]:
-        if not self._force_allow_iteration and not isinstance(
-            self.obj, (list, tuple)
-        ):  # pragma: no cover
+        if not self.is_sequence:  # pragma: no cover
             raise TypeError(
                 "tried to iterate through non-sequence namespace %s: %s", self, self.obj
             )
diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index 283b32e..1337830 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -440,17 +440,31 @@ class Statement(SliceableMixin):
         iter_namespace: Optional[Namespace] = None,
     ) -> None:
         for inner_target in target.elts:
-            if isinstance(inner_target, (ast.List, ast.Tuple)):
-                self._handle_store_target_tuple_unpack_from_deps(
-                    inner_target, deps, iter_namespace=iter_namespace
-                )
-            else:
-                self._handle_assign_target_for_deps(
-                    inner_target, deps, iter_namespace=iter_namespace
-                )
+            self._handle_inner_store_target_from_deps(
+                inner_target, deps, iter_namespace=iter_namespace
+            )
+
+    def _handle_inner_store_target_from_deps(
+        self,
+        target: ast.AST,
+        deps: Set[Symbol],
+        iter_namespace: Optional[Namespace] = None,
+    ) -> None:
+        if isinstance(target, (ast.List, ast.Tuple)):
+            self._handle_store_target_tuple_unpack_from_deps(
+                target, deps, iter_namespace=iter_namespace
+            )
+        else:
+            self._handle_assign_target_for_deps(
+                target, deps, iter_namespace=iter_namespace
+            )
 
     def _handle_starred_store_target(
-        self, target: ast.Starred, inner_deps: List[Optional[Symbol]]
+        self,
+        target: ast.Starred,
+        inner_deps: List[Optional[Symbol]],
+        deps: Set[Symbol],
+        extra_deps: Set[Symbol],
     ) -> None:
         try:
             scope, name, obj, is_subscript, _ = tracer().resolve_store_data_for_target(
@@ -471,7 +485,7 @@ class Statement(SliceableMixin):
             ns.upsert_symbol_for_name(
                 i,
                 inner_dep.obj,
-                {inner_dep},
+                {inner_dep} | extra_deps,
                 self.stmt_node,
                 is_subscript=True,
                 is_cascading_reactive=self.stmt_contains_cascading_reactive_rval,
@@ -479,7 +493,7 @@ class Statement(SliceableMixin):
         sym = scope.upsert_symbol_for_name(
             name,
             obj,
-            set(),
+            deps if None in inner_deps else extra_deps,
             self.stmt_node,
             is_subscript=is_subscript,
             symbol_node=target,
@@ -493,46 +507,62 @@ class Statement(SliceableMixin):
         self,
         target: Union[ast.List, ast.Tuple],
         rhs_namespace: Namespace,
+        deps: Set[Symbol],
         extra_deps: Set[Symbol],
         is_for: bool = False,
     ) -> None:
-        saved_starred_node: Optional[ast.Starred] = None
         saved_starred_deps = []
-        for (i, inner_dep), (
-            _,
+        remaining_targets = list(target.elts)
+        for (
+            i,
+            inner_dep,
+        ), (
             inner_target,
         ) in match_container_obj_or_namespace_with_literal_nodes(rhs_namespace, target):
             if isinstance(inner_target, ast.Starred):
-                saved_starred_node = inner_target
                 saved_starred_deps.append(inner_dep)
                 continue
             if inner_dep is None:
-                inner_deps = set()
-            else:
-                inner_deps = {inner_dep}
-            inner_deps |= extra_deps
+                continue
+            remaining_targets.remove(inner_target)
+            inner_deps = {inner_dep} | extra_deps
+            iter_namespace = inner_dep.namespaced() if is_for else None
             if isinstance(inner_target, (ast.List, ast.Tuple)):
                 inner_namespace = flow().namespaces.get(inner_dep.obj_id)
-                if inner_namespace is None or inner_namespace.obj is None:
+                if is_for or not self._can_unpack_from_namespace(inner_namespace):
                     self._handle_store_target_tuple_unpack_from_deps(
-                        inner_target, inner_deps
+                        inner_target, inner_deps, iter_namespace=iter_namespace
                     )
                 else:
                     self._handle_store_target_tuple_unpack_from_namespace(
-                        inner_target, inner_namespace, extra_deps
+                        inner_target,
+                        cast(Namespace, inner_namespace),
+                        inner_deps,
+                        extra_deps,
                     )
             else:
-                iter_namespace = None
-                if is_for and inner_dep is not None:
-                    iter_namespace = inner_dep.namespaced()
                 self._handle_assign_target_for_deps(
                     inner_target,
                     inner_deps,
                     iter_namespace=iter_namespace,
                     maybe_fixup_literal_namespace=True,
                 )
-        if saved_starred_node is not None:
-            self._handle_starred_store_target(saved_starred_node, saved_starred_deps)
+        for inner_target in remaining_targets:
+            if isinstance(inner_target, ast.Starred):
+                self._handle_starred_store_target(
+                    inner_target, saved_starred_deps, deps, extra_deps
+                )
+            else:
+                # don't know which of the values this one was computed from
+                self._handle_inner_store_target_from_deps(inner_target, deps)
+
+    @staticmethod
+    def _can_unpack_from_namespace(namespace: Optional[Namespace]) -> bool:
+        return (
+            namespace is not None
+            and namespace.obj is not None
+            and namespace.is_sequence
+        )
 
     def _handle_store_target(
         self, target: ast.AST, value: ast.AST, is_for: bool = False
@@ -554,7 +584,7 @@ class Statement(SliceableMixin):
                 # end up inserting the virtual iteration symbol for mutation propagation, and we want such mutations to
                 # propagate to all loop vars.
                 rhs_namespace = None
-            if rhs_namespace is None or rhs_namespace.obj is None:
+            if not self._can_unpack_from_namespace(rhs_namespace):
                 self._handle_store_target_tuple_unpack_from_deps(
                     target,
                     deps,
@@ -568,7 +598,11 @@ class Statement(SliceableMixin):
                     # in this case, every target should depend on whatever was called
                     extra_deps = deps
                 self._handle_store_target_tuple_unpack_from_namespace(
-                    target, rhs_namespace, extra_deps, is_for=is_for
+                    target,
+                    cast(Namespace, rhs_namespace),
+                    deps,
+                    extra_deps,
+                    is_for=is_for,
                 )
         else:
             self._handle_assign_target_for_deps(
diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 2479655..327f2c8 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1349,15 +1349,20 @@ class DataflowTracer(StackFrameManager):
             starred_idx = -1
             starred_namespace = None
             outer_deps = set()
-            for (i, inner_obj), (
-                inner_key_node,
-                inner_val_node,
-            ) in match_container_obj_or_namespace_with_literal_nodes(
-                literal, self.ast_node_by_id[node_id]  # type: ignore
+            literal_node = self.ast_node_by_id[node_id]
+            for inner_key_node in getattr(literal_node, "keys", []):
+                if inner_key_node is not None:
+                    outer_deps.update(resolve_rval_symbols(inner_key_node))
+            for (
+                i,
+                inner_obj,
+            ), inner_val_nodes in match_container_obj_or_namespace_with_literal_nodes(
+                literal, literal_node  # type: ignore
             ):
                 # TODO: memoize symbol resolution; otherwise this will be quadratic for deeply nested literals
+                inner_symbols: Set[Symbol] = set()
+                inner_val_node = inner_val_nodes[0] if len(inner_val_nodes) == 1 else None
                 if isinstance(inner_val_node, ast.Starred):
-                    inner_symbols: Set[Symbol] = set()
                     starred_idx += 1
                     starred_dep: Optional[Symbol] = None
                     if starred_idx == 0:
@@ -1375,11 +1380,9 @@ class DataflowTracer(StackFrameManager):
                         )
                     if starred_dep is not None:
                         inner_symbols.add(starred_dep)
-                else:
-                    inner_symbols = resolve_rval_symbols(inner_val_node)
-                    if inner_key_node is not None:
-                        outer_deps.update(resolve_rval_symbols(inner_key_node))
-                self.node_id_to_loaded_symbols.pop(id(inner_val_node), None)
+                if not inner_symbols:
+                    for inner_val_node in inner_val_nodes:
+                        inner_symbols |= resolve_rval_symbols(inner_val_node)
                 if isinstance(i, SubscriptIndices.types):
                     self.active_literal_scope.upsert_symbol_for_name(
                         i,
@@ -1393,6 +1396,12 @@ class DataflowTracer(StackFrameManager):
                         # GC'd symbols from the symbol graph
                         propagate=False,
                     )
+            for inner_val_node in (
+                literal_node.values
+                if isinstance(literal_node, ast.Dict)
+                else literal_node.elts  # type: ignore[attr-defined]
+            ):
+                self.node_id_to_loaded_symbols.pop(id(inner_val_node), None)
             self.node_id_to_loaded_literal_scope[node_id] = self.active_literal_scope
             parent_scope: Scope = self.active_literal_scope.parent_scope  # type: ignore[assignment]
             while parent_scope.is_namespace_scope:
diff --git a/core/ipyflow/tracing/symbol_resolver.py b/core/ipyflow/tracing/symbol_resolver.py
index e815cc7..82fd1c0 100644
--- a/core/ipyflow/tracing/symbol_resolver.py
+++ b/core/ipyflow/tracing/symbol_resolver.py
@@ -204,7 +204,7 @@ class ResolveRvalSymbols(
         self.visit(node.value)
 
     def visit_Starred(self, node: ast.Starred):
-        self.symbols.extend(tracer().resolve_loaded_symbols(node))
+        self.visit(node.value)
 
     def visit_Lambda(self, node):
         self.symbols.extend(tracer().resolve_loaded_symbols(node))
diff --git a/core/ipyflow/tracing/utils.py b/core/ipyflow/tracing/utils.py
index 3fe3fed..fc89d94 100644
--- a/core/ipyflow/tracing/utils.py
+++ b/core/ipyflow/tracing/utils.py
@@ -18,20 +18,50 @@ def match_container_obj_or_namespace_with_literal_nodes(
     ],
     literal_node: Union[ast.Dict, ast.List, ast.Tuple],
 ):
-    try:
-        gen = container_obj_or_namespace.items()  # type: ignore
-        assert isinstance(literal_node, ast.Dict), "got %s" % ast.dump(literal_node)
-        yield from zip(gen, zip(literal_node.keys, literal_node.values))
-    except (AttributeError, TypeError):
-        assert isinstance(literal_node, (ast.List, ast.Tuple))
-        elts = literal_node.elts
-        cur_node = None
-        cur_elt_idx = -1
-        for i, obj_or_sym in enumerate(container_obj_or_namespace):
-            if (
-                not isinstance(cur_node, ast.Starred)
-                or len(elts) - cur_elt_idx - 1 >= len(container_obj_or_namespace) - i
-            ):
-                cur_elt_idx += 1
-                cur_node = elts[cur_elt_idx]
-            yield (i, obj_or_sym), (None, cur_node)
+    """
+    Pair each item of the container with all the nodes of the literal (or of the
+    unpacked target) that it could correspond to. There is just one such node
+    unless the item is among the results of several unpackings.
+    """
+    if isinstance(literal_node, ast.Dict):
+        items = list(container_obj_or_namespace.items())  # type: ignore[union-attr]
+        is_one_to_one = None not in literal_node.keys and len(items) == len(
+            literal_node.keys
+        )
+        for i, (key, value) in enumerate(items):
+            yield (key, value), (
+                [literal_node.values[i]]
+                if is_one_to_one
+                else _get_candidate_value_nodes(key, literal_node)
+            )
+        return
+    elts = literal_node.elts
+    contents = list(container_obj_or_namespace)  # type: ignore[arg-type]
+    starred = [i for i, elt in enumerate(elts) if isinstance(elt, ast.Starred)]
+    num_before, num_after = len(elts), 0
+    if starred:
+        num_before, num_after = starred[0], len(elts) - starred[-1] - 1
+    for i, obj_or_sym in enumerate(contents):
+        if i < num_before:
+            nodes = [elts[i]]
+        elif i >= len(contents) - num_after:
+            nodes = [elts[i - len(contents)]]
+        elif starred:
+            nodes = elts[starred[0] : starred[-1] + 1]
+        else:
+            break
+        yield (i, obj_or_sym), nodes
+
+
+def _get_candidate_value_nodes(key: Any, literal_node: ast.Dict) -> List[ast.AST]:
+    candidates: List[ast.AST] = []
+    for key_node, value_node in reversed(
+        list(zip(literal_node.keys, literal_node.values))
+    ):
+        if not isinstance(key_node, ast.Constant):
+            candidates.append(value_node)
+        elif key_node.value == key:
+            # whatever comes before it is overwritten
+            candidates.append(value_node)
+            break
+    return candidates
-- 
2.43.0


From 8abfd3f8c09535ca816148191f6cd018ed939a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:31 +0000
Subject: [PATCH 55/65] fix: augmented assignments to slices mutate their
 container

---
 core/ipyflow/data_model/statement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index 1337830..acc0ea8 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -740,6 +740,8 @@ class Statement(SliceableMixin):
                             else target
                         ),
                     )
+                if isinstance(target, ast.AST):
+                    self._handle_mutated_container(target, rval_deps)
             except ImportError:
                 raise
             except Exception as e:
-- 
2.43.0


From fbcee0ab71e0dd4378a46026eb5bea4635617c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 56/65] fix: loops over enumerate and zip objects that were
 created elsewhere

---
 core/ipyflow/tracing/ipyflow_tracer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 327f2c8..e9251f6 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1519,6 +1519,9 @@ class DataflowTracer(StackFrameManager):
         self.saved_assign_rhs_obj = ret
         if not isinstance(ret, (enumerate, zip)):
             return
+        if not self.external_calls or self.external_calls[-1].return_value is not ret:
+            # it was not created here, so we don't know what it iterates over
+            return
         ns = Namespace(
             ret,
             Namespace.ANONYMOUS,
-- 
2.43.0


From f925cc461a8633962606859dcd939c1e64bde181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 57/65] fix: names that functions declare nonlocal or delete
 are those of the enclosing scopes

---
 core/ipyflow/tracing/ipyflow_tracer.py | 33 +++++++++++++++++---------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index e9251f6..c428d05 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -510,12 +510,9 @@ class DataflowTracer(StackFrameManager):
             ref = id(ref)
         return ref
 
-    def _resolve_store_data_for_simple_target(
-        self, target: str, frame: FrameType
-    ) -> Tuple[Scope, str, Any, bool, Set[Symbol]]:
+    def _resolve_scope_for_simple_target(self, target: str) -> Tuple[Scope, bool]:
         scope = self.cur_frame_original_scope
-        lut = frame.f_locals
-        flow_ = flow()
+        is_global = False
         if scope.symtab is not None:
             try:
                 target_sym = scope.symtab.lookup(target)
@@ -530,18 +527,32 @@ class DataflowTracer(StackFrameManager):
                     and target_sym.is_free(),
                 )()
                 if is_nonlocal:
-                    par_scope = scope.parent_scope
-                    scope = flow_.global_scope if par_scope is None else par_scope
+                    par_scope = scope.non_namespace_parent_scope
+                    while (
+                        par_scope is not None
+                        and not par_scope.is_global
+                        and par_scope.lookup_symbol_by_name_this_indentation(target)
+                        is None
+                    ):
+                        par_scope = par_scope.non_namespace_parent_scope
+                    scope = flow().global_scope if par_scope is None else par_scope
                 elif target_sym.is_global():
-                    lut = frame.f_globals
-                    scope = flow_.global_scope
+                    is_global = True
+                    scope = flow().global_scope
             except KeyError:
                 pass
+        return scope, is_global
+
+    def _resolve_store_data_for_simple_target(
+        self, target: str, frame: FrameType
+    ) -> Tuple[Scope, str, Any, bool, Set[Symbol]]:
+        scope, is_global = self._resolve_scope_for_simple_target(target)
+        lut = frame.f_globals if is_global else frame.f_locals
         try:
             obj = lut[target]
         except KeyError:
             obj = frame.f_globals[target]
-            scope = flow_.global_scope
+            scope = flow().global_scope
         return scope, target, obj, False, set()
 
     def resolve_store_data_for_target(
@@ -615,7 +626,7 @@ class DataflowTracer(StackFrameManager):
     ) -> Tuple[Scope, Optional[Any], AttrSubVal, bool]:
         target = self._partial_resolve_ref(target)
         if isinstance(target, str):
-            return self.cur_frame_original_scope, None, target, False
+            return self._resolve_scope_for_simple_target(target)[0], None, target, False
         (scope, obj, attr_or_sub, is_subscript) = self.node_id_to_saved_del_data[target]
         return scope, obj, attr_or_sub, is_subscript
 
-- 
2.43.0


From bf7d47eb10548acf78fa35d5f12eee841092c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 58/65] fix: record the object that was stored for items that
 are not the direct target of an assignment

---
 core/ipyflow/data_model/statement.py   |  6 +++---
 core/ipyflow/tracing/ipyflow_tracer.py | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index acc0ea8..f929933 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -366,7 +366,7 @@ class Statement(SliceableMixin):
                 is_subscript,
                 excluded_deps,
             ) = tracer().resolve_store_data_for_target(
-                target, self.frame  # type: ignore[arg-type]
+                target, self.frame, self.stmt_node  # type: ignore[arg-type]
             )
         except KeyError:
             # e.g., slices aren't implemented yet
@@ -468,7 +468,7 @@ class Statement(SliceableMixin):
     ) -> None:
         try:
             scope, name, obj, is_subscript, _ = tracer().resolve_store_data_for_target(
-                target, self.frame  # type: ignore[arg-type]
+                target, self.frame, self.stmt_node  # type: ignore[arg-type]
             )
         except KeyError as e:
             # e.g., slices aren't implemented yet
@@ -699,7 +699,7 @@ class Statement(SliceableMixin):
                     is_subscript,
                     excluded_deps,
                 ) = tracer().resolve_store_data_for_target(
-                    target, self.frame  # type: ignore[arg-type]
+                    target, self.frame, self.stmt_node  # type: ignore[arg-type]
                 )
                 scope.upsert_symbol_for_name(
                     name,
diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index c428d05..6b29a11 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -556,7 +556,10 @@ class DataflowTracer(StackFrameManager):
         return scope, target, obj, False, set()
 
     def resolve_store_data_for_target(
-        self, target: Union[str, int, ast.AST], frame: FrameType
+        self,
+        target: Union[str, int, ast.AST],
+        frame: FrameType,
+        stmt_node: Optional[ast.stmt] = None,
     ) -> Tuple[Scope, AttrSubVal, Any, bool, Set[Symbol]]:
         resolved_target = self._partial_resolve_ref(target)
         if isinstance(resolved_target, str):
@@ -592,7 +595,18 @@ class DataflowTracer(StackFrameManager):
             if attr_or_sub is None:
                 raise
 
-        if isinstance(obj, (dict, list)) and (
+        is_rhs_target = isinstance(stmt_node, ast.Assign) and any(
+            target is stmt_target for stmt_target in stmt_node.targets
+        )
+        if isinstance(obj, (dict, list)) and is_subscript and not is_rhs_target:
+            # the object on the rhs (if any) is not the one that was stored (e.g.
+            # it gets unpacked or iterated over), so look it up without side effects
+            container_type = dict if isinstance(obj, dict) else list
+            try:
+                attr_or_sub_obj = container_type.__getitem__(obj, attr_or_sub)  # type: ignore[attr-defined]
+            except (IndexError, TypeError) as e:
+                raise KeyError(attr_or_sub) from e
+        elif isinstance(obj, (dict, list)) and (
             not self.tracing_disabled_since_last_stmt
             or self.saved_assign_rhs_obj is not None
         ):
-- 
2.43.0


From 5968ae43bcdb49c2bd00c7f7e17764c6e7627fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 59/65] fix: bytearrays can be changed in place

---
 core/ipyflow/types.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ipyflow/types.py b/core/ipyflow/types.py
index a3b6e10..3678dde 100644
--- a/core/ipyflow/types.py
+++ b/core/ipyflow/types.py
@@ -10,7 +10,6 @@ TimestampOrCounter = TypeVar("TimestampOrCounter", Timestamp, int)
 
 IMMUTABLE_PRIMITIVE_TYPES = (
     bytes,
-    bytearray,
     float,
     frozenset,
     int,
-- 
2.43.0


From 9d9739f417c4c559e47314348eeb4a5aea1981b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 60/65] fix: the module of a library method's class is a
 module, not its name

---
 core/ipyflow/tracing/external_calls/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/tracing/external_calls/__init__.py b/core/ipyflow/tracing/external_calls/__init__.py
index 81de99d..385985c 100644
--- a/core/ipyflow/tracing/external_calls/__init__.py
+++ b/core/ipyflow/tracing/external_calls/__init__.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 import ast
 import logging
+import sys
 from types import FunctionType, ModuleType
 from typing import TYPE_CHECKING, Any, Optional
 
@@ -80,7 +81,7 @@ def resolve_external_call(
         for cls in caller_self.__class__.mro():
             external_call_type = REGISTERED_HANDLER_BY_METHOD.get((cls, method))
             if external_call_type is not None:
-                module = getattr(cls, "__module__", module)
+                module = sys.modules.get(cls.__module__, module)
                 break
     if external_call_type is None:
         if use_standard_default:
-- 
2.43.0


From a987946e8a21374fa5b1179b74d3e303d4eb0800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 61/65] fix: methods declared as mutating do so also when they
 return something

---
 core/ipyflow/tracing/external_calls/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/tracing/external_calls/__init__.py b/core/ipyflow/tracing/external_calls/__init__.py
index 385985c..79be0fe 100644
--- a/core/ipyflow/tracing/external_calls/__init__.py
+++ b/core/ipyflow/tracing/external_calls/__init__.py
@@ -12,6 +12,7 @@ from ipyflow.singletons import flow
 from ipyflow.tracing.external_calls.base_handlers import (
     REGISTERED_HANDLER_BY_FUNCTION,
     REGISTERED_HANDLER_BY_METHOD,
+    CallerMutation,
     ExternalCallHandler,
     MutatingMethodEventNotYetImplemented,
     NoopCallHandler,
@@ -91,7 +92,7 @@ def resolve_external_call(
     elif external_call_type is NoopCallHandler:
         return None
     elif external_call_type is MutatingMethodEventNotYetImplemented:
-        external_call_type = StandardMutation
+        external_call_type = CallerMutation
 
     return external_call_type.create(
         module=module,
-- 
2.43.0


From c016a8a134827b84d3c56f674389422f763659fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:09 +0000
Subject: [PATCH 62/65] fix: methods called by a name they were assigned to
 change the object they are bound to

---
 core/ipyflow/tracing/external_calls/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ipyflow/tracing/external_calls/__init__.py b/core/ipyflow/tracing/external_calls/__init__.py
index 79be0fe..84a1ff0 100644
--- a/core/ipyflow/tracing/external_calls/__init__.py
+++ b/core/ipyflow/tracing/external_calls/__init__.py
@@ -37,6 +37,14 @@ def resolve_external_call(
         and hasattr(function_or_method, "__self__")
         and hasattr(function_or_method, "__name__")
     ):
+        if (
+            caller_self is None
+            and module is None
+            and not isinstance(function_or_method.__self__, (ModuleType, type))
+        ):
+            # e.g. "append = lst.append" followed by "append(42)"
+            caller_self = function_or_method.__self__
+            method = function_or_method.__name__
         function_or_method = getattr(
             function_or_method.__self__.__class__,
             function_or_method.__name__,
-- 
2.43.0


From 84eaeb5961ca649eb5e6d3cc5888a2de5159ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:23 +0000
Subject: [PATCH 63/65] fix: report a slice of a cell that was not run as such
 instead of failing

---
 core/ipyflow/line_magics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/line_magics.py b/core/ipyflow/line_magics.py
index 7002df8..894540d 100644
--- a/core/ipyflow/line_magics.py
+++ b/core/ipyflow/line_magics.py
@@ -328,7 +328,11 @@ def make_slice(line: str) -> Optional[str]:
         if tag is None:
             cell_num = cells().exec_counter() - 1
     if cell_num is not None:
-        slice_cells = {cells().at_timestamp(cell_num)}
+        try:
+            slice_cells = {cells().at_timestamp(cell_num)}
+        except KeyError:
+            # no such cell has been run
+            pass
     elif tag is not None:
         if tag.startswith("$"):
             tag = tag[1:]
-- 
2.43.0


From 7a9e82fa83cbe0f65114a01014799f4c3f1c070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:22 +0000
Subject: [PATCH 64/65] fix: do not take an unknown execution mode for the
 default one

---
 core/ipyflow/line_magics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/line_magics.py b/core/ipyflow/line_magics.py
index 894540d..7a079d2 100644
--- a/core/ipyflow/line_magics.py
+++ b/core/ipyflow/line_magics.py
@@ -406,11 +406,11 @@ def set_exec_mode(line_: str) -> None:
     line_ = line_.strip()
     if line_ == "normal":
         line_ = "lazy"
-    try:
-        exec_mode = ExecutionMode(line_.strip())
-    except ValueError:
+    # the enum gives its default for unknown values instead of rejecting them
+    if line_ not in {mode.value for mode in ExecutionMode}:
         warn(usage)
         return
+    exec_mode = ExecutionMode(line_)
     flow_ = flow()
     flow_.mut_settings.exec_mode = exec_mode
     if exec_mode == ExecutionMode.REACTIVE:
-- 
2.43.0


From 7926362599950bd21f8d91e4fe3d9d4b98c496cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:44 +0000
Subject: [PATCH 65/65] fix: include the updates of members in earlier versions
 of a symbol

---
 core/ipyflow/data_model/symbol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 7d8eadb..b800d12 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -359,7 +359,12 @@ class Symbol:
             return {Timestamp(self.defined_cell_num, ts.stmt_num)}
         else:
             return self._compute_namespace_timestamps(
-                version_ubound=None if version == -1 else ts
+                # members can be newer than the symbol's own update in its version
+                version_ubound=(
+                    None
+                    if version == -1
+                    else self._snapshot_timestamp_ubounds[version]
+                )
             ) - {Timestamp.uninitialized()}
 
     def code(
-- 
2.43.0

