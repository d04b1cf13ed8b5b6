From b754d7f7a3ec2fbce3e565edd35a80a981344cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 01/44] fix: reject diwire_context when the target scope is
 already open

---
 src/diwire/_internal/container.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index bac811d..3f62709 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2389,9 +2389,10 @@ class Container:
             return base_resolver, False
         try:
             if context is None:
-                return base_resolver.enter_scope(target_scope), True
+                scoped_resolver = base_resolver.enter_scope(target_scope)
+                return scoped_resolver, scoped_resolver is not base_resolver
             try:
-                return base_resolver.enter_scope(target_scope, context=context), True
+                scoped_resolver = base_resolver.enter_scope(target_scope, context=context)
             except TypeError as error:
                 msg = (
                     "Resolver does not support context-aware scope entry. "
@@ -2399,6 +2400,9 @@ class Container:
                     f"'{INJECT_CONTEXT_KWARG}'."
                 )
                 raise DIWireInvalidRegistrationError(msg) from error
+            # ``enter_scope`` returns the resolver itself when the target scope is already
+            # open; in that case no scope was opened and the context was not applied.
+            return scoped_resolver, scoped_resolver is not base_resolver  # noqa: TRY300
         except DIWireScopeMismatchError as error:
             if self._is_already_deep_enough_scope_error(error):
                 return base_resolver, False
-- 
2.43.0


From 2ff1a22c456cd9f85710b6b3bcf147966f2240c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 02/44] fix: let injected calls run from the deepest open scope

---
 src/diwire/_internal/container.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 3f62709..13efaae 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2404,7 +2404,10 @@ class Container:
             # open; in that case no scope was opened and the context was not applied.
             return scoped_resolver, scoped_resolver is not base_resolver  # noqa: TRY300
         except DIWireScopeMismatchError as error:
-            if self._is_already_deep_enough_scope_error(error):
+            if self._is_already_deep_enough_scope_error(error) or (
+                self._is_deepest_scope_error(error)
+                and self._find_scope_by_level(scope_level=target_scope.level) is not None
+            ):
                 return base_resolver, False
             raise
 
@@ -2413,6 +2416,12 @@ class Container:
         message = str(error)
         return message.startswith("Cannot enter scope level ") and " from level " in message
 
+    @staticmethod
+    def _is_deepest_scope_error(error: DIWireScopeMismatchError) -> bool:
+        # The deepest scope has no next transition, so it rejects every target, including
+        # itself and the shallower scopes that are already open.
+        return str(error).startswith("Cannot enter deeper scope from level ")
+
     def _callable_name(self, callable_obj: Callable[..., Any]) -> str:
         return getattr(callable_obj, "__qualname__", repr(callable_obj))
 
-- 
2.43.0


From 010da051fa4e4cbc02befd30b65c426df3aee0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 03/44] fix: serialize compilation and autoregistration across
 threads

---
 src/diwire/_internal/container.py | 119 ++++++++++++++++++------------
 1 file changed, 73 insertions(+), 46 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 13efaae..e4a6a95 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import functools
 import inspect
 import logging
+import threading
 from collections.abc import AsyncGenerator, Awaitable, Callable, Generator, Mapping
 from contextlib import contextmanager, suppress
 from dataclasses import dataclass
@@ -185,6 +186,8 @@ class Container:
         self._resolvers_manager = ResolversManager()
         self._injected_callable_inspector = InjectedCallableInspector()
 
+        # Serializes graph mutation and compilation across threads.
+        self._graph_lock = threading.RLock()
         self._root_resolver: ResolverProtocol | None = None
         self._graph_revision: int = 0
         self._registration_mutation_depth: int = 0
@@ -1832,23 +1835,24 @@ class Container:
             self._unwrap_provider_dependency_key(dependency),
         )
 
-        if self._providers_registrations.find_by_type(dependency_key):
-            return
-        if self._open_generic_registry.has_match_for_dependency(dependency_key):
-            return
+        with self._graph_lock:
+            if self._providers_registrations.find_by_type(dependency_key):
+                return
+            if self._open_generic_registry.has_match_for_dependency(dependency_key):
+                return
 
-        effective_dependency_policy = (
-            DependencyRegistrationPolicy.REGISTER_RECURSIVE
-            if effective_on_missing is MissingPolicy.REGISTER_RECURSIVE
-            else DependencyRegistrationPolicy.IGNORE
-        )
+            effective_dependency_policy = (
+                DependencyRegistrationPolicy.REGISTER_RECURSIVE
+                if effective_on_missing is MissingPolicy.REGISTER_RECURSIVE
+                else DependencyRegistrationPolicy.IGNORE
+            )
 
-        self._autoregister_dependency(
-            dependency=dependency_key,
-            scope=self._root_scope,
-            lifetime=self._default_lifetime,
-            dependency_registration_policy=effective_dependency_policy,
-        )
+            self._autoregister_dependency(
+                dependency=dependency_key,
+                scope=self._root_scope,
+                lifetime=self._default_lifetime,
+                dependency_registration_policy=effective_dependency_policy,
+            )
 
     def _inject_callable(
         self,
@@ -2452,32 +2456,40 @@ class Container:
                 service = container.resolve(Service)
 
         """
-        if self._root_resolver is None:
-            root_resolver = self._resolvers_manager.build_root_resolver(
-                root_scope=self._root_scope,
-                registrations=self._providers_registrations,
-            )
-            if self._open_generic_registry.has_specs():
-                has_async_specs = any(
-                    spec.is_async for spec in self._providers_registrations.values()
-                ) or any(spec.is_async for spec in self._open_generic_registry.values())
-                root_resolver = cast(
-                    "ResolverProtocol",
-                    OpenGenericResolver(
-                        base_resolver=root_resolver,
-                        registry=self._open_generic_registry,
-                        root_scope=self._root_scope,
-                        has_async_specs=has_async_specs,
-                        scope_level=self._root_scope.level,
-                    ),
-                )
-            if self._use_resolver_context:
-                root_resolver = self._resolver_context._wrap_resolver(root_resolver)  # noqa: SLF001
-            self._root_resolver = root_resolver
+        root_resolver = self._root_resolver
+        if root_resolver is None:
+            with self._graph_lock:
+                root_resolver = self._root_resolver
+                if root_resolver is None:
+                    root_resolver = self._build_root_resolver()
+                    self._root_resolver = root_resolver
         if self._missing_policy is MissingPolicy.ERROR and not self._use_resolver_context:
-            self._bind_container_entrypoints(target=self._root_resolver)
-
-        return self._root_resolver
+            self._bind_container_entrypoints(target=root_resolver)
+
+        return root_resolver
+
+    def _build_root_resolver(self) -> ResolverProtocol:
+        root_resolver = self._resolvers_manager.build_root_resolver(
+            root_scope=self._root_scope,
+            registrations=self._providers_registrations,
+        )
+        if self._open_generic_registry.has_specs():
+            has_async_specs = any(
+                spec.is_async for spec in self._providers_registrations.values()
+            ) or any(spec.is_async for spec in self._open_generic_registry.values())
+            root_resolver = cast(
+                "ResolverProtocol",
+                OpenGenericResolver(
+                    base_resolver=root_resolver,
+                    registry=self._open_generic_registry,
+                    root_scope=self._root_scope,
+                    has_async_specs=has_async_specs,
+                    scope_level=self._root_scope.level,
+                ),
+            )
+        if self._use_resolver_context:
+            root_resolver = self._resolver_context._wrap_resolver(root_resolver)  # noqa: SLF001
+        return root_resolver
 
     def _invalidate_compilation(self) -> None:
         """Discard compiled resolver state and restore original container methods.
@@ -2503,6 +2515,11 @@ class Container:
 
     @contextmanager
     def _registration_mutation(self) -> Generator[None, None, None]:
+        with self._graph_lock, self._registration_mutation_locked():
+            yield
+
+    @contextmanager
+    def _registration_mutation_locked(self) -> Generator[None, None, None]:
         if self._registration_mutation_depth == 0:
             self._registration_mutation_snapshot = _ContainerGraphSnapshot(
                 providers_registrations=self._providers_registrations.snapshot(),
@@ -2632,7 +2649,10 @@ class Container:
                 service = container.resolve(Service)
 
         """
-        resolver = self._get_context_bound_resolver_or_none()
+        # Read before the root resolver, so that an autoregistration made by another thread
+        # in between is picked up below instead of being reported as a missing dependency.
+        graph_revision_before = self._graph_revision
+        bound_resolver = resolver = self._get_context_bound_resolver_or_none()
         if resolver is None:
             resolver = self._root_resolver
             if resolver is None:
@@ -2648,7 +2668,8 @@ class Container:
 
         provider_inner_dependency = self._extract_provider_inner_dependency_fast(dependency)
         if provider_inner_dependency is not None:
-            graph_revision_before = self._graph_revision
+            if bound_resolver is not None:
+                graph_revision_before = self._graph_revision
             self._ensure_autoregistration(
                 provider_inner_dependency,
                 on_missing=resolved_on_missing,
@@ -2660,7 +2681,8 @@ class Container:
         try:
             return resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
-            graph_revision_before = self._graph_revision
+            if bound_resolver is not None:
+                graph_revision_before = self._graph_revision
             self._ensure_autoregistration(
                 dependency,
                 on_missing=resolved_on_missing,
@@ -2722,7 +2744,10 @@ class Container:
                 client = await container.aresolve(Client)
 
         """
-        resolver = self._get_context_bound_resolver_or_none()
+        # Read before the root resolver, so that an autoregistration made by another thread
+        # in between is picked up below instead of being reported as a missing dependency.
+        graph_revision_before = self._graph_revision
+        bound_resolver = resolver = self._get_context_bound_resolver_or_none()
         if resolver is None:
             resolver = self._root_resolver
             if resolver is None:
@@ -2738,7 +2763,8 @@ class Container:
 
         provider_inner_dependency = self._extract_provider_inner_dependency_fast(dependency)
         if provider_inner_dependency is not None:
-            graph_revision_before = self._graph_revision
+            if bound_resolver is not None:
+                graph_revision_before = self._graph_revision
             self._ensure_autoregistration(
                 provider_inner_dependency,
                 on_missing=resolved_on_missing,
@@ -2750,7 +2776,8 @@ class Container:
         try:
             return await resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
-            graph_revision_before = self._graph_revision
+            if bound_resolver is not None:
+                graph_revision_before = self._graph_revision
             self._ensure_autoregistration(
                 dependency,
                 on_missing=resolved_on_missing,
-- 
2.43.0


From 268338a0f685bbe93c0811df3639ae4cf663fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 04/44] fix: keep compiled state when a registration is
 rejected

---
 src/diwire/_internal/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index e4a6a95..6f82460 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2536,6 +2536,7 @@ class Container:
                     for provides, chain in self._decoration_chain_by_provides.items()
                 },
                 decoration_counter=self._decoration_counter,
+                root_resolver=self._root_resolver,
             )
             self._registration_mutation_failed = False
 
@@ -2567,6 +2568,8 @@ class Container:
                     }
                     self._decoration_counter = snapshot.decoration_counter
                     self._invalidate_compilation()
+                    # The graph is unchanged, so the values cached so far stay valid.
+                    self._root_resolver = snapshot.root_resolver
                 self._registration_mutation_snapshot = None
                 self._registration_mutation_failed = False
 
@@ -2961,3 +2964,4 @@ class _ContainerGraphSnapshot:
     decoration_rules_by_provides: dict[Any, list[_DecorationRule]]
     decoration_chain_by_provides: dict[Any, _DecorationChain]
     decoration_counter: int
+    root_resolver: ResolverProtocol | None
-- 
2.43.0


From 7e1b428b2d0738da19825f07f8d0a95b562b00c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 05/44] fix: do not replace a failing exact registration by an
 open-generic match

---
 src/diwire/_internal/open_generics.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index e7540d8..3bff723 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -368,6 +368,9 @@ class _OpenGenericResolver:  # pragma: no cover
         try:
             return self._base_resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
+            if self._is_registered_in_base_resolver(dependency):
+                # The exact registration failed on its own; an open match must not hide that.
+                raise
             normalized_dependency = strip_non_component_annotation(dependency)
             if normalized_dependency is not dependency:
                 try:
@@ -399,6 +402,9 @@ class _OpenGenericResolver:  # pragma: no cover
         try:
             return await self._base_resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
+            if self._is_registered_in_base_resolver(dependency):
+                # The exact registration failed on its own; an open match must not hide that.
+                raise
             normalized_dependency = strip_non_component_annotation(dependency)
             if normalized_dependency is not dependency:
                 try:
@@ -419,21 +425,26 @@ class _OpenGenericResolver:  # pragma: no cover
             )
 
     def _is_registered_dependency(self, dependency: Any) -> bool:
-        base_registered_checker = getattr(self._base_resolver, "_is_registered_dependency", None)
         normalized_dependency = strip_non_component_annotation(dependency)
-        if callable(base_registered_checker):
-            if base_registered_checker(dependency):
-                return True
-            if normalized_dependency is not dependency and base_registered_checker(
-                normalized_dependency
-            ):
-                return True
+        if self._is_registered_in_base_resolver(dependency):
+            return True
         if self._registry.find_best_match(dependency) is not None:
             return True
         if normalized_dependency is dependency:
             return False
         return self._registry.find_best_match(normalized_dependency) is not None
 
+    def _is_registered_in_base_resolver(self, dependency: Any) -> bool:
+        base_registered_checker = getattr(self._base_resolver, "_is_registered_dependency", None)
+        if not callable(base_registered_checker):
+            return False
+        if base_registered_checker(dependency):
+            return True
+        normalized_dependency = strip_non_component_annotation(dependency)
+        return normalized_dependency is not dependency and bool(
+            base_registered_checker(normalized_dependency),
+        )
+
     def _resolve_maybe_sync(self, *, dependency: Any) -> Any:
         if not is_maybe_annotation(dependency):
             return _MAYBE_UNHANDLED
-- 
2.43.0


From d55c4158a90a2b17a08079c343b25f078d53fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 06/44] fix: honour optional context parameters of providers

---
 .../_internal/resolvers/assembly/compiler.py  | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 4474e47..68e3a16 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -64,6 +64,14 @@ class _ArgumentPart:
     name: str | None = None
 
 
+@dataclass(frozen=True, slots=True)
+class _OptionalContextKey:
+    """Context key of a ``Maybe[FromContext[...]]`` parameter with its fallback value."""
+
+    key: Any
+    default: Any
+
+
 @dataclass(slots=True)
 class _ResolverRuntime:
     plan: ResolverGenerationPlan
@@ -188,13 +196,18 @@ class ResolversAssemblyCompiler:
                 context_key_name = dependency_plan.ctx_key_global_name
                 if context_key_name is None:
                     continue
-                context_key_by_name[context_key_name] = strip_from_context_annotation(
+                dependency = registration.dependencies[dependency_plan.dependency_index]
+                context_key = strip_from_context_annotation(
                     strip_non_component_annotation(
-                        strip_maybe_annotation(
-                            registration.dependencies[dependency_plan.dependency_index].provides,
-                        ),
+                        strip_maybe_annotation(dependency.provides),
                     ),
                 )
+                if is_maybe_annotation(dependency.provides):
+                    context_key = _OptionalContextKey(
+                        key=context_key,
+                        default=_optional_context_default(parameter=dependency.parameter),
+                    )
+                context_key_by_name[context_key_name] = context_key
 
         all_slots_by_key = {key: tuple(slots) for key, slots in all_slots_by_key_mut.items()}
 
@@ -2052,7 +2065,23 @@ def _build_transition_plan_to_target(
     return tuple(transition_plan)
 
 
+def _optional_context_default(*, parameter: inspect.Parameter) -> Any:
+    if parameter.kind is inspect.Parameter.VAR_POSITIONAL:
+        return ()
+    if parameter.kind is inspect.Parameter.VAR_KEYWORD:
+        return {}
+    if parameter.default is inspect.Parameter.empty:
+        return None
+    return parameter.default
+
+
 def _resolver_resolve_from_context(self: Any, key: Any) -> Any:
+    if type(key) is _OptionalContextKey:
+        try:
+            return self._resolve_from_context(key.key)
+        except DIWireDependencyNotRegisteredError:
+            return key.default
+
     context = self._context
     if context is not None and key in context:
         return context[key]
-- 
2.43.0


From c2781164ae6d9a4524b7190953a017f434fd7c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 07/44] fix: never recycle a scope resolver that may still be
 referenced

---
 .../_internal/resolvers/assembly/compiler.py   | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 68e3a16..303ddfb 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -823,24 +823,6 @@ class ResolversAssemblyCompiler:
                     f"    return self._root_resolver._scope_resolver_{target_level}",
                 ],
             )
-        elif class_plan.is_root and not runtime.has_cleanup:
-            pooled_lines = [
-                "if context is None and self._context is None and self._parent_context_resolver is None:",
-                f"    _pooled = self._scope_resolver_{target_level}",
-                "    if not _pooled._active:",
-                "        _pooled._context = None",
-                "        _pooled._parent_context_resolver = self",
-                "        _pooled._owned_scope_resolvers = ()",
-            ]
-            for cache_slot in runtime.cache_slots_by_owner_level.get(target_level, ()):
-                pooled_lines.append(f"        _pooled._cache_{cache_slot} = _MISSING_CACHE")
-            pooled_lines.extend(
-                [
-                    "        _pooled._active = True",
-                    "        return _pooled",
-                ],
-            )
-            transition_lines.extend(pooled_lines)
         transition_lines.extend(
             [
                 (
-- 
2.43.0


From 8ef4395580061bc3a751255c60744412c836e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 08/44] fix: keep the dispatch memo consistent when threads
 share a resolver

---
 .../_internal/resolvers/assembly/compiler.py  | 95 +++++++++----------
 1 file changed, 43 insertions(+), 52 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 303ddfb..c00ee60 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -488,9 +488,7 @@ class ResolversAssemblyCompiler:
         if _dispatch_cache_enabled_for_class(plan=runtime.plan, class_plan=class_plan):
             slots.extend(
                 (
-                    "_last_sync_dependency",
                     "_last_sync_method",
-                    "_last_async_dependency",
                     "_last_async_method",
                 ),
             )
@@ -653,9 +651,7 @@ class ResolversAssemblyCompiler:
         if enable_dispatch_cache:
             body_lines.extend(
                 [
-                    "self._last_sync_dependency = _MISSING_DEP_SLOT",
                     "self._last_sync_method = None",
-                    "self._last_async_dependency = _MISSING_DEP_SLOT",
                     "self._last_async_method = None",
                 ],
             )
@@ -880,9 +876,6 @@ class ResolversAssemblyCompiler:
     ) -> Callable[..., Any]:
         method_name = "aresolve" if is_async else "resolve"
         call_prefix = "aresolve" if is_async else "resolve"
-        cache_dependency_attr_name = (
-            "_last_async_dependency" if is_async else "_last_sync_dependency"
-        )
         cache_method_attr_name = "_last_async_method" if is_async else "_last_sync_method"
         dispatch_workflows = _dispatch_workflows(
             plan=runtime.plan,
@@ -898,45 +891,49 @@ class ResolversAssemblyCompiler:
 
         body: list[ast.stmt] = []
         if enable_dispatch_cache:
+            # The memo is one (dependency, method) tuple, so that it is read and replaced
+            # atomically even when threads share the resolver.
+            memo = ast.Name(id="dispatch_memo", ctx=ast.Load())
+            memo_call = ast.Call(
+                func=ast.Subscript(value=memo, slice=ast.Constant(value=1), ctx=ast.Load()),
+                args=[],
+                keywords=[],
+            )
             body.extend(
                 [
+                    ast.Assign(
+                        targets=[ast.Name(id="dispatch_memo", ctx=ast.Store())],
+                        value=ast.Attribute(
+                            value=ast.Name(id="self", ctx=ast.Load()),
+                            attr=cache_method_attr_name,
+                            ctx=ast.Load(),
+                        ),
+                    ),
                     ast.If(
-                        test=ast.Compare(
-                            left=ast.Name(id="dependency", ctx=ast.Load()),
-                            ops=[ast.Is()],
-                            comparators=[
-                                ast.Attribute(
-                                    value=ast.Name(id="self", ctx=ast.Load()),
-                                    attr=cache_dependency_attr_name,
-                                    ctx=ast.Load(),
+                        test=ast.BoolOp(
+                            op=ast.And(),
+                            values=[
+                                ast.Compare(
+                                    left=memo,
+                                    ops=[ast.IsNot()],
+                                    comparators=[ast.Constant(value=None)],
+                                ),
+                                ast.Compare(
+                                    left=ast.Name(id="dependency", ctx=ast.Load()),
+                                    ops=[ast.Is()],
+                                    comparators=[
+                                        ast.Subscript(
+                                            value=memo,
+                                            slice=ast.Constant(value=0),
+                                            ctx=ast.Load(),
+                                        ),
+                                    ],
                                 ),
                             ],
                         ),
                         body=[
                             ast.Return(
-                                value=(
-                                    ast.Await(
-                                        value=ast.Call(
-                                            func=ast.Attribute(
-                                                value=ast.Name(id="self", ctx=ast.Load()),
-                                                attr=cache_method_attr_name,
-                                                ctx=ast.Load(),
-                                            ),
-                                            args=[],
-                                            keywords=[],
-                                        ),
-                                    )
-                                    if is_async
-                                    else ast.Call(
-                                        func=ast.Attribute(
-                                            value=ast.Name(id="self", ctx=ast.Load()),
-                                            attr=cache_method_attr_name,
-                                            ctx=ast.Load(),
-                                        ),
-                                        args=[],
-                                        keywords=[],
-                                    )
-                                ),
+                                value=ast.Await(value=memo_call) if is_async else memo_call,
                             ),
                         ],
                         orelse=[],
@@ -1038,16 +1035,6 @@ class ResolversAssemblyCompiler:
                         ctx=ast.Load(),
                     ),
                 ),
-                ast.Assign(
-                    targets=[
-                        ast.Attribute(
-                            value=ast.Name(id="self", ctx=ast.Load()),
-                            attr=cache_dependency_attr_name,
-                            ctx=ast.Store(),
-                        ),
-                    ],
-                    value=cache_dependency,
-                ),
                 ast.Assign(
                     targets=[
                         ast.Attribute(
@@ -1056,7 +1043,13 @@ class ResolversAssemblyCompiler:
                             ctx=ast.Store(),
                         ),
                     ],
-                    value=ast.Name(id="cached_method", ctx=ast.Load()),
+                    value=ast.Tuple(
+                        elts=[
+                            cache_dependency,
+                            ast.Name(id="cached_method", ctx=ast.Load()),
+                        ],
+                        ctx=ast.Load(),
+                    ),
                 ),
                 ast.Return(
                     value=ast.Await(value=cached_method_call) if is_async else cached_method_call,
@@ -1792,10 +1785,8 @@ def _resolver_init(
     self._context = context
     self._parent_context_resolver = parent_context_resolver
     self._active = True
-    if hasattr(self, "_last_sync_dependency"):
-        self._last_sync_dependency = _MISSING_DEP_SLOT
+    if hasattr(self, "_last_sync_method"):
         self._last_sync_method = None
-        self._last_async_dependency = _MISSING_DEP_SLOT
         self._last_async_method = None
     if runtime.has_cleanup:
         self._cleanup_enabled = cleanup_enabled
-- 
2.43.0


From 2e698118f08430290e2b736dbb8738f18ff4f5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 09/44] fix: let one container serve several event loops

---
 src/diwire/_internal/event_loop_lock.py       | 43 +++++++++++++++++++
 src/diwire/_internal/open_generics.py         |  8 ++--
 .../_internal/resolvers/assembly/compiler.py  |  6 +--
 3 files changed, 50 insertions(+), 7 deletions(-)
 create mode 100644 src/diwire/_internal/event_loop_lock.py

diff --git a/src/diwire/_internal/event_loop_lock.py b/src/diwire/_internal/event_loop_lock.py
new file mode 100644
index 0000000..e9e4ffc
--- /dev/null
+++ b/src/diwire/_internal/event_loop_lock.py
@@ -0,0 +1,43 @@
+from __future__ import annotations
+
+import asyncio
+from types import TracebackType
+from weakref import WeakKeyDictionary
+
+
+class EventLoopLock:
+    """Asynchronous lock that can be used by several event loops one after another.
+
+    ``asyncio.Lock`` stays attached to the loop in which it was first contended, while a
+    container outlives individual loops. One lock is kept per running loop, and one more
+    for coroutines that are driven without an asyncio loop.
+    """
+
+    __slots__ = ("_lock_by_loop", "_loopless_lock")
+
+    def __init__(self) -> None:
+        self._lock_by_loop: WeakKeyDictionary[asyncio.AbstractEventLoop, asyncio.Lock] = (
+            WeakKeyDictionary()
+        )
+        self._loopless_lock = asyncio.Lock()
+
+    def _current_lock(self) -> asyncio.Lock:
+        try:
+            loop = asyncio.get_running_loop()
+        except RuntimeError:
+            return self._loopless_lock
+        lock = self._lock_by_loop.get(loop)
+        if lock is None:
+            lock = self._lock_by_loop.setdefault(loop, asyncio.Lock())
+        return lock
+
+    async def __aenter__(self) -> None:
+        await self._current_lock().acquire()
+
+    async def __aexit__(
+        self,
+        exc_type: type[BaseException] | None,
+        exc_value: BaseException | None,
+        traceback: TracebackType | None,
+    ) -> None:
+        self._current_lock().release()
diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 3bff723..b882bad 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import asyncio
 import inspect
 import threading
 from collections.abc import Iterable, Mapping
@@ -9,6 +8,7 @@ from dataclasses import dataclass
 from types import TracebackType
 from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_args, get_origin
 
+from diwire._internal.event_loop_lock import EventLoopLock
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
@@ -349,7 +349,7 @@ class _OpenGenericResolver:  # pragma: no cover
         self._parent_wrapper = parent_wrapper
         self._cache: dict[Any, Any] = {}
         self._thread_locks: dict[Any, threading.Lock] = {}
-        self._async_locks: dict[Any, asyncio.Lock] = {}
+        self._async_locks: dict[Any, EventLoopLock] = {}
         self._cleanup_callbacks: list[tuple[int, Any]] = []
         self._cleanup_enabled = bool(
             getattr(base_resolver, "_cleanup_enabled", True),
@@ -721,8 +721,8 @@ class _OpenGenericResolver:  # pragma: no cover
     def get_thread_lock(self, dependency: Any) -> threading.Lock:
         return self._thread_locks.setdefault(dependency, threading.Lock())
 
-    def get_async_lock(self, dependency: Any) -> asyncio.Lock:
-        return self._async_locks.setdefault(dependency, asyncio.Lock())
+    def get_async_lock(self, dependency: Any) -> EventLoopLock:
+        return self._async_locks.setdefault(dependency, EventLoopLock())
 
     def build_open_value_sync(self, *, match: _OpenGenericMatch) -> Any:
         return self._build_open_value_sync(match=match)
diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index c00ee60..fc118c0 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 # ruff: noqa: C901,FBT001,PERF203,PERF401,PLR0911,PLR0912,PLR0913,PLW0108,SLF001,TRY301
 import ast
-import asyncio
 import inspect
 import keyword
 import logging
@@ -14,6 +13,7 @@ from dataclasses import dataclass
 from types import CodeType, TracebackType
 from typing import Any, Final, Literal, cast
 
+from diwire._internal.event_loop_lock import EventLoopLock
 from diwire._internal.injection import INJECT_CONTEXT_KWARG, INJECT_RESOLVER_KWARG
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
@@ -92,7 +92,7 @@ class _ResolverRuntime:
     provider_by_slot: dict[int, Any]
     context_key_by_name: dict[str, Any]
     thread_lock_by_slot: dict[int, threading.Lock]
-    async_lock_by_slot: dict[int, asyncio.Lock]
+    async_lock_by_slot: dict[int, EventLoopLock]
     cache_slots_by_owner_level: dict[int, tuple[int, ...]]
     next_scope_options_by_level: dict[
         int, tuple[ScopePlan | None, ScopePlan | None, tuple[ScopePlan, ...]]
@@ -217,7 +217,7 @@ class ResolversAssemblyCompiler:
             if workflow.uses_thread_lock
         }
         async_lock_by_slot = {
-            workflow.slot: asyncio.Lock() for workflow in plan.workflows if workflow.uses_async_lock
+            workflow.slot: EventLoopLock() for workflow in plan.workflows if workflow.uses_async_lock
         }
 
         cache_slots_by_owner_level_mut: dict[int, list[int]] = {}
-- 
2.43.0


From 9a8914d7ca49e884f85b6248c35d6c25f30320b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 10/44] fix: pass parameters after a skipped default by keyword

---
 src/diwire/_internal/resolvers/assembly/planner.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 4830b49..fd336d8 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -863,6 +863,12 @@ class ResolverGenerationPlanner:
             current_index = order_by_name.get(dependency.parameter.name)
             if current_index is None or current_index < last_index:
                 return False
+            if any(
+                parameter.kind is not inspect.Parameter.KEYWORD_ONLY
+                for parameter in parameters[last_index + 1 : current_index]
+            ):
+                # A skipped parameter keeps its default: later ones must go by keyword.
+                return False
             last_index = current_index
         return True
 
-- 
2.43.0


From 3ac6e2e01a3f0dad2a73f9877c30352edf121d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 11/44] fix: honour declared defaults of optional open-generic
 dependencies

---
 src/diwire/_internal/open_generics.py | 28 +++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index b882bad..f8ef215 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -833,8 +833,34 @@ class _OpenGenericResolver:  # pragma: no cover
                 "unresolved TypeVars after substitution."
             )
             raise DIWireInvalidGenericTypeArgumentError(msg)
+        if self._declared_default_applies(binding=binding, dependency=resolved_dependency):
+            return binding.dependency.parameter.default
         return self.resolve(resolved_dependency)
 
+    def _declared_default_applies(
+        self,
+        *,
+        binding: _OpenGenericBindingPlan,
+        dependency: Any,
+    ) -> bool:
+        if binding.dependency.parameter.default is inspect.Parameter.empty:
+            return False
+        if not is_maybe_annotation(dependency):
+            return False
+        inner_dependency = strip_maybe_annotation(dependency)
+        if is_provider_annotation(inner_dependency):
+            return False
+        if not is_from_context_annotation(inner_dependency):
+            return not self._is_registered_dependency(inner_dependency)
+        context_key = strip_non_component_annotation(
+            strip_from_context_annotation(inner_dependency),
+        )
+        try:
+            self._base_resolver._resolve_from_context(context_key)
+        except DIWireDependencyNotRegisteredError:
+            return True
+        return False
+
     async def _resolve_binding_value_async(
         self,
         *,
@@ -854,6 +880,8 @@ class _OpenGenericResolver:  # pragma: no cover
                 "unresolved TypeVars after substitution."
             )
             raise DIWireInvalidGenericTypeArgumentError(msg)
+        if self._declared_default_applies(binding=binding, dependency=resolved_dependency):
+            return binding.dependency.parameter.default
         return await self.aresolve(resolved_dependency)
 
     def _build_generator_sync(
-- 
2.43.0


From ce5b697eaab4ad4b25f2ea079e17e236a2a84c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 12/44] fix: report a skipped owner scope as a scope mismatch

A dependency owned by a skippable scope that is not open made the generated
resolver fail with AttributeError instead of DIWireScopeMismatchError.
---
 src/diwire/_internal/resolvers/assembly/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index fc118c0..fa4cb56 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -1632,7 +1632,11 @@ class ResolversAssemblyCompiler:
                 expression = f"self._root_resolver.resolve_{dependency_slot}()"
             else:
                 owner_scope = runtime.scopes_by_level[dependency_workflow.scope_level]
-                expression = f"self.{owner_scope.resolver_attr_name}.resolve_{dependency_slot}()"
+                # A skippable owner may not be open; `self.resolve_*` reports that.
+                if not owner_scope.skippable:
+                    expression = (
+                        f"self.{owner_scope.resolver_attr_name}.resolve_{dependency_slot}()"
+                    )
 
         if (
             dependency_workflow.scope_level == class_plan.scope_level
-- 
2.43.0


From 335f820e4ed6cd19f33c167bd27dc23bf2db0a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 13/44] fix: order the arguments of classes that only define
 __new__ by its signature

Such a class with positional parameters followed by a *args parameter was
called with those parameters both by keyword and by position.
---
 src/diwire/_internal/resolvers/assembly/planner.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index fd336d8..198fb34 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -854,9 +854,6 @@ class ResolverGenerationPlanner:
             return False
 
         parameters = list(inspect.signature(provider_callable).parameters.values())
-        if spec.concrete_type is not None and parameters:
-            parameters = parameters[1:]
-
         order_by_name = {parameter.name: index for index, parameter in enumerate(parameters)}
         last_index = -1
         for dependency in spec.dependencies:
@@ -874,7 +871,7 @@ class ResolverGenerationPlanner:
 
     def _provider_callable_for_signature(self, *, spec: ProviderSpec) -> Any | None:
         if spec.concrete_type is not None:
-            return spec.concrete_type.__init__
+            return spec.concrete_type
         if spec.factory is not None:
             return spec.factory
         if spec.generator is not None:
-- 
2.43.0


From b5042a0d10ab4f72af700da49f278c47b572138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 14/44] fix: clean up every implicitly opened scope when one
 cleanup fails

Exiting a scope without cleanups of its own stopped at the first implicitly
opened scope whose cleanup raised: the others were never cleaned up.
---
 .../_internal/resolvers/assembly/compiler.py   | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index fa4cb56..ba67035 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -1236,9 +1236,16 @@ class ResolversAssemblyCompiler:
                 "if not self._owned_scope_resolvers:",
                 "    self._active = False",
                 "    return None",
+                "cleanup_error = None",
                 "for owned_scope_resolver in reversed(self._owned_scope_resolvers):",
-                "    await owned_scope_resolver.__aexit__(exc_type, exc_value, traceback)",
+                "    try:",
+                "        await owned_scope_resolver.__aexit__(exc_type, exc_value, traceback)",
+                "    except BaseException as error:",
+                "        if exc_type is None and cleanup_error is None:",
+                "            cleanup_error = error",
                 "self._active = False",
+                "if cleanup_error is not None:",
+                "    raise cleanup_error",
                 "return None",
             ]
         else:
@@ -1246,9 +1253,16 @@ class ResolversAssemblyCompiler:
                 "if not self._owned_scope_resolvers:",
                 "    self._active = False",
                 "    return None",
+                "cleanup_error = None",
                 "for owned_scope_resolver in reversed(self._owned_scope_resolvers):",
-                "    owned_scope_resolver.__exit__(exc_type, exc_value, traceback)",
+                "    try:",
+                "        owned_scope_resolver.__exit__(exc_type, exc_value, traceback)",
+                "    except BaseException as error:",
+                "        if exc_type is None and cleanup_error is None:",
+                "            cleanup_error = error",
                 "self._active = False",
+                "if cleanup_error is not None:",
+                "    raise cleanup_error",
                 "return None",
             ]
 
-- 
2.43.0


From d6f62b47b22a96021c288e86db0c814daf8386f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 15/44] fix: run every cleanup of open-generic scopes whatever
 a cleanup raises

Closed-only resolvers keep cleaning up after any BaseException; the
open-generic ones stopped at one that is no Exception (cancellation, interrupt).
---
 src/diwire/_internal/open_generics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index f8ef215..d41b05e 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1364,7 +1364,7 @@ def _execute_sync_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 _raise_async_cleanup_in_sync_context()
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
@@ -1386,7 +1386,7 @@ async def _execute_async_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 await cleanup_callback(exc_type, exc_value, traceback)
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
-- 
2.43.0


From 28824daede7707525c675cf277b19ad05fa6a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 16/44] fix: never auto-register Protocol classes

---
 src/diwire/_internal/autoregistration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diwire/_internal/autoregistration.py b/src/diwire/_internal/autoregistration.py
index 129f209..fe0ad95 100644
--- a/src/diwire/_internal/autoregistration.py
+++ b/src/diwire/_internal/autoregistration.py
@@ -38,6 +38,8 @@ class ConcreteTypeAutoregistrationPolicy:
             return False
         if inspect.isabstract(candidate):
             return False
+        if getattr(candidate, "_is_protocol", False):
+            return False
         if issubclass(candidate, type):
             return False
         return not issubclass(candidate, self.ignored_base_types)
-- 
2.43.0


From 9f3ac0406272d4febf7f8258d2e3a1c845bc4144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 17/44] fix: roll back autoregistered dependencies of a
 rejected injected callable

---
 src/diwire/_internal/container.py | 36 ++++++++++++++++---------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 6f82460..734299b 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1882,25 +1882,27 @@ class Container:
         resolved_dependency_registration_policy = self._resolve_dependency_registration_policy(
             dependency_registration_policy,
         )
-        if (
-            resolved_dependency_registration_policy
-            is DependencyRegistrationPolicy.REGISTER_RECURSIVE
-        ):
-            self._autoregister_injected_dependencies(
-                injected_parameters=injected_parameters,
-                scope=scope,
-            )
-
-        inferred_scope_level = self._infer_injected_scope_level(
-            injected_parameters=injected_parameters,
-        )
         callable_name = self._callable_name(callable_obj)
-        if scope is not None and scope.level < inferred_scope_level:
-            msg = (
-                f"Callable '{callable_name}' scope level {scope.level} is "
-                f"shallower than required dependency scope level {inferred_scope_level}."
+        # A rejected callable must not leave its autoregistered dependencies behind.
+        with self._registration_mutation():
+            if (
+                resolved_dependency_registration_policy
+                is DependencyRegistrationPolicy.REGISTER_RECURSIVE
+            ):
+                self._autoregister_injected_dependencies(
+                    injected_parameters=injected_parameters,
+                    scope=scope,
+                )
+
+            inferred_scope_level = self._infer_injected_scope_level(
+                injected_parameters=injected_parameters,
             )
-            raise DIWireInvalidRegistrationError(msg)
+            if scope is not None and scope.level < inferred_scope_level:
+                msg = (
+                    f"Callable '{callable_name}' scope level {scope.level} is "
+                    f"shallower than required dependency scope level {inferred_scope_level}."
+                )
+                raise DIWireInvalidRegistrationError(msg)
 
         if scope is not None:
             self._injected_scope_contracts.append(
-- 
2.43.0


From 248ad46e2403b7da1a0877cab86b5b48b950bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 18/44] fix: lock decorators over instances like any other
 provider

---
 src/diwire/_internal/container.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 734299b..1ea19c1 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1270,10 +1270,14 @@ class Container:
         if provider_spec.lifetime is None:
             msg = f"Decoration base binding for {provides!r} has no lifetime."
             raise DIWireInvalidRegistrationError(msg)
+        lock_mode = provider_spec.lock_mode
+        if provider_spec.instance is not None:
+            # An instance needs no lock, the decorators wrapping it do.
+            lock_mode = self._lock_mode
         return _DecorationBaseMetadata(
             lifetime=provider_spec.lifetime,
             scope=provider_spec.scope,
-            lock_mode=provider_spec.lock_mode,
+            lock_mode=lock_mode,
             is_open_generic=False,
         )
 
-- 
2.43.0


From b2d05a922bd5b2cad7ae349be5590e6b1abb866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 19/44] fix: share one concurrent build of a closed generic
 resolved asynchronously

---
 src/diwire/_internal/open_generics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index d41b05e..57f0c9c 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -681,6 +681,10 @@ class _OpenGenericResolver:  # pragma: no cover
         dependency: Any,
         match: _OpenGenericMatch,
     ) -> Any:
+        if not self._has_async_specs and not match.spec.requires_async:
+            # Nothing to await anywhere in the graph: keep the thread locking of the sync path.
+            return self._resolve_open_match_sync(dependency=dependency, match=match)
+
         execution_owner = self._resolve_execution_owner(match.spec)
         cache_owner = self._resolve_cache_owner(match.spec)
         if cache_owner is not None:
@@ -1010,8 +1014,6 @@ class _OpenGenericResolver:  # pragma: no cover
         return self._effective_lock_mode(spec) is LockMode.THREAD
 
     def _uses_async_lock(self, spec: _OpenGenericSpec) -> bool:
-        if not spec.requires_async:
-            return False
         return self._effective_lock_mode(spec) is LockMode.ASYNC
 
     def _effective_lock_mode(self, spec: _OpenGenericSpec) -> LockMode:
-- 
2.43.0


From a51acdee2cd5d95240cbb654b64aab29ef686065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:03 +0000
Subject: [PATCH 20/44] fix: report cycles between open-generic registrations

---
 src/diwire/_internal/open_generics.py | 52 +++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 57f0c9c..7cab1d4 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -12,6 +12,7 @@ from diwire._internal.event_loop_lock import EventLoopLock
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
+    is_all_annotation,
     is_async_provider_annotation,
     is_from_context_annotation,
     is_maybe_annotation,
@@ -35,6 +36,7 @@ from diwire.exceptions import (
     DIWireAsyncDependencyInSyncContextError,
     DIWireDependencyNotRegisteredError,
     DIWireInvalidGenericTypeArgumentError,
+    DIWireInvalidProviderSpecError,
     DIWireScopeMismatchError,
 )
 
@@ -355,6 +357,7 @@ class _OpenGenericResolver:  # pragma: no cover
             getattr(base_resolver, "_cleanup_enabled", True),
         )
         self._owned_scope_wrappers: tuple[_OpenGenericResolver, ...] = ()
+        self._acyclic_dependencies: set[Any] = set()
 
     def resolve(self, dependency: Any) -> Any:
         maybe_value = self._resolve_maybe_sync(dependency=dependency)
@@ -648,6 +651,7 @@ class _OpenGenericResolver:  # pragma: no cover
         dependency: Any,
         match: _OpenGenericMatch,
     ) -> Any:
+        self._root_wrapper.ensure_acyclic(dependency=dependency, match=match, path=())
         if match.spec.requires_async:
             msg = f"Dependency {dependency!r} requires asynchronous resolution."
             raise DIWireAsyncDependencyInSyncContextError(msg)
@@ -685,6 +689,7 @@ class _OpenGenericResolver:  # pragma: no cover
             # Nothing to await anywhere in the graph: keep the thread locking of the sync path.
             return self._resolve_open_match_sync(dependency=dependency, match=match)
 
+        self._root_wrapper.ensure_acyclic(dependency=dependency, match=match, path=())
         execution_owner = self._resolve_execution_owner(match.spec)
         cache_owner = self._resolve_cache_owner(match.spec)
         if cache_owner is not None:
@@ -979,6 +984,53 @@ class _OpenGenericResolver:  # pragma: no cover
             return callbacks
         return None
 
+    def ensure_acyclic(
+        self,
+        *,
+        dependency: Any,
+        match: _OpenGenericMatch,
+        path: tuple[Any, ...],
+    ) -> None:
+        if dependency in self._acyclic_dependencies:
+            return
+        if dependency in path:
+            cycle = " -> ".join(repr(item) for item in (*path, dependency))
+            msg = f"Circular dependency detected: {cycle}."
+            raise DIWireInvalidProviderSpecError(msg)
+
+        for binding in match.spec.bindings:
+            if binding.kind != "dependency":
+                continue
+            nested_dependency = substitute_typevars(binding.template, mapping=match.typevar_map)
+            if is_maybe_annotation(nested_dependency):
+                nested_dependency = strip_maybe_annotation(nested_dependency)
+            if (
+                is_provider_annotation(nested_dependency)
+                or is_from_context_annotation(nested_dependency)
+                or is_all_annotation(nested_dependency)
+            ):
+                continue
+            if self._is_registered_in_base_resolver(nested_dependency):
+                continue
+            nested_match = self._find_nested_match(nested_dependency)
+            if nested_match is not None:
+                self.ensure_acyclic(
+                    dependency=nested_dependency,
+                    match=nested_match,
+                    path=(*path, dependency),
+                )
+        self._acyclic_dependencies.add(dependency)
+
+    def _find_nested_match(self, dependency: Any) -> _OpenGenericMatch | None:
+        for candidate in (dependency, strip_non_component_annotation(dependency)):
+            try:
+                match = self._registry.find_best_match(candidate)
+            except DIWireInvalidGenericTypeArgumentError:
+                return None
+            if match is not None:
+                return match
+        return None
+
     def _resolve_execution_owner(self, spec: _OpenGenericSpec) -> _OpenGenericResolver:
         provider_scope_owner = self._scope_owner_for_level(spec.scope.level)
         if provider_scope_owner is None:
-- 
2.43.0


From 20c9a054188aa4f6f32322238ba727826c107726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 21/44] fix: match a repeated type variable bound to None
 consistently

---
 src/diwire/_internal/open_generics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 7cab1d4..0f341d9 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1227,11 +1227,10 @@ def _match_node(  # noqa: PLR0911
     mapping: dict[TypeVar, Any],
 ) -> bool:
     if isinstance(template, TypeVar):
-        known = mapping.get(template)
-        if known is None:
+        if template not in mapping:
             mapping[template] = concrete
             return True
-        return known == concrete
+        return mapping[template] == concrete
 
     template_origin = get_origin(template)
     if template_origin is None:
-- 
2.43.0


From b30c7703da5f036a4f54419f064780bace0393b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 22/44] fix: never serve context values or collections from an
 open-generic match

---
 src/diwire/_internal/open_generics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 0f341d9..6f058f3 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -368,6 +368,9 @@ class _OpenGenericResolver:  # pragma: no cover
             if is_async_provider_annotation(dependency):
                 return lambda: self.aresolve(inner_dependency)
             return lambda: self.resolve(inner_dependency)
+        if is_from_context_annotation(dependency) or is_all_annotation(dependency):
+            # Context values and collections never come from an open match.
+            return self._base_resolver.resolve(dependency)
         try:
             return self._base_resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
@@ -402,6 +405,9 @@ class _OpenGenericResolver:  # pragma: no cover
             if is_async_provider_annotation(dependency):
                 return lambda: self.aresolve(inner_dependency)
             return lambda: self.resolve(inner_dependency)
+        if is_from_context_annotation(dependency) or is_all_annotation(dependency):
+            # Context values and collections never come from an open match.
+            return await self._base_resolver.aresolve(dependency)
         try:
             return await self._base_resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
-- 
2.43.0


From a21c0e5fe116d6d626534a7c0a0558c8338bbf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 23/44] fix: close the keys carried by Provider and All markers
 in open-generic dependencies

---
 src/diwire/_internal/open_generics.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 6f058f3..b5329d5 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -12,6 +12,8 @@ from diwire._internal.event_loop_lock import EventLoopLock
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
+    AllMarker,
+    ProviderMarker,
     is_all_annotation,
     is_async_provider_annotation,
     is_from_context_annotation,
@@ -159,6 +161,12 @@ def substitute_typevars(value: Any, *, mapping: Mapping[TypeVar, Any]) -> Any:
     if isinstance(value, TypeVar):
         return mapping.get(value, value)
 
+    if isinstance(value, (ProviderMarker, AllMarker)):
+        # Both markers repeat the dependency key they were created for.
+        return value._replace(
+            dependency_key=substitute_typevars(value.dependency_key, mapping=mapping),
+        )
+
     origin = get_origin(value)
     if origin is None:
         return value
-- 
2.43.0


From b9c60260addee9b0afc3554487b1a539c8b6f85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 24/44] fix: keep the open-generic cleanups of concurrent
 scopes apart

---
 src/diwire/_internal/open_generics.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index b5329d5..d4c3a81 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -361,6 +361,13 @@ class _OpenGenericResolver:  # pragma: no cover
         self._thread_locks: dict[Any, threading.Lock] = {}
         self._async_locks: dict[Any, EventLoopLock] = {}
         self._cleanup_callbacks: list[tuple[int, Any]] = []
+        # The base resolver may hand out one instance for every scope of a level that builds
+        # nothing there; its cleanup callbacks belong to no scope in particular.
+        self._base_resolver_is_shared = base_resolver is getattr(
+            getattr(base_resolver, "_root_resolver", None),
+            f"_scope_resolver_{scope_level}",
+            None,
+        )
         self._cleanup_enabled = bool(
             getattr(base_resolver, "_cleanup_enabled", True),
         )
@@ -993,6 +1000,8 @@ class _OpenGenericResolver:  # pragma: no cover
         self._cleanup_callbacks.append((kind, callback))
 
     def _resolver_cleanup_callbacks(self) -> list[tuple[int, Any]] | None:
+        if self._base_resolver_is_shared:
+            return None
         callbacks = getattr(self._base_resolver, "_cleanup_callbacks", None)
         if isinstance(callbacks, list):
             return callbacks
-- 
2.43.0


From 222c1608f2a85f2724cd8ab6bebc5e8366d599ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:00 +0000
Subject: [PATCH 25/44] fix: keep closed type arguments as written in
 open-generic dependencies

---
 src/diwire/_internal/open_generics.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index d4c3a81..6067b00 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -5,7 +5,9 @@ import threading
 from collections.abc import Iterable, Mapping
 from contextlib import asynccontextmanager, contextmanager
 from dataclasses import dataclass
-from types import TracebackType
+from functools import reduce
+from operator import or_
+from types import TracebackType, UnionType
 from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_args, get_origin
 
 from diwire._internal.event_loop_lock import EventLoopLock
@@ -167,6 +169,10 @@ def substitute_typevars(value: Any, *, mapping: Mapping[TypeVar, Any]) -> Any:
             dependency_key=substitute_typevars(value.dependency_key, mapping=mapping),
         )
 
+    if not contains_typevar(value):
+        # Rebuilding an alias may yield a different one (typing.Callable, typing.List).
+        return value
+
     origin = get_origin(value)
     if origin is None:
         return value
@@ -1327,6 +1333,8 @@ def _normalize_generic_node(value: Any) -> Any:
 
 
 def _rebuild_alias(*, origin: Any, args: tuple[Any, ...], fallback: Any) -> Any:
+    if origin is UnionType:
+        return reduce(or_, args)
     try:
         if len(args) == 1:
             return origin[args[0]]
-- 
2.43.0


From 12ff3c9a84f2398d6d6d679bd9f8a25a8cee839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 26/44] fix: ignore the registered scope of keys an injected
 callable takes from context

---
 src/diwire/_internal/container.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 1ea19c1..c9ea43d 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2066,10 +2066,13 @@ class Container:
         known_level = cache.get(original_dependency)
         if known_level is not None:
             return known_level
+        if is_from_context_annotation(dependency):
+            # Taken from the scope's context, whatever is registered under the same key.
+            return self._root_scope.level
         if is_maybe_annotation(dependency):
-            maybe_inner_dependency = strip_non_component_annotation(
-                strip_maybe_annotation(dependency)
-            )
+            maybe_inner_dependency = strip_maybe_annotation(dependency)
+            if not is_from_context_annotation(maybe_inner_dependency):
+                maybe_inner_dependency = strip_non_component_annotation(maybe_inner_dependency)
             inferred_level = self._infer_dependency_scope_level(
                 dependency=maybe_inner_dependency,
                 cache=cache,
-- 
2.43.0


From 5026a0bcc8f488c66d0b0315b8a6cb380e3dbfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 27/44] fix: inject parameters of pytest test methods, static
 methods and class methods

---
 src/diwire/_internal/integrations/pytest_plugin.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/integrations/pytest_plugin.py b/src/diwire/_internal/integrations/pytest_plugin.py
index 12a5c35..2f8da18 100644
--- a/src/diwire/_internal/integrations/pytest_plugin.py
+++ b/src/diwire/_internal/integrations/pytest_plugin.py
@@ -67,17 +67,18 @@ def pytest_pycollect_makeitem(
         ``None`` to continue default collection flow.
 
     """
-    if not callable(obj):
+    function = obj.__func__ if isinstance(obj, staticmethod | classmethod) else obj
+    if not callable(function):
         return None
     if not collector.istestfunction(obj, name):
         return None
 
-    callable_obj = cast("Callable[..., Any]", obj)
+    callable_obj = cast("Callable[..., Any]", function)
     inspection = _INJECTED_CALLABLE_INSPECTOR.inspect_callable(callable_obj)
     if not inspection.injected_parameters:
         return None
 
-    obj_as_any = cast("Any", obj)
+    obj_as_any = cast("Any", function)
     obj_as_any.__dict__[_DIWIRE_INJECTED_PARAMETERS_ATTR] = inspection.injected_parameters
     obj_as_any.__dict__[_DIWIRE_ORIGINAL_SIGNATURE_ATTR] = inspection.signature
     obj_as_any.__signature__ = inspection.public_signature
@@ -104,7 +105,8 @@ def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
 
     """
     original_callable = cast("Callable[..., Any]", pyfuncitem.obj)
-    original_callable_as_any = cast("Any", original_callable)
+    # Attributes of a bound method live on its function.
+    original_callable_as_any = cast("Any", getattr(original_callable, "__func__", original_callable))
     injected_parameters = cast(
         "tuple[InjectedParameter, ...] | None",
         getattr(original_callable_as_any, _DIWIRE_INJECTED_PARAMETERS_ATTR, None),
-- 
2.43.0


From 93751b072b1576f878c04bff542601d4226944ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:04 +0000
Subject: [PATCH 28/44] fix: inject coroutine tests before their event loop
 runner takes over

---
 .../_internal/integrations/pytest_plugin.py   | 34 +++++++++++++++++++
 .../integrations/pytest_plugin/__init__.py    |  1 +
 2 files changed, 35 insertions(+)

diff --git a/src/diwire/_internal/integrations/pytest_plugin.py b/src/diwire/_internal/integrations/pytest_plugin.py
index 2f8da18..cbcd779 100644
--- a/src/diwire/_internal/integrations/pytest_plugin.py
+++ b/src/diwire/_internal/integrations/pytest_plugin.py
@@ -19,6 +19,7 @@ from diwire._internal.resolver_context import resolver_context
 _DIWIRE_CONTAINER_ATTR = "_diwire_container"
 _DIWIRE_INJECTED_PARAMETERS_ATTR = "__diwire_pytest_injected_parameters__"
 _DIWIRE_ORIGINAL_SIGNATURE_ATTR = "__diwire_pytest_original_signature__"
+_DIWIRE_WRAPPED_ATTR = "_diwire_wrapped"
 _INJECTED_CALLABLE_INSPECTOR = InjectedCallableInspector()
 
 
@@ -85,6 +86,35 @@ def pytest_pycollect_makeitem(
     return None
 
 
+@pytest.hookimpl(hookwrapper=True, tryfirst=True)
+def pytest_runtest_call(item: pytest.Item) -> Iterator[None]:
+    """Wrap coroutine tests before ``runtest`` hands them to an event loop runner.
+
+    pytest-asyncio replaces the coroutine function by a synchronous runner before
+    ``pytest_pyfunc_call``, where injection could only happen synchronously and
+    outside the context of the test coroutine.
+
+    Args:
+        item: Collected pytest item.
+
+    Yields:
+        Control back to pytest around test execution.
+
+    """
+    if not inspect.iscoroutinefunction(getattr(item, "obj", None)):
+        yield
+        return
+
+    wrapping = pytest_pyfunc_call(cast("pytest.Function", item))
+    next(wrapping)
+    setattr(item, _DIWIRE_WRAPPED_ATTR, True)
+    try:
+        yield
+    finally:
+        delattr(item, _DIWIRE_WRAPPED_ATTR)
+        next(wrapping, None)
+
+
 @pytest.hookimpl(hookwrapper=True, tryfirst=True)
 def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
     """Wrap test function execution to resolve ``Injected[...]`` parameters.
@@ -104,6 +134,10 @@ def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
         Control back to pytest around test execution.
 
     """
+    if getattr(pyfuncitem, _DIWIRE_WRAPPED_ATTR, False):
+        yield
+        return
+
     original_callable = cast("Callable[..., Any]", pyfuncitem.obj)
     # Attributes of a bound method live on its function.
     original_callable_as_any = cast("Any", getattr(original_callable, "__func__", original_callable))
diff --git a/src/diwire/integrations/pytest_plugin/__init__.py b/src/diwire/integrations/pytest_plugin/__init__.py
index 3179d22..174c1e8 100644
--- a/src/diwire/integrations/pytest_plugin/__init__.py
+++ b/src/diwire/integrations/pytest_plugin/__init__.py
@@ -3,6 +3,7 @@ from diwire._internal.integrations.pytest_plugin import (
     diwire_container,
     pytest_pycollect_makeitem,
     pytest_pyfunc_call,
+    pytest_runtest_call,
 )
 
 __all__ = [
-- 
2.43.0


From 787f6f623b092b388437ecf3bf31e9d2f9505c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:46 +0000
Subject: [PATCH 29/44] fix: never build an open generic synchronously while a
 coroutine builds it

---
 src/diwire/_internal/event_loop_lock.py | 6 ++++++
 src/diwire/_internal/open_generics.py   | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/diwire/_internal/event_loop_lock.py b/src/diwire/_internal/event_loop_lock.py
index e9e4ffc..1b1d921 100644
--- a/src/diwire/_internal/event_loop_lock.py
+++ b/src/diwire/_internal/event_loop_lock.py
@@ -31,6 +31,12 @@ class EventLoopLock:
             lock = self._lock_by_loop.setdefault(loop, asyncio.Lock())
         return lock
 
+    def locked(self) -> bool:
+        """Tell whether a coroutine holds the lock in any event loop."""
+        return self._loopless_lock.locked() or any(
+            lock.locked() for lock in list(self._lock_by_loop.values())
+        )
+
     async def __aenter__(self) -> None:
         await self._current_lock().acquire()
 
diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 6067b00..bd0e9af 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -700,6 +700,11 @@ class _OpenGenericResolver:  # pragma: no cover
                     cache_owner.set_cached(dependency=dependency, value=value)
                     return value
 
+            if self._uses_async_lock(match.spec) and cache_owner.get_async_lock(dependency).locked():
+                # A coroutine is building this very value and cannot be waited for here.
+                msg = f"Dependency {dependency!r} is being resolved asynchronously."
+                raise DIWireAsyncDependencyInSyncContextError(msg)
+
             value = execution_owner.build_open_value_sync(match=match)
             cache_owner.set_cached(dependency=dependency, value=value)
             return value
-- 
2.43.0


From 3902c74e6b3e62ef7ee70977daf8f4e7623a65da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:40 +0000
Subject: [PATCH 30/44] fix: keep positional-only constructor arguments apart
 from injected type arguments

---
 src/diwire/_internal/container.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index c9ea43d..c3f1ca5 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1663,9 +1663,20 @@ class Container:
     ) -> Callable[..., Any]:
         constructor_signature = inspect.signature(concrete_type)
         factory_injected_arguments = dict(injected_arguments)
+        # The resolver passes the other arguments as if the injected ones did not exist.
+        resolved_signature = constructor_signature.replace(
+            parameters=[
+                parameter
+                for parameter in constructor_signature.parameters.values()
+                if parameter.name not in factory_injected_arguments
+            ],
+        )
 
         def _factory(*args: Any, **kwargs: Any) -> Any:
-            bound_arguments = constructor_signature.bind_partial(*args, **kwargs)
+            bound_arguments = constructor_signature.bind_partial()
+            bound_arguments.arguments.update(
+                resolved_signature.bind_partial(*args, **kwargs).arguments,
+            )
             for argument_name, argument_value in factory_injected_arguments.items():
                 if argument_name in bound_arguments.arguments:
                     continue
-- 
2.43.0


From 2330f53336ceda418c9a19d4f2216ddfb8143ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:28 +0000
Subject: [PATCH 31/44] fix: wire star parameters of open-generic providers
 like those of other providers

---
 src/diwire/_internal/open_generics.py | 60 ++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index bd0e9af..ff4eb56 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -815,6 +815,7 @@ class _OpenGenericResolver:  # pragma: no cover
 
     def _resolve_call_arguments_sync(self, *, match: _OpenGenericMatch) -> _CallArguments:
         positional_arguments: list[Any] = []
+        star_arguments: list[Any] = []
         keyword_arguments: dict[str, Any] = {}
         for binding in match.spec.bindings:
             value = self._resolve_binding_value_sync(
@@ -824,9 +825,19 @@ class _OpenGenericResolver:  # pragma: no cover
             _append_call_argument(
                 dependency=binding.dependency,
                 value=value,
-                positional_arguments=positional_arguments,
+                positional_arguments=(
+                    star_arguments
+                    if binding.dependency.parameter.kind is inspect.Parameter.VAR_POSITIONAL
+                    else positional_arguments
+                ),
                 keyword_arguments=keyword_arguments,
             )
+        _append_star_arguments(
+            provider=match.spec.provider,
+            star_arguments=star_arguments,
+            positional_arguments=positional_arguments,
+            keyword_arguments=keyword_arguments,
+        )
         if match.spec.provider_is_inject_wrapper:
             keyword_arguments[INJECT_RESOLVER_KWARG] = self
         return _CallArguments(
@@ -836,6 +847,7 @@ class _OpenGenericResolver:  # pragma: no cover
 
     async def _resolve_call_arguments_async(self, *, match: _OpenGenericMatch) -> _CallArguments:
         positional_arguments: list[Any] = []
+        star_arguments: list[Any] = []
         keyword_arguments: dict[str, Any] = {}
         for binding in match.spec.bindings:
             value = await self._resolve_binding_value_async(
@@ -845,9 +857,19 @@ class _OpenGenericResolver:  # pragma: no cover
             _append_call_argument(
                 dependency=binding.dependency,
                 value=value,
-                positional_arguments=positional_arguments,
+                positional_arguments=(
+                    star_arguments
+                    if binding.dependency.parameter.kind is inspect.Parameter.VAR_POSITIONAL
+                    else positional_arguments
+                ),
                 keyword_arguments=keyword_arguments,
             )
+        _append_star_arguments(
+            provider=match.spec.provider,
+            star_arguments=star_arguments,
+            positional_arguments=positional_arguments,
+            keyword_arguments=keyword_arguments,
+        )
         if match.spec.provider_is_inject_wrapper:
             keyword_arguments[INJECT_RESOLVER_KWARG] = self
         return _CallArguments(
@@ -875,7 +897,7 @@ class _OpenGenericResolver:  # pragma: no cover
             )
             raise DIWireInvalidGenericTypeArgumentError(msg)
         if self._declared_default_applies(binding=binding, dependency=resolved_dependency):
-            return binding.dependency.parameter.default
+            return _declared_default(binding.dependency.parameter)
         return self.resolve(resolved_dependency)
 
     def _declared_default_applies(
@@ -884,7 +906,7 @@ class _OpenGenericResolver:  # pragma: no cover
         binding: _OpenGenericBindingPlan,
         dependency: Any,
     ) -> bool:
-        if binding.dependency.parameter.default is inspect.Parameter.empty:
+        if _declared_default(binding.dependency.parameter) is inspect.Parameter.empty:
             return False
         if not is_maybe_annotation(dependency):
             return False
@@ -922,7 +944,7 @@ class _OpenGenericResolver:  # pragma: no cover
             )
             raise DIWireInvalidGenericTypeArgumentError(msg)
         if self._declared_default_applies(binding=binding, dependency=resolved_dependency):
-            return binding.dependency.parameter.default
+            return _declared_default(binding.dependency.parameter)
         return await self.aresolve(resolved_dependency)
 
     def _build_generator_sync(
@@ -1120,6 +1142,14 @@ class _CallArguments:
     kwargs: dict[str, Any]
 
 
+def _declared_default(parameter: inspect.Parameter) -> Any:
+    if parameter.kind is inspect.Parameter.VAR_POSITIONAL:
+        return ()
+    if parameter.kind is inspect.Parameter.VAR_KEYWORD:
+        return {}
+    return parameter.default
+
+
 def _append_call_argument(
     *,
     dependency: ProviderDependency,
@@ -1146,6 +1176,26 @@ def _append_call_argument(
     keyword_arguments[dependency.parameter.name] = value
 
 
+def _append_star_arguments(
+    *,
+    provider: UserProviderObject,
+    star_arguments: list[Any],
+    positional_arguments: list[Any],
+    keyword_arguments: dict[str, Any],
+) -> None:
+    if not star_arguments:
+        return
+    # Whatever precedes ``*args`` in the signature has to be passed by position as well.
+    for parameter in inspect.signature(cast("Any", provider)).parameters.values():
+        if parameter.kind is not inspect.Parameter.POSITIONAL_OR_KEYWORD:
+            continue
+        if parameter.name in keyword_arguments:
+            positional_arguments.append(keyword_arguments.pop(parameter.name))
+        elif parameter.default is not inspect.Parameter.empty:
+            positional_arguments.append(parameter.default)
+    positional_arguments.extend(star_arguments)
+
+
 def cast_iterable(value: Any) -> Iterable[Any]:
     """Validate and return an iterable variadic argument payload.
 
-- 
2.43.0


From c4c4eec67ffcb071d74ef9e10bfd1fecf6b89811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 32/44] fix: pass star arguments to closed classes that take
 type arguments

---
 src/diwire/_internal/container.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index c3f1ca5..94a04b8 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1683,6 +1683,7 @@ class Container:
                 bound_arguments.arguments[argument_name] = argument_value
             return concrete_type(*bound_arguments.args, **bound_arguments.kwargs)
 
+        cast("Any", _factory).__signature__ = resolved_signature
         return _factory
 
     def _resolve_factory_registration_dependencies(
-- 
2.43.0


From 08c9fa7c407895f0f7672ffdb91d561970938ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:44 +0000
Subject: [PATCH 33/44] fix: describe constructors, callable objects and
 partials by what declares their parameters

---
 src/diwire/_internal/providers.py   | 23 +++++++++++++++++++++--
 src/diwire/_internal/type_checks.py | 25 ++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index fbf223e..04e6571 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -23,6 +23,7 @@ from typing import (
 
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.scope import BaseScope
+from diwire._internal.type_checks import annotated_callable
 from diwire.exceptions import (
     DIWireInvalidProviderSpecError,
     DIWireInvalidRegistrationError,
@@ -562,7 +563,7 @@ class ProviderDependenciesExtractor:
         annotation_error: Exception | None = None
 
         try:
-            annotations = get_type_hints(provider, include_extras=True)
+            annotations = get_type_hints(annotated_callable(provider), include_extras=True)
         except (AttributeError, NameError, TypeError) as error:
             annotation_error = error
 
@@ -584,6 +585,12 @@ class ProviderDependenciesExtractor:
     ) -> tuple[dict[str, Any], Exception | None]:
         merged_annotations = dict(annotations)
         merged_error = annotation_error
+        declared_annotations = {
+            name: annotation
+            for base in reversed(concrete_type.__mro__)
+            for name, annotation in base.__dict__.get("__annotations__", {}).items()
+        }
+        signature_parameters = inspect.signature(concrete_type).parameters
 
         for callable_member_name in ("__call__", "__new__", "__init__"):
             callable_member = getattr(concrete_type, callable_member_name)
@@ -593,8 +600,20 @@ class ProviderDependenciesExtractor:
                 if merged_error is None:
                     merged_error = error
                 continue
+            member_declared_annotations = getattr(callable_member, "__annotations__", {})
             for parameter_name, parameter_annotation in member_annotations.items():
-                merged_annotations.setdefault(parameter_name, parameter_annotation)
+                parameter = signature_parameters.get(parameter_name)
+                declared = member_declared_annotations.get(parameter_name)
+                if parameter_name in merged_annotations and (
+                    parameter is None
+                    or declared != parameter.annotation
+                    or declared_annotations.get(parameter_name) == parameter.annotation
+                ):
+                    continue
+                # What the constructor declares wins over a same-named class attribute or an
+                # argument of `__call__`.
+                merged_annotations[parameter_name] = parameter_annotation
+                declared_annotations[parameter_name] = declared
 
         return merged_annotations, merged_error
 
diff --git a/src/diwire/_internal/type_checks.py b/src/diwire/_internal/type_checks.py
index d31d6d6..2bde6b2 100644
--- a/src/diwire/_internal/type_checks.py
+++ b/src/diwire/_internal/type_checks.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import functools
+import inspect
 import types
 from typing import Any, TypeGuard
 
@@ -14,4 +16,25 @@ def is_runtime_class(candidate: object) -> TypeGuard[type[Any]]:
     return isinstance(candidate, type) and not isinstance(candidate, types.GenericAlias)
 
 
-__all__ = ["is_runtime_class"]
+def annotated_callable(candidate: Any) -> Any:
+    """Return the callable whose annotations describe the parameters of a candidate.
+
+    Callable objects are described by their ``__call__`` (not by the attributes their class
+    annotates) and partial objects by the function they wrap.
+
+    Args:
+        candidate: Callable whose parameter annotations are needed.
+
+    """
+    if isinstance(candidate, functools.partial) and not inspect.isclass(candidate.func):
+        return annotated_callable(candidate.func)
+    if (
+        inspect.isclass(candidate)
+        or inspect.isroutine(candidate)
+        or "__annotations__" in getattr(candidate, "__dict__", {})
+    ):
+        return candidate
+    return type(candidate).__call__
+
+
+__all__ = ["annotated_callable", "is_runtime_class"]
-- 
2.43.0


From 37f29918da26af230dbf7e17c6761cffeb2587af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:44 +0000
Subject: [PATCH 34/44] fix: read injected parameters of callable objects from
 their __call__

---
 src/diwire/_internal/injection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/injection.py b/src/diwire/_internal/injection.py
index 1ba6091..19fac8f 100644
--- a/src/diwire/_internal/injection.py
+++ b/src/diwire/_internal/injection.py
@@ -10,6 +10,7 @@ from diwire._internal.markers import (
     is_from_context_annotation,
     strip_from_context_annotation,
 )
+from diwire._internal.type_checks import annotated_callable
 
 _ANNOTATED_DEPENDENCY_MIN_ARGS = 2
 INJECT_RESOLVER_KWARG = "diwire_resolver"
@@ -141,7 +142,7 @@ class InjectedCallableInspector:
 
         """
         try:
-            return get_type_hints(callable_obj, include_extras=True)
+            return get_type_hints(annotated_callable(callable_obj), include_extras=True)
         except (AttributeError, NameError, TypeError):
             return {}
 
-- 
2.43.0


From c795009fd732c7640a1aa47734baeedab8c86143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:44 +0000
Subject: [PATCH 35/44] fix: accept a union written with | as a registration
 key

---
 src/diwire/_internal/container.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 94a04b8..43f6048 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1629,10 +1629,12 @@ class Container:
         if not arguments:
             return {}
 
+        origin_parameters = getattr(origin, "__parameters__", ())
+        if not isinstance(origin_parameters, tuple):
+            # ``types.UnionType.__parameters__`` is a descriptor.
+            return {}
         origin_typevars = tuple(
-            parameter
-            for parameter in getattr(origin, "__parameters__", ())
-            if isinstance(parameter, TypeVar)
+            parameter for parameter in origin_parameters if isinstance(parameter, TypeVar)
         )
         if len(origin_typevars) != len(arguments):
             return {}
-- 
2.43.0


From d42953ca8222e6de324e0efc2c599a99c684a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:51 +0000
Subject: [PATCH 36/44] fix: recognise asynchronous callable objects and
 partials as asynchronous providers

---
 src/diwire/_internal/providers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index 04e6571..5231378 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -650,7 +650,9 @@ class ProviderReturnTypeExtractor:
             factory: Factory provider callable to inspect or validate.
 
         """
-        return inspect.iscoroutinefunction(factory) or self.return_annotation_matches_origins(
+        return inspect.iscoroutinefunction(
+            annotated_callable(factory),
+        ) or self.return_annotation_matches_origins(
             provider=factory,
             expected_origins=(Awaitable, Coroutine),
         )
@@ -665,7 +667,9 @@ class ProviderReturnTypeExtractor:
             generator: Generator provider callable to inspect or validate.
 
         """
-        return inspect.isasyncgenfunction(generator) or self.return_annotation_matches_origins(
+        return inspect.isasyncgenfunction(
+            annotated_callable(generator),
+        ) or self.return_annotation_matches_origins(
             provider=generator,
             expected_origins=(AsyncGenerator,),
         )
@@ -680,7 +684,7 @@ class ProviderReturnTypeExtractor:
             context_manager: Context manager provider callable to inspect or validate.
 
         """
-        unwrapped_context_manager = inspect.unwrap(context_manager)
+        unwrapped_context_manager = inspect.unwrap(annotated_callable(context_manager))
         if inspect.isasyncgenfunction(unwrapped_context_manager):
             return True
         if inspect.iscoroutinefunction(unwrapped_context_manager):
@@ -844,7 +848,9 @@ class ProviderReturnTypeExtractor:
             expected_origins: Allowed annotation origins for a successful match check.
 
         """
-        return_annotation, _annotation_error = self._resolved_return_annotation(provider)
+        return_annotation, _annotation_error = self._resolved_return_annotation(
+            annotated_callable(provider),
+        )
         if return_annotation is _MISSING_ANNOTATION:
             return False
         return self.annotation_matches_origins(
-- 
2.43.0


From 94ae069fa216f2fabbaeccb04762052e48eb78a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:06 +0000
Subject: [PATCH 37/44] fix: keep the scope of asynchronous callable objects
 and partials open while they run

---
 src/diwire/_internal/container.py        | 3 ++-
 src/diwire/_internal/resolver_context.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 43f6048..c55d70e 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -68,6 +68,7 @@ from diwire._internal.resolver_context import (
 from diwire._internal.resolvers.manager import ResolversManager
 from diwire._internal.resolvers.protocol import ResolverProtocol
 from diwire._internal.scope import BaseScope, Scope
+from diwire._internal.type_checks import annotated_callable
 from diwire._internal.validators import DependecyRegistrationValidator
 from diwire.exceptions import (
     DIWireDependencyNotRegisteredError,
@@ -1939,7 +1940,7 @@ class Container:
             auto_open_scope=auto_open_scope,
         )
 
-        if inspect.iscoroutinefunction(callable_obj):
+        if inspect.iscoroutinefunction(annotated_callable(callable_obj)):
 
             @functools.wraps(callable_obj)
             async def _async_injected(*args: Any, **kwargs: Any) -> Any:
diff --git a/src/diwire/_internal/resolver_context.py b/src/diwire/_internal/resolver_context.py
index 448b345..27b5468 100644
--- a/src/diwire/_internal/resolver_context.py
+++ b/src/diwire/_internal/resolver_context.py
@@ -17,6 +17,7 @@ from diwire._internal.injection import (
 from diwire._internal.policies import DependencyRegistrationPolicy
 from diwire._internal.resolvers.protocol import ResolverProtocol
 from diwire._internal.scope import BaseScope
+from diwire._internal.type_checks import annotated_callable
 from diwire.exceptions import DIWireInvalidRegistrationError, DIWireResolverNotSetError
 
 if TYPE_CHECKING:
@@ -523,7 +524,7 @@ class ResolverContext:
         callable_obj: InjectableF,
         invocation: Callable[..., Any],
     ) -> Callable[..., Any]:
-        if inspect.iscoroutinefunction(callable_obj):
+        if inspect.iscoroutinefunction(annotated_callable(callable_obj)):
 
             @functools.wraps(callable_obj)
             async def _async_injected(*args: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From e176f96d17e5be5e169a2e8c6550ba628b825b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:11 +0000
Subject: [PATCH 38/44] fix: do not read constructor annotations from the
 instances' __call__

---
 src/diwire/_internal/providers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index 5231378..7196dd3 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -592,8 +592,11 @@ class ProviderDependenciesExtractor:
         }
         signature_parameters = inspect.signature(concrete_type).parameters
 
-        for callable_member_name in ("__call__", "__new__", "__init__"):
-            callable_member = getattr(concrete_type, callable_member_name)
+        for callable_member in (
+            type(concrete_type).__call__,
+            concrete_type.__new__,
+            concrete_type.__init__,
+        ):
             try:
                 member_annotations = get_type_hints(callable_member, include_extras=True)
             except (AttributeError, NameError, TypeError) as error:
@@ -610,8 +613,7 @@ class ProviderDependenciesExtractor:
                     or declared_annotations.get(parameter_name) == parameter.annotation
                 ):
                     continue
-                # What the constructor declares wins over a same-named class attribute or an
-                # argument of `__call__`.
+                # What the constructor declares wins over a same-named class attribute.
                 merged_annotations[parameter_name] = parameter_annotation
                 declared_annotations[parameter_name] = declared
 
-- 
2.43.0


From 6fa51f42d6b1e42ae3e6f13c245185ff62ea2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:11 +0000
Subject: [PATCH 39/44] fix: pass ordinary arguments of injected functions used
 as providers by keyword when injected ones precede them

---
 src/diwire/_internal/resolvers/assembly/planner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 198fb34..02b8b5b 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -852,6 +852,9 @@ class ResolverGenerationPlanner:
         provider_callable = self._provider_callable_for_signature(spec=spec)
         if provider_callable is None:
             return False
+        if getattr(provider_callable, INJECT_WRAPPER_MARKER, False):
+            # Hidden injected parameters take positions, too.
+            provider_callable = provider_callable.__wrapped__
 
         parameters = list(inspect.signature(provider_callable).parameters.values())
         order_by_name = {parameter.name: index for index, parameter in enumerate(parameters)}
-- 
2.43.0


From f91132ee15b99f2fecf5603453c718895e443abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:30 +0000
Subject: [PATCH 40/44] fix: compare union type arguments, bounds and
 constraints of open generics member by member

---
 src/diwire/_internal/open_generics.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index ff4eb56..c7d2920 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -8,7 +8,17 @@ from dataclasses import dataclass
 from functools import reduce
 from operator import or_
 from types import TracebackType, UnionType
-from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_args, get_origin
+from typing import (
+    TYPE_CHECKING,
+    Any,
+    Literal,
+    NoReturn,
+    TypeVar,
+    Union,
+    cast,
+    get_args,
+    get_origin,
+)
 
 from diwire._internal.event_loop_lock import EventLoopLock
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
@@ -1414,6 +1424,16 @@ def _is_type_argument_valid(*, typevar: TypeVar, argument: Any) -> bool:
 def _matches_type_constraint(*, argument: Any, constraint: Any) -> bool:
     if constraint is Any:
         return True
+    if _is_union(argument):
+        return all(
+            _matches_type_constraint(argument=member, constraint=constraint)
+            for member in get_args(argument)
+        )
+    if _is_union(constraint):
+        return any(
+            _matches_type_constraint(argument=argument, constraint=member)
+            for member in get_args(constraint)
+        )
     argument_type = _origin_or_self(argument)
     constraint_type = _origin_or_self(constraint)
     if isinstance(argument_type, type) and isinstance(constraint_type, type):
@@ -1424,6 +1444,11 @@ def _matches_type_constraint(*, argument: Any, constraint: Any) -> bool:
     return argument == constraint
 
 
+def _is_union(value: Any) -> bool:
+    origin: Any = get_origin(value)
+    return origin is Union or origin is UnionType
+
+
 def _origin_or_self(value: Any) -> Any:
     return get_origin(value) or value
 
-- 
2.43.0


From eb8ed750edb6a515c70c42519969a2c3b22e098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:31 +0000
Subject: [PATCH 41/44] fix: evaluate string bounds of type variables of open
 generics

---
 src/diwire/_internal/open_generics.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index c7d2920..efcd851 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1,16 +1,18 @@
 from __future__ import annotations
 
 import inspect
+import sys
 import threading
 from collections.abc import Iterable, Mapping
 from contextlib import asynccontextmanager, contextmanager
 from dataclasses import dataclass
 from functools import reduce
 from operator import or_
-from types import TracebackType, UnionType
+from types import SimpleNamespace, TracebackType, UnionType
 from typing import (
     TYPE_CHECKING,
     Any,
+    ForwardRef,
     Literal,
     NoReturn,
     TypeVar,
@@ -18,6 +20,7 @@ from typing import (
     cast,
     get_args,
     get_origin,
+    get_type_hints,
 )
 
 from diwire._internal.event_loop_lock import EventLoopLock
@@ -1418,9 +1421,20 @@ def _is_type_argument_valid(*, typevar: TypeVar, argument: Any) -> bool:
     bound = getattr(typevar, "__bound__", None)
     if bound is None:
         return True
+    if isinstance(bound, ForwardRef):
+        bound = _evaluate_string_bound(typevar=typevar, bound=bound)
     return _matches_type_constraint(argument=argument, constraint=bound)
 
 
+def _evaluate_string_bound(*, typevar: TypeVar, bound: ForwardRef) -> Any:
+    module = sys.modules.get(typevar.__module__)
+    holder = SimpleNamespace(__annotations__={"bound": bound})
+    try:
+        return get_type_hints(holder, globalns=getattr(module, "__dict__", {}))["bound"]
+    except (AttributeError, NameError, TypeError):
+        return bound
+
+
 def _matches_type_constraint(*, argument: Any, constraint: Any) -> bool:
     if constraint is Any:
         return True
-- 
2.43.0


From 524007f5f08a07a98d26908a34ee3d17b631c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:31 +0000
Subject: [PATCH 42/44] fix: match annotated, NewType and Literal type
 arguments against bounds of open generics

---
 src/diwire/_internal/open_generics.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index efcd851..2be45df 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -11,9 +11,11 @@ from operator import or_
 from types import SimpleNamespace, TracebackType, UnionType
 from typing import (
     TYPE_CHECKING,
+    Annotated,
     Any,
     ForwardRef,
     Literal,
+    NewType,
     NoReturn,
     TypeVar,
     Union,
@@ -1448,6 +1450,16 @@ def _matches_type_constraint(*, argument: Any, constraint: Any) -> bool:
             _matches_type_constraint(argument=argument, constraint=member)
             for member in get_args(constraint)
         )
+    origin = get_origin(argument)
+    if origin is Annotated:
+        return _matches_type_constraint(argument=get_args(argument)[0], constraint=constraint)
+    if origin is Literal:
+        return argument == constraint or all(
+            _matches_type_constraint(argument=type(value), constraint=constraint)
+            for value in get_args(argument)
+        )
+    if isinstance(argument, NewType) and argument is not constraint:
+        return _matches_type_constraint(argument=argument.__supertype__, constraint=constraint)
     argument_type = _origin_or_self(argument)
     constraint_type = _origin_or_self(constraint)
     if isinstance(argument_type, type) and isinstance(constraint_type, type):
-- 
2.43.0


From a63359be9ad219d42ed65e334fdf6b4dfade16f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:47 +0000
Subject: [PATCH 43/44] fix: event loop locks keep finished event loops alive

---
 src/diwire/_internal/event_loop_lock.py | 68 +++++++++++++++++--------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/src/diwire/_internal/event_loop_lock.py b/src/diwire/_internal/event_loop_lock.py
index 1b1d921..c615e6a 100644
--- a/src/diwire/_internal/event_loop_lock.py
+++ b/src/diwire/_internal/event_loop_lock.py
@@ -2,43 +2,52 @@ from __future__ import annotations
 
 import asyncio
 from types import TracebackType
-from weakref import WeakKeyDictionary
+
+
+class _LoopShare:
+    """Lock of one event loop, kept while coroutines of that loop hold or await it."""
+
+    __slots__ = ("lock", "users")
+
+    def __init__(self) -> None:
+        self.lock = asyncio.Lock()
+        self.users = 0
 
 
 class EventLoopLock:
     """Asynchronous lock that can be used by several event loops one after another.
 
     ``asyncio.Lock`` stays attached to the loop in which it was first contended, while a
-    container outlives individual loops. One lock is kept per running loop, and one more
-    for coroutines that are driven without an asyncio loop.
+    container outlives individual loops. One lock is kept per loop that is using it, and one
+    more for coroutines that are driven without an asyncio loop.
     """
 
-    __slots__ = ("_lock_by_loop", "_loopless_lock")
+    __slots__ = ("_loopless_lock", "_share_by_loop")
 
     def __init__(self) -> None:
-        self._lock_by_loop: WeakKeyDictionary[asyncio.AbstractEventLoop, asyncio.Lock] = (
-            WeakKeyDictionary()
-        )
+        self._share_by_loop: dict[asyncio.AbstractEventLoop, _LoopShare] = {}
         self._loopless_lock = asyncio.Lock()
 
-    def _current_lock(self) -> asyncio.Lock:
-        try:
-            loop = asyncio.get_running_loop()
-        except RuntimeError:
-            return self._loopless_lock
-        lock = self._lock_by_loop.get(loop)
-        if lock is None:
-            lock = self._lock_by_loop.setdefault(loop, asyncio.Lock())
-        return lock
-
     def locked(self) -> bool:
         """Tell whether a coroutine holds the lock in any event loop."""
         return self._loopless_lock.locked() or any(
-            lock.locked() for lock in list(self._lock_by_loop.values())
+            share.lock.locked() for share in list(self._share_by_loop.values())
         )
 
     async def __aenter__(self) -> None:
-        await self._current_lock().acquire()
+        loop = _running_loop()
+        if loop is None:
+            await self._loopless_lock.acquire()
+            return
+        share = self._share_by_loop.get(loop)
+        if share is None:
+            share = self._share_by_loop[loop] = _LoopShare()
+        share.users += 1
+        try:
+            await share.lock.acquire()
+        except BaseException:
+            self._leave(loop, share)
+            raise
 
     async def __aexit__(
         self,
@@ -46,4 +55,23 @@ class EventLoopLock:
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        self._current_lock().release()
+        loop = _running_loop()
+        if loop is None:
+            self._loopless_lock.release()
+            return
+        share = self._share_by_loop[loop]
+        share.lock.release()
+        self._leave(loop, share)
+
+    def _leave(self, loop: asyncio.AbstractEventLoop, share: _LoopShare) -> None:
+        share.users -= 1
+        if share.users == 0:
+            # A contended lock refers to its loop: keeping it would keep every loop alive.
+            del self._share_by_loop[loop]
+
+
+def _running_loop() -> asyncio.AbstractEventLoop | None:
+    try:
+        return asyncio.get_running_loop()
+    except RuntimeError:
+        return None
-- 
2.43.0


From 681b16b586b17d7788fec6aa0133ba3b7e3f3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:47 +0000
Subject: [PATCH 44/44] fix: provider slots can collide when threads fill
 containers

---
 src/diwire/_internal/providers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index 7196dd3..864d48e 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import inspect
+import threading
 from collections.abc import AsyncGenerator, Awaitable, Callable, Coroutine, Generator
 from contextlib import AbstractAsyncContextManager, AbstractContextManager
 from dataclasses import dataclass, field
@@ -81,6 +82,7 @@ ContextManagerProvider: TypeAlias = (
 )
 
 _MISSING_ANNOTATION: Any = object()
+_SLOT_COUNTER_LOCK = threading.Lock()
 _IMPLICIT_FIRST_PARAMETER_NAMES = {"self", "cls"}
 _COROUTINE_RESULT_INDEX = 2
 _COROUTINE_ARGUMENT_COUNT = 3
@@ -138,8 +140,10 @@ class ProviderSpec:
     """A unique slot number assigned to this provider specification."""
 
     def __post_init__(self) -> None:
-        self.__class__.SLOT_COUNTER += 1
-        self.slot = self.SLOT_COUNTER
+        # Slots are numbered across containers, which may be filled by different threads.
+        with _SLOT_COUNTER_LOCK:
+            self.__class__.SLOT_COUNTER += 1
+            self.slot = self.SLOT_COUNTER
 
 
 class Lifetime(Enum):
-- 
2.43.0

