From 395b5a62060ec68b2c2ed61dfa6f62148e75a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 01/12] fix: treat naive modified times and fresh_time as local
 time in the stale check

---
 src/uberjob/_transformations/caching.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index c5b4110..2441be0 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -39,11 +39,14 @@ Barrier = BarrierType()
 
 
 def _to_naive_utc_time(value: dt.datetime | None) -> dt.datetime | None:
-    return (
-        value.astimezone(dt.timezone.utc).replace(tzinfo=None)
-        if value and value.tzinfo
-        else value
-    )
+    if value is None:
+        return None
+    try:
+        # A naive datetime represents local time.
+        return value.astimezone(dt.timezone.utc).replace(tzinfo=None)
+    except (OverflowError, ValueError):
+        # The value is too close to datetime.min or datetime.max to be converted.
+        return value.replace(tzinfo=None)
 
 
 def _get_stale_scope(call: Call, registry: Registry) -> tuple:
-- 
2.43.0


From 0fb28fea0a931cc8471ffe184bafb45e4d881be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 02/12] fix: TextFileStore preserves carriage returns

---
 src/uberjob/stores/_text_file_store.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/stores/_text_file_store.py b/src/uberjob/stores/_text_file_store.py
index 5ccec2a..45f9616 100644
--- a/src/uberjob/stores/_text_file_store.py
+++ b/src/uberjob/stores/_text_file_store.py
@@ -35,7 +35,7 @@ class TextFileStore(FileStore):
 
     def read(self) -> str:
         """Read the string value from the file."""
-        with open(self.path, encoding=self.encoding) as inputfile:
+        with open(self.path, encoding=self.encoding, newline="") as inputfile:
             return inputfile.read()
 
     def write(self, value: str) -> None:
@@ -44,7 +44,9 @@ class TextFileStore(FileStore):
 
         :param value: The value.
         """
-        with staged_write(self.path, encoding=self.encoding) as outputfile:
+        with staged_write(
+            self.path, encoding=self.encoding, newline=""
+        ) as outputfile:
             outputfile.write(value)
 
     def __repr__(self):
-- 
2.43.0


From b2561b680c5dda1ebf2ddb8d27569bf1d1177747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 03/12] fix: remove the staging file when renaming it onto the
 target fails

---
 src/uberjob/stores/_file_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uberjob/stores/_file_store.py b/src/uberjob/stores/_file_store.py
index 1d84783..90b000c 100644
--- a/src/uberjob/stores/_file_store.py
+++ b/src/uberjob/stores/_file_store.py
@@ -64,10 +64,10 @@ def staged_write_path(
         staging_path = pathlib.Path(staging_path)
     try:
         yield staging_path
+        os.replace(staging_path, path)
     except BaseException:
         _try_remove(staging_path)
         raise
-    os.replace(staging_path, path)
 
 
 @contextmanager
-- 
2.43.0


From 08dfeb204c3fda58fd0b1ccfa39f18c1f9a4f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 04/12] fix: keyword arguments named fn, self and stack_frame
 can be passed to Plan.call

---
 src/uberjob/_plan.py            | 2 +-
 src/uberjob/_util/validation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index dca52ac..ade5ef3 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -49,7 +49,7 @@ class Plan:
         self._scope = ()
         self._scope_lock = RLock()
 
-    def _call(self, stack_frame, fn: Callable, *args, **kwargs) -> Call:
+    def _call(self, stack_frame, fn: Callable, /, *args, **kwargs) -> Call:
         call = Call(fn, scope=self._scope, stack_frame=stack_frame)
         self.graph.add_node(call)
         for index, arg in enumerate(args):
diff --git a/src/uberjob/_util/validation.py b/src/uberjob/_util/validation.py
index baf40e1..2f4b8a9 100644
--- a/src/uberjob/_util/validation.py
+++ b/src/uberjob/_util/validation.py
@@ -64,7 +64,7 @@ def try_get_signature(fn: Callable):
         return None
 
 
-def assert_can_bind(fn: Callable, *args, **kwargs):
+def assert_can_bind(fn: Callable, /, *args, **kwargs):
     sig = try_get_signature(fn)
     if sig is None:
         return
-- 
2.43.0


From e3d3888dac93533e558f57d1855e12e5499ad908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 05/12] fix: attribute the gather of run's output to the line
 that called run

---
 src/uberjob/_run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_run.py b/src/uberjob/_run.py
index 3b6418d..7845abf 100644
--- a/src/uberjob/_run.py
+++ b/src/uberjob/_run.py
@@ -27,6 +27,7 @@ from uberjob._transformations import get_mutable_plan
 from uberjob._transformations.caching import plan_with_value_stores
 from uberjob._transformations.pruning import prune_plan
 from uberjob._util.retry import create_retry
+from uberjob._util.traceback import get_stack_frame
 from uberjob._util.validation import assert_is_callable, assert_is_instance
 from uberjob.graph import Call, Node
 from uberjob.progress import (
@@ -141,7 +142,9 @@ def run(
 
     plan = get_mutable_plan(plan, inplace=False)
 
-    output_node = plan.gather(output) if output is not None else None
+    output_node = (
+        plan._gather(get_stack_frame(), output) if output is not None else None
+    )
     redirected_output_node = output_node
 
     progress = _coerce_progress(progress)
-- 
2.43.0


From d57c4d86c8f5911346561e184fe1a27f21937188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 06/12] fix: reject dependency cycles that consist of literals
 only

---
 src/uberjob/_transformations/pruning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_transformations/pruning.py b/src/uberjob/_transformations/pruning.py
index c4a20f5..3bf43ad 100644
--- a/src/uberjob/_transformations/pruning.py
+++ b/src/uberjob/_transformations/pruning.py
@@ -18,7 +18,7 @@ from collections.abc import Callable, Iterable
 
 from uberjob._plan import Plan
 from uberjob._transformations import get_mutable_plan
-from uberjob._util.networkx_util import all_ancestors, is_source_node
+from uberjob._util.networkx_util import all_ancestors, assert_acyclic, is_source_node
 from uberjob.graph import Dependency, Literal, Node
 
 
@@ -36,6 +36,7 @@ def prune_plan(
     required_nodes = all_ancestors(plan.graph, required_nodes)
     prune_nodes = set(plan.graph.nodes()) - required_nodes
     plan.graph.remove_nodes_from(prune_nodes)
+    assert_acyclic(plan.graph)  # Pruning the literals of a cycle would hide it.
 
     for literal in [
         u for u in plan.graph.nodes() if type(u) is Literal and u != output_node
-- 
2.43.0


From 135adb79129e1afe938e7822e77912ebb43137aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 07/12] fix: progress displays can render scopes whose values
 are not orderable

---
 src/uberjob/progress/_simple_progress_observer.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index 6f1820e..1ec129e 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -24,8 +24,20 @@ def _universal_sort_key(*args):
     return tuple((str(type(x)), x) for x in args)
 
 
+def _fallback_sort_key(*args):
+    return tuple((str(type(x)), str(x)) for x in args)
+
+
 def sorted_scope_items(scope_dict):
-    return sorted(scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0]))
+    try:
+        return sorted(
+            scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0])
+        )
+    except Exception:
+        # The values in a scope are not necessarily orderable.
+        return sorted(
+            scope_dict.items(), key=lambda pair: _fallback_sort_key(*pair[0])
+        )
 
 
 def get_scope_string(scope, *, add_zero_width_spaces=False):
-- 
2.43.0


From 9d24eb8df73fa03ba559dfe26eed0282a0886b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 08/12] fix: progress displays survive text that cannot be
 encoded

---
 src/uberjob/progress/_console_progress_observer.py | 6 +++++-
 src/uberjob/progress/_html_progress_observer.py    | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index b9ee3dc..ec4f259 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -109,4 +109,8 @@ class ConsoleProgressObserver(SimpleProgressObserver):
             return buffer.getvalue()
 
     def _output(self, value):
-        print(value, end="", flush=True)
+        try:
+            print(value, end="", flush=True)
+        except UnicodeEncodeError as e:
+            value = value.encode(e.encoding, "backslashreplace").decode(e.encoding)
+            print(value, end="", flush=True)
diff --git a/src/uberjob/progress/_html_progress_observer.py b/src/uberjob/progress/_html_progress_observer.py
index 6748bff..fc057cd 100644
--- a/src/uberjob/progress/_html_progress_observer.py
+++ b/src/uberjob/progress/_html_progress_observer.py
@@ -230,7 +230,9 @@ class HtmlProgressObserver(SimpleProgressObserver):
         self._output_fn = output
 
     def _render(self, state, new_exception_index, exception_tuples, elapsed):
-        return _render_html(state, exception_tuples, elapsed).encode()
+        return _render_html(state, exception_tuples, elapsed).encode(
+            errors="backslashreplace"
+        )
 
     def _output(self, value):
         self._output_fn(value)
-- 
2.43.0


From 44b838d0edffb3903b76fff7b0bbefd466f3a826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 09/12] fix: stop the workers when run is interrupted while
 starting them

---
 .../_execution/run_function_on_graph.py       | 45 +++++++------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/uberjob/_execution/run_function_on_graph.py b/src/uberjob/_execution/run_function_on_graph.py
index 153dc26..116ab96 100644
--- a/src/uberjob/_execution/run_function_on_graph.py
+++ b/src/uberjob/_execution/run_function_on_graph.py
@@ -16,7 +16,6 @@
 """Functionality for running a function on a graph in parallel in topological order using a thread pool"""
 import os
 import threading
-from contextlib import contextmanager
 from typing import NamedTuple
 
 from uberjob._errors import NodeError
@@ -44,16 +43,10 @@ def coerce_max_errors(max_errors):
     return max_errors
 
 
-def thread(fn):
-    t = threading.Thread(target=fn)
-    t.start()
-    return t
-
-
 DONE = object()
 
 
-def worker_thread(queue, process_item):
+def create_worker_thread(queue, process_item):
     def process_items():
         while True:
             item = queue.get()
@@ -64,19 +57,7 @@ def worker_thread(queue, process_item):
             finally:
                 queue.task_done()
 
-    return thread(process_items)
-
-
-@contextmanager
-def worker_pool(queue, process_item, worker_count):
-    workers = []
-    try:
-        for _ in range(worker_count):
-            workers.append(worker_thread(queue, process_item))
-        yield
-    finally:
-        for worker in workers:
-            worker.join()
+    return threading.Thread(target=process_items)
 
 
 class PreparedNodes(NamedTuple):
@@ -154,13 +135,21 @@ def run_function_on_graph(
                         if remaining_pred_count_mapping[successor] == 0:
                             queue.put(successor)
 
-    with worker_pool(queue, process_node, worker_count):
-        try:
-            queue.join()
-        finally:
-            stop = True
-            for _ in range(worker_count):
-                queue.put(DONE)
+    # An exception (such as KeyboardInterrupt) may interrupt not only the join but also the starting of the workers.
+    workers = []
+    try:
+        for _ in range(worker_count):
+            worker = create_worker_thread(queue, process_node)
+            workers.append(worker)
+            worker.start()
+        queue.join()
+    finally:
+        stop = True
+        for _ in range(worker_count):
+            queue.put(DONE)
+        for worker in workers:
+            if worker.is_alive():
+                worker.join()
 
     if first_node_error:
         raise first_node_error
-- 
2.43.0


From baf44ea5d3b8e5ed22b8f7309d33a9837c28c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 10/12] fix: a failing modified time query of a registered
 literal is reported as a CallError

---
 src/uberjob/_plan.py                    |  7 +++++--
 src/uberjob/_transformations/caching.py | 11 ++++++++++-
 src/uberjob/graph.py                    |  6 ++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index ade5ef3..a0f2da8 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -87,7 +87,10 @@ class Plan:
         """
         if isinstance(value, Node):
             raise TypeError(f"The value is already a {Node.__name__}.")
-        literal = Literal(value, scope=self._scope)
+        return self._lit(get_stack_frame(), value)
+
+    def _lit(self, stack_frame, value) -> Literal:
+        literal = Literal(value, scope=self._scope, stack_frame=stack_frame)
         self.graph.add_node(literal)
         return literal
 
@@ -118,7 +121,7 @@ class Plan:
             return root
 
         value = recurse(value)
-        return value if isinstance(value, Node) else self.lit(value)
+        return value if isinstance(value, Node) else self._lit(stack_frame, value)
 
     def gather(self, value) -> Node:
         """
diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index 2441be0..dd5554f 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -124,7 +124,16 @@ def _get_stale_nodes(
                 raise NodeError(node) from exception
             progress_observer.increment_completed(section="stale", scope=scope)
         else:
-            process(node)
+            try:
+                process(node)
+            except Exception as exception:
+                # There is no call to blame; the only thing that can fail is the modified time query.
+                call = Call(
+                    registry.get(node).__class__.get_modified_time,
+                    scope=node.scope,
+                    stack_frame=node.stack_frame,
+                )
+                raise NodeError(call) from exception
 
     run_function_on_graph(
         plan.graph, process_with_callbacks, worker_count=max_workers, scheduler="cheap"
diff --git a/src/uberjob/graph.py b/src/uberjob/graph.py
index 5577d72..836cf91 100644
--- a/src/uberjob/graph.py
+++ b/src/uberjob/graph.py
@@ -42,12 +42,14 @@ class Literal(Node):
     A symbolic literal value.
 
     :param value: The value of the literal.
+    :param stack_frame: The stack frame of the place where the literal was created.
     """
 
-    __slots__ = ("value",)
+    __slots__ = ("value", "stack_frame")
 
-    def __init__(self, value, *, scope=()):
+    def __init__(self, value, *, scope=(), stack_frame=None):
         self.value = value
+        self.stack_frame = stack_frame
         super().__init__(scope=scope)
 
     def __repr__(self):
-- 
2.43.0


From 99ee27e3a1475afba1a5233cbf96326a0a258672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 11/12] fix: a BaseException from the modified time query of a
 registered literal is reported as a CallError too

---
 src/uberjob/_transformations/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index dd5554f..68b6e71 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -126,7 +126,7 @@ def _get_stale_nodes(
         else:
             try:
                 process(node)
-            except Exception as exception:
+            except BaseException as exception:
                 # There is no call to blame; the only thing that can fail is the modified time query.
                 call = Call(
                     registry.get(node).__class__.get_modified_time,
-- 
2.43.0


From 8fe050bbfcfb9ca8ea22b7238dad11167d976eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:38 +0000
Subject: [PATCH 12/12] fix: do not keep the arguments of a failed call alive
 through its traceback

---
 src/uberjob/_execution/run_physical.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/uberjob/_execution/run_physical.py b/src/uberjob/_execution/run_physical.py
index 3294665..33f3f63 100644
--- a/src/uberjob/_execution/run_physical.py
+++ b/src/uberjob/_execution/run_physical.py
@@ -40,9 +40,14 @@ class BoundCall:
         self.result = result
 
     def run(self, fn, retry):
-        args = [arg.value for arg in self.args]
-        kwargs = {name: arg.value for name, arg in self.kwargs.items()}
-        self.result.value = retry(fn)(*args, **kwargs)
+        # The traceback of a failing fn keeps this frame alive; it must not keep the arguments alive in turn.
+        try:
+            self.result.value = retry(fn)(
+                *[arg.value for arg in self.args],
+                **{name: arg.value for name, arg in self.kwargs.items()},
+            )
+        finally:
+            self.args = self.kwargs = None
 
 
 def _create_bound_call(
-- 
2.43.0

