From 30a60ef8fbca4cf95f0332c20ecdc2ae34b7ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 01/18] fix: remove the staging file when the final rename
 fails

---
 src/uberjob/stores/_file_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uberjob/stores/_file_store.py b/src/uberjob/stores/_file_store.py
index 1d84783..90b000c 100644
--- a/src/uberjob/stores/_file_store.py
+++ b/src/uberjob/stores/_file_store.py
@@ -64,10 +64,10 @@ def staged_write_path(
         staging_path = pathlib.Path(staging_path)
     try:
         yield staging_path
+        os.replace(staging_path, path)
     except BaseException:
         _try_remove(staging_path)
         raise
-    os.replace(staging_path, path)
 
 
 @contextmanager
-- 
2.43.0


From bc7ca92161eb04c01041cf47cea0a64b65394489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 02/18] fix: TextFileStore reads back carriage returns as they
 were written

---
 src/uberjob/stores/_text_file_store.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/stores/_text_file_store.py b/src/uberjob/stores/_text_file_store.py
index 5ccec2a..45f9616 100644
--- a/src/uberjob/stores/_text_file_store.py
+++ b/src/uberjob/stores/_text_file_store.py
@@ -35,7 +35,7 @@ class TextFileStore(FileStore):
 
     def read(self) -> str:
         """Read the string value from the file."""
-        with open(self.path, encoding=self.encoding) as inputfile:
+        with open(self.path, encoding=self.encoding, newline="") as inputfile:
             return inputfile.read()
 
     def write(self, value: str) -> None:
@@ -44,7 +44,9 @@ class TextFileStore(FileStore):
 
         :param value: The value.
         """
-        with staged_write(self.path, encoding=self.encoding) as outputfile:
+        with staged_write(
+            self.path, encoding=self.encoding, newline=""
+        ) as outputfile:
             outputfile.write(value)
 
     def __repr__(self):
-- 
2.43.0


From 10cef649829207306be7285bd3ba31e7da458643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 03/18] fix: compare naive local and aware modified times as
 instants

---
 src/uberjob/_transformations/caching.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index c5b4110..4a860f3 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -39,11 +39,14 @@ Barrier = BarrierType()
 
 
 def _to_naive_utc_time(value: dt.datetime | None) -> dt.datetime | None:
-    return (
-        value.astimezone(dt.timezone.utc).replace(tzinfo=None)
-        if value and value.tzinfo
-        else value
-    )
+    if value is None:
+        return None
+    try:
+        # Naive values are local times.
+        return value.astimezone(dt.timezone.utc).replace(tzinfo=None)
+    except (OverflowError, ValueError):
+        # Too close to datetime.min or datetime.max to be shifted.
+        return value.replace(tzinfo=None)
 
 
 def _get_stale_scope(call: Call, registry: Registry) -> tuple:
-- 
2.43.0


From e1890c7fcd8cb96ed5d4c4adf30b28e9a5e3282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 04/18] fix: render progress when scope values cannot be
 ordered

---
 src/uberjob/progress/_simple_progress_observer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index 6f1820e..9725162 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -25,7 +25,12 @@ def _universal_sort_key(*args):
 
 
 def sorted_scope_items(scope_dict):
-    return sorted(scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0]))
+    items = scope_dict.items()
+    try:
+        return sorted(items, key=lambda pair: _universal_sort_key(*pair[0]))
+    except Exception:
+        # Scope values are not necessarily orderable.
+        return sorted(items, key=lambda pair: _universal_sort_key(*map(str, pair[0])))
 
 
 def get_scope_string(scope, *, add_zero_width_spaces=False):
-- 
2.43.0


From f9e95eb45c5374ffe5ec723267edafcf3115aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 05/18] fix: keep displaying progress when the output encoding
 cannot represent it

---
 src/uberjob/progress/_console_progress_observer.py | 8 +++++++-
 src/uberjob/progress/_html_progress_observer.py    | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index b9ee3dc..40c4790 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 #
 import datetime as dt
+import sys
 import textwrap
 import traceback
 from functools import partial
@@ -109,4 +110,9 @@ class ConsoleProgressObserver(SimpleProgressObserver):
             return buffer.getvalue()
 
     def _output(self, value):
-        print(value, end="", flush=True)
+        try:
+            print(value, end="", flush=True)
+        except UnicodeEncodeError:
+            encoding = sys.stdout.encoding
+            value = value.encode(encoding, errors="backslashreplace").decode(encoding)
+            print(value, end="", flush=True)
diff --git a/src/uberjob/progress/_html_progress_observer.py b/src/uberjob/progress/_html_progress_observer.py
index 6748bff..2a158f4 100644
--- a/src/uberjob/progress/_html_progress_observer.py
+++ b/src/uberjob/progress/_html_progress_observer.py
@@ -230,7 +230,9 @@ class HtmlProgressObserver(SimpleProgressObserver):
         self._output_fn = output
 
     def _render(self, state, new_exception_index, exception_tuples, elapsed):
-        return _render_html(state, exception_tuples, elapsed).encode()
+        return _render_html(state, exception_tuples, elapsed).encode(
+            errors="xmlcharrefreplace"
+        )
 
     def _output(self, value):
         self._output_fn(value)
-- 
2.43.0


From 953be6fbc58b7d60729557ae19a2eea502682837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 06/18] fix: attribute calls gathering the output to the line
 that called run

---
 src/uberjob/_run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_run.py b/src/uberjob/_run.py
index 3b6418d..7845abf 100644
--- a/src/uberjob/_run.py
+++ b/src/uberjob/_run.py
@@ -27,6 +27,7 @@ from uberjob._transformations import get_mutable_plan
 from uberjob._transformations.caching import plan_with_value_stores
 from uberjob._transformations.pruning import prune_plan
 from uberjob._util.retry import create_retry
+from uberjob._util.traceback import get_stack_frame
 from uberjob._util.validation import assert_is_callable, assert_is_instance
 from uberjob.graph import Call, Node
 from uberjob.progress import (
@@ -141,7 +142,9 @@ def run(
 
     plan = get_mutable_plan(plan, inplace=False)
 
-    output_node = plan.gather(output) if output is not None else None
+    output_node = (
+        plan._gather(get_stack_frame(), output) if output is not None else None
+    )
     redirected_output_node = output_node
 
     progress = _coerce_progress(progress)
-- 
2.43.0


From d6cc7493563eb7be6fdc2745e24e67310a6737de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:07 +0000
Subject: [PATCH 07/18] fix: accept keyword arguments named self, fn and
 stack_frame

---
 src/uberjob/_plan.py            | 2 +-
 src/uberjob/_util/validation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index dca52ac..ade5ef3 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -49,7 +49,7 @@ class Plan:
         self._scope = ()
         self._scope_lock = RLock()
 
-    def _call(self, stack_frame, fn: Callable, *args, **kwargs) -> Call:
+    def _call(self, stack_frame, fn: Callable, /, *args, **kwargs) -> Call:
         call = Call(fn, scope=self._scope, stack_frame=stack_frame)
         self.graph.add_node(call)
         for index, arg in enumerate(args):
diff --git a/src/uberjob/_util/validation.py b/src/uberjob/_util/validation.py
index baf40e1..2f4b8a9 100644
--- a/src/uberjob/_util/validation.py
+++ b/src/uberjob/_util/validation.py
@@ -64,7 +64,7 @@ def try_get_signature(fn: Callable):
         return None
 
 
-def assert_can_bind(fn: Callable, *args, **kwargs):
+def assert_can_bind(fn: Callable, /, *args, **kwargs):
     sig = try_get_signature(fn)
     if sig is None:
         return
-- 
2.43.0


From 227adf4866df77c796fdbb46ad47c8bb3054bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 08/18] fix: report cycles that consist of literals

---
 src/uberjob/_transformations/pruning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uberjob/_transformations/pruning.py b/src/uberjob/_transformations/pruning.py
index c4a20f5..5f1c809 100644
--- a/src/uberjob/_transformations/pruning.py
+++ b/src/uberjob/_transformations/pruning.py
@@ -60,6 +60,10 @@ def _prune_literal_if_trivial(plan: Plan, literal: Literal) -> None:
     predecessors = list(plan.graph.predecessors(literal))
     successors = list(plan.graph.successors(literal))
 
+    if literal in successors:
+        # Keep cycles so that they are reported.
+        return
+
     m = len(predecessors)
     n = len(successors)
 
-- 
2.43.0


From 2aaee85b1003414b76ecebd0033a2bb1b98b97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 09/18] fix: raise CallError when the modified time query of a
 literal fails

---
 src/uberjob/_plan.py                    |  7 +++++--
 src/uberjob/_transformations/caching.py | 15 ++++++++++++++-
 src/uberjob/graph.py                    |  6 ++++--
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index ade5ef3..8dca73e 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -85,9 +85,12 @@ class Plan:
         :param value: The literal value.
         :return: The symbolic literal value.
         """
+        return self._lit(get_stack_frame(), value)
+
+    def _lit(self, stack_frame, value) -> Literal:
         if isinstance(value, Node):
             raise TypeError(f"The value is already a {Node.__name__}.")
-        literal = Literal(value, scope=self._scope)
+        literal = Literal(value, scope=self._scope, stack_frame=stack_frame)
         self.graph.add_node(literal)
         return literal
 
@@ -118,7 +121,7 @@ class Plan:
             return root
 
         value = recurse(value)
-        return value if isinstance(value, Node) else self.lit(value)
+        return value if isinstance(value, Node) else self._lit(stack_frame, value)
 
     def gather(self, value) -> Node:
         """
diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index 4a860f3..dedf180 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -124,7 +124,20 @@ def _get_stale_nodes(
                 raise NodeError(node) from exception
             progress_observer.increment_completed(section="stale", scope=scope)
         else:
-            process(node)
+            try:
+                process(node)
+            except BaseException as exception:
+                # Drop internal frames
+                exception.__traceback__ = (
+                    exception.__traceback__.tb_next.tb_next.tb_next
+                )
+                # A literal is not a call, so report the modified time query.
+                call = Call(
+                    registry[node].__class__.get_modified_time,
+                    scope=node.scope,
+                    stack_frame=node.stack_frame,
+                )
+                raise NodeError(call) from exception
 
     run_function_on_graph(
         plan.graph, process_with_callbacks, worker_count=max_workers, scheduler="cheap"
diff --git a/src/uberjob/graph.py b/src/uberjob/graph.py
index 5577d72..423a5b4 100644
--- a/src/uberjob/graph.py
+++ b/src/uberjob/graph.py
@@ -42,12 +42,14 @@ class Literal(Node):
     A symbolic literal value.
 
     :param value: The value of the literal.
+    :param stack_frame: The stack frame of the site that created the literal.
     """
 
-    __slots__ = ("value",)
+    __slots__ = ("value", "stack_frame")
 
-    def __init__(self, value, *, scope=()):
+    def __init__(self, value, *, scope=(), stack_frame=None):
         self.value = value
+        self.stack_frame = stack_frame
         super().__init__(scope=scope)
 
     def __repr__(self):
-- 
2.43.0


From 1afe319ba72b0cb88c3038742415b395129a3360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 10/18] fix: release and join the workers when starting them
 fails or is interrupted

---
 .../_execution/run_function_on_graph.py       | 44 +++++++++----------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/uberjob/_execution/run_function_on_graph.py b/src/uberjob/_execution/run_function_on_graph.py
index 153dc26..268d15f 100644
--- a/src/uberjob/_execution/run_function_on_graph.py
+++ b/src/uberjob/_execution/run_function_on_graph.py
@@ -16,7 +16,6 @@
 """Functionality for running a function on a graph in parallel in topological order using a thread pool"""
 import os
 import threading
-from contextlib import contextmanager
 from typing import NamedTuple
 
 from uberjob._errors import NodeError
@@ -44,12 +43,6 @@ def coerce_max_errors(max_errors):
     return max_errors
 
 
-def thread(fn):
-    t = threading.Thread(target=fn)
-    t.start()
-    return t
-
-
 DONE = object()
 
 
@@ -64,19 +57,15 @@ def worker_thread(queue, process_item):
             finally:
                 queue.task_done()
 
-    return thread(process_items)
+    return threading.Thread(target=process_items)
 
 
-@contextmanager
-def worker_pool(queue, process_item, worker_count):
-    workers = []
+def join_worker(worker):
     try:
-        for _ in range(worker_count):
-            workers.append(worker_thread(queue, process_item))
-        yield
-    finally:
-        for worker in workers:
-            worker.join()
+        worker.join()
+    except RuntimeError:
+        # The worker was not started.
+        pass
 
 
 class PreparedNodes(NamedTuple):
@@ -154,13 +143,22 @@ def run_function_on_graph(
                         if remaining_pred_count_mapping[successor] == 0:
                             queue.put(successor)
 
-    with worker_pool(queue, process_node, worker_count):
-        try:
-            queue.join()
-        finally:
-            stop = True
+    workers = []
+    try:
+        # No worker can get an item until all workers are started.
+        with queue.mutex:
             for _ in range(worker_count):
-                queue.put(DONE)
+                worker = worker_thread(queue, process_node)
+                workers.append(worker)
+                worker.start()
+        queue.join()
+    finally:
+        # Starting the workers can fail or be interrupted as well.
+        stop = True
+        for _ in workers:
+            queue.put(DONE)
+        for worker in workers:
+            join_worker(worker)
 
     if first_node_error:
         raise first_node_error
-- 
2.43.0


From ce5934bd5822a666d2ebb69ca899ff4e8bb7f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 11/18] fix: use observers, progress and decorators whose truth
 value is false

---
 src/uberjob/_execution/run_physical.py | 6 ++++--
 src/uberjob/_run.py                    | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/uberjob/_execution/run_physical.py b/src/uberjob/_execution/run_physical.py
index 3294665..8fd25ba 100644
--- a/src/uberjob/_execution/run_physical.py
+++ b/src/uberjob/_execution/run_physical.py
@@ -90,8 +90,10 @@ def prep_run_physical(
         plan, output_node
     )
     plan = prune_source_literals(plan, inplace=inplace)
-    retry = retry or identity
-    progress_observer = progress_observer or NullProgressObserver()
+    if retry is None:
+        retry = identity
+    if progress_observer is None:
+        progress_observer = NullProgressObserver()
 
     def process(node):
         if type(node) is Call:
diff --git a/src/uberjob/_run.py b/src/uberjob/_run.py
index 7845abf..3c1dfdd 100644
--- a/src/uberjob/_run.py
+++ b/src/uberjob/_run.py
@@ -48,7 +48,7 @@ def _update_run_totals(plan: Plan, progress_observer: ProgressObserver) -> None:
 
 
 def _coerce_progress(progress: None | bool | Progress | Iterable[Progress]) -> Progress:
-    if not progress:
+    if not progress and not isinstance(progress, Progress):
         return null_progress
     try:
         progress = tuple(progress)
@@ -170,7 +170,7 @@ def run(
                     plan, required_nodes=[], output_node=output_node, inplace=True
                 )
 
-            if transform_physical:
+            if transform_physical is not None:
                 plan, redirected_output_node = transform_physical(
                     plan, redirected_output_node
                 )
-- 
2.43.0


From a7debbf209c9f441b72002ec0599740c8ebf6302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:33 +0000
Subject: [PATCH 12/18] fix: accept callables that are not hashable or equal to
 callables of another type

---
 src/uberjob/_util/__init__.py   |  2 --
 src/uberjob/_util/validation.py | 14 ++++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/uberjob/_util/__init__.py b/src/uberjob/_util/__init__.py
index c432564..de94974 100644
--- a/src/uberjob/_util/__init__.py
+++ b/src/uberjob/_util/__init__.py
@@ -13,7 +13,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 #
-from functools import lru_cache
 from reprlib import Repr
 
 
@@ -87,7 +86,6 @@ def repr_helper(instance, *args, defaults=None, **kwargs):
     )
 
 
-@lru_cache(4096)
 def fully_qualified_name(x):
     qualname = getattr(x, "__qualname__", None)
     if not qualname:
diff --git a/src/uberjob/_util/validation.py b/src/uberjob/_util/validation.py
index 2f4b8a9..b91bd76 100644
--- a/src/uberjob/_util/validation.py
+++ b/src/uberjob/_util/validation.py
@@ -56,14 +56,24 @@ def assert_is_instance(
         )
 
 
-@lru_cache(4096)
-def try_get_signature(fn: Callable):
+def _get_signature(fn: Callable):
     try:
         return inspect.signature(fn)
     except ValueError:
         return None
 
 
+# Callables of different types can be equal, and have different signatures.
+_get_cached_signature = lru_cache(4096, typed=True)(_get_signature)
+
+
+def try_get_signature(fn: Callable):
+    try:
+        return _get_cached_signature(fn)
+    except TypeError:  # fn is not hashable
+        return _get_signature(fn)
+
+
 def assert_can_bind(fn: Callable, /, *args, **kwargs):
     sig = try_get_signature(fn)
     if sig is None:
-- 
2.43.0


From 27244523a7e909dd025c0074533740c1577366e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:06 +0000
Subject: [PATCH 13/18] fix: report exceptions whose attributes cannot be
 assigned

---
 src/uberjob/_execution/run_physical.py  | 2 +-
 src/uberjob/_transformations/caching.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uberjob/_execution/run_physical.py b/src/uberjob/_execution/run_physical.py
index 8fd25ba..421703c 100644
--- a/src/uberjob/_execution/run_physical.py
+++ b/src/uberjob/_execution/run_physical.py
@@ -104,7 +104,7 @@ def prep_run_physical(
                 bound_call.value.run(node.fn, retry)
             except Exception as exception:
                 # Drop internal frames
-                exception.__traceback__ = exception.__traceback__.tb_next.tb_next
+                exception.with_traceback(exception.__traceback__.tb_next.tb_next)
                 progress_observer.increment_failed(
                     section="run",
                     scope=scope,
diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index dedf180..49bdcb3 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -113,7 +113,7 @@ def _get_stale_nodes(
                 process(node)
             except Exception as exception:
                 # Drop internal frames
-                exception.__traceback__ = (
+                exception.with_traceback(
                     exception.__traceback__.tb_next.tb_next.tb_next
                 )
                 progress_observer.increment_failed(
@@ -128,7 +128,7 @@ def _get_stale_nodes(
                 process(node)
             except BaseException as exception:
                 # Drop internal frames
-                exception.__traceback__ = (
+                exception.with_traceback(
                     exception.__traceback__.tb_next.tb_next.tb_next
                 )
                 # A literal is not a call, so report the modified time query.
-- 
2.43.0


From 739d28727cee70b41dbdce47a226e100aa4e3e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:37 +0000
Subject: [PATCH 14/18] fix: report errors of calls and scopes that cannot be
 represented

---
 src/uberjob/_util/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/uberjob/_util/__init__.py b/src/uberjob/_util/__init__.py
index de94974..0e94e9c 100644
--- a/src/uberjob/_util/__init__.py
+++ b/src/uberjob/_util/__init__.py
@@ -29,10 +29,17 @@ def is_ipython():
         return False
 
 
-compact_repr = Repr()
-compact_repr.maxstring = 80
-compact_repr.maxother = 80
-compact_repr = compact_repr.repr
+_compact_repr = Repr()
+_compact_repr.maxstring = 80
+_compact_repr.maxother = 80
+
+
+def compact_repr(x):
+    try:
+        return _compact_repr.repr(x)
+    except Exception:
+        # Bugs in __repr__ must not hide the error that is being reported.
+        return object.__repr__(x)
 
 
 class OmittedType:
-- 
2.43.0


From f027f5f84c8af3afb38f888b3c1a9ac9e2b81422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:37 +0000
Subject: [PATCH 15/18] fix: ignore names of callables that are not strings

---
 src/uberjob/_util/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/_util/__init__.py b/src/uberjob/_util/__init__.py
index 0e94e9c..b4c86b8 100644
--- a/src/uberjob/_util/__init__.py
+++ b/src/uberjob/_util/__init__.py
@@ -95,13 +95,15 @@ def repr_helper(instance, *args, defaults=None, **kwargs):
 
 def fully_qualified_name(x):
     qualname = getattr(x, "__qualname__", None)
-    if not qualname:
+    if not isinstance(qualname, str) or not qualname:
+        # Objects can have attributes of any name.
         if callable(x):
             return fully_qualified_name(x.__class__)
         return str(x)
     module = getattr(x, "__module__", None)
     if (
-        not module
+        not isinstance(module, str)
+        or not module
         or module.endswith("builtins")
         or module == "__main__"
         or module == "_operator"
-- 
2.43.0


From 34382f291907585ba3b38a42901bc6561ebb02ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 16/18] fix: render scope values that cannot be converted to
 strings

---
 src/uberjob/progress/_simple_progress_observer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index 9725162..302618f 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -30,11 +30,20 @@ def sorted_scope_items(scope_dict):
         return sorted(items, key=lambda pair: _universal_sort_key(*pair[0]))
     except Exception:
         # Scope values are not necessarily orderable.
-        return sorted(items, key=lambda pair: _universal_sort_key(*map(str, pair[0])))
+        return sorted(
+            items, key=lambda pair: _universal_sort_key(*map(_get_string, pair[0]))
+        )
+
+
+def _get_string(value):
+    try:
+        return str(value)
+    except Exception:
+        return object.__repr__(value)
 
 
 def get_scope_string(scope, *, add_zero_width_spaces=False):
-    scope_string = ", ".join(str(value) for value in scope)
+    scope_string = ", ".join(_get_string(value) for value in scope)
     if add_zero_width_spaces:
         scope_string = scope_string.replace(".", "\u200B.")
     return scope_string
-- 
2.43.0


From 39b4d813be0c0dece829780007c2a615f261821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 17/18] fix: render exceptions that cannot be formatted

---
 src/uberjob/progress/_console_progress_observer.py |  4 ++--
 src/uberjob/progress/_html_progress_observer.py    |  4 ++--
 src/uberjob/progress/_ipython_progress_observer.py |  4 ++--
 src/uberjob/progress/_simple_progress_observer.py  | 10 ++++++++++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index 40c4790..d9e4511 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -16,13 +16,13 @@
 import datetime as dt
 import sys
 import textwrap
-import traceback
 from functools import partial
 from io import StringIO
 
 from uberjob.progress._simple_progress_observer import (
     SimpleProgressObserver,
     get_elapsed_string,
+    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -70,7 +70,7 @@ def _print_new_exceptions(print_, new_exception_index, exception_tuples):
             )
             print_(
                 textwrap.indent(
-                    "".join(traceback.format_exception(*exception_tuple)),
+                    get_exception_string(exception_tuple),
                     prefix=" " * 4,
                 )
             )
diff --git a/src/uberjob/progress/_html_progress_observer.py b/src/uberjob/progress/_html_progress_observer.py
index 2a158f4..d0c45da 100644
--- a/src/uberjob/progress/_html_progress_observer.py
+++ b/src/uberjob/progress/_html_progress_observer.py
@@ -15,7 +15,6 @@
 #
 import datetime as dt
 import pathlib
-import traceback
 from collections.abc import Callable
 from html import escape
 
@@ -23,6 +22,7 @@ from uberjob.progress._simple_progress_observer import (
     ScopeState,
     SimpleProgressObserver,
     get_elapsed_string,
+    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -186,7 +186,7 @@ def _render_exception_tuples(exception_tuples):
 def _render_exception_tuple(i, scope, exception_tuple):
     show = "show" if i == 0 else ""
     collapsed = "collapsed" if i != 0 else ""
-    exception_tuple_str = "".join(traceback.format_exception(*exception_tuple))
+    exception_tuple_str = get_exception_string(exception_tuple)
     return f"""
         <div class="accordion-item">
           <h2 class="accordion-header" id="heading{i}">
diff --git a/src/uberjob/progress/_ipython_progress_observer.py b/src/uberjob/progress/_ipython_progress_observer.py
index 0fa4870..5242f52 100644
--- a/src/uberjob/progress/_ipython_progress_observer.py
+++ b/src/uberjob/progress/_ipython_progress_observer.py
@@ -15,11 +15,11 @@
 #
 import datetime as dt
 import html
-import traceback
 
 from uberjob.progress._simple_progress_observer import (
     SimpleProgressObserver,
     get_elapsed_string,
+    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -133,7 +133,7 @@ class IPythonProgressObserver(SimpleProgressObserver):
             exception_text_widget = self._get("exception_text", i, default=widgets.HTML)
             exception_text_widget.value = (
                 '<pre style="line-height: 120%">{}</pre>'.format(
-                    html.escape("".join(traceback.format_exception(*exception_tuple)))
+                    html.escape(get_exception_string(exception_tuple))
                 )
             )
             exception_text_widgets.append(exception_text_widget)
diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index 302618f..c830e05 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -15,6 +15,7 @@
 #
 import threading
 import time
+import traceback
 from abc import ABC, abstractmethod
 
 from uberjob.progress._progress_observer import ProgressObserver
@@ -49,6 +50,15 @@ def get_scope_string(scope, *, add_zero_width_spaces=False):
     return scope_string
 
 
+def get_exception_string(exception_tuple):
+    try:
+        return "".join(traceback.format_exception(*exception_tuple))
+    except Exception:
+        # Formatting an exception can run code of the objects involved.
+        exc_type, exc_value, _ = exception_tuple
+        return f"{exc_type.__name__}: {_get_string(exc_value)}\n"
+
+
 def _get_progress_string(*, completed, failed, running, total):
     all_done = completed + failed == total
     started = completed + failed + running > 0
-- 
2.43.0


From 4917503e05e5f895fde1a11c73e7a378f1f394e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 18/18] fix: retry callables whose names are not strings

---
 src/uberjob/_util/retry.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/uberjob/_util/retry.py b/src/uberjob/_util/retry.py
index ade1cf2..ea5e7a9 100644
--- a/src/uberjob/_util/retry.py
+++ b/src/uberjob/_util/retry.py
@@ -13,8 +13,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 #
-from functools import wraps
-
 from uberjob._util.validation import assert_is_instance
 
 
@@ -31,7 +29,6 @@ def create_retry(attempts, exc_type=Exception):
         return identity
 
     def inner_retry(f):
-        @wraps(f)
         def wrapper(*args, **kwargs):
             for attempt_index in range(attempts):
                 try:
-- 
2.43.0

