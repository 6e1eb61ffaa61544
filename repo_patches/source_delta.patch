From aaa196fe3efd5d513766963bcecbd8bba5a952db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:47 +0000
Subject: [PATCH 01/49] fix: refresh notifier data of a table whose columns
 changed individually

---
 malcolm/core/notifier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index b3499ff..97040bf 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -180,6 +180,11 @@ class NotifierNode:
             # This is for one of our children
             name = path[0]
             if name in self.children:
+                if len(path) > 1:
+                    # Something within our child changed, if it isn't a Model
+                    # that is modified in place (e.g. a Table) then it will
+                    # have been replaced, so make sure it has the current data
+                    self.children[name].data = getattr(self.data, name, None)
                 if len(change) == 2:
                     child_change = [path[1:], change[1]]
                 else:
-- 
2.43.0


From b0e404dfb1cec501da1e17e99456c65e9187ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:50 +0000
Subject: [PATCH 02/49] fix: deliver the current value to subscribers of paths
 inside a dict of models

---
 malcolm/core/notifier.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index 97040bf..af8f210 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -46,6 +46,15 @@ def freeze(o):
     return o
 
 
+def get_child(o, name):
+    # Models (and Tables) have attributes, but they might be held in a dict, like
+    # the elements of a TableMeta
+    if isinstance(o, dict):
+        return o.get(name, None)
+    else:
+        return getattr(o, name, None)
+
+
 class Notifier(Loggable):
     """Object that can service callbacks on given endpoints"""
 
@@ -184,7 +193,7 @@ class NotifierNode:
                     # Something within our child changed, if it isn't a Model
                     # that is modified in place (e.g. a Table) then it will
                     # have been replaced, so make sure it has the current data
-                    self.children[name].data = getattr(self.data, name, None)
+                    self.children[name].data = get_child(self.data, name)
                 if len(change) == 2:
                     child_change = [path[1:], change[1]]
                 else:
@@ -213,7 +222,7 @@ class NotifierNode:
         child_change_dict: Dict[str, List] = {}
         # Reflect change of data to children
         for name in self.children:
-            child_data = getattr(data, name, None)
+            child_data = get_child(data, name)
             if child_data is None:
                 # Deletion
                 child_change_dict[name] = [[]]
@@ -240,7 +249,7 @@ class NotifierNode:
             # Recurse down
             name = path[0]
             if name not in self.children:
-                self.children[name] = NotifierNode(getattr(self.data, name, None), self)
+                self.children[name] = NotifierNode(get_child(self.data, name), self)
             ret += self.children[name].handle_subscribe(request, path[1:])
         else:
             # This is for us
-- 
2.43.0


From a8c726320a953d1dfee6c2cd6e293dc6fad4fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:38 +0000
Subject: [PATCH 03/49] fix: do not skip futures when filtering the ones a
 nested wait concluded

Removing from the list being iterated skipped the entry after each
concluded future, so if two neighbours were concluded inside a
subscription callback the outer wait hung forever.
---
 malcolm/core/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index 8821c77..73aa348 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -399,7 +399,7 @@ class Context:
             # some futures that aren't known to it. This means that some of
             # our futures list are now concluded, so filter them out. If we
             # didn't do this we would hang forever
-            for future in futures:
+            for future in list(futures):
                 if future not in self._requests:
                     futures.remove(future)
         elif isinstance(response, Return):
-- 
2.43.0


From 4ae9dee723eb89b8b5d64367977ad2935af5b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:38 +0000
Subject: [PATCH 04/49] fix: raise the error of a future that a nested wait
 concluded

An Error response consumed by a wait inside a subscription callback was
only stored in its future, so the outer wait on that future returned as
if the operation had succeeded.
---
 malcolm/core/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index 73aa348..35d49ba 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -402,6 +402,9 @@ class Context:
             for future in list(futures):
                 if future not in self._requests:
                     futures.remove(future)
+                    exception = future.exception()
+                    if exception is not None:
+                        raise exception
         elif isinstance(response, Return):
             future = self._futures.pop(response.id)
             del self._requests[future]
-- 
2.43.0


From 9c66d94716e6b310d074b26264f10092e90a8cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:20 +0000
Subject: [PATCH 05/49] fix: handle an exported field being replaced or removed
 in the child

The delta for the export is then for the whole field ([] path), which
apply_change() cannot process, so the child got an AssertionError while
changing its own fields (e.g. a child manager saving its design).
---
 .../modules/builtin/controllers/managercontroller.py  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 6204648..94c3a31 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -377,11 +377,18 @@ class ManagerController(StatefulController):
                 # Regenerate label
                 export.meta.set_label(label)
                 ret["export"] = export
-            else:
+            elif subscription in self._subscriptions:
                 # Subsequent calls, update it
                 with self.changes_squashed:
                     for change in response.changes:
-                        ret["export"].apply_change(*change)
+                        if change[0]:
+                            ret["export"].apply_change(*change)
+                        elif len(change) == 2:
+                            # The whole field was replaced, so export it again
+                            self.update_block_endpoints()
+                            break
+                        # If the field was deleted then update_exportable will
+                        # be called to remove the export
 
         subscription = Subscribe(path=path, delta=True)
         subscription.set_callback(update_field)
-- 
2.43.0


From ec5918df0aa365a2a476d9900db8ade7eb97c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:42 +0000
Subject: [PATCH 06/49] fix: fields added to a stateful block get the writeable
 flag of its state

A part or exported field (re)added while the block was Disabled was
writeable until the next state transition.
---
 .../builtin/controllers/statefulcontroller.py | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/statefulcontroller.py b/malcolm/modules/builtin/controllers/statefulcontroller.py
index 4d48387..04755b7 100644
--- a/malcolm/modules/builtin/controllers/statefulcontroller.py
+++ b/malcolm/modules/builtin/controllers/statefulcontroller.py
@@ -172,18 +172,14 @@ class StatefulController(BasicController):
         # If we don't have a writeable func it can never be writeable
         if writeable_func is None:
             return
-        # If we have already registered an explicit set then we are done
-        for state in self.state_set.possible_states:
-            state_writeable = self._children_writeable.get(state, {})
-            if child in state_writeable:
-                return
-        # Field is writeable but has not defined when it should be
-        # writeable, so calculate it from the possible states
-        states = [
-            state
-            for state in self.state_set.possible_states
-            if state not in (ss.DISABLING, ss.DISABLED)
-        ]
-        for state in self.state_set.possible_states:
-            state_writeable = self._children_writeable.setdefault(state, {})
-            state_writeable[child] = state in states
+        # If we haven't already registered an explicit set of states then
+        # calculate it from the possible states
+        if child not in self._children_writeable.get(self.state.value, {}):
+            states = [
+                state
+                for state in self.state_set.possible_states
+                if state not in (ss.DISABLING, ss.DISABLED)
+            ]
+            self.set_writeable_in(child, *states)
+        # Make it writeable only if it should be in our current state
+        child.meta.set_writeable(self._children_writeable[self.state.value][child])
-- 
2.43.0


From f30b23617e9b36590dcbe756d0a312627a725c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:15 +0000
Subject: [PATCH 07/49] fix: give notifier subscribers the data as it is after
 all of the changes

---
 malcolm/core/notifier.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index af8f210..f6cf67e 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -180,7 +180,12 @@ class NotifierNode:
 
         # Now notify our children
         for name, changes in child_changes.items():
-            ret += self.children[name].notify_changes(changes)
+            child = self.children[name]
+            # If it isn't a Model that is modified in place (e.g. a Table) then
+            # it might have been replaced, so make sure it has the data as it is
+            # after all of the changes
+            child.data = get_child(self.data, name)
+            ret += child.notify_changes(changes)
         return ret
 
     def _add_child_change(self, change: List, child_changes: Dict[str, List]) -> None:
@@ -189,11 +194,6 @@ class NotifierNode:
             # This is for one of our children
             name = path[0]
             if name in self.children:
-                if len(path) > 1:
-                    # Something within our child changed, if it isn't a Model
-                    # that is modified in place (e.g. a Table) then it will
-                    # have been replaced, so make sure it has the current data
-                    self.children[name].data = get_child(self.data, name)
                 if len(change) == 2:
                     child_change = [path[1:], change[1]]
                 else:
@@ -218,7 +218,9 @@ class NotifierNode:
             dict: {child_name: [path_list, optional child_data]} of the change
                 that needs to be passed to a child as a result of this
         """
-        self.data = data
+        if self.parent is None:
+            # Otherwise our parent has already given us the current data
+            self.data = data
         child_change_dict: Dict[str, List] = {}
         # Reflect change of data to children
         for name in self.children:
-- 
2.43.0


From e35546c3e97b73ff518e5db870292d2bb5d6bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:43 +0000
Subject: [PATCH 08/49] fix: work out the state to end a resumed run in from
 the steps it was resumed with

---
 .../modules/scanning/controllers/runnablecontroller.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 9ec3086..0e0725e 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -526,15 +526,17 @@ class RunnableController(builtin.controllers.ManagerController):
         Disabled state.
         """
 
-        if self.configured_steps.value < self.total_steps.value:
-            next_state = ss.ARMED
-        else:
-            next_state = ss.FINISHED
         try:
             self.transition(ss.RUNNING)
             hook = RunHook
             going = True
             while going:
+                # If we have been resumed then a different number of steps might
+                # have been configured by the pause
+                if self.configured_steps.value < self.total_steps.value:
+                    next_state = ss.ARMED
+                else:
+                    next_state = ss.FINISHED
                 try:
                     self.do_run(hook)
                     self.abortable_transition(next_state)
-- 
2.43.0


From e2193e751dbf9d041212bdd659423cb00707e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:25 +0000
Subject: [PATCH 09/49] fix: do not lose an abort, pause or disable that
 arrives between two hooks

---
 .../controllers/runnablecontroller.py         | 51 +++++++++++++------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 0e0725e..a8f721b 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -9,6 +9,8 @@ from malcolm.core import (
     AbortedError,
     AMri,
     Context,
+    Hook,
+    Info,
     NumberMeta,
     Part,
     Queue,
@@ -415,15 +417,28 @@ class RunnableController(builtin.controllers.ManagerController):
                 return params
         raise ValueError("Could not get a consistent set of parameters")
 
+    def check_not_aborted(self):
+        # We might have been aborted just now, so this will fail
+        # with an AbortedError if we were. Called with the lock taken
+        self_ctx = self.part_contexts.get(self, None)
+        if self_ctx:
+            self_ctx.sleep(0)
+
     def abortable_transition(self, state):
         with self._lock:
-            # We might have been aborted just now, so this will fail
-            # with an AbortedError if we were
-            self_ctx = self.part_contexts.get(self, None)
-            if self_ctx:
-                self_ctx.sleep(0)
+            self.check_not_aborted()
             self.transition(state)
 
+    def run_abortable_hooks(self, hooks: Iterable[Hook]) -> Dict[str, List[Info]]:
+        """Run hooks on self.part_contexts, failing with an AbortedError if we
+        were aborted since the last ones"""
+        with self._lock:
+            # The hooks will ignore any stops from before they are started, so
+            # don't let one in between the check and the start
+            self.check_not_aborted()
+            started = self.start_hooks(hooks)
+        return self.wait_hooks(*started)
+
     # This will be serialized, so maintain camelCase for axesToMove
     # noinspection PyPep8Naming
     @add_call_types
@@ -478,7 +493,9 @@ class RunnableController(builtin.controllers.ManagerController):
         # Store the params for use in seek()
         self.configure_params = params
         # Tell everything to get into the right state to Configure
-        self.run_hooks(PreConfigureHook(p, c) for p, c in self.part_contexts.items())
+        self.run_abortable_hooks(
+            PreConfigureHook(p, c) for p, c in self.part_contexts.items()
+        )
         # This will calculate what we need from the generator, possibly a long
         # call
         params.generator.prepare()
@@ -492,7 +509,7 @@ class RunnableController(builtin.controllers.ManagerController):
             params.generator, params.axesToMove, params.breakpoints
         )
         # Get any status from all parts
-        part_info = self.run_hooks(
+        part_info = self.run_abortable_hooks(
             ReportStatusHook(p, c) for p, c in self.part_contexts.items()
         )
         # Run the configure command on all parts, passing them info from
@@ -500,12 +517,12 @@ class RunnableController(builtin.controllers.ManagerController):
         completed_steps = 0
         self.breakpoint_index = 0
         steps_to_do = self.steps_per_run[self.breakpoint_index]
-        part_info = self.run_hooks(
+        part_info = self.run_abortable_hooks(
             ConfigureHook(p, c, completed_steps, steps_to_do, part_info, **kw)
             for p, c, kw in self._part_params()
         )
         # Take configuration info and reflect it as attribute updates
-        self.run_hooks(
+        self.run_abortable_hooks(
             PostConfigureHook(p, c, part_info) for p, c in self.part_contexts.items()
         )
         # Update the completed and configured steps
@@ -564,20 +581,22 @@ class RunnableController(builtin.controllers.ManagerController):
         # type: (Type[ControllerHook]) -> None
 
         # Run all PreRunHooks
-        self.run_hooks(PreRunHook(p, c) for p, c in self.part_contexts.items())
+        self.run_abortable_hooks(
+            PreRunHook(p, c) for p, c in self.part_contexts.items()
+        )
 
-        self.run_hooks(hook(p, c) for p, c in self.part_contexts.items())
+        self.run_abortable_hooks(hook(p, c) for p, c in self.part_contexts.items())
         self.abortable_transition(ss.POSTRUN)
         completed_steps = self.configured_steps.value
         if completed_steps < self.total_steps.value:
             if self.use_breakpoints:
                 self.breakpoint_index += 1
             steps_to_do = self.steps_per_run[self.breakpoint_index]
-            part_info = self.run_hooks(
+            part_info = self.run_abortable_hooks(
                 ReportStatusHook(p, c) for p, c in self.part_contexts.items()
             )
             self.completed_steps.set_value(completed_steps)
-            self.run_hooks(
+            self.run_abortable_hooks(
                 PostRunArmedHook(
                     p, c, completed_steps, steps_to_do, part_info, **kwargs
                 )
@@ -586,7 +605,7 @@ class RunnableController(builtin.controllers.ManagerController):
             self.configured_steps.set_value(completed_steps + steps_to_do)
         else:
             self.completed_steps.set_value(completed_steps)
-            self.run_hooks(
+            self.run_abortable_hooks(
                 PostRunReadyHook(p, c) for p, c in self.part_contexts.items()
             )
 
@@ -712,11 +731,11 @@ class RunnableController(builtin.controllers.ManagerController):
             in_run_steps = completed_steps % self.steps_per_run[self.breakpoint_index]
             steps_to_do = self.steps_per_run[self.breakpoint_index] - in_run_steps
 
-        part_info = self.run_hooks(
+        part_info = self.run_abortable_hooks(
             ReportStatusHook(p, c) for p, c in self.part_contexts.items()
         )
         self.completed_steps.set_value(completed_steps)
-        self.run_hooks(
+        self.run_abortable_hooks(
             SeekHook(p, c, completed_steps, steps_to_do, part_info, **kwargs)
             for p, c, kwargs in self._part_params()
         )
-- 
2.43.0


From d011c0b021af2f342d6e397188d818582e593bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:06 +0000
Subject: [PATCH 10/49] fix: do not leave a pause waiting when it is overtaken
 by an abort

---
 .../scanning/controllers/runnablecontroller.py        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index a8f721b..e745bfd 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -645,17 +645,24 @@ class RunnableController(builtin.controllers.ManagerController):
             # AbortedError. Both of these are accomplished here
             with self._lock:
                 original_state = self.state.value
-                self.abort_queue = Queue()
                 self.transition(start_state)
+                abort_queue = Queue()
+                overtaken_queue, self.abort_queue = self.abort_queue, abort_queue
                 for context in self.part_contexts.values():
                     context.stop()
             if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):
                 # Something was running, let it finish aborting
                 try:
-                    self.abort_queue.get(timeout=DEFAULT_TIMEOUT)
+                    abort_queue.get(timeout=DEFAULT_TIMEOUT)
                 except TimeoutError:
                     self.log.warning("Timeout waiting while {start_state}")
+                if overtaken_queue:
+                    # Someone else might have been waiting for the same thing
+                    overtaken_queue.put(None)
             with self._lock:
+                if self.abort_queue is not abort_queue:
+                    # Someone else aborted while we were waiting
+                    raise AbortedError(f"Aborted while {start_state}")
                 # Now we've waited for a while we can remove the error state
                 # for transition in case a hook triggered it rather than a
                 # transition
-- 
2.43.0


From ec8d2fa88f2aa98d8d8efe7fc606e483b4affbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:48 +0000
Subject: [PATCH 11/49] fix: release calls waiting for an abort when disabled

---
 .../modules/scanning/controllers/runnablecontroller.py   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index e745bfd..26a9888 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -772,8 +772,13 @@ class RunnableController(builtin.controllers.ManagerController):
 
     def do_disable(self) -> None:
         # Abort anything that is currently running, but don't wait
-        for context in self.part_contexts.values():
-            context.stop()
+        with self._lock:
+            overtaken_queue, self.abort_queue = self.abort_queue, Queue()
+            for context in self.part_contexts.values():
+                context.stop()
+        if overtaken_queue:
+            # Someone might have been waiting for the same thing
+            overtaken_queue.put(None)
         if self.resume_queue:
             self.resume_queue.put(False)
         super().do_disable()
-- 
2.43.0


From a07f9daeef040e666547b714f936df5e1d29e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:29 +0000
Subject: [PATCH 12/49] fix: allow abort while resetting before configuring a
 finished scan

---
 .../scanning/controllers/runnablecontroller.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 26a9888..0de6c2e 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -476,20 +476,20 @@ class RunnableController(builtin.controllers.ManagerController):
             return params
 
     def do_configure(self, state: str, params: ConfigureParams) -> None:
-        if state == ss.FINISHED:
-            # If we were finished then do a reset before configuring
-            self.run_hooks(
-                builtin.hooks.ResetHook(p, c)
-                for p, c in self.create_part_contexts().items()
-            )
-        # Clear out any old part contexts now rather than letting gc do it
-        for context in self.part_contexts.values():
-            context.unsubscribe_all()
+        old_contexts = self.part_contexts
         # These are the part tasks that abort() and pause() will operate on
         self.part_contexts = self.create_part_contexts()
         # So add one for ourself too so we can be aborted
         assert self.process, "No attached process"
         self.part_contexts[self] = Context(self.process)
+        # Clear out any old part contexts now rather than letting gc do it
+        for context in old_contexts.values():
+            context.unsubscribe_all()
+        if state == ss.FINISHED:
+            # If we were finished then do a reset before configuring
+            self.run_abortable_hooks(
+                builtin.hooks.ResetHook(p, c) for p, c in self.part_contexts.items()
+            )
         # Store the params for use in seek()
         self.configure_params = params
         # Tell everything to get into the right state to Configure
-- 
2.43.0


From 8b25395c9b6c5516b139a9f76af73c34a1d73a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:15 +0000
Subject: [PATCH 13/49] fix: work out the blind time after a row that spans two
 batches of points from its last point

---
 malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 285145c..c8e7bc9 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -237,13 +237,13 @@ class SeqTriggers:
                 if self.last_point is None:
                     # This is the beginning of the scan
                     yield self._create_triggered_rows(points, 0, end, False)
-                    self.last_point = points[end - 1]
                 else:
                     # This is the beginning of subsequent batches.
                     # Sequence table rows are only added here if the previous batch
                     # of points finished in the middle of a continuous scan row.
                     # The first point of the current batch is from the previous batch.
                     yield self._create_immediate_rows(points.duration[1:end])
+                self.last_point = points[end - 1]
 
                 # Remaining scan rows from the current batch of points.
                 for start_i, end_i in zip(start_indices, end_indices):
-- 
2.43.0


From 46a076b265e91e62c045633e7c9ff57b49fa9944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:15 +0000
Subject: [PATCH 14/49] fix: do not add an endless sequencer row when the count
 is a multiple of the maximum repeats

---
 malcolm/modules/ADPandABlocks/doublebuffer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ADPandABlocks/doublebuffer.py b/malcolm/modules/ADPandABlocks/doublebuffer.py
index 55ce577..4951a8d 100644
--- a/malcolm/modules/ADPandABlocks/doublebuffer.py
+++ b/malcolm/modules/ADPandABlocks/doublebuffer.py
@@ -62,9 +62,13 @@ class SequencerRows:
             MAX_REPEATS, trigger, position, half_duration, live, dead, trim
         )
         self._rows.extend([row] * complete_rows)
-        self._rows.append(
-            self._seq_row(remaining, trigger, position, half_duration, live, dead, trim)
-        )
+        # Zero repeats means repeat forever, so only add it if we were asked to
+        if remaining or not complete_rows:
+            self._rows.append(
+                self._seq_row(
+                    remaining, trigger, position, half_duration, live, dead, trim
+                )
+            )
         self._duration += count * (2 * half_duration - trim)
 
     def split(self, count: int) -> SequencerRows:
-- 
2.43.0


From 7b6fbbb7f6d7eb054431fd59f94586ea35c59256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:12 +0000
Subject: [PATCH 15/49] fix: decode whole lines from the PandA so that a
 character may be split between two receives

---
 malcolm/modules/pandablocks/pandablocksclient.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/pandablocks/pandablocksclient.py b/malcolm/modules/pandablocks/pandablocksclient.py
index 14a576a..bc5a17e 100644
--- a/malcolm/modules/pandablocks/pandablocksclient.py
+++ b/malcolm/modules/pandablocks/pandablocksclient.py
@@ -131,14 +131,16 @@ class PandABlocksClient:
                 log.exception("Exception sending message %s", message)
 
     def _get_lines(self):
-        buf = ""
+        buf = b""
         while True:
-            lines = buf.split("\n")
+            lines = buf.split(b"\n")
             for line in lines[:-1]:
-                yield line
+                # Only decode whole lines, as what we receive might end halfway
+                # through a multi-byte character
+                yield line.decode("utf-8")
             buf = lines[-1]
             # Get something new from the socket
-            rx = self._socket.recv(4096).decode("utf-8")
+            rx = self._socket.recv(4096)
             if not rx:
                 break
             buf += rx
-- 
2.43.0


From 89426cd1f42e739e8c25865a398fa290e41e00e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:06 +0000
Subject: [PATCH 16/49] fix: count the ints in a PandA table row right when its
 last column is one bit at the start of an int

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index 9313e6d..d58fc5b 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -89,7 +89,7 @@ class PandATablePart(PandAFieldPart):
         # Work out how many ints per row
         # TODO: this should be in the block data
         max_bits_hi = max(f.bits_hi for f in self.field_data.values())
-        self.ints_per_row = int((max_bits_hi + 31) / 32)
+        self.ints_per_row = max_bits_hi // 32 + 1
         # Superclass will make the attribute for us
         super().__init__(client, meta, block_name, field_name)
 
-- 
2.43.0


From 1af11e316e55267ff5c6985b4dcae2c2dd993414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:06 +0000
Subject: [PATCH 17/49] fix: do not lose the bits of a narrow PandA table
 column shifted beyond its own width

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index d58fc5b..ea44ea5 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -117,10 +117,11 @@ class PandATablePart(PandAFieldPart):
                 column_value = column_value.seq
             # Left shift the value so it is aligned with the int columns
             _, mask = get_nbits_mask(field_data)
-            shifted_column = (column_value & mask) << field_data.bits_lo % 32
+            u32_column = column_value.astype(np.uint32)
+            shifted_column = (u32_column & mask) << field_data.bits_lo % 32
             # Or it with what we currently have
             column_index = get_column_index(field_data)
-            int_matrix[..., column_index] |= shifted_column.astype(np.uint32)
+            int_matrix[..., column_index] |= shifted_column
         # Flatten it to a list of uints
         int_values = int_matrix.reshape((nrows * self.ints_per_row,))
         return int_values
-- 
2.43.0


From 57c26ddcf3bde70a6c972e8a3f445ac0902f6ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:06 +0000
Subject: [PATCH 18/49] fix: keep the sign of PandA table columns narrower than
 the type they are shown as

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index ea44ea5..5b3c6d1 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -150,6 +150,10 @@ class PandATablePart(PandAFieldPart):
                 # View as the correct type
                 dtype = self.meta.elements[column_name].dtype
                 column_value = shifted_column.astype(dtype)
+                if field_data.signed:
+                    # Extend the sign bit to the width of the type
+                    unused = column_value.itemsize * 8 - nbits
+                    column_value = (column_value << unused) >> unused
             columns[column_name] = column_value
         # Create a table from it
         table = self.meta.validate(self.meta.table_cls(**columns))
-- 
2.43.0


From d51a1c7ede9ad165603df9d04fc3a60910918591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:40 +0000
Subject: [PATCH 19/49] fix: free the id of a websocket subscription that was
 refused or has been unsubscribed

---
 malcolm/modules/web/parts/websocketserverpart.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index fcc8914..b312e29 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -110,7 +110,6 @@ class MalcWebSocketHandler(WebSocketHandler):
                 assert msg_id not in self._id_to_mri, (
                     "Duplicate subscription ID %d" % msg_id
                 )
-                self._id_to_mri[msg_id] = request.path[0]
             if isinstance(request, Unsubscribe):
                 mri = self._id_to_mri[msg_id]
             else:
@@ -118,6 +117,11 @@ class MalcWebSocketHandler(WebSocketHandler):
             if isinstance(request, (Put, Post)) and not self._writeable:
                 raise ValueError(f"Put/Post is forbidden from {self.request.remote_ip}")
             self._registrar.report(builtin.infos.RequestInfo(request, mri))
+            # Only subscriptions that are in place have their id taken
+            if isinstance(request, Subscribe):
+                self._id_to_mri[msg_id] = mri
+            elif isinstance(request, Unsubscribe):
+                self._id_to_mri.pop(msg_id)
         except Exception as e:
             log.exception("Error handling message:\n%s", message)
             error = Error(msg_id, e)
-- 
2.43.0


From 932b733dc78369d43bd31c619e963052b59251af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:40 +0000
Subject: [PATCH 20/49] fix: answer websocket messages from IPV6 clients,
 without allowing them to write

---
 malcolm/modules/web/parts/websocketserverpart.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index b312e29..a0fca93 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -84,10 +84,13 @@ class MalcWebSocketHandler(WebSocketHandler):
             if ipv4_ip == "::1":
                 # Special case IPV6 loopback
                 ipv4_ip = "127.0.0.1"
-            remoteaddr = struct.unpack("!I", socket.inet_aton(ipv4_ip))[0]
-            if self._validators:
+            if self._validators and ":" in ipv4_ip:
+                # We only know the IPV4 netmasks of our interfaces
+                self._writeable = False
+            elif self._validators:
                 # Work out if the remote ip is within the netmask of any of our
                 # interfaces. If not, Put and Post are forbidden
+                remoteaddr = struct.unpack("!I", socket.inet_aton(ipv4_ip))[0]
                 self._writeable = max(v(remoteaddr) for v in self._validators)
             else:
                 self._writeable = True
-- 
2.43.0


From d5ba9b3cbca392dd3a909c93f23ae70aa2f8fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:47 +0000
Subject: [PATCH 21/49] fix: add, replace and remove fields of a proxy when the
 server says so

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index b8a9bd3..abf1e03 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -198,10 +198,10 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         elif len(path) == 1 and path[0] not in ("health", "meta"):
             if len(change) == 1:
                 # Delete a field
-                block.remove_endpoint(path[1])
+                block.remove_endpoint(path[0])
             else:
                 # Change a single field of the block
-                block.set_endpoint_data(path[1], change[1])
+                block.set_endpoint_data(path[0], change[1])
         else:
             block.apply_change(path, *change[1:])
 
-- 
2.43.0


From 8e389cf3a4643b9e2df25521ba817d5d09dd10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:47 +0000
Subject: [PATCH 22/49] fix: apply changes from a Delta to models held in a
 dict

---
 malcolm/core/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 92d2db5..41b37d5 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -132,7 +132,11 @@ class Model(Serializable):
         """Take a single change from a Delta and apply it to this model"""
         if len(path) > 1:
             # This is for a child
-            self[path[0]].apply_change(path[1:], *args)
+            child, child_path = self[path[0]], path[1:]
+            if self.call_types[path[0]].is_mapping and len(child_path) > 1:
+                # This is for one of a dict of children
+                child, child_path = child[child_path[0]], child_path[1:]
+            child.apply_change(child_path, *args)
         else:
             # This is for us
             assert (
-- 
2.43.0


From e47b7bd6764e8b93614e59cfd6277b141ef44a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:47 +0000
Subject: [PATCH 23/49] fix: apply changes from a Delta to single columns of a
 table

---
 malcolm/core/models.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 41b37d5..2db0969 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -410,6 +410,15 @@ class NTTable(AttributeModel):
             self.timeStamp = ts
             self.notifier.add_squashed_change(self.path + ["timeStamp"], ts)
 
+    def apply_change(self, path, *args: Any) -> None:
+        if len(path) == 2 and path[0] == "value" and args:
+            # A single column has changed
+            columns = {k: self.value[k] for k in self.value}
+            columns[path[1]] = args[0]
+            self.set_value(columns, set_alarm_ts=False)
+        else:
+            super().apply_change(path, *args)
+
 
 @Serializable.register_subclass("epics:nt/NTScalarArray:1.0")
 class NTScalarArray(AttributeModel):
-- 
2.43.0


From ed8023f16e0f09c2bf1c31dfb42bf0c338faf04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:27 +0000
Subject: [PATCH 24/49] fix: answer requests to a remote block that cannot be
 sent instead of leaving them waiting

---
 .../web/controllers/websocketclientcomms.py        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index abf1e03..dc5bda4 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -269,6 +269,14 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         request.id = self._next_id
         self._next_id += 1
         self._request_lookup[request.id] = request
-        message = json_encode(request)
-        self.log.debug("Sending message %s", message)
-        self._conn.write_message(message)
+        try:
+            message = json_encode(request)
+            self.log.debug("Sending message %s", message)
+            assert self._conn, "Server disconnected"
+            self._conn.write_message(message)
+        except Exception as e:
+            # It will never be answered, so do it here
+            self.log.debug("Sending %s failed", request, exc_info=True)
+            self._request_lookup.pop(request.id, None)
+            response = Error(id=request.id, message=ResponseError(str(e)))
+            cothread.Callback(request.callback, response)
-- 
2.43.0


From bd48b0abd67fe4230563d6e0b5fbd6a2132f992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:31 +0000
Subject: [PATCH 25/49] fix: publish a block after every block that uses it,
 not just one of them

---
 malcolm/core/process.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/malcolm/core/process.py b/malcolm/core/process.py
index 7aba8f2..9df7aba 100644
--- a/malcolm/core/process.py
+++ b/malcolm/core/process.py
@@ -104,6 +104,7 @@ class Process(Loggable):
     def _publish_controllers(self, timeout):
         tree = OrderedDict()
         is_child = set()
+        parents = {}  # mri -> set of the mris of the controllers that use it
 
         def add_controller(controller: Controller) -> OrderedDict:
             children = OrderedDict()
@@ -111,6 +112,7 @@ class Process(Loggable):
             for part in controller.parts.values():
                 part_mri = getattr(part, "mri", None)
                 is_child.add(part_mri)
+                parents.setdefault(part_mri, set()).add(controller.mri)
                 if part_mri in tree:
                     children[part_mri] = tree[part_mri]
                 elif part_mri in self._controllers:
@@ -122,12 +124,17 @@ class Process(Loggable):
                 add_controller(c)
 
         published = []
+        seen = set()
 
         def walk(d, not_at_this_level=()):
             to_do = []
             for k, v in d.items():
                 if k in not_at_this_level:
                     continue
+                if not parents.get(k, set()) <= seen:
+                    # Will get here again via the last of its parents
+                    continue
+                seen.add(k)
                 if k not in published and k not in self._unpublished:
                     published.append(k)
                 if v:
-- 
2.43.0


From f7b3d9938d7c974e4690e0b7344c0fc687b9d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:31 +0000
Subject: [PATCH 26/49] fix: publish controllers that were added while the
 process was starting

---
 malcolm/core/process.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/malcolm/core/process.py b/malcolm/core/process.py
index 9df7aba..10f43bc 100644
--- a/malcolm/core/process.py
+++ b/malcolm/core/process.py
@@ -81,10 +81,12 @@ class Process(Loggable):
         """
         assert self.state == STOPPED, "Process already started"
         self.state = STARTING
-        should_publish = self._start_controllers(self._controllers.values(), timeout)
-        if should_publish:
-            self._publish_controllers(timeout)
+        self._start_controllers(self._controllers.values(), timeout)
+        # From now on anything that is added will publish itself, and anything that
+        # was added while we were starting will be published below
         self.state = STARTED
+        if len(self._controllers) > len(self._unpublished):
+            self._publish_controllers(timeout)
 
     def _start_controllers(
         self, controller_list: List[Controller], timeout: float = None
-- 
2.43.0


From 9294ae764b772e6b91f6522c42d3a9859187411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:31 +0000
Subject: [PATCH 27/49] fix: process.stop waits for work that is spawned while
 it is stopping

---
 malcolm/core/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/malcolm/core/process.py b/malcolm/core/process.py
index 10f43bc..8590fb1 100644
--- a/malcolm/core/process.py
+++ b/malcolm/core/process.py
@@ -177,7 +177,9 @@ class Process(Loggable):
         self.state = STOPPING
         # Allow every controller a chance to clean up
         self._run_hook(ProcessStopHook, timeout=timeout)
-        for s in self._spawned:
+        # Waiting for these might spawn more
+        while self._spawned:
+            s = self._spawned[0]
             if not s.ready():
                 self.log.debug(
                     "Waiting for %s *%s **%s", s._function, s._args, s._kwargs
@@ -189,7 +191,7 @@ class Process(Loggable):
                     "Timeout waiting for %s *%s **%s", s._function, s._args, s._kwargs
                 )
                 raise
-        self._spawned = []
+            self._spawned = [s for s in self._spawned if not s.ready()]
         self._controllers = OrderedDict()
         self._unpublished = set()
         self.state = STOPPED
-- 
2.43.0


From d4efb1c4f39d58aac5b3661d5eb56059900e4795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:08 +0000
Subject: [PATCH 28/49] fix: withdraw a block which turns out to be unpublished
 after it was published

---
 malcolm/core/process.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malcolm/core/process.py b/malcolm/core/process.py
index 8590fb1..548ee17 100644
--- a/malcolm/core/process.py
+++ b/malcolm/core/process.py
@@ -68,6 +68,7 @@ class Process(Loggable):
         self.name = name
         self._controllers = OrderedDict()  # mri -> Controller
         self._unpublished: Set[str] = set()  # [mri] for unpublishable controllers
+        self._published: List[str] = []  # [mri] that were last published
         self.state = STOPPED
         self._spawned: List[Spawned] = []
         self._spawn_count = 0
@@ -100,6 +101,9 @@ class Process(Loggable):
         self._unpublished |= new_unpublished
         if len(controller_list) > len(new_unpublished):
             return True
+        elif new_unpublished.intersection(self._published):
+            # Published by someone else before we knew it shouldn't be
+            return True
         else:
             return False
 
@@ -146,6 +150,7 @@ class Process(Loggable):
 
         walk(tree, not_at_this_level=is_child)
 
+        self._published = published
         self._run_hook(ProcessPublishHook, timeout=timeout, published=published)
 
     def _run_hook(self, hook, controller_list=None, timeout=None, **kwargs):
@@ -194,6 +199,7 @@ class Process(Loggable):
             self._spawned = [s for s in self._spawned if not s.ready()]
         self._controllers = OrderedDict()
         self._unpublished = set()
+        self._published = []
         self.state = STOPPED
         self.log.debug("Done process.stop()")
 
-- 
2.43.0


From 6f9c102c1ac8d47bbecd4aaf63ca0b875545e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:04 +0000
Subject: [PATCH 29/49] fix: compare the settings in a loaded design as the
 type of the attribute they are for

---
 malcolm/modules/builtin/parts/childpart.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index f212570..7afcd0a 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -212,6 +212,7 @@ class ChildPart(Part):
     ) -> None:
         child = context.block_view(self.mri)
         iterations: Dict[int, Dict[str, Tuple[Attribute, Any]]] = {}
+        saved_structure = OrderedDict(structure)
         for k, v in structure.items():
             if init and k == "design":
                 # At init pop out the design so it doesn't get restored here
@@ -226,12 +227,15 @@ class ChildPart(Part):
                 tag = get_config_tag(attr.meta.tags)
                 if tag:
                     iteration = int(tag.split(":")[1])
+                    # Convert to the type of the Attribute so it can be compared
+                    v = attr._data.meta.validate(v)
+                    saved_structure[k] = v
                     iterations.setdefault(iteration, {})[k] = (attr, v)
                 else:
                     self.log.warning(f"Attr {k} is not config tagged, not restoring")
         # Do this first so that any callbacks that happen in the put know
         # not to notify controller
-        self.saved_structure = structure
+        self.saved_structure = saved_structure
         for name, params in sorted(iterations.items()):
             # Call each iteration as a separate operation, only putting the
             # ones that need to change
-- 
2.43.0


From 3052ce4b7eef9967de4a9999b7d076e0d157a19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:48 +0000
Subject: [PATCH 30/49] fix: restore the settings of parts that are not visible
 when a design is loaded

---
 malcolm/modules/builtin/controllers/managercontroller.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 94c3a31..a478320 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -548,6 +548,12 @@ class ManagerController(StatefulController):
             k: v for k, v in attributes.items() if k in self.our_config_attributes
         }
         block = self.block_view()
+        # The fields of invisible parts are not in the Block, so set those directly
+        for part_fields in self.field_registry.fields.values():
+            for name, field, func, needs_context in part_fields:
+                if func and name in our_values and name not in block:
+                    args = (Context(self.process),) if needs_context else ()
+                    func(*args, field.meta.validate(our_values.pop(name)))
         block.put_attribute_values(our_values)
         # Run the load hook to get parts to load their own structure
         self.run_hooks(
-- 
2.43.0


From e2a9c9145b16dee586be5a479600689be11f8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:48 +0000
Subject: [PATCH 31/49] fix: do not broadcast when comparing arrays of
 different lengths

---
 malcolm/core/table.py                      |  3 ++-
 malcolm/modules/builtin/parts/childpart.py | 13 ++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/malcolm/core/table.py b/malcolm/core/table.py
index 102b68a..181268c 100644
--- a/malcolm/core/table.py
+++ b/malcolm/core/table.py
@@ -44,6 +44,7 @@ class Table(Serializable):
         if list(self.call_types) != list(other.call_types):
             return True
         for k in self.call_types:
-            if self[k] != other[k]:
+            # numpy arrays would be broadcast, so check the lengths first
+            if len(self[k]) != len(other[k]) or self[k] != other[k]:
                 return True
         return False
diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index 7afcd0a..9bb8a20 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -12,7 +12,7 @@ from typing import (
     Union,
 )
 
-from annotypes import Anno, add_call_types
+from annotypes import Anno, Array, add_call_types
 
 from malcolm.compat import OrderedDict
 from malcolm.core import (
@@ -77,6 +77,13 @@ APartName = APartName
 ss = StatefulStates
 
 
+def values_equal(first: Any, second: Any) -> bool:
+    if isinstance(first, Array) and isinstance(second, Array):
+        # numpy arrays would be broadcast, so check the lengths first
+        return len(first) == len(second) and first == second
+    return first == second
+
+
 class ChildPart(Part):
     #: A set containing all the Attribute names of our child Block that we will
     #: put to, so shouldn't be saved. Set this in subclasses using `no_save`
@@ -241,7 +248,7 @@ class ChildPart(Part):
             # ones that need to change
             to_set = {}
             for k, (attr, v) in params.items():
-                if attr.value != v:
+                if not values_equal(attr.value, v):
                     to_set[k] = v
             child.put_attribute_values(to_set)
         if init and "design" in child:
@@ -350,7 +357,7 @@ class ChildPart(Part):
         # If we did a save or load then we will have an original value,
         # otherwise it will be None
         original_value = self.saved_structure.get(name, None)
-        if original_value == new_value:
+        if values_equal(original_value, new_value):
             message = None
         else:
             message = "%s.%s.value = %s not %s" % (
-- 
2.43.0


From 7610d45c6cbb3ae94380970341e06d26c927a09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:46 +0000
Subject: [PATCH 32/49] fix: save every export of a field that is exported more
 than once

---
 .../builtin/controllers/managercontroller.py        | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index a478320..50ce7bb 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -437,9 +437,11 @@ class ManagerController(StatefulController):
             layout_structure["visible"] = visible
             layout[name] = layout_structure
         # Add the exports table
-        exports = attributes.setdefault("exports", OrderedDict())
-        for source, export in self.exports.value.rows():
-            exports[source] = export
+        exports = OrderedDict(self.exports.value.rows())
+        if len(exports) < len(self.exports.value.source):
+            # Some source is exported more than once, so save as rows
+            exports = list(self.exports.value.rows())
+        attributes["exports"] = exports
         # Add other attributes
         for name, attribute in self.our_config_attributes.items():
             attributes[name] = attribute.value
@@ -539,7 +541,10 @@ class ManagerController(StatefulController):
         self.set_layout(LayoutTable(name, mri, x, y, visible))
         # Set the exports table
         source, export = [], []
-        for source_name, export_name in attributes.get("exports", {}).items():
+        exports = attributes.get("exports", {})
+        if not isinstance(exports, list):
+            exports = exports.items()
+        for source_name, export_name in exports:
             source.append(source_name)
             export.append(export_name)
         self.exports.set_value(ExportTable(source, export))
-- 
2.43.0


From 6f6fa9f196dc845d3dd50fc6880654f69ba7b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:46 +0000
Subject: [PATCH 33/49] fix: keep track of a restorable field that is removed
 and added again

---
 malcolm/modules/builtin/parts/childpart.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index 9bb8a20..04e7536 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -293,9 +293,10 @@ class ChildPart(Part):
             return
 
         # Remove any existing subscription that is not in the new fields
-        for subscribe in self.config_subscriptions.values():
+        for subscribe in list(self.config_subscriptions.values()):
             attr_name = subscribe.path[-2]
             if attr_name not in new_fields:
+                self.config_subscriptions.pop(subscribe.id)
                 unsubscribe = Unsubscribe(subscribe.id)
                 unsubscribe.set_callback(subscribe.callback)
                 spawned.append(self.child_controller.handle_request(unsubscribe))
@@ -347,9 +348,10 @@ class ChildPart(Part):
 
     def update_part_modified(self, response: Response) -> None:
         if isinstance(response, Update):
-            subscribe = self.config_subscriptions[response.id]
-            name = subscribe.path[-2]
-            self.send_modified_info_if_not_equal(name, response.value)
+            subscribe = self.config_subscriptions.get(response.id, None)
+            if subscribe:
+                name = subscribe.path[-2]
+                self.send_modified_info_if_not_equal(name, response.value)
         elif not isinstance(response, Return):
             self.log.warning("Got unexpected response {response}")
 
-- 
2.43.0


From d22c9414ae502930587c337d10b4ed9a94c397d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:26 +0000
Subject: [PATCH 34/49] fix: forget what was modified when a design has been
 saved or loaded

---
 malcolm/modules/builtin/parts/childpart.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index 04e7536..b18eabc 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -251,6 +251,9 @@ class ChildPart(Part):
                 if not values_equal(attr.value, v):
                     to_set[k] = v
             child.put_attribute_values(to_set)
+        if not init:
+            # The controller will forget what we told it about the old structure
+            self.modified_messages = {}
         if init and "design" in child:
             # We might not have cleared the changes so report here
             self.send_modified_info_if_not_equal("design", child.design.value)
@@ -265,6 +268,8 @@ class ChildPart(Part):
                 if isinstance(attr, Attribute) and get_config_tag(attr.meta.tags):
                     part_structure[k] = attr.value
         self.saved_structure = part_structure
+        # The controller will forget what we told it about the old structure
+        self.modified_messages = {}
         return part_structure
 
     @add_call_types
-- 
2.43.0


From 58a52e06e0e87a809ab02bd581add532b4b722dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:34 +0000
Subject: [PATCH 35/49] fix: pass parameters and results through exported
 methods

---
 malcolm/modules/builtin/controllers/managercontroller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 50ce7bb..739b728 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -368,9 +368,9 @@ class ManagerController(StatefulController):
                     ret["setter"] = setter
                 else:
 
-                    def setter_star_args(*args):
+                    def setter_star_args(**params):
                         context = Context(self.process)
-                        context.post(path, *args)
+                        return context.post(path, params)
 
                     ret["setter"] = setter_star_args
 
-- 
2.43.0


From 5136722b1306cd16c28e9a4ff42ae9644b89c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:45 +0000
Subject: [PATCH 36/49] fix: keep the label and tags of an exported field when
 the metadata of its source changes

---
 .../builtin/controllers/managercontroller.py  | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 739b728..ef4a9a5 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -345,6 +345,17 @@ class ManagerController(StatefulController):
         label = camel_to_title(export_name)
         ret = {}
 
+        def update_meta(export):
+            if isinstance(export, AttributeModel):
+                # Strip out tags that we shouldn't export
+                # TODO: need to strip out port tags too...
+                tags = without_config_tags(without_group_tags(export.meta.tags))
+                if list(tags) != list(export.meta.tags):
+                    export.meta.set_tags(tags)
+            # Regenerate label
+            if export.meta.label != label:
+                export.meta.set_label(label)
+
         def update_field(response):
             if not isinstance(response, Delta):
                 # Return or Error is the end of our subscription, log and ignore
@@ -359,12 +370,6 @@ class ManagerController(StatefulController):
                         context = Context(self.process)
                         context.put(path, v)
 
-                    # Strip out tags that we shouldn't export
-                    # TODO: need to strip out port tags too...
-                    export.meta.set_tags(
-                        without_config_tags(without_group_tags(export.meta.tags))
-                    )
-
                     ret["setter"] = setter
                 else:
 
@@ -374,8 +379,7 @@ class ManagerController(StatefulController):
 
                     ret["setter"] = setter_star_args
 
-                # Regenerate label
-                export.meta.set_label(label)
+                update_meta(export)
                 ret["export"] = export
             elif subscription in self._subscriptions:
                 # Subsequent calls, update it
@@ -383,6 +387,8 @@ class ManagerController(StatefulController):
                     for change in response.changes:
                         if change[0]:
                             ret["export"].apply_change(*change)
+                            if change[0][0] == "meta":
+                                update_meta(ret["export"])
                         elif len(change) == 2:
                             # The whole field was replaced, so export it again
                             self.update_block_endpoints()
-- 
2.43.0


From b1a4f6525c857d966dbb4deff3af39dc2cc158d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:00 +0000
Subject: [PATCH 37/49] fix: refuse to write a sequence to a single number

---
 malcolm/core/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 2db0969..fb84f71 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -696,6 +696,7 @@ class NumberMeta(VMeta):
         if value is None:
             value = 0
         cast = self._np_type(value)
+        assert np.ndim(cast) == 0, f"Expected a single number, got {value!r}"
         return cast
 
     def doc_type_string(self) -> str:
-- 
2.43.0


From 873f2068a8486c1debe80788e08b6eebe2e84aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:27 +0000
Subject: [PATCH 38/49] fix: convert single elements and refuse nested
 sequences written to number and boolean arrays

---
 malcolm/core/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index fb84f71..bcaddf2 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -759,9 +759,13 @@ def to_np_array(dtype, value: Any) -> Any:
         # If Array wraps a numpy array of the correct type we are done
         return value
     else:
-        if isinstance(value, Sequence):
+        if value is not None and not isinstance(value, np.ndarray):
+            if isinstance(value, str) or not isinstance(value, Sequence):
+                # A single element
+                value = [value]
             # Cast to numpy array
             value = np.array(value, dtype=dtype)
+            assert value.ndim == 1, f"Expected a 1D array, got {value!r}"
         return to_array(Array[dtype], value)
 
 
-- 
2.43.0


From a7b40764f02102f6d4cfd863512d85b18d650652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:27 +0000
Subject: [PATCH 39/49] fix: refuse a method call with too many positional
 arguments

---
 malcolm/core/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malcolm/core/views.py b/malcolm/core/views.py
index d6e7d6d..c363667 100644
--- a/malcolm/core/views.py
+++ b/malcolm/core/views.py
@@ -105,6 +105,10 @@ class Method(View):
     """Exposes a function with metadata for arguments and return values"""
 
     def _add_positional_args(self, args, kwargs):
+        takes = self._data.meta.takes.elements
+        assert len(args) <= len(
+            takes
+        ), f"Given {len(args)} positional args, but only takes {list(takes)}"
         # add any positional args into our kwargs dict
         for name, v in zip(self._data.meta.takes.elements, args):
             assert (
-- 
2.43.0


From 76ba4d54365a161828bbae8781f24dea0c622570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:37 +0000
Subject: [PATCH 40/49] fix: do not count frames written after the run stopped
 as steps of the HDF writer

---
 malcolm/modules/ADCore/parts/hdfwriterpart.py | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/malcolm/modules/ADCore/parts/hdfwriterpart.py b/malcolm/modules/ADCore/parts/hdfwriterpart.py
index 3f6f810..87d2371 100644
--- a/malcolm/modules/ADCore/parts/hdfwriterpart.py
+++ b/malcolm/modules/ADCore/parts/hdfwriterpart.py
@@ -643,28 +643,36 @@ class HDFWriterPart(builtin.parts.ChildPart):
         child = context.block_view(self.mri)
 
         # Update progress based on number of frames written
-        child.numCapturedReadback.subscribe_value(self.update_completed_steps)
+        f_progress = child.numCapturedReadback.subscribe_value(
+            self.update_completed_steps
+        )
 
         # Wait for the number of captured frames to reach the target
         f_done = child.when_value_matches_async(
             "numCapturedReadback", self.done_when_captured
         )
         self.last_capture_update = None
-        while True:
-            try:
-                # Use a regular timeout so we can request a manual flush every second
-                context.wait_all_futures(f_done, timeout=1)
-            except TimeoutError:
-                # This is ok, means we aren't done yet, so flush
-                self._flush_if_still_writing(child)
-                # Check it hasn't been too long since the last frame was written
-                if self._has_file_writing_stalled():
-                    timeout_message = self._get_file_writing_stalled_error_message(
-                        child
-                    )
-                    raise TimeoutError(timeout_message)
-            else:
-                break
+        try:
+            while True:
+                try:
+                    # Use a regular timeout so we can request a manual flush every
+                    # second
+                    context.wait_all_futures(f_done, timeout=1)
+                except TimeoutError:
+                    # This is ok, means we aren't done yet, so flush
+                    self._flush_if_still_writing(child)
+                    # Check it hasn't been too long since the last frame was written
+                    if self._has_file_writing_stalled():
+                        timeout_message = self._get_file_writing_stalled_error_message(
+                            child
+                        )
+                        raise TimeoutError(timeout_message)
+                else:
+                    break
+        finally:
+            # Frames written from now on don't belong to this run
+            if not f_progress.done():
+                context.unsubscribe(f_progress)
 
     def _flush_if_still_writing(self, child):
         # Check that the start_future hasn't errored
-- 
2.43.0


From b3d86f7e6cc0a11103bed0b7bb0838bbe99f1576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:52 +0000
Subject: [PATCH 41/49] fix: load more motion points while some are still
 waiting to be sent

---
 malcolm/modules/pmac/parts/pmacchildpart.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 4a0f803..f5681ff 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -446,11 +446,13 @@ class PmacChildPart(builtin.parts.ChildPart):
             if self.output_triggers == scanning.infos.MotionTrigger.EVERY_POINT:
                 completed_steps = self.completed_steps_lookup[scanned - 1]
                 self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
-            # Keep PROFILE_POINTS trajectory points in front
+            # Keep PROFILE_POINTS trajectory points in front, not counting those
+            # that haven't been sent yet
+            written = len(self.completed_steps_lookup) - len(self.profile["timeArray"])
             if (
                 not self.loading
                 and self.end_index < self.steps_up_to
-                and len(self.completed_steps_lookup) - scanned < PROFILE_POINTS
+                and written - scanned < PROFILE_POINTS
             ):
                 self.loading = True
                 self.calculate_generator_profile(self.end_index)
-- 
2.43.0


From 7f2fa2fe8bf760f067bd3660a7026ff5754207d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:52 +0000
Subject: [PATCH 42/49] fix: give a single remaining motion point its bounds
 the right way round

---
 malcolm/modules/pmac/parts/pmacchildpart.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index f5681ff..95d50ac 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -774,6 +774,13 @@ class PmacChildPart(builtin.parts.ChildPart):
             points = self.generator.get_points(start_index, up_to)
         else:
             points = self.generator.get_points(start_index, self.steps_up_to)
+        if len(points) == 1:
+            # The bounds of a single point come out of get_points the wrong way
+            # round if its row is scanned backwards
+            point = self.generator.get_point(start_index)
+            for axis_name in points.lower:
+                points.lower[axis_name][0] = point.lower[axis_name]
+                points.upper[axis_name][0] = point.upper[axis_name]
 
         velocities = all_points_same_velocities(points)
         joined = all_points_joined(points)
-- 
2.43.0


From c36350d1efb5d0c0dc80deec9f60e85620aa3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:53 +0000
Subject: [PATCH 43/49] fix: wait for the connection itself, not for what an
 earlier one left behind, when starting or stopping a websocket client

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index dc5bda4..a13ca19 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -69,6 +69,8 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
     def _start_client(self):
         # Called from cothread
         if self._conn is None:
+            # Forget what earlier connections have put here
+            self._connected_queue = Queue()
             IOLoopHelper.call(self.recv_loop)
             self._connected_queue.get(timeout=self.connect_timeout)
             root_subscribe = Subscribe(path=[".", "blocks", "value"])
@@ -136,6 +138,7 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
     def _stop_client(self):
         # Called from cothread
         if self._conn:
+            self._connected_queue = Queue()
             IOLoopHelper.call(self._conn.close)
             self._connected_queue.get(timeout=self.connect_timeout)
             self._conn = None
-- 
2.43.0


From 311a33999721148a8ed74669b14f61e386e585f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:56 +0000
Subject: [PATCH 44/49] fix: wait for the first frame of each section of a run
 of the HDF writer

---
 malcolm/modules/ADCore/parts/hdfwriterpart.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malcolm/modules/ADCore/parts/hdfwriterpart.py b/malcolm/modules/ADCore/parts/hdfwriterpart.py
index 87d2371..4fd1b4a 100644
--- a/malcolm/modules/ADCore/parts/hdfwriterpart.py
+++ b/malcolm/modules/ADCore/parts/hdfwriterpart.py
@@ -633,6 +633,10 @@ class HDFWriterPart(builtin.parts.ChildPart):
         self.num_captured_offset = num_captured - completed_steps
         # Expected captured readback after this batch
         self.done_when_captured = num_captured + steps_to_do
+        # Create a future waiting for the first array of this batch
+        self.first_array_future = child.when_value_matches_async(
+            "arrayCounterReadback", greater_than_zero
+        )
 
     @add_call_types
     def on_run(self, context: scanning.hooks.AContext) -> None:
-- 
2.43.0


From b8bd00a49fcbac2d2c5046b8ee0a04eec514e980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:56 +0000
Subject: [PATCH 45/49] fix: give detectors that take several frames for each
 step the breakpoints and rewinds in frames

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 3e7bfa6..a3efff5 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -287,6 +287,9 @@ class DetectorChildPart(builtin.parts.ChildPart):
             # Divide it down
             serialized["duration"] = float(serialized["duration"]) / frames
             generator = CompoundGenerator.from_dict(serialized)
+            # The child will stop after the same steps, so multiply these too
+            if breakpoints:
+                breakpoints = ABreakpoints([steps * frames for steps in breakpoints])
         kwargs = dict(
             generator=generator,
             axesToMove=axes_to_move,
@@ -382,7 +385,7 @@ class DetectorChildPart(builtin.parts.ChildPart):
         # Clear out the update_completed_steps and match_future subscriptions
         context.unsubscribe_all()
         child = context.block_view(self.mri)
-        child.pause(lastGoodStep=completed_steps)
+        child.pause(lastGoodStep=completed_steps * self.frames_per_step)
 
     @add_call_types
     def on_abort(self, context: AContext) -> None:
-- 
2.43.0


From eb0e5d58b93f48d9167accd719d2efc59a86e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:49 +0000
Subject: [PATCH 46/49] fix: disconnect ports from a block that is hidden by
 the first change of a layout

---
 malcolm/modules/builtin/parts/childpart.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index b18eabc..ddffc88 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -209,6 +209,11 @@ class ChildPart(Part):
         # If not specified then take our own visibility from this same dict
         if self.visible is None:
             self.visible = self.part_visibility.get(self.name, False)
+        if first_call:
+            # Any other part could have been visible from the start, so sever
+            # our connections to it when we are told that it isn't
+            for name in ports:
+                self.part_visibility.setdefault(name, True)
         assert self.visible is not None
         ret = LayoutInfo(mri=self.mri, x=self.x, y=self.y, visible=self.visible)
         return [ret]
-- 
2.43.0


From b233bd3a7892423dd24091c5a0ff8e1fb909b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:49 +0000
Subject: [PATCH 47/49] fix: follow disconnections and alarms of every PV of a
 waveform table

---
 malcolm/modules/ca/util.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index b5c0bc8..63e5bff 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -156,11 +156,8 @@ class CABase(Loggable):
         now = time.time()
         delta = now - self._update_after
         if value_index is not None and hasattr(self, "name_list"):
-            value_key = self.name_list[value_index]
-            self._local_value[value_key] = value
+            self._local_value.update_column(self.name_list[value_index], value)
             self._local_value.raw_stamp = getattr(value, "raw_stamp", (None, None))
-            self._local_value.ok = self._local_value.ok or value.ok
-            self._local_value.severity = max(self._local_value.severity, value.severity)
             self._update_value(self._local_value)
         else:
             self._update_value(value)
@@ -278,6 +275,22 @@ class CATable(dict):
     severity = 0
     raw_stamp = (None, None)
 
+    def __init__(self):
+        super().__init__()
+        # {column_name: severity}, None if the column is disconnected
+        self.severities = {}
+
+    def update_column(self, name, value):
+        if value.ok:
+            self[name] = value
+            self.severities[name] = value.severity
+        else:
+            self.severities[name] = None
+        # The table is only as good as the worst of its columns
+        self.ok = None not in self.severities.values()
+        if self.ok:
+            self.severity = max(self.severities.values())
+
 
 class WaveformTableAttribute(CABase):
     def __init__(
@@ -347,9 +360,7 @@ class WaveformTableAttribute(CABase):
         for ind, value in enumerate(ca_values):
             if self.on_connect:
                 self.on_connect(value)
-            self._local_value[self.name_list[ind]] = value
-            self._local_value.severity = max(self._local_value.severity, value.severity)
-            self._local_value.ok = self._local_value.ok or value.ok
+            self._local_value.update_column(self.name_list[ind], value)
         self._update_value(self._local_value)
         # now setup monitors for all the things
         self.monitor = catools.camonitor(
-- 
2.43.0


From 96d4055394b94e2071db7c82cfba9f5983f1ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:49 +0000
Subject: [PATCH 48/49] fix: allow number attributes over a PV that may be
 missing

---
 malcolm/modules/ca/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index 63e5bff..78c3dff 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -239,7 +239,7 @@ class CAAttribute(CABase):
             self.throw,
         )
 
-        if self.on_connect:
+        if self.on_connect and ca_values[0].ok:
             self.on_connect(ca_values[0])
         self._update_value(ca_values[0])
         # now setup monitor on rbv
-- 
2.43.0


From d7175087be1f19eadcbafe1a9831c6b266b7f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:49 +0000
Subject: [PATCH 49/49] fix: show a method again when its missing PV has come
 back at a reset

---
 malcolm/modules/ca/parts/caactionpart.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ca/parts/caactionpart.py b/malcolm/modules/ca/parts/caactionpart.py
index fb7b2ac..760a9c4 100644
--- a/malcolm/modules/ca/parts/caactionpart.py
+++ b/malcolm/modules/ca/parts/caactionpart.py
@@ -80,6 +80,12 @@ class CAActionPart(Part):
         if self.message_pv:
             pvs.append(self.message_pv)
         ca_values = util.catools.caget(pvs, throw=self.throw)
+        hidden_tag = tags.method_hidden()
+        if not self.throw:
+            # We may have been hidden when we last tried to connect
+            self.method.meta.set_tags(
+                [t for t in self.method.meta.tags if t != hidden_tag]
+            )
         # check connection is ok
         try:
             for v in ca_values:
@@ -91,9 +97,7 @@ class CAActionPart(Part):
             if self.throw:
                 raise e
             else:
-                self.method.meta.set_tags(
-                    list(self.method.meta.tags) + [tags.method_hidden()]
-                )
+                self.method.meta.set_tags(list(self.method.meta.tags) + [hidden_tag])
 
     def wait_for_good_status(self, deadline):
         q = Queue()
-- 
2.43.0

