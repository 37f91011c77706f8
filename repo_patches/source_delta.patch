From e39df43d711507cd41879cda3859ff33d543087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 001/109] fix: fork must not count a worker's completion more
 than once

---
 marcel/op/forkmanager.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 1ba4e30..dd30ee9 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -100,14 +100,12 @@ class ForkManager(object):
         for worker in self.workers:
             worker.start()
             dump(f'{self} started {worker}')
-        completed = 0
-        w = 0
-        while completed < len(self.workers):
-            more = self.workers[w].consume_input()
-            if not more:
-                completed += 1
-            w = (w + 1) % len(self.workers)
-            dump(f'completed: {completed}')
+        # A worker that has reached EOF must not be polled again: polling it again would report EOF again,
+        # and count that worker's completion twice, abandoning the output of workers still running.
+        active = list(self.workers)
+        while len(active) > 0:
+            active = [worker for worker in active if worker.consume_input()]
+            dump(f'active: {active}')
         for worker in self.workers:
             worker.close()
 
-- 
2.43.0


From 2023b7a893879f73b1d4c0f193ac7ca0d7f7266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 002/109] fix: an Error from a forked worker must flow
 downstream as an error, not as data

---
 marcel/op/forkmanager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index dd30ee9..41094b1 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -171,7 +171,10 @@ class ForkWorker(object):
                 input = self.reader.recv()
                 x = dill.loads(input)
                 dump(f'{self} consume_input receive {x}')
-                self.op.send(self.env, x)
+                if isinstance(x, marcel.object.error.Error):
+                    self.op.send_error(self.env, x)
+                else:
+                    self.op.send(self.env, x)
         except EOFError:
             dump(f'{self} consume_input EOF')
             self.writer.close()
-- 
2.43.0


From 824d9f91325350838f687159b690a2560dfc92b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 003/109] fix: bash must send stderr lines as errors, not as
 data

---
 marcel/op/bash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 0c3fed8..70e2748 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -263,7 +263,7 @@ class ProcessOutputHandler(threading.Thread):
                         if stream is process.stdout:
                             op.send(self.env, output)
                         elif stream is process.stderr:
-                            op.send(self.env, marcel.object.error.Error(output))
+                            op.send_error(self.env, marcel.object.error.Error(output))
             finally:
                 lock.release()
         process.wait()
-- 
2.43.0


From 11d08fa135c1712afa7eeb93d99c3e3b533186f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 004/109] fix: union must propagate a flush exactly once

---
 marcel/op/union.py | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/marcel/op/union.py b/marcel/op/union.py
index 5a3dc2d..9bd1191 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -16,6 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.op.redirect
 import marcel.opmodule
 import marcel.object.error
 import marcel.pipeline
@@ -83,31 +84,8 @@ class Union(marcel.core.Op):
     # Internal
 
     def customize_pipelines(self, env):
-        # Union is implemented by passing the input stream along in receive(), and then having each pipeline's
-        # arg send its output via flush. This depends on all the pipelines args having the same receiver as the
-        # union op itself. However, we only want one flush after everything is done. PropagateFlushFromLast
-        # makes sure that only the last pipelines propagates the flush.
-        n_pipelines = len(self.pipelines)
-        customized = []
-        for pipeline in self.pipelines:
-            last = len(customized) == n_pipelines - 1
-            pipeline = pipeline.append_immutable(PropagateFlushFromLast(last))
-            pipeline.route_output(self.receiver)
-            customized.append(pipeline)
-        self.pipelines = customized
-
-
-class PropagateFlushFromLast(marcel.core.Op):
-
-    def __init__(self, last):
-        super().__init__()
-        self.last = last
-
-    # Op
-
-    def receive(self, env, x):
-        self.send(env, x)
-
-    def flush(self, env):
-        if self.last:
-            self.propagate_flush(env)
\ No newline at end of file
+        # Union is implemented by passing the input stream along in receive(), and then having each pipeline
+        # arg send its output, through this op, in flush. Redirect does not propagate the flush of a pipeline arg,
+        # so downstream ops see exactly one flush, from this op, after everything is done.
+        self.pipelines = [pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+                          for pipeline in self.pipelines]
-- 
2.43.0


From 92b797651a746433d8dc3906e22afb2b857507d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 005/109] fix: tail must propagate a flush exactly once

---
 marcel/op/tail.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marcel/op/tail.py b/marcel/op/tail.py
index d7ea098..648ce5c 100644
--- a/marcel/op/tail.py
+++ b/marcel/op/tail.py
@@ -108,7 +108,6 @@ class TailKeepN(TailImpl):
                 self.op.send(env, x)
             p = (p + 1) % self.n
             count -= 1
-        self.op.propagate_flush(env)
         self.queue.clear()
 
 
-- 
2.43.0


From de5de90ba20f8fc632eb94ea850ae203a38ce721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 006/109] fix: args must propagate a flush exactly once

---
 marcel/op/args.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/marcel/op/args.py b/marcel/op/args.py
index 5a98ab6..365a5b7 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -89,21 +89,18 @@ class Args(marcel.core.Op):
                 self.args.clear()
 
     def flush(self, env):
-        if len(self.args) > 0:
-            if self.all:
-                self.args = [self.args]
-            else:
-                while len(self.args) < self.n_params:
-                    self.args.append(None)
-            try:
+        try:
+            if len(self.args) > 0:
+                if self.all:
+                    self.args = [self.args]
+                else:
+                    while len(self.args) < self.n_params:
+                        self.args.append(None)
                 self.pipeline.run_pipeline(env, self.bindings())
-            finally:
-                self.args.clear()
-                # Need to ensure that flush is propagated no matter what happens
-                self.propagate_flush(env)
-        # If there was an exception, and we flushed already, this should still be OK. Propagating a
-        # flush a second time should be a noop.
-        self.propagate_flush(env)
+        finally:
+            self.args.clear()
+            # Need to ensure that flush is propagated, exactly once, no matter what happens
+            self.propagate_flush(env)
 
     def must_not_be_first_in_pipeline(self):
         return True
-- 
2.43.0


From 8ae6e45e9d157ba1b77e81852758ffe66af6e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 007/109] fix: sudo must not flush downstream from run (the
 executor flushes)

---
 marcel/op/sudo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index 8d79a73..c205093 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -124,7 +124,7 @@ class Sudo(marcel.core.Op):
             while True:
                 self.send(env, input.load())
         except EOFError:
-            self.propagate_flush(env)
+            pass
 
     def must_be_first_in_pipeline(self):
         return True
-- 
2.43.0


From 3badbed609539f3e511805f2e41a3ad4cf1c0d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 008/109] fix: remote must not flush downstream from run (the
 executor flushes)

---
 marcel/op/remote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/remote.py b/marcel/op/remote.py
index 1b69a8a..7301d64 100644
--- a/marcel/op/remote.py
+++ b/marcel/op/remote.py
@@ -164,7 +164,7 @@ class Remote(marcel.core.Op):
                         else:
                             self.send(env, x)
                 except EOFError as e:
-                    self.propagate_flush(env)
+                    pass
             except BaseException as e:
                 marcel.util.print_stack_of_current_exception()
                 print(e)
-- 
2.43.0


From ba2a08761a876f5917c8f6876e447698118ecd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 009/109] fix: window --overlap must propagate a flush even if
 there was no input

---
 marcel/op/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index 090d8b5..daabcd1 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -237,7 +237,7 @@ class OverlapWindow(WindowBase):
                 self.window = self.window[1:]
                 self.window.append(OverlapWindow.PADDING)
                 self.send_window(env)
-            self.op.propagate_flush(env)
+        self.op.propagate_flush(env)
 
 
 class DisjointWindow(WindowBase):
-- 
2.43.0


From e89441922423b75af3fe1ef6af1dd9dc3a6b6850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 010/109] fix: running a pipeline variable must propagate a
 flush exactly once

---
 marcel/op/runpipeline.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 0de9303..bf38942 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -15,6 +15,7 @@
 
 import marcel.core
 import marcel.exception
+import marcel.op.redirect
 import marcel.pipeline
 import marcel.util
 
@@ -29,6 +30,8 @@ class RunPipeline(marcel.core.Op):
         self.kwargs_arg = None
         self.kwargs = None
         self.pipeline = None
+        # True if the pipeline has been run (and therefore flushed) by run().
+        self.has_run = False
 
     def __repr__(self):
         return f'runpipeline({self.var} {self.args_arg})'
@@ -60,7 +63,10 @@ class RunPipeline(marcel.core.Op):
         # command. This potentially breaks the use of Op state during execution, and also
         # breaks the structure of the pipelines, e.g. Op.receiver.
         self.pipeline = self.pipeline.copy()
-        self.pipeline.route_output(self.receiver)
+        # Redirect sends the pipeline's output through this op, but does not propagate the pipeline's flush. That is
+        # done, once, by this op.
+        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+        self.has_run = False
         env.vars().push_scope(self.bindings())
         try:
             self.pipeline.setup(env)
@@ -73,6 +79,8 @@ class RunPipeline(marcel.core.Op):
         bindings = self.bindings()
         env.vars().push_scope(bindings)
         try:
+            # This flushes the pipeline too.
+            self.has_run = True
             self.pipeline.run_pipeline(env, bindings)
         finally:
             env.vars().pop_scope()
@@ -87,7 +95,8 @@ class RunPipeline(marcel.core.Op):
     def flush(self, env):
         env.vars().push_scope(self.bindings())
         try:
-            self.pipeline.flush(env)
+            if not self.has_run:
+                self.pipeline.flush(env)
             self.propagate_flush(env)
         finally:
             env.vars().pop_scope()
-- 
2.43.0


From 34cffa4ee7aeae5aa8fc666e546fa01e30297dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 011/109] fix: compile transmitted functions in a forked worker

---
 marcel/op/forkmanager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 41094b1..804fe5a 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -61,6 +61,8 @@ class SendToParent(marcel.core.Op):
 def run_pipeline_in_child(env, pipeline, thread_id, writer):
     try:
         pipeline = dill.loads(pipeline)
+        # Compiled functions are not transmitted, only their source.
+        pipeline.ensure_functions_compiled(env)
         pipeline.append(SendToParent(writer, thread_id))
         params = pipeline.parameters()
         bindings = {} if len(params) == 0 else {params[0]: thread_id}
-- 
2.43.0


From f8b7c8f7e3225e53ccdd71c42aa02c81cf7e23ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 012/109] fix: compile transmitted functions in farcel

---
 bin/farcel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/farcel.py b/bin/farcel.py
index b42437e..f82c586 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -100,6 +100,8 @@ class PipelineRunner(threading.Thread):
     def run(self):
         try:
             # self.check_python_version()
+            # Compiled functions are not transmitted, only their source.
+            self.pipeline.ensure_functions_compiled(self.env)
             TRACE.write(f'PipelineRunner: About to setup {self.pipeline}')
             self.pipeline.setup(self.env)
             TRACE.write(f'PipelineRunner: About to run {self.pipeline}')
-- 
2.43.0


From 2775906c2000dd5f0e07aec4ab91de65a8af45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 013/109] fix: a pipeline argument of a pipeline variable must
 not crash the parser

---
 marcel/parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index f9c0ce5..6eec2a5 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1302,9 +1302,7 @@ class Parser(object):
             if len(arg_tokens) > 0:
                 pipeline_args = []
                 for token in arg_tokens:
-                    pipeline_args.append(token
-                                         if type(token) is marcel.pipeline.PipelineExecutable else
-                                         token.value())
+                    pipeline_args.append(token.value() if isinstance(token, Token) else token)
                 args, kwargs = marcel.argsparser.PipelineArgsParser(var).parse_pipeline_args(pipeline_args)
                 op.set_pipeline_args(args, kwargs)
             return op
-- 
2.43.0


From 979da5037a5554e2d898099195f0a47a27fdcc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 014/109] fix: describing a window op with a predicate must not
 fail

---
 marcel/op/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index daabcd1..c781dee 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -137,7 +137,7 @@ class Window(marcel.core.Op):
         if self.disjoint:
             options.append(f'disjoint={self.disjoint}')
         if self.predicate:
-            options.append(f'predicate={self.predicate.source()}')
+            options.append(f'predicate={self.predicate}')
         return f'window({", ".join(options)})'
 
     # AbstractOp
-- 
2.43.0


From 6a2a1b7d2630d157e50af1b95141cedd7be2f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 015/109] fix: filter must isolate a failing compare function
 to its input

---
 marcel/op/filter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 1cc3491..fddf3bd 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -97,8 +97,7 @@ class Filter(marcel.core.Op):
         self.right = None
 
     def __repr__(self):
-        assert self.keep != self.discard
-        behavior = 'keep' if self.keep else 'discard'
+        behavior = 'discard' if self.discard else 'keep'
         return f'filter({behavior}, {self.pipeline})'
 
     # AbstractOp
@@ -116,7 +115,7 @@ class Filter(marcel.core.Op):
     def receive(self, env, x):
         if self.right is None:
             self.load_right(env)
-        c = marcel.util.wrap_op_input(self.compare(*x))
+        c = marcel.util.wrap_op_input(self.call(env, self.compare, *x))
         try:
             if (c in self.right) == self.keep:
                 self.send(env, x)
-- 
2.43.0


From 7b898827c4744e02c00754402dc1f5df1399a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 016/109] fix: HOST and ITALIC must be immutable (missing comma
 joined them)

---
 marcel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index f07fad7..03db665 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -90,7 +90,7 @@ class Environment(object):
                                            'Color',
                                            'DIRS',
                                            'HOME',
-                                           'HOST'
+                                           'HOST',
                                            'ITALIC',
                                            'MARCEL_VERSION',
                                            'pos',
-- 
2.43.0


From a564987a5e226347ef84611965be745f6f010052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 017/109] fix: each builtin symbol must be bound to its own
 value in the initial namespace

---
 marcel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index 03db665..4eb4c30 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -155,7 +155,7 @@ class Environment(object):
         perm['set_db_default'] = lambda env: lambda db: env.workspace.setvar('DB_DEFAULT', db)
         for key, value in marcel.builtin.__dict__.items():
             if not key.startswith('_'):
-                perm[key] = lambda env: value
+                perm[key] = lambda env, value=value: value
         return perm
 
     def assign_permanent(self, var, value):
-- 
2.43.0


From 4c609b7d9a6f08aa77e3632b38e4bf86e07b312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 018/109] fix: deleting a variable must delete it from its
 scope

---
 marcel/object/workspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 74d5c10..11cb1db 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -149,7 +149,10 @@ class VarHandler(object):
         self.check_mutability(var)
         if var in self.namespace:
             self.vars_written.discard(var)
-            value = self.namespace.pop(var)
+            # Delete from the namespace's scopes too. (dict.pop would leave the variable in its scope, so that it would
+            # be persisted, and would return when the workspace is next opened.)
+            value = self.namespace[var]
+            del self.namespace[var]
             if type(value) is marcel.reservoir.Reservoir:
                 value.ensure_deleted()
             return value
-- 
2.43.0


From 0a0c7313e886ed4713ee0d5a6a2cb3391c3097b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 019/109] fix: leaving a pipeline's scope must restore the
 variables its parameters shadowed

---
 marcel/nestednamespace.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 1f82318..1009e47 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -308,6 +308,7 @@ class Scope(dict):
         self.parent = parent
         self.params = [] if params is None else params
         self.env = env
+        self.shadowed = {}
         if parent is None:
             # Must be topmost scope
             self.level = 0
@@ -412,7 +413,10 @@ class NestedNamespace(dict):
 
     def push_scope(self, bindings):
         assert self.env
-        self.scopes.append(Scope(self.env, self.current_scope(), bindings))
+        scope = Scope(self.env, self.current_scope(), bindings)
+        # The values hidden by the bindings, (which may be permanents, not in any scope), needed by pop_scope.
+        scope.shadowed = {var: self[var] for var in bindings if var in self}
+        self.scopes.append(scope)
         if bindings:
             for var, value in bindings.items():
                 self[var] = value
@@ -425,7 +429,8 @@ class NestedNamespace(dict):
         # - Insert (var, value) entries for remaining scopes, outermost first.
         popped_scope = self.scopes.pop()
         for var in popped_scope.keys():
-            super().__delitem__(var)
+            super().pop(var, None)
+        super().update(popped_scope.shadowed)
         # Don't have to reset the topmost scope, and that can be problematic anyway, e.g. if env isn't
         # known and EnvValue cache is unset.
         for scope in self.scopes[1:]:
-- 
2.43.0


From 584c22261d12e03e8286f6be277a4e4f83b86ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 020/109] fix: binding a pipeline to a pipeline parameter must
 not crash

---
 marcel/nestednamespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 1009e47..30624cc 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -123,7 +123,8 @@ class EnvValue(object):
             ev.assign(value, f'({source})')
         elif is_pipeline(value):
             ev = CompilablePipeline(env)
-            ev.assign(value, source)
+            # A pipeline bound to a pipeline parameter isn't accompanied by its source, but carries it.
+            ev.assign(value, source if source is not None else str(getattr(value, 'source', None) or value))
         else:
             ev = Simple(env)
             ev.assign(value)
-- 
2.43.0


From c6f3d5289c2b6a2a2c5dca5271c0155ad1ddbe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 021/109] fix: an import's name must survive saving and
 reopening a workspace

---
 marcel/nestednamespace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 30624cc..67097a5 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -245,11 +245,13 @@ class Import(EnvValue):
                 f'import({self.module}.{self.symbol} -> {self.name})')
 
     def to_persistent_state(self):
-        return {'module': self.module, 'symbol': self.symbol}
+        return {'module': self.module, 'symbol': self.symbol, 'name': self.name}
 
     def from_persistent_state(self, persisted):
         self.module = persisted['module']
         self.symbol = persisted['symbol']
+        # Older workspaces don't have name
+        self.name = persisted.get('name', self.symbol)
 
     def reconstitute(self):
         return (marcel.util.import_module(self.module)
-- 
2.43.0


From 806a85444fa03f1a89a4cda4976492d315be55ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 022/109] fix: bash must not fail if it receives no input

---
 marcel/op/bash.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 70e2748..e0c59d8 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -166,8 +166,9 @@ class NonInteractive(Escape):
             self.process.stdin.flush()
 
     def flush(self, env):
-        self.process.stdin.close()
-        self.output_handler.join()
+        if self.process is not None:
+            self.process.stdin.close()
+            self.output_handler.join()
 
     def cleanup(self):
         self.shutdown()
@@ -189,6 +190,9 @@ class NonInteractive(Escape):
             self.output_handler.start()
 
     def shutdown(self):
+        if self.output_handler is None:
+            # There was no input, so the command was never started.
+            return
         while self.output_handler.is_alive():
             self.output_handler.join(0.1)
         self.lock.acquire()
-- 
2.43.0


From 119ef85cdab0c3f0926bb0f4c51c78f67dc42d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 023/109] fix: ws must be usable in a pipeline variable (its
 copy field hid Op.copy)

---
 marcel/op/ws.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index f4f1ce9..228ecb1 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -135,7 +135,7 @@ class WsArgsParser(marcel.argsparser.ArgsParser):
         self.add_flag_no_value('delete_broken', '-b', '--delete-broken')
         self.add_flag_one_value('home', '-h', '--home')
         self.add_flag_one_value('rename', '-r', '--rename')
-        self.add_flag_one_value('copy', '-2', '--copy')
+        self.add_flag_one_value('copy', '-2', '--copy', target='copy_name')
         self.add_flag_one_value('export', '-e', '--export', target='exp')
         self.add_flag_one_value('import', '-i', '--import', target='imp')
         self.add_anon('name', default=None)
@@ -156,7 +156,7 @@ class Ws(marcel.core.Op):
         self.delete_broken = None
         self.home = None
         self.rename = None
-        self.copy = None
+        self.copy_name = None  # Not copy, which would hide Op.copy()
         self.exp = None
         self.imp = None
         self.name = None
@@ -184,7 +184,7 @@ class Ws(marcel.core.Op):
             self.impl = WsHome(self)
         elif self.rename is not None:
             self.impl = WsRename(self)
-        elif self.copy is not None:
+        elif self.copy_name is not None:
             self.impl = WsCopy(self)
         elif self.exp is not None:
             self.impl = WsExport(self)
@@ -390,7 +390,7 @@ class WsCopy(WsImpl):
         super().__init__(op, op.name)
 
     def __repr__(self):
-        return f'ws(copy {self.op.copy} {self.op.name})'
+        return f'ws(copy {self.op.copy_name} {self.op.name})'
 
     def setup(self, env):
         self.check_anon_arg_present('COPY_NAME')
-- 
2.43.0


From 0a60a61f3eb2c3d816b554ab76dfcf8564bea675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 024/109] fix: a workspace name must not designate the default
 workspace's directory or escape the workspace directory

---
 marcel/object/workspace.py | 8 ++++++++
 marcel/op/ws.py            | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 11cb1db..51b7d7f 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -351,6 +351,14 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         delete_subdirs(env.locations.config_bws())
         delete_subdirs(env.locations.data_bws())
 
+    # The name of a workspace (specified by the user) is used as the name of its directories.
+    @staticmethod
+    def check_name(name):
+        if (name in ('', '.', '..', marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME)
+                or pathlib.PurePath(name).name != name):
+            raise marcel.exception.KillCommandException(
+                f'Workspace name must be usable as a legal filename: {name}')
+
     # Internal
 
     def create_on_disk(self, initial_config_contents):
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index 228ecb1..c25d6f3 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -271,6 +271,7 @@ class WsNew(WsImpl):
 
     def setup(self, env):
         self.check_anon_arg_present('NAME')
+        Workspace.check_name(self.anon_arg)
 
     def run(self, env):
         name = self.op.new
@@ -293,6 +294,7 @@ class WsOpen(WsImpl):
 
     def setup(self, env):
         self.check_anon_arg_present('NAME')
+        Workspace.check_name(self.anon_arg)
 
     def run(self, env):
         name = self.op.open
@@ -331,6 +333,7 @@ class WsDelete(WsImpl):
 
     def setup(self, env):
         self.check_anon_arg_present('NAME')
+        Workspace.check_name(self.anon_arg)
 
     def run(self, env):
         name = self.op.delete
-- 
2.43.0


From c36f1780b762b246afa2a8fdd2b26c26a1d10d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 025/109] fix: a workspace whose owner died must be usable
 again

---
 marcel/object/workspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 51b7d7f..4cc6b90 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -476,7 +476,10 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                     marker_filename = file.name
                 else:
                     assert False, f'Multiple marker files in {self.locations.config_ws_startup(self)}'
-        assert marker_filename is not None
+        if marker_filename is None:
+            # The owner disappeared, and its marker has just been deleted, so now the workspace is unowned.
+            self.marker.ensure_exists()
+            return None
         return Workspace.marker_filename_pid(marker_filename)
 
     def validate(self):
-- 
2.43.0


From 63f51ef63e02df820b5a4606a42118d3e3db7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 026/109] fix: losing the race to lock a workspace must be
 reported as workspace in use

---
 marcel/object/workspace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 4cc6b90..3b62ea7 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -397,7 +397,11 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             # Lock the file by renaming it. Check for success, to guard against another process trying to
             # lock the same workspace.
             owned_marker_path = self.marker.owned()
-            self.marker.unowned().rename(owned_marker_path)
+            try:
+                self.marker.unowned().rename(owned_marker_path)
+            except FileNotFoundError:
+                # Another process locked it first.
+                return False
             return owned_marker_path.exists()
         elif owner == self.locations.pid:
             # Already locked
-- 
2.43.0


From ecd852897d04a919cd95c6930428975f2f7cc82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 027/109] fix: failing to save a workspace must not destroy its
 previously saved state, or leave it locked

---
 marcel/object/workspace.py | 51 +++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 3b62ea7..32fd6ee 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -263,20 +263,22 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def close(self, env, restart):
         # Relocking is okay, so this is a convenient way to test that the workspace is locked.
         if self.lock_workspace():
-            # Properties
-            self.write_properties()
-            # Reservoirs
-            for var, reservoir in self.reservoirs():
-                assert type(reservoir) is marcel.reservoir.Reservoir
-                reservoir.close()
-            # Environment
-            self.write_environment(self.persistent_state())
-            # Mark this workspace object as closed
-            self.properties = None
-            # Discard workspace
-            self.namespace = None
-            # Unlock
-            self.unlock_workspace()
+            try:
+                # Properties
+                self.write_properties()
+                # Reservoirs
+                for var, reservoir in self.reservoirs():
+                    assert type(reservoir) is marcel.reservoir.Reservoir
+                    reservoir.close()
+                # Environment
+                self.write_environment(self.persistent_state())
+            finally:
+                # Mark this workspace object as closed
+                self.properties = None
+                # Discard workspace
+                self.namespace = None
+                # Unlock
+                self.unlock_workspace()
         else:
             assert False, self
 
@@ -447,9 +449,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def write_properties(self):
         assert not self.is_default()
         self.properties.update_save_time()
-        with open(self.locations.data_ws_prop(self), 'wb') as properties_file:
-            pickler = dill.Pickler(properties_file)
-            pickler.dump(self.properties.to_persistent_state())
+        self.write_pickle(self.locations.data_ws_prop(self), self.properties.to_persistent_state())
 
     def read_environment(self):
             with open(self.locations.data_ws_env(self), 'rb') as environment_file:
@@ -458,9 +458,20 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     def write_environment(self, persistent_state):
         assert persistent_state is not None
-        with open(self.locations.data_ws_env(self), 'wb') as environment_file:
-            pickler = dill.Pickler(environment_file)
-            pickler.dump(persistent_state)
+        self.write_pickle(self.locations.data_ws_env(self), persistent_state)
+
+    # Write to a temporary file, and rename it only once it is complete. The previously saved state must not be
+    # lost if writing the new state fails, (e.g. because a variable's value can't be pickled).
+    def write_pickle(self, path, state):
+        temp_path = self.locations.data_ws_res(self, f'{path.name}.tmp')
+        try:
+            with open(temp_path, 'wb') as temp_file:
+                pickler = dill.Pickler(temp_file)
+                pickler.dump(state)
+            temp_path.replace(path)
+        except BaseException:
+            temp_path.unlink(missing_ok=True)
+            raise
 
     # Return pid of owning process, or None if unowned.
     def owner(self):
-- 
2.43.0


From 1a98c106b2b395309f43b6b2f61ed186e3b2cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 028/109] fix: a damaged default workspace must not cause all
 workspaces to be moved to broken

---
 marcel/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/main.py b/marcel/main.py
index d79147b..f050e7a 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -146,7 +146,9 @@ class MainScript(Main):
             for validation_error in errors:
                 marcel.util.print_to_stderr(self.env, str(validation_error))
                 ws_name = validation_error.workspace_name
-                broken_ws = Workspace (ws_name)
+                # The default workspace's name is ''. Workspace('') would designate the directory containing all
+                # workspaces.
+                broken_ws = Workspace.default() if ws_name == '' else Workspace(ws_name)
                 started_in_broken_ws = started_in_broken_ws or (self.env.workspace.name == ws_name)
                 broken_ws.mark_broken(now)
             if started_in_broken_ws:
-- 
2.43.0


From 7e4cfff4645b355d95465f21b8211bf2904ef9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 029/109] fix: a worker's failure must reach the parent, as an
 error

---
 marcel/op/forkmanager.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 804fe5a..18f8611 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -53,10 +53,6 @@ class SendToParent(marcel.core.Op):
         dump(f'{self} receive_error {error}')
         self.writer.send(dill.dumps(error))
 
-    def cleanup(self):
-        dump(f'{self} cleanup, close writer {id(self.writer)}')
-        self.writer.close()
-
 
 def run_pipeline_in_child(env, pipeline, thread_id, writer):
     try:
@@ -67,13 +63,14 @@ def run_pipeline_in_child(env, pipeline, thread_id, writer):
         params = pipeline.parameters()
         bindings = {} if len(params) == 0 else {params[0]: thread_id}
         dump(f'child running pipeline {pipeline}, writer {id(writer)}')
-        pipeline.run_pipeline(env, bindings)  # Closes writer
+        pipeline.run_pipeline(env, bindings)
     except BaseException as e:
         dump(f'caught {type(e)}: {e}')
         marcel.util.print_stack_of_current_exception()
-        writer.send(dill.dumps(e))
-        writer.close()
+        # The failure is an error, not data. And the writer must still be open.
+        writer.send(dill.dumps(marcel.object.error.Error(e)))
     finally:
+        writer.close()
         dump(f'closed writer {id(writer)}')
 
 
-- 
2.43.0


From 0789a7d338655acdac8a46037c16633a4226128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 030/109] fix: a function-valued pipeline has no ops to compile
 until it is called

---
 marcel/pipeline.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index e3d422a..131e659 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -490,6 +490,11 @@ class PipelineFunction(Pipeline):
             self.create_executable(env, bindings)
         assert self.executable is not None, self
 
+    def ensure_functions_compiled(self, env):
+        # The ops don't exist until the function is called, and their functions (API usage) need no compilation.
+        if self.executable:
+            self.executable.ensure_functions_compiled(env)
+
     # Pipeline - transmission
 
     def pickle(self, env, pickler):
-- 
2.43.0


From d9d57c6e5bc1b154f87b3a19652201e647184c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 031/109] fix: the parameters of a function-valued pipeline do
 not include its local variables

---
 marcel/pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 131e659..c62499e 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -444,7 +444,8 @@ class PipelineFunction(Pipeline):
         pass
 
     def parameters(self):
-        return self.function.__code__.co_varnames
+        code = self.function.__code__
+        return code.co_varnames[:code.co_argcount]
 
     def run_pipeline(self, env, bindings):
         self.create_executable(env, bindings)
-- 
2.43.0


From 85afa341d54f476af844dd48110281ae37111505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 032/109] fix: transmitting a function-valued pipeline must not
 fail for lack of bindings

---
 marcel/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index c62499e..d06e385 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -499,7 +499,7 @@ class PipelineFunction(Pipeline):
     # Pipeline - transmission
 
     def pickle(self, env, pickler):
-        self.ensure_executable(env)
+        self.ensure_executable(env, {})
         pickler.dump(self.executable)
 
     # PipelineFunction internal
-- 
2.43.0


From 96f791d55635343fb73a5482b2e153e9b954bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 033/109] fix: pos() must start over each time a pipeline is
 run

---
 marcel/core.py     | 3 +++
 marcel/pipeline.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/marcel/core.py b/marcel/core.py
index 4f32880..6e1505f 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -106,6 +106,9 @@ class Op(AbstractOp):
     def pos(self):
         return self._count
 
+    def reset_pos(self):
+        self._count = -1
+
     def run(self, env):
         if self.must_not_be_first_in_pipeline():
             raise marcel.exception.KillCommandException(f'{self.op_name()} cannot be the first operator in a pipeline')
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index d06e385..996bec2 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -59,6 +59,8 @@ class PipelineExecutable(object):
         for op in self.ops:
             if env.trace.is_enabled():
                 env.trace.write(op, 'SETUP')
+            # Positions, as reported by pos(), start over when the pipeline is run again.
+            op.reset_pos()
             op.setup(env)
         for op in self.ops:
             op.customize_pipelines(env)
-- 
2.43.0


From 0a26dbfff5235cb7920d9a4bd217b67b40500823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 034/109] fix: running an operator again must not append to its
 pipeline argument again

---
 marcel/op/args.py       | 8 +++++---
 marcel/op/difference.py | 6 ++++--
 marcel/op/filter.py     | 7 ++++---
 marcel/op/intersect.py  | 6 ++++--
 marcel/op/join.py       | 6 ++++--
 marcel/op/union.py      | 8 +++++---
 6 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/marcel/op/args.py b/marcel/op/args.py
index 365a5b7..97295bf 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -66,6 +66,7 @@ class Args(marcel.core.Op):
         super().__init__()
         self.all = None
         self.pipeline = None
+        self.customized = None  # pipeline, with redirection to this op appended
         self.n_params = None
         self.args = None
 
@@ -84,7 +85,7 @@ class Args(marcel.core.Op):
         self.args.append(unwrap_op_output(x))
         if not self.all and len(self.args) == self.n_params:
             try:
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.customized.run_pipeline(env, self.bindings())
             finally:
                 self.args.clear()
 
@@ -96,7 +97,7 @@ class Args(marcel.core.Op):
                 else:
                     while len(self.args) < self.n_params:
                         self.args.append(None)
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.customized.run_pipeline(env, self.bindings())
         finally:
             self.args.clear()
             # Need to ensure that flush is propagated, exactly once, no matter what happens
@@ -117,7 +118,8 @@ class Args(marcel.core.Op):
             raise marcel.exception.KillCommandException(error)
 
     def customize_pipelines(self, env):
-        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+        # Don't modify self.pipeline. Otherwise, running this op again would append another Redirect.
+        self.customized = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
diff --git a/marcel/op/difference.py b/marcel/op/difference.py
index af966ee..0c7996f 100644
--- a/marcel/op/difference.py
+++ b/marcel/op/difference.py
@@ -67,6 +67,7 @@ class Difference(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipeline = None
+        self.customized = None  # pipeline, with loading of right appended
         self.right = None
         self.first = None
 
@@ -80,7 +81,7 @@ class Difference(marcel.core.Op):
 
     def receive(self, env, x):
         if self.first:
-            self.pipeline.run_pipeline(env, {})
+            self.customized.run_pipeline(env, {})
             self.first = False
         try:
             count = self.right.get(x, None)
@@ -103,7 +104,8 @@ class Difference(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.right = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
+        # Don't modify self.pipeline. Otherwise, running this op again would append another loader.
+        self.customized = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
\ No newline at end of file
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index fddf3bd..a42411a 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -135,6 +135,7 @@ class Filter(marcel.core.Op):
             except TypeError:
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
         self.right = set()
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
-        self.pipeline.setup(env)
-        self.pipeline.run_pipeline(env, {})
+        # Don't modify self.pipeline. Otherwise, running this op again would append another loader.
+        customized = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
+        customized.setup(env)
+        customized.run_pipeline(env, {})
diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index 24b529e..608450a 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -61,6 +61,7 @@ class Intersect(marcel.core.Op):
         self.common = None  # item -> count: Accumulated intersection
         self.input = None   # item -> count: From one of the pipelines args
         self.pipelines = None
+        self.customized = None  # pipelines, with counting of inputs appended
 
     def __repr__(self):
         return f'intersect({self.pipelines})'
@@ -97,12 +98,13 @@ class Intersect(marcel.core.Op):
         for pipeline in self.pipelines:
             pipeline = pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', count_inputs))
             customized.append(pipeline)
-        self.pipelines = customized
+        # Don't modify self.pipelines. Otherwise, running this op again would append another counter.
+        self.customized = customized
 
     def ensure_args_consumed(self, env):
         if self.common is None:
             # Compute the intersection of all the pipeline args
-            for pipeline in self.pipelines:
+            for pipeline in self.customized:
                 self.input = {}
                 pipeline.run_pipeline(env, {})  # Populates self.input
                 if self.common is None:
diff --git a/marcel/op/join.py b/marcel/op/join.py
index 09cae51..b42d2e1 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -92,6 +92,7 @@ class Join(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipeline = None
+        self.customized = None  # pipeline, with loading of inner appended
         self.keep = None
         self.inner = None  # Map containing contents of pipelines, keyed by join value
         self.first = None
@@ -107,7 +108,7 @@ class Join(marcel.core.Op):
 
     def receive(self, env, x):
         if self.first:
-            self.pipeline.run_pipeline(env, {})
+            self.customized.run_pipeline(env, {})
             self.first = False
         x = tuple(x)
         join_value = x[0]
@@ -147,4 +148,5 @@ class Join(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.inner = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
+        # Don't modify self.pipeline. Otherwise, running this op again would append another loader.
+        self.customized = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
diff --git a/marcel/op/union.py b/marcel/op/union.py
index 9bd1191..5c7a798 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -57,6 +57,7 @@ class Union(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipelines = None
+        self.customized = None  # pipelines, with redirection to this op appended
 
     def __repr__(self):
         return 'union()'
@@ -73,7 +74,7 @@ class Union(marcel.core.Op):
         self.send(env, x)
 
     def flush(self, env):
-        for pipeline in self.pipelines:
+        for pipeline in self.customized:
             pipeline.run_pipeline(env, {})
         self.propagate_flush(env)
 
@@ -87,5 +88,6 @@ class Union(marcel.core.Op):
         # Union is implemented by passing the input stream along in receive(), and then having each pipeline
         # arg send its output, through this op, in flush. Redirect does not propagate the flush of a pipeline arg,
         # so downstream ops see exactly one flush, from this op, after everything is done.
-        self.pipelines = [pipeline.append_immutable(marcel.op.redirect.Redirect(self))
-                          for pipeline in self.pipelines]
+        # Don't modify self.pipelines. Otherwise, running this op again would append another Redirect.
+        self.customized = [pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+                           for pipeline in self.pipelines]
-- 
2.43.0


From a37d2b7a120c62148381b320dfacd3968dc93371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 035/109] fix: intersect must evaluate its arguments each time
 it is run

---
 marcel/op/intersect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index 608450a..a54088c 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -69,6 +69,8 @@ class Intersect(marcel.core.Op):
     def setup(self, env):
         for pipeline in self.pipelines:
             assert isinstance(pipeline, marcel.pipeline.Pipeline), type(pipeline)
+        self.common = None
+        self.input = None
 
     def receive(self, env, x):
         self.ensure_args_consumed(env)
-- 
2.43.0


From 92da512d56e80e81bc862f4660622cc16a7281fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 036/109] fix: case sets up a copy of its pipelines each time
 it is run

---
 marcel/op/case.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index 50ac6ec..f7ffaae 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -137,6 +137,8 @@ class Case(marcel.core.Op):
             try:
                 if not isinstance(pipeline, marcel.pipeline.Pipeline):
                     raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
+                # Setup a copy. The original is still intact the next time this op is run.
+                pipeline = pipeline.copy()
                 pipeline.setup(env)
                 return pipeline
             except Exception as e:
-- 
2.43.0


From cfc5de617832e29115c702c517e21f5406e64be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 037/109] fix: setting up or copying a PipelineOpList or
 PipelineFunction reaches the pipeline it wraps

PipelineOpList.setup did nothing, its copy shared the executable, and
PipelineFunction.append_immutable changed the original.
---
 marcel/pipeline.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 996bec2..5cb7325 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -377,7 +377,7 @@ class PipelineOpList(Pipeline):
     # Pipeline - execution
 
     def setup(self, env):
-        pass
+        self.executable.setup(env)
 
     def run_pipeline(self, env, bindings):
         try:
@@ -394,7 +394,7 @@ class PipelineOpList(Pipeline):
     # Pipeline - construction
 
     def copy(self):
-        return PipelineOpList(self.executable)
+        return PipelineOpList(self.executable.copy())
 
     def append_immutable(self, op):
         return PipelineOpList(self.executable.append_immutable(op))
@@ -480,10 +480,9 @@ class PipelineFunction(Pipeline):
             self.executable.append(op)
 
     def append_immutable(self, op):
-        self.customizations.ops.append(op)
-        if self.executable:
-            self.executable = self.executable.append_immutable(op)
-        return self
+        copy = self.copy()
+        copy.append(op)
+        return copy
 
     def route_output(self, receiver):
         self.customizations.receiver = receiver
-- 
2.43.0


From 53b71439a9103369c570e951ffc5ea97278313e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 038/109] fix: reverse must start empty each time it is run

---
 marcel/op/reverse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/reverse.py b/marcel/op/reverse.py
index 11b8893..95f41c9 100644
--- a/marcel/op/reverse.py
+++ b/marcel/op/reverse.py
@@ -38,10 +38,13 @@ class Reverse(marcel.core.Op):
 
     def __init__(self):
         super().__init__()
-        self.contents = []
+        self.contents = None
 
     # AbstractOp
 
+    def setup(self, env):
+        self.contents = []
+
     def receive(self, env, x):
         self.contents.append(x)
 
-- 
2.43.0


From b67d14fe922a43ab65861548545f1c0ed3226bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 039/109] fix: ps must keep the user and group it was given, so
 that it can be run again

---
 marcel/op/ps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marcel/op/ps.py b/marcel/op/ps.py
index 6028d22..3fd70a2 100644
--- a/marcel/op/ps.py
+++ b/marcel/op/ps.py
@@ -129,11 +129,11 @@ class Ps(marcel.core.Op):
         # user and group can be True if -u or -g are specified with no value.
         self.filter = lambda p: True
         if self.user is not None:
-            self.user = os.getuid() if self.user is True else Ps.convert_to_id(self.user, marcel.util.uid)
-            self.filter = lambda p: self.user in p.uids
+            user = os.getuid() if self.user is True else Ps.convert_to_id(self.user, marcel.util.uid)
+            self.filter = lambda p: user in p.uids
         if self.group is not None:
-            self.group = os.getgid() if self.group is True else Ps.convert_to_id(self.group, marcel.util.gid)
-            self.filter = lambda p: self.group in p.gids
+            group = os.getgid() if self.group is True else Ps.convert_to_id(self.group, marcel.util.gid)
+            self.filter = lambda p: group in p.gids
         if self.pid:
             try:
                 self.pid = int(self.pid)
-- 
2.43.0


From a7a09fbd2a88c70af479cad54b956be865403f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 040/109] fix: sudo must keep its args, so that it can be run
 again

---
 marcel/op/sudo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index c205093..fbbb5e4 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -74,6 +74,8 @@ class Sudo(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.args = None
+        self.command_args = None
+        self.pipeline = None
 
     def __repr__(self):
         return f'sudo({self.pipeline})'
@@ -83,7 +85,8 @@ class Sudo(marcel.core.Op):
     def setup(self, env):
         if len(self.args) == 0:
             raise marcel.exception.KillCommandException('Missing pipeline')
-        pipeline_arg = self.args.pop()
+        self.command_args = self.args[:-1]
+        pipeline_arg = self.args[-1]
         self.pipeline = marcel.pipeline.convert_to_pipeline(env, pipeline_arg)
         assert isinstance(self.pipeline, marcel.pipeline.Pipeline)
         if self.pipeline is None:
@@ -93,7 +96,7 @@ class Sudo(marcel.core.Op):
 
     def run(self, env):
         # Start the remote process
-        command = ' '.join(['sudo'] + self.args + ['farcel.py'])
+        command = ' '.join(['sudo'] + self.command_args + ['farcel.py'])
         self.process = subprocess.Popen(command,
                                         stdin=subprocess.PIPE,
                                         stdout=subprocess.PIPE,
-- 
2.43.0


From 9f6b8c3f6d99fa620b975914843f8b762eb161a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 041/109] fix: timer must not start with a tick of the previous
 run

---
 marcel/op/timer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/op/timer.py b/marcel/op/timer.py
index f583f00..59a18b9 100644
--- a/marcel/op/timer.py
+++ b/marcel/op/timer.py
@@ -60,6 +60,7 @@ class Timer(marcel.core.Op):
     
     def setup(self, env):
         self.lock = threading.Condition()
+        self.now = None
         self.metronome = Metronome(self)
 
     # AbstractOp
-- 
2.43.0


From 98d20558289e036bb26f5c0e34230eba76deac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 042/109] fix: a function-valued pipeline must not keep an
 executable whose setup failed

---
 marcel/pipeline.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 5cb7325..dc32940 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -451,17 +451,18 @@ class PipelineFunction(Pipeline):
 
     def run_pipeline(self, env, bindings):
         self.create_executable(env, bindings)
-        import os
         try:
-            self.executable.setup(env)
-        except marcel.exception.KillAndResumeException as e:
-            # KARE is fatal during setup.
-            raise marcel.exception.KillCommandException(str(e))
-        try:
-            self.executable.run(env)
-            self.executable.flush(env)
+            try:
+                self.executable.setup(env)
+            except marcel.exception.KillAndResumeException as e:
+                # KARE is fatal during setup.
+                raise marcel.exception.KillCommandException(str(e))
+            try:
+                self.executable.run(env)
+                self.executable.flush(env)
+            finally:
+                self.executable.cleanup()
         finally:
-            self.executable.cleanup()
             # Each time the pipeline is run, a new executable may be needed due to changes
             # in arg values. So remove the cached executable, which prevents regeneration
             # of the executable.
-- 
2.43.0


From 9d342454bc95021bca5e069a91d59079cd5c7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 043/109] fix: history must evaluate its limit each time it is
 run

---
 marcel/op/history.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/marcel/op/history.py b/marcel/op/history.py
index fba7f4b..2cfc89e 100644
--- a/marcel/op/history.py
+++ b/marcel/op/history.py
@@ -70,6 +70,7 @@ class History(marcel.core.Op):
         self.pattern = None
         self.all = None
         self.n = None
+        self.limit = None
 
     def __repr__(self):
         args = []
@@ -85,12 +86,12 @@ class History(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
-        self.n = self.eval_function(env, 'n', int)
-        if not self.all and self.n is None:
-            self.n = History.N_DEFAULT
-        if self.n is not None and self.n < 1:
+        self.limit = self.eval_function(env, 'n', int)
+        if not self.all and self.limit is None:
+            self.limit = History.N_DEFAULT
+        if self.limit is not None and self.limit < 1:
             raise marcel.exception.KillCommandException('n must be a posiive integer')
-        assert (not self.all and type(self.n) is int) or (self.all and self.n is None), self
+        assert (not self.all and type(self.limit) is int) or (self.all and self.limit is None), self
 
     def run(self, env):
         history = env.reader.history()
@@ -100,7 +101,7 @@ class History(marcel.core.Op):
             command = history[i]
             if self.pattern is None or self.pattern in command:
                 selected.append(marcel.object.historyrecord.HistoryRecord(n_history - 1 - i, command))
-                if len(selected) == self.n:
+                if len(selected) == self.limit:
                     break
         selected.reverse()
         for history_record in selected:
-- 
2.43.0


From 39d99426aa10326e1c7b8af709a9459e21f59dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 044/109] fix: sort must lose only the items for which the key
 function fails

---
 marcel/op/sort.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/marcel/op/sort.py b/marcel/op/sort.py
index 336a853..27f75f5 100644
--- a/marcel/op/sort.py
+++ b/marcel/op/sort.py
@@ -69,22 +69,20 @@ class Sort(marcel.core.Op):
 
     def receive(self, env, x):
         if self.contents is not None:
-            self.contents.append(x)
+            # Compute the key here, so that a failure of the key function costs only this input.
+            self.contents.append((self.call(env, self.key, *x) if self.key else x, x))
 
     def flush(self, env):
         if self.contents is not None:
             try:
-                if self.key:
-                    self.contents.sort(key=(lambda t: self.call(env, self.key, *t)))
-                else:
-                    self.contents.sort()
-                for x in self.contents:
-                    self.send(env, x)
-                # Reusing a sort after flush produces non-sorted data! So just clearing self.contents is inadequate.
-                # Setting self.contents to None will result in an obvious failure if this is attempted.
-                self.contents = None
+                self.contents.sort(key=lambda t: t[0])
             except TypeError as e:
                 raise marcel.exception.KillCommandException(e)
+            for _, x in self.contents:
+                self.send(env, x)
+            # Reusing a sort after flush produces non-sorted data! So just clearing self.contents is inadequate.
+            # Setting self.contents to None will result in an obvious failure if this is attempted.
+            self.contents = None
         self.propagate_flush(env)
 
     def must_not_be_first_in_pipeline(self):
-- 
2.43.0


From dad7203bc208ca04ecf1a173ddf054537dd284a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 045/109] fix: red must not accumulate part of an input for
 which a function fails

---
 marcel/op/red.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index 37b666a..56e5d04 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -201,11 +201,12 @@ class NonGroupingReducer(Reducer):
             op.fatal_error(env, x, 'Input too short.')
         accumulator = self.accumulator
         functions = op.functions
-        for i in range(self.n):
-            assert functions is not None
-            assert accumulator is not None
-            assert x is not None
-            accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
+        assert functions is not None
+        assert accumulator is not None
+        assert x is not None
+        # If a function fails, then none of the accumulated values may change.
+        accumulator = [op.call(env, functions[i], accumulator[i], x[i]) for i in range(self.n)]
+        self.accumulator = accumulator
         if op.incremental:
             op.send(env, x + tuple(accumulator))
 
@@ -233,10 +234,10 @@ class GroupingReducer(Reducer):
         accumulator = self.accumulators.get(group, None)
         if accumulator is None:
             accumulator = [None] * self.n
-            self.accumulators[group] = accumulator
-        for i in range(self.n):
-            reducer = op.functions[i]
-            accumulator[i] = x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i])
+        # If a function fails, then none of the accumulated values may change.
+        accumulator = [x[i] if op.functions[i].is_grouping() else op.call(env, op.functions[i], accumulator[i], x[i])
+                       for i in range(self.n)]
+        self.accumulators[group] = accumulator
         if op.incremental:
             op.send(env, x + tuple(self.data(accumulator)))
 
-- 
2.43.0


From cbfaf4866f02b14fba23dfb887b64191de86ca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 046/109] fix: an operator whose constructor has required args
 must be copyable

---
 marcel/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/core.py b/marcel/core.py
index 6e1505f..2ed8f80 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -131,7 +131,8 @@ class Op(AbstractOp):
         pass
 
     def copy(self):
-        copy = self.__class__()
+        # Bypass __init__, which may have required args. Everything it sets up is copied.
+        copy = self.__class__.__new__(self.__class__)
         copy.__dict__.update(self.__dict__)
         return copy
 
-- 
2.43.0


From 74f99acb051cdc54be5f164c19f695392a1d8fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 047/109] fix: errors from a pipeline argument of join,
 difference, intersect and filter must not be lost

---
 marcel/op/difference.py |  6 +++++-
 marcel/op/filter.py     |  6 +++++-
 marcel/op/intersect.py  |  6 +++++-
 marcel/op/join.py       |  6 +++++-
 marcel/op/redirect.py   | 10 ++++++++++
 5 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/marcel/op/difference.py b/marcel/op/difference.py
index 0c7996f..30f86cb 100644
--- a/marcel/op/difference.py
+++ b/marcel/op/difference.py
@@ -16,6 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.op.redirect
 import marcel.opmodule
 import marcel.object.error
 import marcel.pipeline
@@ -105,7 +106,10 @@ class Difference(marcel.core.Op):
 
         self.right = {}
         # Don't modify self.pipeline. Otherwise, running this op again would append another loader.
-        self.customized = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
+        # Errors from the pipeline are sent through this op.
+        self.customized = (self.pipeline
+                           .append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
+                           .append_immutable(marcel.op.redirect.RedirectErrors(self)))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
\ No newline at end of file
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index a42411a..22bf934 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -16,6 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.op.redirect
 import marcel.opmodule
 import marcel.object.error
 import marcel.pipeline
@@ -136,6 +137,9 @@ class Filter(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
         self.right = set()
         # Don't modify self.pipeline. Otherwise, running this op again would append another loader.
-        customized = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
+        # Errors from the pipeline are sent through this op.
+        customized = (self.pipeline
+                      .append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
+                      .append_immutable(marcel.op.redirect.RedirectErrors(self)))
         customized.setup(env)
         customized.run_pipeline(env, {})
diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index a54088c..d4667d0 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -16,6 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.op.redirect
 import marcel.opmodule
 import marcel.object.error
 import marcel.pipeline
@@ -98,7 +99,10 @@ class Intersect(marcel.core.Op):
 
         customized = []
         for pipeline in self.pipelines:
-            pipeline = pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', count_inputs))
+            # Errors from the pipeline are sent through this op.
+            pipeline = (pipeline
+                        .append_immutable(marcel.opmodule.create_op(env, 'map', count_inputs))
+                        .append_immutable(marcel.op.redirect.RedirectErrors(self)))
             customized.append(pipeline)
         # Don't modify self.pipelines. Otherwise, running this op again would append another counter.
         self.customized = customized
diff --git a/marcel/op/join.py b/marcel/op/join.py
index b42d2e1..c171602 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -16,6 +16,7 @@
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.op.redirect
 import marcel.opmodule
 import marcel.object.error
 import marcel.pipeline
@@ -149,4 +150,7 @@ class Join(marcel.core.Op):
 
         self.inner = {}
         # Don't modify self.pipeline. Otherwise, running this op again would append another loader.
-        self.customized = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
+        # Errors from the pipeline are sent through this op.
+        self.customized = (self.pipeline
+                           .append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
+                           .append_immutable(marcel.op.redirect.RedirectErrors(self)))
diff --git a/marcel/op/redirect.py b/marcel/op/redirect.py
index e6a1064..71b48e6 100644
--- a/marcel/op/redirect.py
+++ b/marcel/op/redirect.py
@@ -31,3 +31,13 @@ class Redirect(marcel.core.Op):
 
     def receive_error(self, env, error):
         self.parent.send_error(env, error)
+
+
+# For a pipeline whose output is consumed by its last op. There is nothing for the parent to send, except for errors.
+class RedirectErrors(Redirect):
+
+    def __repr__(self):
+        return 'redirecterrors()'
+
+    def receive(self, env, x):
+        pass
-- 
2.43.0


From c360efacc5ca093ec1130157d1bc06d97098593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 048/109] fix: write must not treat an error as data, and must
 pass errors on

---
 marcel/op/write.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index df23d78..58bf1c1 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -155,9 +155,10 @@ class Write(marcel.core.Op):
             self.send(env, x)
 
     def receive_error(self, env, error):
-        if env.trace.is_enabled():
-            env.trace.write(self, error)
-        self.writer.receive(env, error)
+        try:
+            self.writer.receive_error(env, error)
+        finally:
+            super().receive_error(env, error)
 
     def flush(self, env):
         self.writer.flush(env)
@@ -193,6 +194,11 @@ class Writer(object):
     def receive(self, env, x):
         assert False
 
+    # An error is not data, so it can't be formatted. Don't lose it if there is no other op to report it.
+    def receive_error(self, env, error):
+        if self.op.receiver is None:
+            marcel.util.print_to_stderr(env, error)
+
     def flush(self, env):
         pass
 
@@ -282,6 +288,9 @@ class DefaultWriter(TextWriter):
                 assert False, type(x)
         self.write_line(out)
 
+    def receive_error(self, env, error):
+        self.receive(env, error)
+
     def color_scheme(self):
         return self._color_scheme if self.output() == sys.__stdout__ else None
 
-- 
2.43.0


From 1f6cd74de079cda57624ffd02d77ed655c7660e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 049/109] fix: an Error from a sudo pipeline must flow
 downstream as an error, not as data

---
 marcel/op/sudo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index fbbb5e4..e217c43 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -22,6 +22,7 @@ import dill
 import marcel.argsparser
 import marcel.core
 import marcel.exception
+import marcel.object.error
 import marcel.pipeline
 import marcel.util
 
@@ -125,7 +126,11 @@ class Sudo(marcel.core.Op):
         input = dill.Unpickler(io.BytesIO(stdout))
         try:
             while True:
-                self.send(env, input.load())
+                x = input.load()
+                if isinstance(x, marcel.object.error.Error):
+                    self.send_error(env, x)
+                else:
+                    self.send(env, x)
         except EOFError:
             pass
 
-- 
2.43.0


From da7b8308f797376ac8b238d5ca4c0d7cfb238978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 050/109] fix: a failure to run a pipeline remotely must be
 reported as an error

---
 marcel/op/remote.py | 54 ++++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/marcel/op/remote.py b/marcel/op/remote.py
index 7301d64..33c9155 100644
--- a/marcel/op/remote.py
+++ b/marcel/op/remote.py
@@ -131,43 +131,37 @@ class Remote(marcel.core.Op):
         def run(self, env):
             # Start the remote process
             farcel_invocation = self.farcel_invocation(env)
+            buffer = io.BytesIO()
+            pickler = dill.Pickler(buffer)
+            pickler.dump(marcel.util.python_version())
+            pickler.dump(env.marcel_usage())
+            self.pipeline.pickle(env, pickler)
+            buffer.seek(0)
             self.process = subprocess.Popen(farcel_invocation,
                                             stdin=subprocess.PIPE,
                                             stdout=subprocess.PIPE,
                                             stderr=subprocess.PIPE,
                                             shell=True,
                                             universal_newlines=False)
-            buffer = io.BytesIO()
-            pickler = dill.Pickler(buffer)
-            try:
-                pickler.dump(marcel.util.python_version())
-                pickler.dump(env.marcel_usage())
-                self.pipeline.pickle(env, pickler)
-            except Exception as e:
-                print(f'Caught ({type(e)} {e}', file=sys.stderr)
-            buffer.seek(0)
+            # A failure is reported to the parent by run_pipeline_in_child.
+            stdout, stderr = self.process.communicate(input=buffer.getvalue())
+            stderr_lines = stderr.decode('utf-8').split('\n')
+            if len(stderr_lines[-1]) == 0:
+                del stderr_lines[-1]
+            sys.stdout.flush()
+            for line in stderr_lines:
+                print(line, file=sys.stderr)
+            sys.stderr.flush()
+            input = dill.Unpickler(io.BytesIO(stdout))
             try:
-                stdout, stderr = self.process.communicate(input=buffer.getvalue())
-                stderr_lines = stderr.decode('utf-8').split('\n')
-                if len(stderr_lines[-1]) == 0:
-                    del stderr_lines[-1]
-                sys.stdout.flush()
-                for line in stderr_lines:
-                    print(line, file=sys.stderr)
-                sys.stderr.flush()
-                input = dill.Unpickler(io.BytesIO(stdout))
-                try:
-                    while True:
-                        x = input.load()
-                        if isinstance(x, marcel.object.error.Error):
-                            self.send_error(env, x)
-                        else:
-                            self.send(env, x)
-                except EOFError as e:
-                    pass
-            except BaseException as e:
-                marcel.util.print_stack_of_current_exception()
-                print(e)
+                while True:
+                    x = input.load()
+                    if isinstance(x, marcel.object.error.Error):
+                        self.send_error(env, x)
+                    else:
+                        self.send(env, x)
+            except EOFError as e:
+                pass
 
         def farcel_invocation(self, env):
             cluster = self.host.cluster
-- 
2.43.0


From d48af1114855904d520b41e273db987180b1966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 051/109] fix: first must not drop an error

---
 marcel/op/apiop.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marcel/op/apiop.py b/marcel/op/apiop.py
index b3e3d8d..56b8878 100644
--- a/marcel/op/apiop.py
+++ b/marcel/op/apiop.py
@@ -39,7 +39,6 @@ class APIOp(marcel.core.Op):
             marcel.exception.StopAfterFirst()
 
     def receive_error(self, env, error):
+        self.output.append(error)
         if self.stop_after_first:
             marcel.exception.StopAfterFirst()
-        else:
-            self.output.append(error)
-- 
2.43.0


From 9d735d61f4686377a1b3d419104ec2af89f50456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 052/109] fix: first must stop the pipeline when it has its
 result

---
 marcel/op/apiop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/apiop.py b/marcel/op/apiop.py
index 56b8878..fe179be 100644
--- a/marcel/op/apiop.py
+++ b/marcel/op/apiop.py
@@ -36,9 +36,9 @@ class APIOp(marcel.core.Op):
             x = x[0]
         self.output.append(x)
         if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
+            raise marcel.exception.StopAfterFirst()
 
     def receive_error(self, env, error):
         self.output.append(error)
         if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
+            raise marcel.exception.StopAfterFirst()
-- 
2.43.0


From c674b08c6b4984ede47618f1380491e2ad7f91b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 053/109] fix: fatal_error must not discard an interrupt or a
 request to stop

---
 marcel/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 2ed8f80..5af92fe 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -146,11 +146,10 @@ class Op(AbstractOp):
         error = self.error(input=input, message=message)
         try:
             self.send_error(env, error)
-        except:
+        except Exception:
             # If the error occurred during setup, then send_error can't work
             pass
-        finally:
-            raise marcel.exception.KillAndResumeException(message)
+        raise marcel.exception.KillAndResumeException(message)
 
     def must_be_first_in_pipeline(self):
         return False
-- 
2.43.0


From 6e5604f19cfe5c600f94edc8bf8d200d006929a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 054/109] fix: a PickleFile used as a context manager must be
 closed, and not hide exceptions

---
 marcel/picklefile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index f832698..9524716 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -48,9 +48,8 @@ class PickleFile:
     def __enter__(self):
         return self.reader()
 
-    def __exit__(self):
+    def __exit__(self, exc_type, exc_value, traceback):
         self.close()
-        return self
 
     def reader(self):
         self.check_availability(self._writer is None)
-- 
2.43.0


From 558ad1304f93fea9838962b2c67d2e2a35407969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 055/109] fix: the child listener must not keep its lock when
 it stops

---
 marcel/job.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marcel/job.py b/marcel/job.py
index 0fd5e3e..63f3ca6 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -225,10 +225,11 @@ class ChildListener(threading.Thread):
             # Wait until a listener has something
             while not self.stop and len(self.listeners) == 0:
                 self.waiter.wait(1)
-            if self.stop:
-                return
+            stop = self.stop
             listeners = list(self.listeners)
             self.waiter.release()
+            if stop:
+                return
             # Process the listeners that are ready
             for listener in mpc.wait(listeners, 0.1):
                 try:
-- 
2.43.0


From b95b71d9b99d8ce8498a7e4046d2f92a7b91bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 056/109] fix: output written by an executable just before it
 terminates must not be lost

---
 marcel/op/bash.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index e0c59d8..4ee0bd1 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -252,10 +252,12 @@ class ProcessOutputHandler(threading.Thread):
         sel.register(process.stdout, selectors.EVENT_READ)
         sel.register(process.stderr, selectors.EVENT_READ)
         while True:
+            # Check for termination before looking for output: Output written just before termination must be read.
+            terminated = process.poll() is not None
             events = sel.select(timeout=0.1)
             lock.acquire()
             try:
-                if not events and process.poll() is not None:
+                if not events and terminated:
                     break
                 for key, _ in events:
                     stream = key.fileobj
-- 
2.43.0


From d9646189afb3e227b3365444d543fb7db53f8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 057/109] fix: a failure downstream of an executable must not
 be confined to the thread reading its output

---
 marcel/op/bash.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 4ee0bd1..7ea79fe 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -158,6 +158,7 @@ class NonInteractive(Escape):
 
     def receive(self, env, x):
         self.ensure_command_running(env)
+        self.check_output_handler()
         if x is not None:
             if len(x) == 1:
                 x = x[0]
@@ -169,6 +170,7 @@ class NonInteractive(Escape):
         if self.process is not None:
             self.process.stdin.close()
             self.output_handler.join()
+            self.check_output_handler()
 
     def cleanup(self):
         self.shutdown()
@@ -189,6 +191,10 @@ class NonInteractive(Escape):
             self.output_handler = ProcessOutputHandler(env, self)
             self.output_handler.start()
 
+    def check_output_handler(self):
+        if self.output_handler.failure is not None:
+            raise self.output_handler.failure
+
     def shutdown(self):
         if self.output_handler is None:
             # There was no input, so the command was never started.
@@ -243,8 +249,19 @@ class ProcessOutputHandler(threading.Thread):
         super().__init__()
         self.env = env
         self.owner = owner
+        self.failure = None
 
     def run(self):
+        try:
+            self.handle_output()
+        except BaseException as e:
+            # Raised on the thread running the pipeline, once it notices that this thread is done.
+            self.failure = e
+            # Nobody is going to read the rest of the output. Don't leave the process blocked, writing it.
+            self.owner.process.stdout.close()
+            self.owner.process.stderr.close()
+
+    def handle_output(self):
         process = self.owner.process
         op = self.owner.op
         lock = self.owner.lock
-- 
2.43.0


From fd31bbbd7901f0f8b5cb832d148ab7cee2f0820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 058/109] fix: an executable that does not read all of its
 input must not cause a crash

---
 marcel/op/bash.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 7ea79fe..3167f8b 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -162,13 +162,21 @@ class NonInteractive(Escape):
         if x is not None:
             if len(x) == 1:
                 x = x[0]
-            self.process.stdin.write(str(x))
-            self.process.stdin.write('\n')
-            self.process.stdin.flush()
+            try:
+                self.process.stdin.write(str(x))
+                self.process.stdin.write('\n')
+                self.process.stdin.flush()
+            except BrokenPipeError:
+                # The executable terminated, or closed its stdin. It doesn't need any more input.
+                pass
 
     def flush(self, env):
         if self.process is not None:
-            self.process.stdin.close()
+            try:
+                self.process.stdin.close()
+            except BrokenPipeError:
+                # There was buffered input, which the executable doesn't need.
+                pass
             self.output_handler.join()
             self.check_output_handler()
 
-- 
2.43.0


From 4cd4215967a8ad9e4887b462c69af299ae7a68d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 059/109] fix: the timer thread must stop when the pipeline
 does

---
 marcel/op/timer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marcel/op/timer.py b/marcel/op/timer.py
index 59a18b9..6375886 100644
--- a/marcel/op/timer.py
+++ b/marcel/op/timer.py
@@ -85,6 +85,10 @@ class Timer(marcel.core.Op):
             self.lock.release()
             self.send(env, now)
 
+    def cleanup(self):
+        if self.metronome is not None:
+            self.metronome.done = True
+
     # Op
 
     def must_be_first_in_pipeline(self):
@@ -106,8 +110,9 @@ class Metronome(threading.Thread):
         self.interval = op.interval
         self.timer = op
         self.daemon = True
+        self.done = False
 
     def run(self):
-        while True:
+        while not self.done:
             self.timer.register_tick()
             time.sleep(self.interval)
-- 
2.43.0


From 6f166819a2ceda30d064b5dab0626dda179c2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 060/109] fix: if setup of a pipeline fails, the ops that were
 set up must be cleaned up

---
 marcel/pipeline.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index dc32940..afecd03 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -56,14 +56,22 @@ class PipelineExecutable(object):
             if prev_op:
                 prev_op.receiver = op
             prev_op = op
-        for op in self.ops:
-            if env.trace.is_enabled():
-                env.trace.write(op, 'SETUP')
-            # Positions, as reported by pos(), start over when the pipeline is run again.
-            op.reset_pos()
-            op.setup(env)
-        for op in self.ops:
-            op.customize_pipelines(env)
+        setup_complete = []
+        try:
+            for op in self.ops:
+                if env.trace.is_enabled():
+                    env.trace.write(op, 'SETUP')
+                # Positions, as reported by pos(), start over when the pipeline is run again.
+                op.reset_pos()
+                op.setup(env)
+                setup_complete.append(op)
+            for op in self.ops:
+                op.customize_pipelines(env)
+        except BaseException:
+            # The pipeline isn't going to run. Don't leave open whatever was opened so far.
+            for op in setup_complete:
+                op.cleanup()
+            raise
 
     def run(self, env):
         if env.trace.is_enabled():
-- 
2.43.0


From c272012ec06b31576c4963b6295afb8e241da630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 061/109] fix: variables defined by marcel or the startup
 script must not be modifiable after startup

---
 marcel/env.py              | 4 +++-
 marcel/main.py             | 3 +++
 marcel/object/workspace.py | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index 4eb4c30..527072d 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -96,7 +96,8 @@ class Environment(object):
                                            'pos',
                                            'PROMPT',
                                            'PWD',
-                                           'USER'))
+                                           'USER',
+                                           'WORKSPACE'))
         self.platform = marcel.plat.Platform.create()
 
     def __getstate__(self):
@@ -119,6 +120,7 @@ class Environment(object):
         else:
             env = Environment.create(workspace=workspace, usage=usage)
         env.workspace.namespace.from_persistent_state(env, namespace)
+        env.enforce_var_immutability()
         env.trace = trace
         self.__dict__ = env.__dict__
 
diff --git a/marcel/main.py b/marcel/main.py
index f050e7a..2efff72 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -169,6 +169,8 @@ class MainScript(Main):
                     'Startup scripts, specified by run_on_startup(), must be strings')
             for command in commands_in_script(script):
                 self.parse_and_run_command(command)
+        # Startup is complete. From now on, variables defined by marcel or the startup script can't be modified.
+        self.env.enforce_var_immutability()
 
     @staticmethod
     def update_version_file():
@@ -348,6 +350,7 @@ def main_script_run(script):
             workspace = e.workspace_to_open
             env = marcel.env.Environment.create(workspace=workspace, trace=main.env.trace)
             main = MainScript(env)
+            main.run_startup_scripts()
 
 
 def read_heredoc():
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 32fd6ee..8a8af33 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -243,6 +243,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         self.create_on_disk(initial_config_contents)
 
     def open(self, env, initial_namespace=None):
+        # Startup (or restart) is permitted to modify variables.
+        self._enforce_immutability = False
         if self.exists():
             if self.lock_workspace():  # Always granted for default workspace
                 self.read_properties()  # Noop for default workspace
-- 
2.43.0


From 4512223b5a4a2393b8df0da52360fe9a6e9ac4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 062/109] fix: variables changed by a command that fails must
 be returned to the shell

---
 marcel/job.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/job.py b/marcel/job.py
index 63f3ca6..7ee161c 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -65,7 +65,11 @@ def run_command_in_child(env, command, writer):
     child_namespace_changes = None
     try:
         command.ensure_functions_compiled(env)
-        child_namespace_changes = command.execute(env, remote=True)
+        try:
+            command.execute(env, remote=True)
+        finally:
+            # Variables changed before a failure have changed nonetheless.
+            child_namespace_changes = env.changes()
         debug('execution complete')
     except marcel.exception.KillCommandException as e:
         debug(f'caught {e}')
-- 
2.43.0


From 68544be7b39d48eba5b5fbd8028716c1737dace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 063/109] fix: a worker must see the parameters of the
 pipelines containing it

---
 marcel/nestednamespace.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 67097a5..32bca76 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -445,9 +445,12 @@ class NestedNamespace(dict):
 
     def to_persistent_state(self):
         persistent = {}
-        for k, v in self.scopes[0].items():
-            assert isinstance(v, EnvValue), f'{k}: {v}'
-            persistent[k] = (v.__class__.__name__, v.to_persistent_state())
+        # There are inner scopes if the environment is being transmitted to another process while running a pipeline with
+        # parameters. Outermost first, so that a parameter hides a variable of the same name.
+        for scope in self.scopes:
+            for k, v in scope.items():
+                assert isinstance(v, EnvValue), f'{k}: {v}'
+                persistent[k] = (v.__class__.__name__, v.to_persistent_state())
         return persistent
 
     def from_persistent_state(self, env, persisted):
-- 
2.43.0


From f74c640d8daa4165a066f7ca6d9eb812e91780ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 064/109] fix: an error in a worker must be reported once

---
 marcel/op/forkmanager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 18f8611..c73e98b 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -64,6 +64,9 @@ def run_pipeline_in_child(env, pipeline, thread_id, writer):
         bindings = {} if len(params) == 0 else {params[0]: thread_id}
         dump(f'child running pipeline {pipeline}, writer {id(writer)}')
         pipeline.run_pipeline(env, bindings)
+    except marcel.exception.KillAndResumeException:
+        # The error has already been sent.
+        pass
     except BaseException as e:
         dump(f'caught {type(e)}: {e}')
         marcel.util.print_stack_of_current_exception()
-- 
2.43.0


From c363578ede53bf59fbc10d6fef7b9e46d8f5873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 065/109] fix: a change that cannot be applied must not end the
 thread applying the changes made by jobs

---
 marcel/job.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/job.py b/marcel/job.py
index 7ee161c..3c611a1 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -242,6 +242,9 @@ class ChildListener(threading.Thread):
                         self.child_completion_handler(dill.loads(input))
                 except EOFError:
                     to_remove.append(listener)
+                except (Exception, marcel.exception.KillCommandException) as e:
+                    # This thread has to survive, to handle the completion of other jobs.
+                    print(f'Unable to apply changes to variables made by a job: {e}', file=sys.stderr)
 
     def stop_listening(self):
         self.stop = True
-- 
2.43.0


From fb61a6873cfa37bda3b31528185d75a7e5c4564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 066/109] fix: symbols imported by a job must be returned to
 the shell

---
 marcel/nestednamespace.py  | 9 ++++++++-
 marcel/object/workspace.py | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 32bca76..038ca8e 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -14,6 +14,7 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
 import inspect
+import sys
 
 import marcel.core
 import marcel.env
@@ -112,7 +113,13 @@ class EnvValue(object):
     def wrap(env, value, source=None):
         def is_pipeline(value):
             return isinstance(value, marcel.pipeline.Pipeline)
-        if inspect.isbuiltin(value):
+
+        # A function (or class) without source, e.g. imported by a job.
+        def is_importable(value):
+            module = sys.modules.get(getattr(value, '__module__', None), None)
+            return module is not None and getattr(module, getattr(value, '__name__', ''), None) is value
+
+        if inspect.isbuiltin(value) or (source is None and is_importable(value)):
             ev = Function(env)
             ev.assign(value)
         elif inspect.ismodule(value):
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 8a8af33..2da2468 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -142,6 +142,7 @@ class VarHandler(object):
     def setvar_import(self, var, module, symbol, value):
         assert var is not None
         self.check_mutability(var)
+        self.vars_written.add(var)
         self.namespace.assign_import(var, module, symbol, value)
 
     def delvar(self, var):
-- 
2.43.0


From 1fb25cf6938d4ee5007697ae0467d67b18b5854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 067/109] fix: variables deleted by a job must be deleted from
 the shell

---
 marcel/main.py             |  6 +++++-
 marcel/object/workspace.py | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/marcel/main.py b/marcel/main.py
index 2efff72..c3bcc9b 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -253,7 +253,11 @@ class MainInteractive(MainScript):
             # PWD wasn't changed
             pass
         for var, value in child_namespace_changes.items():
-            self.env.setvar(var, value)
+            if value is Workspace.DeletedVar:
+                if self.env.hasvar(var):
+                    self.env.delvar(var)
+            else:
+                self.env.setvar(var, value)
 
     def check_for_config_update(self):
         config_path = self.env.locations.config_ws_startup(self.env.workspace)
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 2da2468..47b9d9b 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -106,6 +106,10 @@ class WorkspaceProperties(object):
 class VarHandler(object):
     MISSING_VAR = object()
 
+    # Represents, in changes(), the value of a var that was deleted. (A class, so that its identity survives transmission.)
+    class DeletedVar(object):
+        pass
+
     def __init__(self):
         self.namespace = None
         # Vars that must not be modified after marcel initialization.
@@ -113,6 +117,8 @@ class VarHandler(object):
         # Vars that have changed during execution of a command. Returned from Job execution
         # So that changes can be applied in the main process's namespace.
         self.vars_written = set()
+        # Vars that have been deleted during execution of a command.
+        self.vars_deleted = set()
         # Immutability of immutable_vars is enforced during normal operation.
         # Marcel startup/shutdown is permitted to change these vars by turning off
         # enforcement.
@@ -135,6 +141,7 @@ class VarHandler(object):
         self.check_mutability(var)
         current_value = self.namespace.get(var, None)
         self.vars_written.add(var)
+        self.vars_deleted.discard(var)
         if type(current_value) is marcel.reservoir.Reservoir and value != current_value:
             current_value.ensure_deleted()
         self.namespace.assign(var, value, source)
@@ -143,6 +150,7 @@ class VarHandler(object):
         assert var is not None
         self.check_mutability(var)
         self.vars_written.add(var)
+        self.vars_deleted.discard(var)
         self.namespace.assign_import(var, module, symbol, value)
 
     def delvar(self, var):
@@ -150,6 +158,7 @@ class VarHandler(object):
         self.check_mutability(var)
         if var in self.namespace:
             self.vars_written.discard(var)
+            self.vars_deleted.add(var)
             # Delete from the namespace's scopes too. (dict.pop would leave the variable in its scope, so that it would
             # be persisted, and would return when the workspace is next opened.)
             value = self.namespace[var]
@@ -180,10 +189,15 @@ class VarHandler(object):
             value = self.namespace.get(var, VarHandler.MISSING_VAR)
             if value is not VarHandler.MISSING_VAR:
                 changes[var] = value
+        for var in self.vars_deleted:
+            # If the var is present, then what was deleted was a pipeline param of the same name.
+            if var not in self.namespace:
+                changes[var] = VarHandler.DeletedVar
         return changes
 
     def clear_changes(self):
         self.vars_written.clear()
+        self.vars_deleted.clear()
 
     def add_written(self, var):
         self.vars_written.add(var)
-- 
2.43.0


From bd0b98b3cfb92709f0a8d8afdfdd82dab403db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 068/109] fix: functions evaluated during setup must be
 compiled in the process running the command

---
 marcel/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/core.py b/marcel/core.py
index 5af92fe..2865a46 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -171,6 +171,8 @@ class Op(AbstractOp):
         def call(x):
             try:
                 if isinstance(x, marcel.function.Function):
+                    # Compiled functions are not transmitted, (e.g. to a job's process), only their source.
+                    self.ensure_function_compiled(x, env)
                     x = self.call(env, x)
                 else:
                     x = x()
-- 
2.43.0


From 17821925f22420328cb0569ff030835289c7e214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 069/109] fix: functions of pipelines passed as arguments must
 be compiled in the process running the command

---
 marcel/op/runpipeline.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index bf38942..70030d1 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -75,6 +75,13 @@ class RunPipeline(marcel.core.Op):
 
     # Op
 
+    def ensure_functions_compiled(self, env):
+        # An arg can be a pipeline. Functions are also compiled when they are evaluated, during setup.
+        for args in (self.args_arg, self.kwargs_arg.values() if self.kwargs_arg else None):
+            for arg in args or []:
+                if isinstance(arg, marcel.pipeline.Pipeline):
+                    arg.ensure_functions_compiled(env)
+
     def run(self, env):
         bindings = self.bindings()
         env.vars().push_scope(bindings)
-- 
2.43.0


From 17bf7026fdc7c80d4c3151188b5a8dba6d91c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 070/109] fix: case must not set up its pipelines before
 parameters are bound

---
 marcel/op/case.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index f7ffaae..cbe5235 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -118,13 +118,13 @@ class Case(marcel.core.Op):
             self.default_pipeline.cleanup()
 
     def ensure_functions_compiled(self, env):
-        self.ensure_args_processed(env)
-        for branch in self.branches:
-            self.ensure_function_compiled(branch.predicate, env)
-        for pipeline in self.pipelines:
-            pipeline.ensure_functions_compiled(env)
-        if self.default_pipeline:
-            self.default_pipeline.ensure_functions_compiled(env)
+        # Don't process the args. That sets up the pipelines, whose parameters (and those of enclosing pipelines)
+        # have not been bound yet. The args will be processed, yielding copies of these pipelines, during setup.
+        for arg in self.args:
+            if isinstance(arg, marcel.pipeline.Pipeline):
+                arg.ensure_functions_compiled(env)
+            else:
+                self.ensure_function_compiled(arg, env)
 
     # Internal
 
-- 
2.43.0


From 4d63736a0ec84722248605c787b2958e67fc6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 071/109] fix: jobs, upload and download take no input, join
 needs input

---
 marcel/op/download.py | 7 +++++++
 marcel/op/jobs.py     | 3 +++
 marcel/op/join.py     | 3 +++
 marcel/op/upload.py   | 7 +++++++
 4 files changed, 20 insertions(+)

diff --git a/marcel/op/download.py b/marcel/op/download.py
index cb4cf26..0d3759c 100644
--- a/marcel/op/download.py
+++ b/marcel/op/download.py
@@ -110,6 +110,13 @@ class Download(marcel.core.Op):
     def run(self, env):
         self.fork_manager.run(env)
 
+    # Op
+
+    def must_be_first_in_pipeline(self):
+        return True
+
+    # Internal
+
     @staticmethod
     def scp_command(sources, host, dest):
         cluster = host.cluster
diff --git a/marcel/op/jobs.py b/marcel/op/jobs.py
index 1c3d0b6..b793bef 100644
--- a/marcel/op/jobs.py
+++ b/marcel/op/jobs.py
@@ -64,5 +64,8 @@ class Jobs(marcel.core.Op):
 
     # Op
 
+    def must_be_first_in_pipeline(self):
+        return True
+
     def run_in_main_process(self):
         return True
diff --git a/marcel/op/join.py b/marcel/op/join.py
index c171602..7698512 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -129,6 +129,9 @@ class Join(marcel.core.Op):
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
 
+    def must_not_be_first_in_pipeline(self):
+        return True
+
     # Internal
 
     def customize_pipelines(self, env):
diff --git a/marcel/op/upload.py b/marcel/op/upload.py
index bfd24a2..9959ba2 100644
--- a/marcel/op/upload.py
+++ b/marcel/op/upload.py
@@ -106,6 +106,13 @@ class Upload(marcel.core.Op):
     def run(self, env):
         self.fork_manager.run(env)
 
+    # Op
+
+    def must_be_first_in_pipeline(self):
+        return True
+
+    # Internal
+
     @staticmethod
     def scp_command(host, sources, dest):
         sources = marcel.util.quote_files(*sources)
-- 
2.43.0


From 1078a5ee2612d9a5f023da82e16284eb7d7123d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 072/109] fix: join must report an item that has no join value

---
 marcel/op/join.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/join.py b/marcel/op/join.py
index 7698512..f3ba00f 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -112,6 +112,8 @@ class Join(marcel.core.Op):
             self.customized.run_pipeline(env, {})
             self.first = False
         x = tuple(x)
+        if len(x) == 0:
+            self.fatal_error(env, x, 'Cannot join, no join value')
         join_value = x[0]
         try:
             match = self.inner.get(join_value, None)
-- 
2.43.0


From 683d1926cbccf025d09508a02a7d9ce75289a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 073/109] fix: describing an operator must not fail

---
 marcel/op/env.py     | 2 +-
 marcel/op/ls.py      | 2 +-
 marcel/op/reverse.py | 3 +++
 marcel/op/trace.py   | 2 +-
 marcel/op/ws.py      | 3 ++-
 marcel/pipeline.py   | 2 +-
 6 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/marcel/op/env.py b/marcel/op/env.py
index ef9ac87..5a077ec 100644
--- a/marcel/op/env.py
+++ b/marcel/op/env.py
@@ -115,7 +115,7 @@ class Env(marcel.core.Op):
         if self.pattern:
             buffer.append(f'pattern {self.pattern}')
         if self.var:
-            buffer.append(self.var)
+            buffer.append(f'{self.var}')
         return f'env({", ".join(buffer)})'
 
     # AbstractOp
diff --git a/marcel/op/ls.py b/marcel/op/ls.py
index f0cf6da..0988f32 100644
--- a/marcel/op/ls.py
+++ b/marcel/op/ls.py
@@ -100,7 +100,7 @@ class Ls(marcel.op.filenamesop.FilenamesOp):
         if len(include) > 0:
             buffer.append(f'include={include}')
         if self.filenames:
-            buffer.extend(self.filenames)
+            buffer.extend(str(filename) for filename in self.filenames)
         args = ','.join(buffer)
         return f'ls({args})'
 
diff --git a/marcel/op/reverse.py b/marcel/op/reverse.py
index 95f41c9..927ae02 100644
--- a/marcel/op/reverse.py
+++ b/marcel/op/reverse.py
@@ -40,6 +40,9 @@ class Reverse(marcel.core.Op):
         super().__init__()
         self.contents = None
 
+    def __repr__(self):
+        return 'reverse()'
+
     # AbstractOp
 
     def setup(self, env):
diff --git a/marcel/op/trace.py b/marcel/op/trace.py
index 6ccc45c..04160b8 100644
--- a/marcel/op/trace.py
+++ b/marcel/op/trace.py
@@ -84,7 +84,7 @@ class Trace(marcel.core.Op):
         if self.off:
             buffer.append('off')
         if self.filename:
-            buffer.append(self.filename)
+            buffer.append(str(self.filename))
         buffer.append(')')
         return ''.join(buffer)
 
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index c25d6f3..2c3be00 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -163,7 +163,8 @@ class Ws(marcel.core.Op):
         self.impl = None
 
     def __repr__(self):
-        return self.impl.__repr__()
+        # impl is assigned during setup
+        return 'ws()' if self.impl is None else self.impl.__repr__()
 
     # AbstractOp
 
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index afecd03..ea0fe54 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -428,7 +428,7 @@ class PipelineFunction(Pipeline):
         def __repr__(self):
             buffer = [str(op) for op in self.ops]
             if self.receiver:
-                buffer.append(self.receiver)
+                buffer.append(str(self.receiver))
             return f'({", ".join(buffer)})'
 
         def copy(self):
-- 
2.43.0


From de95f8a5b33ff7228d1d91c632734e93405c98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 074/109] fix: a deleted file held by a variable must not
 prevent jobs from running or workspaces from being saved

---
 marcel/object/file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marcel/object/file.py b/marcel/object/file.py
index 44a67b9..c2eca0f 100644
--- a/marcel/object/file.py
+++ b/marcel/object/file.py
@@ -91,8 +91,12 @@ class File(marcel.object.renderable.Renderable):
 
     def __getstate__(self):
         # Ensure metadata is present before transmission
-        self._is_executable()
-        self._lstat()
+        try:
+            self._is_executable()
+            self._lstat()
+        except (OSError, RuntimeError, marcel.exception.KillAndResumeException):
+            # The file has been deleted, or is inaccessible. There is no metadata to transmit.
+            pass
         state = self.__dict__.copy()
         state['compact_path'] = None
         # Send strings, not paths
-- 
2.43.0


From 58ab107936a4ad2fecd307970e5717ab67e72c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 075/109] fix: running a job must not stop tracing

---
 marcel/env.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index 527072d..e370a06 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -356,8 +356,10 @@ class Trace(object):
         self.description = None
 
     def __getstate__(self):
-        self.tracefile = None
-        return self.__dict__
+        # Don't modify this object. Tracing continues in this process.
+        state = self.__dict__.copy()
+        state['tracefile'] = None
+        return state
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-- 
2.43.0


From 5b95664c52f12ea38b9115fb65495c45572e7c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 076/109] fix: API functions hand the requested arguments to
 the operator

---
 marcel/op/dirs.py      |  2 +-
 marcel/op/edit.py      |  8 +++++---
 marcel/op/intersect.py |  9 ++++++---
 marcel/op/ps.py        | 20 ++++++++++++++------
 marcel/op/ws.py        |  8 ++++----
 5 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/marcel/op/dirs.py b/marcel/op/dirs.py
index 971a7b6..61b435d 100644
--- a/marcel/op/dirs.py
+++ b/marcel/op/dirs.py
@@ -29,7 +29,7 @@ Write the entries in the directory stack to the output stream, top first.
 
 
 def dirs(clear=None):
-    return Dirs(), [] if clear is None else ['--clear']
+    return Dirs(), ['--clear'] if clear else []
 
 
 class DirsArgsParser(marcel.argsparser.ArgsParser):
diff --git a/marcel/op/edit.py b/marcel/op/edit.py
index f3aac87..e110448 100644
--- a/marcel/op/edit.py
+++ b/marcel/op/edit.py
@@ -51,8 +51,10 @@ def edit(n=None, startup=False):
     if n is not None:
         args.append(n)
     if startup:
-        args.append(startup)
-    return Edit(), [] if n is None else [n]
+        args.append('--startup')
+        if startup is not True:
+            args.append(startup)
+    return Edit(), args
 
 
 class EditArgsParser(marcel.argsparser.ArgsParser):
@@ -88,7 +90,7 @@ class Edit(marcel.core.Op):
             workspace = env.workspace
         else:
             workspace = marcel.object.workspace.Workspace.named(self.ws_name)
-            if not workspace.exists(env):
+            if not workspace.exists():
                 raise marcel.exception.KillCommandException(f'Workspace does not exist: {self.ws_name}')
         marcel.runeditor.edit_file(env, env.locations.config_ws_startup(workspace))
 
diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index d4667d0..9eebd10 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -40,9 +40,12 @@ output is unspecified.
 '''
 
 
-def intersect(pipeline):
-    assert isinstance(pipeline, marcel.pipeline.OpList), pipeline
-    return Intersect(), [pipeline]
+def intersect(*pipelines):
+    args = []
+    for pipeline in pipelines:
+        assert isinstance(pipeline, marcel.pipeline.OpList), pipeline
+        args.append(pipeline)
+    return Intersect(), args
 
 
 class IntersectArgsParser(marcel.argsparser.ArgsParser):
diff --git a/marcel/op/ps.py b/marcel/op/ps.py
index 3fd70a2..f9c1ed0 100644
--- a/marcel/op/ps.py
+++ b/marcel/op/ps.py
@@ -85,12 +85,20 @@ _UNINITIALIZED = Uninitialized()
 
 
 def ps(user=_UNINITIALIZED, group=_UNINITIALIZED, pid=_UNINITIALIZED, command=_UNINITIALIZED):
-    op = Ps()
-    op.user = user
-    op.group = group
-    op.pid = pid
-    op.command = command
-    return op, []
+    args = []
+    if user is not _UNINITIALIZED:
+        args.append('--user')
+        if user is not None and user is not True:
+            args.append(user)
+    if group is not _UNINITIALIZED:
+        args.append('--group')
+        if group is not None and group is not True:
+            args.append(group)
+    if pid is not _UNINITIALIZED:
+        args.extend(['--pid', pid])
+    if command is not _UNINITIALIZED:
+        args.extend(['--command', command])
+    return Ps(), args
 
 
 class PsArgsParser(marcel.argsparser.ArgsParser):
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index 2c3be00..8b217d1 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -29,7 +29,7 @@ HELP = '''
 {L,wrap=F}ws [-c|--close]
 {L,wrap=F}ws [-h|--home] DIR
 {L,wrap=F}ws [-d|--delete] NAME
-{L,wrap=F}ws [-b|--delete_broken] 
+{L,wrap=F}ws [-b|--delete-broken] 
 {L,wrap=F}ws [-r|--rename] OLD_NAME NEW_NAME
 {L,wrap=F}ws [-2|--copy] NAME COPY_NAME
 {L,wrap=F}ws [-e|--export] NAME MWS_FILENAME
@@ -115,11 +115,11 @@ def ws(list=False,
     if copy:
         args.extend(['--copy', copy])
     if exp:
-        args.extend(['--exp', exp])
+        args.extend(['--export', exp])
     if imp:
-        args.extend(['--imp', imp])
+        args.extend(['--import', imp])
     if name:
-        args.append('name')
+        args.append(name)
     return Ws(), args
 
 
-- 
2.43.0


From e41bcce12331881f1fa01d159352279dc4417bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 077/109] fix: fg and bg can identify a job by option

---
 marcel/op/bg.py    | 8 +++++++-
 marcel/op/fg.py    | 6 ++++++
 marcel/op/jobop.py | 2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/marcel/op/bg.py b/marcel/op/bg.py
index d6f3505..2c85fa0 100644
--- a/marcel/op/bg.py
+++ b/marcel/op/bg.py
@@ -20,10 +20,16 @@ job_control = marcel.job.JobControl.only
 
 
 HELP = '''
-{L}bg JOB
+{L,wrap=F}bg JOB
+{L,wrap=F}bg -j|--job JOB
+{L,wrap=F}bg -p|--process PID
 
 {L,indent=4:28}{r:JOB}                     The number of the job to be run in the background.
 
+{L,indent=4:28}{r:-j}, {r:--job}               The number of the job, {r:JOB}.
+
+{L,indent=4:28}{r:-p}, {r:--process}           The process running the job is {r:PID}.
+
 Resumes background execution of a suspended job. The {r:JOB} number is the one
 provided by the {n:jobs} operator.
 '''
diff --git a/marcel/op/fg.py b/marcel/op/fg.py
index 2eb829c..8f06544 100644
--- a/marcel/op/fg.py
+++ b/marcel/op/fg.py
@@ -18,9 +18,15 @@ import marcel.op.jobop
 
 HELP = '''
 {L,wrap=F}fg JOB
+{L,wrap=F}fg -j|--job JOB
+{L,wrap=F}fg -p|--process PID
 
 {L,indent=4:28}{r:JOB}                     The number of the job to be brought into foreground.
 
+{L,indent=4:28}{r:-j}, {r:--job}               The number of the job, {r:JOB}.
+
+{L,indent=4:28}{r:-p}, {r:--process}           The process running the job is {r:PID}.
+
 Makes a specified job run in the foreground.
 The {r:JOB} number is the one
 provided by the {n:jobs} operator. The new foreground job
diff --git a/marcel/op/jobop.py b/marcel/op/jobop.py
index 8eabc4d..52df1af 100644
--- a/marcel/op/jobop.py
+++ b/marcel/op/jobop.py
@@ -25,7 +25,7 @@ class JobOpArgsParser(marcel.argsparser.ArgsParser):
         super().__init__(op_name, env)
         self.add_flag_one_value('jid', '-j', '--job', convert=self.str_to_int)
         self.add_flag_one_value('pid', '-p', '--process', convert=self.str_to_int)
-        self.add_anon('job_id', convert=self.str_to_int)
+        self.add_anon('job_id', convert=self.str_to_int, default=None)
         self.exactly_one('jid', 'pid', 'job_id')
         self.validate()
 
-- 
2.43.0


From 636f295066924d42cb9c486c64467dd9dbb021e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 078/109] fix: operators report errors and document options
 under the right name

---
 marcel/op/cast.py  | 2 +-
 marcel/op/write.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/cast.py b/marcel/op/cast.py
index 0cd8527..dde0aab 100644
--- a/marcel/op/cast.py
+++ b/marcel/op/cast.py
@@ -38,7 +38,7 @@ def cast(*functions):
 class CastArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
-        super().__init__('gen', env)
+        super().__init__('cast', env)
         self.add_anon_list('types')
         self.validate()
 
diff --git a/marcel/op/write.py b/marcel/op/write.py
index 58bf1c1..d1d4d53 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -52,7 +52,7 @@ tuples are formatted and written to stdout or to the specified {r:FILENAME}.
 If {r:FILENAME} already exists, its contents will be replaced, unless {r:--append} is specified,
 in which case the stream will be appended. {r:--append} is not permitted for writing to stdout.
  
-The formatting options {r:--csv}, {r:-tsv} {r:--pickle}, and {r:--format} options are mutually exclusive.
+The formatting options {r:--csv}, {r:--tsv}, {r:--pickle}, and {r:--format} are mutually exclusive.
 If no formatting options are specified, then the default rendering is used, except
 that 1-tuples are unwrapped. (Note that for certain objects, including
 {r:File} and {r:Process}, the default rendering is specified by the {n:render_compact()}
-- 
2.43.0


From b2e9ea9fca8b100f90264379ef8845208827e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:04 +0000
Subject: [PATCH 079/109] fix: fg and bg report an unknown process id

---
 marcel/op/jobop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/jobop.py b/marcel/op/jobop.py
index 52df1af..5edaadb 100644
--- a/marcel/op/jobop.py
+++ b/marcel/op/jobop.py
@@ -48,6 +48,8 @@ class JobOp(marcel.core.Op):
         if self.jid is not None and self.jid >= len(job_control.jobs()):
             raise marcel.exception.KillCommandException(f'There is no job {self.jid}')
         self.job = job_control.job(jid=self.jid, pid=self.pid)
+        if self.job is None:
+            raise marcel.exception.KillCommandException(f'There is no job with process id {self.pid}')
 
     def run(self, env):
         self.action()
-- 
2.43.0


From f0431aae2f655fe1e8f274b8346a7570fa4ff8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:04 +0000
Subject: [PATCH 080/109] fix: sql help names an option; help for assign is not
 available

---
 marcel/op/help.py | 2 +-
 marcel/op/sql.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/help.py b/marcel/op/help.py
index 4240b27..ed1bab2 100644
--- a/marcel/op/help.py
+++ b/marcel/op/help.py
@@ -63,7 +63,7 @@ class Help(marcel.core.Op):
 
     def run(self, env):
         op_module = env.op_modules.get(self.topic, None)
-        help_text = Help.op_help(env, op_module) if op_module else self.topic_help(env)
+        help_text = Help.op_help(env, op_module) if op_module and op_module.help() else self.topic_help(env)
         self.send(env, help_text)
         self.send(env, '')
 
diff --git a/marcel/op/sql.py b/marcel/op/sql.py
index 0c91906..834c1dd 100644
--- a/marcel/op/sql.py
+++ b/marcel/op/sql.py
@@ -50,7 +50,7 @@ these arguments:
 to the SQL statement's parameters, and then the statement is executed.
 
 If the SQL statement is {n:SELECT} then rows returned from the query are written to the output stream.
-In other cases, the update count is written to the output stream if {r:--update} is specified.
+In other cases, the update count is written to the output stream if {r:--update-counts} is specified.
 
 Commit is handled in one of three ways:
 
-- 
2.43.0


From 7c3d1a429ffac418c595b42cdcc3951ab0a8cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 081/109] fix: every op is cleaned up, including one whose
 setup failed, and although cleanup of another fails

---
 marcel/op/bash.py  |  3 ++-
 marcel/op/case.py  |  8 ++++----
 marcel/op/load.py  |  7 +++++++
 marcel/op/sql.py   |  4 +++-
 marcel/op/store.py |  4 +++-
 marcel/op/write.py | 12 +++++++++---
 marcel/pipeline.py | 25 ++++++++++++++++++-------
 7 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 3167f8b..002c39d 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -120,7 +120,8 @@ class Bash(marcel.core.Op):
         self.propagate_flush(env)
 
     def cleanup(self):
-        self.escape.cleanup()
+        if self.escape is not None:
+            self.escape.cleanup()
 
 
 class Escape:
diff --git a/marcel/op/case.py b/marcel/op/case.py
index cbe5235..f599fe3 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -112,10 +112,9 @@ class Case(marcel.core.Op):
         self.propagate_flush(env)
 
     def cleanup(self):
-        for branch in self.branches:
-            branch.pipeline.cleanup()
-        if self.default_pipeline:
-            self.default_pipeline.cleanup()
+        # setup might have failed, having set up some of the pipelines.
+        for pipeline in self.pipelines or []:
+            pipeline.cleanup()
 
     def ensure_functions_compiled(self, env):
         # Don't process the args. That sets up the pipelines, whose parameters (and those of enclosing pipelines)
@@ -140,6 +139,7 @@ class Case(marcel.core.Op):
                 # Setup a copy. The original is still intact the next time this op is run.
                 pipeline = pipeline.copy()
                 pipeline.setup(env)
+                self.pipelines.append(pipeline)
                 return pipeline
             except Exception as e:
                 raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
diff --git a/marcel/op/load.py b/marcel/op/load.py
index f8ee8a4..2a91f4e 100644
--- a/marcel/op/load.py
+++ b/marcel/op/load.py
@@ -109,5 +109,12 @@ class Load(marcel.core.Op):
             self.reader.close()
             raise
 
+    def cleanup(self):
+        if self.reader is not None:
+            self.reader.close()
+            self.reader = None
+
+    # Op
+
     def must_be_first_in_pipeline(self):
         return True
diff --git a/marcel/op/sql.py b/marcel/op/sql.py
index 834c1dd..79122bb 100644
--- a/marcel/op/sql.py
+++ b/marcel/op/sql.py
@@ -177,7 +177,9 @@ class Sql(marcel.core.Op):
             self.propagate_flush(env)
 
     def cleanup(self):
-        self.connection.close()
+        if self.connection is not None:
+            self.connection.close()
+            self.connection = None
 
     # For use by this class
 
diff --git a/marcel/op/store.py b/marcel/op/store.py
index 056ff9d..55971c9 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -127,4 +127,6 @@ class Store(marcel.core.Op):
             raise
 
     def cleanup(self):
-        self.writer.close()
+        if self.writer is not None:
+            self.writer.close()
+            self.writer = None
diff --git a/marcel/op/write.py b/marcel/op/write.py
index d1d4d53..b99d748 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -165,7 +165,9 @@ class Write(marcel.core.Op):
         super().flush(env)
 
     def cleanup(self):
-        self.writer.cleanup()
+        # There is no writer if setup failed.
+        if self.writer is not None:
+            self.writer.cleanup()
 
     # For use by this class
 
@@ -215,9 +217,13 @@ class TextWriter(Writer):
         super().__init__(op)
         self._output = None
 
+    def flush(self, env):
+        # Create the file even if there is nothing to write.
+        self.output()
+
     def cleanup(self):
-        if self.output() != sys.stdout:
-            self.output().close()
+        if self.op.filename and self._output is not None:
+            self._output.close()
 
     def write_line(self, x):
         print(x, file=self.output(), flush=True)
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index ea0fe54..13b76a2 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -56,21 +56,21 @@ class PipelineExecutable(object):
             if prev_op:
                 prev_op.receiver = op
             prev_op = op
-        setup_complete = []
+        setup_started = []
         try:
             for op in self.ops:
                 if env.trace.is_enabled():
                     env.trace.write(op, 'SETUP')
                 # Positions, as reported by pos(), start over when the pipeline is run again.
                 op.reset_pos()
+                setup_started.append(op)
                 op.setup(env)
-                setup_complete.append(op)
             for op in self.ops:
                 op.customize_pipelines(env)
         except BaseException:
-            # The pipeline isn't going to run. Don't leave open whatever was opened so far.
-            for op in setup_complete:
-                op.cleanup()
+            # The pipeline isn't going to run. Don't leave open whatever was opened so far, including by the op
+            # whose setup failed.
+            PipelineExecutable.cleanup_ops(setup_started)
             raise
 
     def run(self, env):
@@ -89,8 +89,19 @@ class PipelineExecutable(object):
         self.ops[0].flush(env)
 
     def cleanup(self):
-        for op in self.ops:
-            op.cleanup()
+        PipelineExecutable.cleanup_ops(self.ops)
+
+    # Clean up every op, even if cleaning up one of them fails.
+    @staticmethod
+    def cleanup_ops(ops):
+        failure = None
+        for op in ops:
+            try:
+                op.cleanup()
+            except BaseException as e:
+                failure = e
+        if failure is not None:
+            raise failure
 
     # PipelineExecutable - construction
 
-- 
2.43.0


From d9929ef0ef598cff44c376b9fd5ed49d811a4d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 082/109] fix: bash terminates when its pipeline is killed, and
 runs interactive commands only when run

---
 marcel/op/bash.py | 48 ++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 002c39d..6d3f061 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -208,6 +208,12 @@ class NonInteractive(Escape):
         if self.output_handler is None:
             # There was no input, so the command was never started.
             return
+        if self.process:
+            # If the pipeline was killed, there was no flush. Don't leave the process waiting for input.
+            try:
+                self.process.stdin.close()
+            except BrokenPipeError:
+                pass
         while self.output_handler.is_alive():
             self.output_handler.join(0.1)
         self.lock.acquire()
@@ -223,33 +229,33 @@ class NonInteractive(Escape):
 
 class Interactive(Escape):
 
-    def __init__(self, op):
-        super().__init__(op)
-        self.process = subprocess.Popen(self.command(),
-                                        shell=True,
-                                        executable=self.bash,
-                                        universal_newlines=True,
-                                        preexec_fn=os.setsid)
-
     def run(self, env):
-        self.process.wait()
-        if self.process.returncode != 0:
-            marcel.util.print_to_stderr(env, self.process.stderr)
+        with subprocess.Popen(self.command(),
+                              shell=True,
+                              executable=self.bash,
+                              universal_newlines=True,
+                              preexec_fn=os.setsid) as process:
+            process.wait()
+
+    def receive(self, env, x):
+        raise marcel.exception.KillCommandException(
+            f'{self.command()} is interactive, it cannot receive input from a pipe')
 
 
 class BashShell(Escape):
 
     def __init__(self, op):
         super().__init__(op)
-        self.process = subprocess.Popen('bash',
-                                        shell=True,
-                                        executable=self.bash,
-                                        universal_newlines=True)
+        self.has_run = False
 
     def receive(self, env, _):
-        self.process.wait()
-        if self.process.returncode != 0:
-            marcel.util.print_to_stderr(env, self.process.stderr)
+        if not self.has_run:
+            self.has_run = True
+            with subprocess.Popen('bash',
+                                  shell=True,
+                                  executable=self.bash,
+                                  universal_newlines=True) as process:
+                process.wait()
 
 
 class ProcessOutputHandler(threading.Thread):
@@ -262,7 +268,8 @@ class ProcessOutputHandler(threading.Thread):
 
     def run(self):
         try:
-            self.handle_output()
+            with selectors.DefaultSelector() as selector:
+                self.handle_output(selector)
         except BaseException as e:
             # Raised on the thread running the pipeline, once it notices that this thread is done.
             self.failure = e
@@ -270,11 +277,10 @@ class ProcessOutputHandler(threading.Thread):
             self.owner.process.stdout.close()
             self.owner.process.stderr.close()
 
-    def handle_output(self):
+    def handle_output(self, sel):
         process = self.owner.process
         op = self.owner.op
         lock = self.owner.lock
-        sel = selectors.DefaultSelector()
         sel.register(process.stdout, selectors.EVENT_READ)
         sel.register(process.stderr, selectors.EVENT_READ)
         while True:
-- 
2.43.0


From 8eb563dd6625b43362963c8378d47ba86d5cc20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 083/109] fix: closing a reader of a pickle file does not
 affect its other readers

---
 marcel/picklefile.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index 9524716..e4d5c8f 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -27,7 +27,7 @@ class PickleFile:
 
     def __init__(self, path):
         self.path = pathlib.Path(path)
-        self._readers = {}  # path -> Reader
+        self._readers = {}  # id of Reader -> Reader
         self._writer = None
 
     def __repr__(self):
@@ -54,7 +54,7 @@ class PickleFile:
     def reader(self):
         self.check_availability(self._writer is None)
         reader = Reader(self)
-        self._readers[self.path] = reader
+        self._readers[id(reader)] = reader
         return reader
 
     def writer(self, append):
@@ -71,13 +71,16 @@ class PickleFile:
             pass
 
     def close(self):
-        try:
-            access = self._readers.pop(self.path)
-        except KeyError:
-            access = self._writer
+        for access in list(self._readers.values()):
+            access.close()
+        if self._writer is not None:
+            self._writer.close()
+
+    # access is being closed
+    def release(self, access):
+        self._readers.pop(id(access), None)
+        if self._writer is access:
             self._writer = None
-        if access is not None:
-            access.close_file()
 
     # A reservoir owned by a default workspace has a filename of the form PID.varname.pickle. Return the pid,
     # or None if there is none.
@@ -98,11 +101,10 @@ class Access(object):
         self.file = None
 
     def close(self):
-        self.owner.close()
-
-    def close_file(self):
-        self.file.close()
-        self.file = None
+        self.owner.release(self)
+        if self.file is not None:
+            self.file.close()
+            self.file = None
 
 
 class Reader(Access):
-- 
2.43.0


From c6ff021ca8e2b4d120edcdc63c813f238cc5c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 084/109] fix: fork ends its workers and closes its pipes
 however it ends

---
 marcel/op/forkmanager.py | 58 ++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index c73e98b..2dbbe6e 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -99,17 +99,24 @@ class ForkManager(object):
         self.workers = [ForkWorker(env, self, thread_id, fork_customizer) for thread_id in self.thread_ids]
 
     def run(self, env):
-        for worker in self.workers:
-            worker.start()
-            dump(f'{self} started {worker}')
-        # A worker that has reached EOF must not be polled again: polling it again would report EOF again,
-        # and count that worker's completion twice, abandoning the output of workers still running.
-        active = list(self.workers)
-        while len(active) > 0:
-            active = [worker for worker in active if worker.consume_input()]
-            dump(f'active: {active}')
-        for worker in self.workers:
-            worker.close()
+        try:
+            for worker in self.workers:
+                worker.start()
+                dump(f'{self} started {worker}')
+            # A worker that has reached EOF must not be polled again: polling it again would report EOF again,
+            # and count that worker's completion twice, abandoning the output of workers still running.
+            active = list(self.workers)
+            while len(active) > 0:
+                active = [worker for worker in active if worker.consume_input()]
+                dump(f'active: {active}')
+        except BaseException:
+            # The command has been killed, no more output is needed.
+            for worker in self.workers:
+                worker.terminate()
+            raise
+        finally:
+            for worker in self.workers:
+                worker.close()
 
 class ForkWorker(object):
 
@@ -117,11 +124,9 @@ class ForkWorker(object):
         self.env = env
         self.thread_id = thread_id
         self.op = fork_manager.op
-        # duplex=False: child writes to parent when function completes execution.
-        # No need to communicate in the other direction
+        self.reader = None
+        self.writer = None
         # Extending pipeline, as Ops do in customize_pipelines
-        self.reader, self.writer = mp.Pipe(duplex=False)
-        dump(f'{self} init writer {id(self.writer)}')
         pipeline = (fork_customizer(env, fork_manager.pipeline, thread_id)
                     if fork_customizer else
                     fork_manager.pipeline)
@@ -149,6 +154,10 @@ class ForkWorker(object):
 
     def start(self):
         dump(f'{self} start_process {self.pipeline}')
+        # duplex=False: child writes to parent when function completes execution.
+        # No need to communicate in the other direction
+        self.reader, self.writer = mp.Pipe(duplex=False)
+        dump(f'{self} writer {id(self.writer)}')
         self.process = mp.Process(target=run_pipeline_in_child,
                                   args=(self.env, dill.dumps(self.pipeline), self.thread_id, self.writer))
         dump(f'{self} created {self.process}')
@@ -183,12 +192,21 @@ class ForkWorker(object):
             more = False
         return more
 
+    def terminate(self):
+        if self.process is not None and self.process.pid is not None:
+            self.process.terminate()
+
     def close(self):
         dump(f'{self} joining ...')
-        first = True
-        while first or self.process.is_alive():
-            dump(f'alive: {self.process.is_alive()}')
-            self.process.join(0.1)
-            first = False
+        # If start failed, then there might be no process, or one that hasn't been started.
+        if self.process is not None and self.process.pid is not None:
+            first = True
+            while first or self.process.is_alive():
+                dump(f'alive: {self.process.is_alive()}')
+                self.process.join(0.1)
+                first = False
+        if self.reader is not None:
+            self.reader.close()
+            self.writer.close()
         dump(f'{self} joined')
         self.env = None
-- 
2.43.0


From 88ff2131bdb8b04ae00965ceff974cd046e31bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:10 +0000
Subject: [PATCH 085/109] fix: temporary files, pipes, trace files are closed,
 also on failure

---
 marcel/api.py       |  5 ++++-
 marcel/env.py       |  9 ++++++---
 marcel/job.py       |  3 ++-
 marcel/op/filter.py |  1 -
 marcel/op/sudo.py   | 13 ++++++-------
 marcel/runeditor.py | 19 ++++++++++---------
 6 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/marcel/api.py b/marcel/api.py
index 9dc288b..013c1be 100644
--- a/marcel/api.py
+++ b/marcel/api.py
@@ -14,6 +14,7 @@
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
 import atexit
+import os as _os
 import tempfile
 
 import marcel.core as _core
@@ -298,7 +299,9 @@ def first(x, unwrap_singleton=True, errors=None):
 def reservoir(name):
     assert isinstance(name, str)
     assert name.isidentifier()
-    reservoir = _reservoir.Reservoir(name, tempfile.mkstemp()[1])
+    fd, path = tempfile.mkstemp()
+    _os.close(fd)
+    reservoir = _reservoir.Reservoir(name, path)
     _RESERVOIRS.append(reservoir)
     return reservoir
 
diff --git a/marcel/env.py b/marcel/env.py
index e370a06..cd64a29 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -373,17 +373,20 @@ class Trace(object):
 
     def enable(self, target):
         if target is sys.stdout:
+            self.disable()
             self.tracefile = sys.stdout
             self.target = Trace.STDOUT_MARKER
             self.description = 'stdout'
         else:
             try:
-                self.tracefile = open(target, 'a')
-                self.target = target
-                self.description = target
+                tracefile = open(target, 'a')
             except Exception as e:
                 raise marcel.exception.KillCommandException(
                     f'Unable to start tracing to {target}: {e}')
+            self.disable()
+            self.tracefile = tracefile
+            self.target = target
+            self.description = target
 
     def disable(self):
         if self.tracefile and self.tracefile is not sys.stdout:
diff --git a/marcel/job.py b/marcel/job.py
index 3c611a1..4834e84 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -189,8 +189,8 @@ class Job:
             # marcel.util.PickleDebugger().check(self.process, debug=True)
 
             self.process.start()
-            writer.close()  # See topmost comment
         finally:
+            writer.close()  # See topmost comment
             # Restore process handling needed by the console process.
             signal.signal(signal.SIGINT, JobControl.only.ctrl_c_handler)
             signal.signal(signal.SIGTSTP, JobControl.only.ctrl_z_handler)
@@ -242,6 +242,7 @@ class ChildListener(threading.Thread):
                         self.child_completion_handler(dill.loads(input))
                 except EOFError:
                     to_remove.append(listener)
+                    listener.close()
                 except (Exception, marcel.exception.KillCommandException) as e:
                     # This thread has to survive, to handle the completion of other jobs.
                     print(f'Unable to apply changes to variables made by a job: {e}', file=sys.stderr)
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 22bf934..1553226 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -141,5 +141,4 @@ class Filter(marcel.core.Op):
         customized = (self.pipeline
                       .append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
                       .append_immutable(marcel.op.redirect.RedirectErrors(self)))
-        customized.setup(env)
         customized.run_pipeline(env, {})
diff --git a/marcel/op/sudo.py b/marcel/op/sudo.py
index e217c43..caad6a6 100644
--- a/marcel/op/sudo.py
+++ b/marcel/op/sudo.py
@@ -96,14 +96,7 @@ class Sudo(marcel.core.Op):
     # Op
 
     def run(self, env):
-        # Start the remote process
         command = ' '.join(['sudo'] + self.command_args + ['farcel.py'])
-        self.process = subprocess.Popen(command,
-                                        stdin=subprocess.PIPE,
-                                        stdout=subprocess.PIPE,
-                                        stderr=subprocess.PIPE,
-                                        shell=True,
-                                        universal_newlines=False)
         # The pipelines's environment will be set remotely.
         # Send the python version, environment and pipelines, (as in Remote)
         buffer = io.BytesIO()
@@ -112,6 +105,12 @@ class Sudo(marcel.core.Op):
         pickler.dump(env.marcel_usage())
         self.pipeline.pickle(env, pickler)
         buffer.seek(0)
+        self.process = subprocess.Popen(command,
+                                        stdin=subprocess.PIPE,
+                                        stdout=subprocess.PIPE,
+                                        stderr=subprocess.PIPE,
+                                        shell=True,
+                                        universal_newlines=False)
         stdout, stderr = self.process.communicate(input=buffer.getvalue())
         # Wait for completion (already guaranteed by communicate returning?)
         self.process.wait()
diff --git a/marcel/runeditor.py b/marcel/runeditor.py
index f095fb5..7202271 100644
--- a/marcel/runeditor.py
+++ b/marcel/runeditor.py
@@ -40,15 +40,16 @@ def run_editor(env, file):
 
 
 def edit_text(env, text):
-    _, tmp_file = tempfile.mkstemp(text=True)
-    with open(tmp_file, 'w') as output:
-        output.write(text)
-    run_editor(env, tmp_file)
-    with open(tmp_file, 'r') as input:
-        command_lines = input.readlines()
-    edited = '\n'.join(command_lines)
-    os.remove(tmp_file)
-    return edited
+    fd, tmp_file = tempfile.mkstemp(text=True)
+    try:
+        with open(fd, 'w') as output:
+            output.write(text)
+        run_editor(env, tmp_file)
+        with open(tmp_file, 'r') as input:
+            command_lines = input.readlines()
+        return '\n'.join(command_lines)
+    finally:
+        os.remove(tmp_file)
 
 def edit_file(env, filename):
     run_editor(env, filename)
\ No newline at end of file
-- 
2.43.0


From da51f3cbd4ef97d6b1d7e777121c73705e456fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 086/109] fix: farcel cleans up its pipeline, and ends if it
 cannot start one

---
 bin/farcel.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bin/farcel.py b/bin/farcel.py
index f82c586..46d464c 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -98,12 +98,14 @@ class PipelineRunner(threading.Thread):
         self.pipeline = pipeline
 
     def run(self):
+        setup = False
         try:
             # self.check_python_version()
             # Compiled functions are not transmitted, only their source.
             self.pipeline.ensure_functions_compiled(self.env)
             TRACE.write(f'PipelineRunner: About to setup {self.pipeline}')
             self.pipeline.setup(self.env)
+            setup = True
             TRACE.write(f'PipelineRunner: About to run {self.pipeline}')
             self.pipeline.run(self.env)
             self.pipeline.flush(self.env)
@@ -112,6 +114,10 @@ class PipelineRunner(threading.Thread):
             with TRACE.open() as file:
                 marcel.util.print_stack_of_current_exception(file)
             self.pickler.receive_error(self.env, marcel.object.error.Error(e))
+        finally:
+            # Everything has been sent. Cleaning up the pickler closes stdout.
+            if setup:
+                self.pipeline.cleanup()
         TRACE.write('PipelineRunner: Execution complete.')
 
     def check_python_version(self):
@@ -147,6 +153,7 @@ def shutdown():
 
 
 def main():
+    pipeline_runner = None
     try:
         TRACE.write('-' * 80)
         TRACE.write(getpass.getuser())
@@ -178,10 +185,10 @@ def main():
         kill_descendents(signal_id)
     except EOFError:
         TRACE.write('Received EOF')
-        while pipeline_runner.is_alive():
+        while pipeline_runner is not None and pipeline_runner.is_alive():
             TRACE.write(f'PipelineRunner alive: {pipeline_runner.is_alive()}')
             pipeline_runner.join(0.1)
-        TRACE.write(f'PipelineRunner alive: {pipeline_runner.is_alive()}')
+        TRACE.write('PipelineRunner done')
         kill_descendents(signal.SIGTERM)
     finally:
         TRACE.write('Exiting')
-- 
2.43.0


From 36865dcadc5a4abd8f857f1c3cd22e58177cad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 087/109] fix: running a variable which is not a pipeline has
 nothing to clean up

---
 marcel/op/case.py        |  4 ++--
 marcel/op/runpipeline.py | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index f599fe3..5b393f9 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -113,8 +113,8 @@ class Case(marcel.core.Op):
 
     def cleanup(self):
         # setup might have failed, having set up some of the pipelines.
-        for pipeline in self.pipelines or []:
-            pipeline.cleanup()
+        if self.pipelines:
+            marcel.pipeline.PipelineExecutable.cleanup_ops(self.pipelines)
 
     def ensure_functions_compiled(self, env):
         # Don't process the args. That sets up the pipelines, whose parameters (and those of enclosing pipelines)
diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 70030d1..ad74061 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -43,29 +43,29 @@ class RunPipeline(marcel.core.Op):
             return default if x is None else x
         self.args = ifnone(self.eval_function(env, 'args_arg'), [])
         self.kwargs = ifnone(self.eval_function(env, 'kwargs_arg'), {})
-        self.pipeline = env.getvar(self.var)
-        if self.pipeline is None:
+        pipeline = env.getvar(self.var)
+        if pipeline is None:
             raise marcel.exception.KillCommandException(
                 f'The value of {self.var} is None, so it is not executable.')
-        if not isinstance(self.pipeline, marcel.pipeline.PipelineMarcel):
+        if not isinstance(pipeline, marcel.pipeline.PipelineMarcel):
             raise marcel.exception.KillCommandException(
                 f'The variable {self.var} is not bound to anything executable.')
-        n_params = len(self.pipeline.parameters())
+        n_params = len(pipeline.parameters())
         n_args = 0 if self.args is None else len(self.args)
         n_kwargs = 0 if self.kwargs is None else len(self.kwargs)
         if n_params < n_args + n_kwargs:
             raise marcel.exception.KillCommandException(
-                f'Too many arguments for pipeline {self.var} = {self.pipeline}')
+                f'Too many arguments for pipeline {self.var} = {pipeline}')
         # Why copy: A pipelines can be used twice in a command, e.g.
         #    f = (| a: ... |)
         #    f (1) | join (| f (2) |)
         # Without copying the identical ops comprising f would be used twice in the same
         # command. This potentially breaks the use of Op state during execution, and also
         # breaks the structure of the pipelines, e.g. Op.receiver.
-        self.pipeline = self.pipeline.copy()
+        pipeline = pipeline.copy()
         # Redirect sends the pipeline's output through this op, but does not propagate the pipeline's flush. That is
         # done, once, by this op.
-        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+        self.pipeline = pipeline.append_immutable(marcel.op.redirect.Redirect(self))
         self.has_run = False
         env.vars().push_scope(self.bindings())
         try:
-- 
2.43.0


From acfef99f239093c7ef413dd3736b49ee53d2f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 088/109] fix: a variable whose value can't be pickled doesn't
 prevent jobs from running, or other variables from being saved

---
 marcel/env.py              |  7 +++++--
 marcel/job.py              |  4 ++++
 marcel/nestednamespace.py  | 11 ++++++++++-
 marcel/object/workspace.py |  6 +++++-
 marcel/util.py             | 10 ++++++++++
 5 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index cd64a29..ed0b077 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -19,6 +19,8 @@ import pathlib
 import socket
 import sys
 
+import dill
+
 import marcel.builtin
 import marcel.cliargs
 import marcel.core
@@ -104,7 +106,8 @@ class Environment(object):
         return {'usage': self.usage,
                 'trace': self.trace,
                 'workspace': None if self.workspace.is_default() else self.workspace.name,
-                'namespace': self.workspace.vars().to_persistent_state()}
+                # multiprocessing relies on pickle, but there are values which only dill can handle.
+                'namespace': dill.dumps(self.workspace.vars().to_persistent_state())}
 
     def __setstate__(self, state):
         from marcel.object.workspace import Workspace
@@ -112,7 +115,7 @@ class Environment(object):
         trace = state['trace']
         workspace_name = state['workspace']
         workspace = Workspace.default() if workspace_name is None else Workspace(workspace_name)
-        namespace = state['namespace']
+        namespace = dill.loads(state['namespace'])
         if usage == 'api':
             import marcel.api
             marcel.api.INITIALIZATION.ensure_initialized()
diff --git a/marcel/job.py b/marcel/job.py
index 4834e84..276ceed 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -84,6 +84,10 @@ def run_command_in_child(env, command, writer):
     finally:
         if child_namespace_changes is not None:
             debug(f'completed: {command.source} namespace changes: {child_namespace_changes.keys()}')
+            for var in list(child_namespace_changes.keys()):
+                if not marcel.util.picklable(child_namespace_changes[var]):
+                    marcel.util.print_to_stderr(env, f'The value assigned to {var} cannot be returned by a job.')
+                    del child_namespace_changes[var]
             writer.send(dill.dumps(child_namespace_changes))
         writer.close()
 
diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 038ca8e..7886b98 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -90,6 +90,10 @@ class EnvValue(object):
     def reconstitute(self):
         assert False, self
 
+    # Can the result of to_persistent_state be pickled?
+    def is_persistable(self):
+        return True
+
     @staticmethod
     def restore(env, classname, persisted):
         if classname == 'Simple':
@@ -156,6 +160,9 @@ class Simple(EnvValue):
     def reconstitute(self):
         return self.value
 
+    def is_persistable(self):
+        return marcel.util.picklable(self.value)
+
     def assign(self, value):
         self.value = value
         self.cached = value
@@ -457,7 +464,9 @@ class NestedNamespace(dict):
         for scope in self.scopes:
             for k, v in scope.items():
                 assert isinstance(v, EnvValue), f'{k}: {v}'
-                persistent[k] = (v.__class__.__name__, v.to_persistent_state())
+                # A value that can't be pickled (e.g. a file) must not get in the way of the others.
+                if v.is_persistable():
+                    persistent[k] = (v.__class__.__name__, v.to_persistent_state())
         return persistent
 
     def from_persistent_state(self, env, persisted):
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 47b9d9b..3c642d5 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -288,7 +288,11 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                     assert type(reservoir) is marcel.reservoir.Reservoir
                     reservoir.close()
                 # Environment
-                self.write_environment(self.persistent_state())
+                persistent_state = self.persistent_state()
+                for var in self.namespace.scopes[0].keys():
+                    if var not in persistent_state:
+                        marcel.util.print_to_stderr(env, f'The value of {var} cannot be saved.')
+                self.write_environment(persistent_state)
             finally:
                 # Mark this workspace object as closed
                 self.properties = None
diff --git a/marcel/util.py b/marcel/util.py
index 8de08e8..6551d67 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -161,6 +161,16 @@ def console_width():
 
 
 # Utility to print to stderr, flushing stdout first, to minimize weird ordering due to buffering.
+def picklable(x):
+    if x is None or type(x) in (bool, int, float, str, bytes):
+        return True
+    try:
+        dill.dumps(x)
+        return True
+    except Exception:
+        return False
+
+
 def print_to_stderr(env, message):
     sys.stdout.flush()
     if env and env.color_scheme():
-- 
2.43.0


From 4602d29b441efa01be731912d6400f2112218ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 089/109] fix: a variable whose value can't be restored doesn't
 prevent a workspace from being opened, or jobs from running

---
 marcel/nestednamespace.py  | 22 ++++++++++++++++++----
 marcel/object/workspace.py |  3 ++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 7886b98..43e9c0a 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -18,6 +18,7 @@ import sys
 
 import marcel.core
 import marcel.env
+import marcel.exception
 import marcel.parser
 import marcel.pipeline
 import marcel.util
@@ -236,7 +237,6 @@ class Module(EnvValue):
 
     def from_persistent_state(self, persisted):
         self.module_name = persisted['module_name']
-        return marcel.util.import_module(self.module_name)
 
     def reconstitute(self):
         return marcel.util.import_module(self.module_name)
@@ -469,14 +469,28 @@ class NestedNamespace(dict):
                     persistent[k] = (v.__class__.__name__, v.to_persistent_state())
         return persistent
 
+    # Returns {var: exception} for variables whose values could not be restored, e.g. a function that needs a variable
+    # since deleted, or an import of a module no longer installed. These don't prevent other variables from being restored,
+    # and will be persisted again.
     def from_persistent_state(self, env, persisted):
         assert len(self.scopes) == 1, len(self.scopes)
         scope = self.scopes[0]
+        pending = []
         for var, persisted_value in persisted.items():
             classname, persisted_state = persisted_value
-            value = EnvValue.restore(env, classname, persisted_state)
-            scope.__setitem__(var, value)
-            super().__setitem__(var, value.unwrap())
+            scope.__setitem__(var, EnvValue.restore(env, classname, persisted_state))
+            pending.append(var)
+        while True:
+            failures = {}
+            for var in pending:
+                try:
+                    super().__setitem__(var, scope[var].unwrap())
+                except (Exception, marcel.exception.KillCommandException) as e:
+                    failures[var] = e
+            if len(failures) in (0, len(pending)):
+                return failures
+            # Restoring a value may require another variable, which has been restored by now.
+            pending = list(failures.keys())
 
     # TODO: With set_env, is reconstitute needed? That's just an eager form of reconstitution.
     # TODO: Having the env available in all the EnvValues is a lazy form.
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 3c642d5..ead45ec 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -271,7 +271,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                     self.namespace.assign_permanent(var, value)
                 self.add_immutable_vars(config_dict.keys())
                 persistent_state = self.read_environment()
-                self.namespace.from_persistent_state(env, persistent_state)
+                for var, e in self.namespace.from_persistent_state(env, persistent_state).items():
+                    marcel.util.print_to_stderr(env, f'Unable to restore the value of {var}: {e}')
             else:
                 self.cannot_lock_workspace()
         else:
-- 
2.43.0


From c5560857c49e1d08cbdfbac818a014e2640b8715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 090/109] fix: a job in a named workspace can run other
 processes, and doesn't see variables deleted since the workspace was opened

---
 marcel/env.py              | 13 ++++++++++---
 marcel/locations.py        |  1 -
 marcel/object/workspace.py | 26 ++++++++++++++++----------
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/marcel/env.py b/marcel/env.py
index ed0b077..ec22202 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -115,13 +115,16 @@ class Environment(object):
         trace = state['trace']
         workspace_name = state['workspace']
         workspace = Workspace.default() if workspace_name is None else Workspace(workspace_name)
+        if not workspace.exists():
+            # This must be a remote host.
+            workspace = Workspace.default()
         namespace = dill.loads(state['namespace'])
         if usage == 'api':
             import marcel.api
             marcel.api.INITIALIZATION.ensure_initialized()
             env = marcel.api._ENV
         else:
-            env = Environment.create(workspace=workspace, usage=usage)
+            env = Environment.create(workspace=workspace, usage=usage, attach=True)
         env.workspace.namespace.from_persistent_state(env, namespace)
         env.enforce_var_immutability()
         env.trace = trace
@@ -255,7 +258,8 @@ class Environment(object):
                workspace=None,
                globals=None,
                trace=None,
-               usage='script'):
+               usage='script',
+               attach=False):
         assert usage in ('script', 'api'), usage
         # Don't use a default value for workspace. Default value expressions are evaluted
         # on import, which may be too early. Discovered this gotcha on a unit test. Unit tests
@@ -266,7 +270,10 @@ class Environment(object):
             workspace = marcel.object.workspace.Workspace.default()
         env = cls(workspace=workspace, trace=trace, usage=usage)
         initial_namespace = env.initial_namespace()
-        workspace.open(env, initial_namespace)
+        if attach:
+            workspace.attach(env, initial_namespace)
+        else:
+            workspace.open(env, initial_namespace)
         assert (usage == 'api') == (globals is not None), f'usage: {usage}, globals: {"..." if globals else None}'
         if globals is not None:
             workspace.namespace.update_permanent(globals)
diff --git a/marcel/locations.py b/marcel/locations.py
index e765814..a148a45 100644
--- a/marcel/locations.py
+++ b/marcel/locations.py
@@ -74,7 +74,6 @@ class Locations(object):
         # Record the pid. Process spawning creates children with different pids, but when a pid shows up in
         # a filename, we want the pid of the topmost process.
         self.pid = os.getpid()
-        self.ppid = os.getppid()
 
     def config(self):
         return Locations.ensure_dir_exists(self.config_base /
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index ead45ec..b7ebc0b 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -263,13 +263,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         if self.exists():
             if self.lock_workspace():  # Always granted for default workspace
                 self.read_properties()  # Noop for default workspace
-                self.namespace = marcel.nestednamespace.NestedNamespace(env)
-                if initial_namespace:
-                    initial_namespace.add_to_namespace(self.namespace, env)
-                config_dict = self.config_script.run()
-                for var, value in config_dict.items():
-                    self.namespace.assign_permanent(var, value)
-                self.add_immutable_vars(config_dict.keys())
+                self.initialize_namespace(env, initial_namespace)
                 persistent_state = self.read_environment()
                 for var, e in self.namespace.from_persistent_state(env, persistent_state).items():
                     marcel.util.print_to_stderr(env, f'Unable to restore the value of {var}: {e}')
@@ -278,6 +272,12 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         else:
             self.does_not_exist()
 
+    # Use this workspace in a process working on behalf of the process that has it open, e.g. a job. That process has
+    # the lock, and provides the values of variables.
+    def attach(self, env, initial_namespace=None):
+        self._enforce_immutability = False
+        self.initialize_namespace(env, initial_namespace)
+
     def close(self, env, restart):
         # Relocking is okay, so this is a convenient way to test that the workspace is locked.
         if self.lock_workspace():
@@ -385,6 +385,15 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     # Internal
 
+    def initialize_namespace(self, env, initial_namespace):
+        self.namespace = marcel.nestednamespace.NestedNamespace(env)
+        if initial_namespace:
+            initial_namespace.add_to_namespace(self.namespace, env)
+        config_dict = self.config_script.run()
+        for var, value in config_dict.items():
+            self.namespace.assign_permanent(var, value)
+        self.add_immutable_vars(config_dict.keys())
+
     def create_on_disk(self, initial_config_contents):
         locations = self.locations
         # config
@@ -430,9 +439,6 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         elif owner == self.locations.pid:
             # Already locked
             return True
-        elif owner == self.locations.ppid:
-            # Locked by parent. This process must be owned by a job executing on behalf of the parent.
-            return True
         else:
             # Locked by another process
             if marcel.util.process_exists(owner):
-- 
2.43.0


From b2118355e6c28e6131ebcc2159f8e8ce6c32e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 091/109] fix: a reservoir created by a job belongs to the
 shell that started the job

---
 marcel/job.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/job.py b/marcel/job.py
index 276ceed..8eb9678 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -63,6 +63,9 @@ def debug(message):
 def run_command_in_child(env, command, writer):
     debug(f'running: {command.source}')
     child_namespace_changes = None
+    # Reservoirs created by the job belong to the process that started it. If they carried the pid of this process, then
+    # they would be taken to be abandoned once this process ends.
+    env.locations.pid = mp.parent_process().pid
     try:
         command.ensure_functions_compiled(env)
         try:
-- 
2.43.0


From 15ba397354b9656a5db3720a768f9774cbf9fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:41 +0000
Subject: [PATCH 092/109] fix: a workspace that can't be opened is unlocked

---
 marcel/object/workspace.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index b7ebc0b..8d3874e 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -262,11 +262,18 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         self._enforce_immutability = False
         if self.exists():
             if self.lock_workspace():  # Always granted for default workspace
-                self.read_properties()  # Noop for default workspace
-                self.initialize_namespace(env, initial_namespace)
-                persistent_state = self.read_environment()
-                for var, e in self.namespace.from_persistent_state(env, persistent_state).items():
-                    marcel.util.print_to_stderr(env, f'Unable to restore the value of {var}: {e}')
+                try:
+                    self.read_properties()  # Noop for default workspace
+                    self.initialize_namespace(env, initial_namespace)
+                    persistent_state = self.read_environment()
+                    for var, e in self.namespace.from_persistent_state(env, persistent_state).items():
+                        marcel.util.print_to_stderr(env, f'Unable to restore the value of {var}: {e}')
+                except BaseException:
+                    # This workspace is not going to be used (and so won't be closed).
+                    self.properties = None
+                    self.namespace = None
+                    self.unlock_workspace()
+                    raise
             else:
                 self.cannot_lock_workspace()
         else:
@@ -615,6 +622,9 @@ class WorkspaceDefault(Workspace):
     def lock_workspace(self):
         return True
 
+    def unlock_workspace(self):
+        pass
+
 
 class WorkspaceValidater(object):
     class Error(object):
-- 
2.43.0


From f6b5269318ca93b5a4fdefd4b621d2c2af6be907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 093/109] fix: a bad startup script isn't retried forever

---
 marcel/exception.py | 1 +
 marcel/main.py      | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/marcel/exception.py b/marcel/exception.py
index 96b4869..d52fdbe 100644
--- a/marcel/exception.py
+++ b/marcel/exception.py
@@ -44,6 +44,7 @@ class StartupScriptException(KillCommandException):
 
     def __init__(self, workspace, startup_exception):
         super().__init__(f'Error during execution of startup script of {workspace}: {startup_exception}')
+        self.workspace = workspace
 
 
 # Exception for terminating command for API first().
diff --git a/marcel/main.py b/marcel/main.py
index c3bcc9b..afac5da 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -393,6 +393,9 @@ def main():
             started = True
         except marcel.exception.StartupScriptException as e:
             print(str(e), file=sys.stderr)
+            if e.workspace.is_default() or not input_source.interactive():
+                # Trying again would fail again, (and run a script's commands again).
+                sys.exit(1)
         except:
             raise
 
-- 
2.43.0


From eb0a429ef2aa15af8a03735e37861fe77b817f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 094/109] fix: the prompt and startup scripts set by one
 workspace's startup script don't carry over to another workspace

---
 marcel/builtin.py          | 19 +++++++++++++------
 marcel/object/workspace.py |  6 ++++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/marcel/builtin.py b/marcel/builtin.py
index 47c7b6e..f57b170 100644
--- a/marcel/builtin.py
+++ b/marcel/builtin.py
@@ -29,8 +29,9 @@ from marcel.util import username, groupname, quote_files
 from marcel.jsonutil import JSONUtil as _JSONUtil
 _JSON_UTIL = _JSONUtil()
 
-STARTUP_SCRIPTS = []
-PROMPT = '$ '
+# Set by a startup script, for the workspace being opened.
+_STARTUP_SCRIPTS = []
+_PROMPT = None
 # DB_DEFAULT = None
 
 
@@ -67,9 +68,15 @@ def json_format(x):
 
 
 def run_on_startup(script):
-    global STARTUP_SCRIPTS
-    STARTUP_SCRIPTS.append(script)
+    _STARTUP_SCRIPTS.append(script)
+
 
 def set_prompt(*prompt):
-    global PROMPT
-    PROMPT = prompt
+    global _PROMPT
+    _PROMPT = prompt
+
+
+def _reset_startup():
+    global _STARTUP_SCRIPTS, _PROMPT
+    _STARTUP_SCRIPTS = []
+    _PROMPT = None
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 8d3874e..9ca6b18 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -20,6 +20,7 @@ import time
 import dill
 import psutil
 
+import marcel.builtin
 import marcel.configscript
 import marcel.exception
 import marcel.locations
@@ -396,7 +397,12 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         self.namespace = marcel.nestednamespace.NestedNamespace(env)
         if initial_namespace:
             initial_namespace.add_to_namespace(self.namespace, env)
+        # The prompt and startup scripts are specified by this workspace's startup script, not one run previously.
+        marcel.builtin._reset_startup()
         config_dict = self.config_script.run()
+        self.namespace.assign_permanent('STARTUP_SCRIPTS', marcel.builtin._STARTUP_SCRIPTS)
+        if marcel.builtin._PROMPT is not None:
+            self.namespace.assign_permanent('PROMPT', marcel.builtin._PROMPT)
         for var, value in config_dict.items():
             self.namespace.assign_permanent(var, value)
         self.add_immutable_vars(config_dict.keys())
-- 
2.43.0


From c3bb9c3e04bf1460442fa47a41e59ce3e5c20ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:48 +0000
Subject: [PATCH 095/109] fix: a variable no longer defined by the startup
 script can be assigned

---
 marcel/object/workspace.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 9ca6b18..b5303fe 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -115,6 +115,8 @@ class VarHandler(object):
         self.namespace = None
         # Vars that must not be modified after marcel initialization.
         self.immutable_vars = set()
+        # The immutable_vars which were defined by the startup script.
+        self.config_vars = set()
         # Vars that have changed during execution of a command. Returned from Job execution
         # So that changes can be applied in the main process's namespace.
         self.vars_written = set()
@@ -397,6 +399,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         self.namespace = marcel.nestednamespace.NestedNamespace(env)
         if initial_namespace:
             initial_namespace.add_to_namespace(self.namespace, env)
+        # Vars defined by the startup script run previously (e.g. before it was edited), may not be defined now.
+        self.immutable_vars -= self.config_vars
         # The prompt and startup scripts are specified by this workspace's startup script, not one run previously.
         marcel.builtin._reset_startup()
         config_dict = self.config_script.run()
@@ -405,6 +409,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             self.namespace.assign_permanent('PROMPT', marcel.builtin._PROMPT)
         for var, value in config_dict.items():
             self.namespace.assign_permanent(var, value)
+        self.config_vars = config_dict.keys() - self.immutable_vars
         self.add_immutable_vars(config_dict.keys())
 
     def create_on_disk(self, initial_config_contents):
-- 
2.43.0


From 56c12590f0bb6896bb552a9b4a7d227b7eea5761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:29 +0000
Subject: [PATCH 096/109] fix: two processes can't both lock an abandoned
 workspace

---
 marcel/object/workspace.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index b5303fe..93cab38 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -465,8 +465,11 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                 # Owner disappeared. Steal the marker file.
                 abandoned_marker_path = self.marker.owned(owner)
                 owned_marker_path = self.marker.owned()
-                abandoned_marker_path.rename(owned_marker_path)
-                # If owned_marker_path doesn't exist, another process was stealing the file at exactly the same time?!
+                try:
+                    abandoned_marker_path.rename(owned_marker_path)
+                except FileNotFoundError:
+                    # Another process stole it first.
+                    return False
                 return owned_marker_path.exists()
 
     def unlock_workspace(self):
@@ -528,7 +531,9 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         if not self.locations.config_ws(self).exists():
             return None
         # First get rid of any markers from processes that don't exist. Shouldn't happen, but still.
-        self.delete_abandoned_markers()
+        self.release_abandoned_markers()
+        if self.marker.unowned().exists():
+            return None
         # Now find the marker. Something is very wrong if there is anything other than one.
         marker_filename = None
         for file in self.locations.config_ws(self).iterdir():
@@ -537,11 +542,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
                     marker_filename = file.name
                 else:
                     assert False, f'Multiple marker files in {self.locations.config_ws_startup(self)}'
-        if marker_filename is None:
-            # The owner disappeared, and its marker has just been deleted, so now the workspace is unowned.
-            self.marker.ensure_exists()
-            return None
-        return Workspace.marker_filename_pid(marker_filename)
+        return None if marker_filename is None else Workspace.marker_filename_pid(marker_filename)
 
     def validate(self):
         return WorkspaceValidater(self).validate()
@@ -558,12 +559,19 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             data_target = locations.data_bws(self, now)
             shutil.move(data_source, data_target)
 
-    def delete_abandoned_markers(self):
+    # Abandoned markers are renamed, not deleted: There must be exactly one marker at all times. If an abandoned marker were
+    # deleted, and then replaced by an unowned one, then another process doing the same thing could create a second marker,
+    # after the first one has been used to lock the workspace.
+    def release_abandoned_markers(self):
         for file in self.locations.config_ws(self).iterdir():
             if file.name.startswith(Marker.FILENAME_ROOT) and len(file.name) > len(Marker.FILENAME_ROOT):
                 pid = Workspace.marker_filename_pid(file.name)
                 if not marcel.util.process_exists(pid):
-                    file.unlink()
+                    try:
+                        file.rename(self.marker.unowned())
+                    except FileNotFoundError:
+                        # Another process released it first.
+                        pass
 
     def cannot_lock_workspace(self):
         raise marcel.exception.KillCommandException(f'Workspace {self.name} is in use by another process.')
@@ -662,11 +670,8 @@ class WorkspaceValidater(object):
         # exist in this dir.
         # Config dir has marker file.
         config_dir_path = locations.config_ws(workspace)
-        # Workspace.owner() gets rid of unowned marker files.
-        self.workspace.delete_abandoned_markers()
+        self.workspace.release_abandoned_markers()
         if not self.workspace.marker.exists():
-            # Could happen if Workspace.owner() deleted the marker, because it was owned by
-            # a process that no longer exists. Create a new marker.
             self.workspace.marker.ensure_exists()
         # Config dir has startup.py.
         if not locations.config_ws_startup(workspace).exists():
-- 
2.43.0


From 340f65cd990363ae53a5fa11c8bdcb64ba7e8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 097/109] fix: a command isn't lost when the startup script has
 been edited

---
 marcel/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index afac5da..47ad428 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -226,16 +226,18 @@ class MainInteractive(MainScript):
         try:
             while True:
                 try:
-                    self.input = self.env.take_next_command()
+                    # There may be input already: a command interrupted by a restart of main.
+                    if self.input is None:
+                        self.input = self.env.take_next_command()
                     if self.input is None:
                         self.input = (self.reader.input() if interactive
                                       else input())
-                    # else: Restarted main, and self.input was from the previous incarnation.
                     self.check_for_config_update()
                     self.parse_and_run_command(self.input)
                     self.input = None
                     self.job_control.wait_for_idle_foreground()
                 except KeyboardInterrupt:  # ctrl-C
+                    self.input = None
                     print()
         except EOFError:  # ctrl-d
             if interactive:
-- 
2.43.0


From 87464e8df5b9930eee3b798b5a64d1315ca59f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 098/109] fix: a damaged workspace is not moved while in use,
 and a damaged default workspace is recreated

---
 marcel/main.py             | 12 ++++++++++--
 marcel/object/workspace.py |  7 +++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 47ad428..41a4997 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -143,14 +143,22 @@ class MainScript(Main):
                                         f'\n    {broken_ws_config}'
                                         f'\n    {broken_ws_data}')
             started_in_broken_ws = False
+            default_is_broken = False
             for validation_error in errors:
                 marcel.util.print_to_stderr(self.env, str(validation_error))
                 ws_name = validation_error.workspace_name
                 # The default workspace's name is ''. Workspace('') would designate the directory containing all
                 # workspaces.
-                broken_ws = Workspace.default() if ws_name == '' else Workspace(ws_name)
-                started_in_broken_ws = started_in_broken_ws or (self.env.workspace.name == ws_name)
+                is_default = ws_name in ('', marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME)
+                broken_ws = Workspace.default() if is_default else Workspace(ws_name)
+                if broken_ws.in_use_by_another_process():
+                    marcel.util.print_to_stderr(self.env, f'Workspace {ws_name} is in use, so it was not moved.')
+                    continue
+                started_in_broken_ws = started_in_broken_ws or (self.env.workspace.name == broken_ws.name)
                 broken_ws.mark_broken(now)
+                default_is_broken = default_is_broken or is_default
+            if default_is_broken:
+                Workspace.default().create_on_disk(marcel.persistence.storagelayout.default_initial_config())
             if started_in_broken_ws:
                 # This marks this MainScript object as needing a restart. Don't want to continue with a broken
                 # workspace, but throwing a ReconfigureException right now (during MainScript.__init__)
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 93cab38..cf3cdb2 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -547,8 +547,10 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def validate(self):
         return WorkspaceValidater(self).validate()
 
+    def in_use_by_another_process(self):
+        return not self.is_default() and self.owner() not in (None, self.locations.pid)
+
     def mark_broken(self, now):
-        # TODO: Probably not OK to do the following to an open workspace. The marker file indicates in-use.
         locations = self.locations
         config_source = locations.config_ws(self)
         if config_source.exists():
@@ -730,7 +732,8 @@ class WorkspaceDefaultValidater(WorkspaceValidater):
 
     def validate(self):
         def delete_abandoned(dir, suffix):
-            for file in dir.iterdir():
+            # If dir is missing, that is noted by the superclass.
+            for file in dir.iterdir() if dir.is_dir() else ():
                 if file.name.endswith(suffix):
                     dot = file.name.find('.')
                     try:
-- 
2.43.0


From 29b651e6a53222b601c8ed57f638abcaf12692eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 099/109] fix: edit validates a workspace name

---
 marcel/op/edit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/op/edit.py b/marcel/op/edit.py
index e110448..85f9ecd 100644
--- a/marcel/op/edit.py
+++ b/marcel/op/edit.py
@@ -89,6 +89,7 @@ class Edit(marcel.core.Op):
         if self.ws_name is None:
             workspace = env.workspace
         else:
+            marcel.object.workspace.Workspace.check_name(self.ws_name)
             workspace = marcel.object.workspace.Workspace.named(self.ws_name)
             if not workspace.exists():
                 raise marcel.exception.KillCommandException(f'Workspace does not exist: {self.ws_name}')
-- 
2.43.0


From 275fd1be3940980402d950b21f6f398d2d206c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 100/109] fix: report a workspace that could not be closed

---
 marcel/main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 41a4997..a9cd40c 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -74,14 +74,14 @@ class Main(object):
                 pass
         try:
             self.env.workspace.close(self.env, restart)
-        except:
-            pass
+        except BaseException as e:
+            marcel.util.print_to_stderr(self.env, f'Workspace was not closed properly: {e}')
         # If we're shutting down for real (not restarting) then the default workspace needs to be closed too.
         if not restart:
             try:
                 Workspace.default().close(self.env, restart)
-            except:
-                pass
+            except BaseException as e:
+                marcel.util.print_to_stderr(self.env, f'Workspace was not closed properly: {e}')
         # The current main is about to be obsolete, but it still exists, and is registered with atexit,
         # keeping it alive, I think. So its shutdown handler gets run on shutdown. atexit.unregister
         # prevents this, and only the current Main's shutdown will run, on shutdown.
-- 
2.43.0


From 3906d76a330020184746891c3b3e4ef622abc057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 101/109] fix: a directory changed by a job is changed in the
 shell

---
 marcel/directorystate.py | 2 ++
 marcel/main.py           | 7 ++-----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/marcel/directorystate.py b/marcel/directorystate.py
index 2c319d9..a9319b2 100644
--- a/marcel/directorystate.py
+++ b/marcel/directorystate.py
@@ -48,6 +48,8 @@ class DirectoryState:
             else:
                 dir_stack[-1] = new_dir
             self.env.assign_permanent('PWD', new_dir)
+            # If this is a job, then the process that started it needs to know.
+            self.env.mark_possibly_changed('PWD')
         else:
             home = pathlib.Path.home().resolve()
             marcel.util.print_to_stderr(self.env,
diff --git a/marcel/main.py b/marcel/main.py
index a9cd40c..1207d3f 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -256,12 +256,9 @@ class MainInteractive(MainScript):
 
     def update_namespace(self, child_namespace_changes):
         # pwd requires special handling
-        try:
-            pwd = child_namespace_changes['PWD']
+        pwd = child_namespace_changes.pop('PWD', None)
+        if pwd is not None and pathlib.Path(pwd) != self.env.dir_state().current_dir():
             self.env.dir_state().change_current_dir(pathlib.Path(pwd))
-        except KeyError:
-            # PWD wasn't changed
-            pass
         for var, value in child_namespace_changes.items():
             if value is Workspace.DeletedVar:
                 if self.env.hasvar(var):
-- 
2.43.0


From 9589afdc5b11a103801b2225adfad36f6df57202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:20 +0000
Subject: [PATCH 102/109] fix: an interrupted upgrade of the storage layout can
 be completed

---
 marcel/persistence/storagelayout.py | 141 +++++++++++++++-------------
 1 file changed, 78 insertions(+), 63 deletions(-)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 832e0ed..e91679f 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -13,7 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 import datetime
-import pathlib
+import re
 import shutil
 
 import marcel.exception
@@ -126,11 +126,29 @@ class StorageLayout(object):
     @staticmethod
     def subdirs(dir):
         workspace_dirs = []
-        for path in dir.iterdir():
+        for path in dir.iterdir() if dir.is_dir() else ():
             if path.is_dir():
                 workspace_dirs.append(path)
         return workspace_dirs
 
+    # A migration may be interrupted, e.g. by a crash or a full disk, and is then done again, from the beginning. So it
+    # must tolerate finding what was moved already in the new place, and the step that makes the storage match the next
+    # layout has to be the last one (except for removal of what has been copied). A file has to be complete when it shows
+    # up in its new place, even if that is on a different filesystem.
+
+    @staticmethod
+    def move_if_present(source, target):
+        if source.exists():
+            incomplete = target.with_name(f'{target.name}.incomplete')
+            shutil.copy2(source, incomplete)
+            incomplete.replace(target)
+            source.unlink()
+
+    @staticmethod
+    def rename_if_present(source, target):
+        if source.exists():
+            source.rename(target)
+
 
 # Version < 0.13.6
 class StorageLayoutOriginal(StorageLayout):
@@ -144,16 +162,16 @@ class StorageLayoutOriginal(StorageLayout):
     def migrate(self):
         self.config.mkdir(parents=True, exist_ok=True)
         self.data.mkdir(parents=True, exist_ok=True)
-        shutil.move(self.home / '.marcel.py', self.config / 'startup.py')
-        shutil.move(self.home / '.marcel_history', self.data / 'history')
+        StorageLayout.move_if_present(self.home / '.marcel_history', self.data / 'history')
+        # The next layout is identified by the startup file in its new place.
+        StorageLayout.move_if_present(self.home / '.marcel.py', self.config / 'startup.py')
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'xdg'
         return layout
 
     def match(self):
-        match = ((self.home / '.marcel.py').exists() and (self.home / '.marcel_history').exists())
-        return match
+        return (self.home / '.marcel.py').exists()
 
 
 # Version >= ~0.13.6. First use of XDG conventions.
@@ -163,16 +181,17 @@ class StorageLayoutXDG(StorageLayout):
         return 'xdg'
 
     def migrate(self):
+        (self.data / 'reservoirs').mkdir(parents=True, exist_ok=True)
+        # The next layout is identified by this file.
         (self.config / '.WORKSPACE').touch(mode=0o000)
-        (self.data / 'reservoirs').mkdir(exist_ok=True)
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws1'
         return layout
 
     def match(self):
-        return (self.config.exists() and
-                self.data.exists())
+        # The directories alone could be due to an interrupted creation of the current layout.
+        return (self.config / 'startup.py').exists()
 
 
 # Version >= 0.20.0. First workspace layout.
@@ -182,15 +201,19 @@ class StorageLayoutWS1(StorageLayout):
         return 'ws1'
 
     def migrate(self):
-        def fix_default_workspace(base_dir, *filenames):
-            new_default_workspace_dir = base_dir / '__DEFAULT_WORKSPACE__'
-            new_default_workspace_dir.mkdir(parents=True, exist_ok=True)
-            for filename in filenames:
-                shutil.move(base_dir / filename, new_default_workspace_dir)
-
         # Move default workspace files to __DEFAULT_WORKSPACE__ directory
-        fix_default_workspace(self.config, '.WORKSPACE', 'startup.py')
-        fix_default_workspace(self.data, 'history', 'reservoirs')
+        data_dir = self.data / '__DEFAULT_WORKSPACE__'
+        data_dir.mkdir(parents=True, exist_ok=True)
+        for filename in ('history', 'reservoirs'):
+            StorageLayout.rename_if_present(self.data / filename, data_dir / filename)
+        # The next layout is identified by config_dir.
+        config_dir = self.config / '__DEFAULT_WORKSPACE__'
+        incomplete_config_dir = self.config / '__DEFAULT_WORKSPACE__.incomplete'
+        incomplete_config_dir.mkdir(parents=True, exist_ok=True)
+        StorageLayout.rename_if_present(self.config / 'startup.py', incomplete_config_dir / 'startup.py')
+        (incomplete_config_dir / '.WORKSPACE').touch(mode=0o000)
+        incomplete_config_dir.rename(config_dir)
+        (self.config / '.WORKSPACE').unlink()
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws2'
@@ -208,33 +231,26 @@ class StorageLayoutWS2(StorageLayout):
         return 'ws2'
 
     def migrate(self):
-        def move_workspace_dirs(workspace_dirs, new_workspace_base):
-            for workspace_dir in workspace_dirs:
-                if workspace_dir.name != marcel.locations.Locations.WORKSPACE_DIR_NAME:
-                    moved_dir = shutil.move(workspace_dir, new_workspace_base)
-                    if moved_dir:
-                        self.should_exist(pathlib.Path(moved_dir), f'Tried to move workspace dir {workspace_dir}')
-                    else:
-                        raise marcel.exception.KillShellException(
-                            f'Attempt to move workspace dir {workspace_dir} failed.')
-                    self.should_not_exist(workspace_dir, f'Tried to move workspace dir {workspace_dir}')
-
         def fix_dirs(base_dir):
             new_workspace_dir = base_dir / 'workspace'
             new_workspace_dir.mkdir(parents=True, exist_ok=True)
-            # Move workspace directories
-            old_workspace_dirs = StorageLayout.subdirs(base_dir)
-            move_workspace_dirs(old_workspace_dirs, new_workspace_dir)
-            # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__
-            old_default_workspace_dir = new_workspace_dir / '__DEFAULT_WORKSPACE__'
+            old_default_workspace_dir = base_dir / '__DEFAULT_WORKSPACE__'
             new_default_workspace_dir = new_workspace_dir / '__DEFAULT__'
-            old_default_workspace_dir.rename(new_default_workspace_dir)
+            # If the default workspace is in its new place, then everything is.
+            if not new_default_workspace_dir.exists():
+                # Move workspace directories
+                for workspace_dir in StorageLayout.subdirs(base_dir):
+                    if workspace_dir not in (new_workspace_dir, old_default_workspace_dir):
+                        workspace_dir.rename(new_workspace_dir / workspace_dir.name)
+                # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__
+                StorageLayout.rename_if_present(old_default_workspace_dir, new_default_workspace_dir)
             # Create dir for broken workspaces
             new_broken_dir = base_dir / 'broken'
-            new_broken_dir.mkdir(parents=False, exist_ok=False)
+            new_broken_dir.mkdir(parents=False, exist_ok=True)
 
-        fix_dirs(self.config)
         fix_dirs(self.data)
+        # The next layout is identified by the default workspace's new place in config.
+        fix_dirs(self.config)
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws3'
@@ -256,13 +272,15 @@ class StorageLayoutWS3(StorageLayout):
         layout = None
         for workspace_dir in StorageLayout.subdirs(self.data / 'workspace'):
             history_file = workspace_dir / 'history'
-            history_file.unlink()
-            # Write something that looks like a prompt_toolkit history file
-            with open(history_file, 'w') as f:
-                f.write('\n')
-                f.write(datetime.datetime.now().strftime('# %Y-%m-%d %H:%M:%S.%f\n'))
-                f.write('+("History from before marcel version 0.32.0 has been deleted, '
-                        'due to a change in history file format.")\n')
+            if not StorageLayoutPromptToolkit.is_prompt_toolkit_history(history_file):
+                # Write something that looks like a prompt_toolkit history file
+                new_history_file = workspace_dir / 'history.incomplete'
+                with open(new_history_file, 'w') as f:
+                    f.write('\n')
+                    f.write(datetime.datetime.now().strftime('# %Y-%m-%d %H:%M:%S.%f\n'))
+                    f.write('+("History from before marcel version 0.32.0 has been deleted, '
+                            'due to a change in history file format.")\n')
+                new_history_file.replace(history_file)
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'pt'
@@ -283,29 +301,26 @@ class StorageLayoutPromptToolkit(StorageLayout):
         return None
 
     def match(self):
-        # Same layout as ws3, but the top of this history file looks like this:
-        #
-        #     # 2025-04-02 16:54:22.895547
-        # Look for a blank line followed by "# 2...-..-.. ..:  :  ."
-        #    positions:                      0  3  6  9  12 15 18 21
-        # where . is any character
-
+        # Same layout as ws3, but history files have a different format.
         if not (self.config.exists() and
                 (self.config / 'workspace').exists() and
                 (self.config / 'workspace' / '__DEFAULT__').exists()):
             return False
-        history_file = self.data / 'workspace' / '__DEFAULT__' / 'history'
-        if history_file.exists():
-            with open(history_file) as f:
+        return all(StorageLayoutPromptToolkit.is_prompt_toolkit_history(workspace_dir / 'history')
+                   for workspace_dir in StorageLayout.subdirs(self.data / 'workspace'))
+
+    @staticmethod
+    def is_prompt_toolkit_history(history_file):
+        # The top of the file looks like this:
+        #
+        #     # 2025-04-02 16:54:22.895547
+        # Look for a blank line followed by "# 2...-..-.. ..:  :  ."
+        # where . is any character. A file without any history has no format to be migrated.
+        try:
+            with open(history_file, errors='replace') as f:
                 l1 = f.readline().strip()
                 l2 = f.readline().strip()
-                if (len(l1) == 0 and len(l2) > 0 and
-                    l2[:3] == '# 2' and
-                    l2[6] == '-' and
-                    l2[9] == '-' and
-                    l2[12] == ' ' and
-                    l2[15] == ':' and
-                    l2[18] == ':' and
-                    l2[21] == '.'):
-                    return True
-        return False
\ No newline at end of file
+                return (len(l1) == 0 and
+                        (len(l2) == 0 or re.match(r'# 2...-..-.. ..:..:..\.', l2) is not None))
+        except FileNotFoundError:
+            return True
\ No newline at end of file
-- 
2.43.0


From 724103e4781246c13a7ed7fa454995963383a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:08 +0000
Subject: [PATCH 103/109] fix: output of a bash command is not lost when a
 process it left behind keeps the streams open

---
 marcel/op/bash.py | 53 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 6d3f061..433d43f 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -13,6 +13,8 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import codecs
+import io
 import os
 import selectors
 import subprocess
@@ -279,10 +281,9 @@ class ProcessOutputHandler(threading.Thread):
 
     def handle_output(self, sel):
         process = self.owner.process
-        op = self.owner.op
         lock = self.owner.lock
-        sel.register(process.stdout, selectors.EVENT_READ)
-        sel.register(process.stderr, selectors.EVENT_READ)
+        sel.register(process.stdout, selectors.EVENT_READ, LineSplitter(process.stdout))
+        sel.register(process.stderr, selectors.EVENT_READ, LineSplitter(process.stderr))
         while True:
             # Check for termination before looking for output: Output written just before termination must be read.
             terminated = process.poll() is not None
@@ -290,24 +291,42 @@ class ProcessOutputHandler(threading.Thread):
             lock.acquire()
             try:
                 if not events and terminated:
+                    # A stream still open is in use by a process that the executable left behind.
+                    for key in list(sel.get_map().values()):
+                        self.deliver(key, b'')
                     break
                 for key, _ in events:
-                    stream = key.fileobj
-                    line = stream.readline()
-                    if not line:
+                    # Don't use stream.readline(). It buffers output, and select() doesn't know about that.
+                    chunk = os.read(key.fd, 8192)
+                    if not chunk:
                         sel.unregister(key.fileobj)
-                    else:
-                        output = ProcessOutputHandler.normalize_output(line)
-                        if stream is process.stdout:
-                            op.send(self.env, output)
-                        elif stream is process.stderr:
-                            op.send_error(self.env, marcel.object.error.Error(output))
+                    self.deliver(key, chunk)
             finally:
                 lock.release()
         process.wait()
 
-    @staticmethod
-    def normalize_output(x):
-        if x[-1] == '\n':
-            x = x[:-1]
-        return x
+    def deliver(self, key, chunk):
+        op = self.owner.op
+        for line in key.data.lines(chunk):
+            if key.fileobj is self.owner.process.stdout:
+                op.send(self.env, line)
+            else:
+                op.send_error(self.env, marcel.object.error.Error(line))
+
+
+# Splits the output of a process into lines.
+class LineSplitter:
+
+    def __init__(self, stream):
+        decoder = codecs.getincrementaldecoder(stream.encoding)(stream.errors)
+        self.decoder = io.IncrementalNewlineDecoder(decoder, translate=True)
+        self.incomplete = ''
+
+    # chunk is empty at the end of the stream.
+    def lines(self, chunk):
+        final = not chunk
+        lines = (self.incomplete + self.decoder.decode(chunk, final=final)).split('\n')
+        self.incomplete = lines.pop()
+        if final and self.incomplete:
+            lines.append(self.incomplete)
+        return lines
-- 
2.43.0


From 934b150599d5f72bcbd5dab3e5b2edc6e215fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:41 +0000
Subject: [PATCH 104/109] fix: The API and farcel did not work for a user who
 had never run marcel

---
 bin/farcel.py | 3 +++
 marcel/api.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bin/farcel.py b/bin/farcel.py
index 46d464c..1ed0d5b 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -30,6 +30,7 @@ import marcel.exception
 import marcel.object.error
 import marcel.object.workspace
 import marcel.opmodule
+import marcel.persistence.storagelayout
 import marcel.pipeline
 import marcel.nestednamespace
 import marcel.util
@@ -167,6 +168,8 @@ def main():
         # pipeline from client
         pipeline = input.load()
         assert type(pipeline) is marcel.pipeline.PipelineExecutable
+        # Marcel may never have been run by this user of this host.
+        marcel.persistence.storagelayout.ensure_current()
         env = marcel.env.Environment.create(usage=marcel_usage,
                                             globals=dict() if marcel_usage == 'api' else None)
         version = env.getvar('MARCEL_VERSION')
diff --git a/marcel/api.py b/marcel/api.py
index 013c1be..90e1e01 100644
--- a/marcel/api.py
+++ b/marcel/api.py
@@ -23,6 +23,7 @@ import marcel.exception as _exception
 import marcel.main as _main
 import marcel.object.error as _error
 import marcel.opmodule
+import marcel.persistence.storagelayout
 import marcel.pipeline as _pipeline
 import marcel.reservoir as _reservoir
 import marcel.structish
@@ -86,6 +87,8 @@ class _Initialization(object):
         if not self.initialized:
             # Environment and Main
             global _ENV, _MAIN
+            # Marcel may never have been run by this user.
+            marcel.persistence.storagelayout.ensure_current()
             _ENV = _env_.Environment.create(globals=globals(), usage='api')
             _MAIN = _main.MainAPI(_ENV)
             _ENV.enforce_var_immutability()
-- 
2.43.0


From f51891267cc69f0915cf4841c79ea31404027196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:02 +0000
Subject: [PATCH 105/109] fix: gen in the API checks pad=0, as the command
 does, instead of ignoring it

---
 marcel/op/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/gen.py b/marcel/op/gen.py
index 82bcafc..a0f3bbd 100644
--- a/marcel/op/gen.py
+++ b/marcel/op/gen.py
@@ -37,7 +37,7 @@ permitted if the stream does not terminate, or if {r:START} is negative.
 
 
 def gen(count=0, start=0, pad=None):
-    args = ['--pad', pad] if pad else []
+    args = ['--pad', pad] if pad is not None else []
     args.append(count)
     args.append(start)
     return Gen(), args
-- 
2.43.0


From 940baff67efe3c2b7cd63140f679b516bde6400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:02 +0000
Subject: [PATCH 106/109] fix: env reports a variable whose value is None,
 instead of saying that it is undefined

---
 marcel/op/env.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marcel/op/env.py b/marcel/op/env.py
index 5a077ec..ca868fd 100644
--- a/marcel/op/env.py
+++ b/marcel/op/env.py
@@ -168,11 +168,10 @@ class EnvMarcel(EnvImpl):
 
     def one_var(self, env):
         var = self.op.var
-        value = env.getvar(var)
-        if value is None:
-            self.no_such_var(env, var)
+        if env.hasvar(var):
+            self.op.send(env, (var, env.getvar(var)))
         else:
-            self.op.send(env, (var, value))
+            self.no_such_var(env, var)
 
     def delete_var(self, env):
         try:
-- 
2.43.0


From bf2d71c817b176bfd0a4d63bac339a96e568abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:41 +0000
Subject: [PATCH 107/109] fix: a command that fails with an unexpected
 exception is reported instead of ending the shell

---
 marcel/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/main.py b/marcel/main.py
index 1207d3f..d65c6c5 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -124,6 +124,9 @@ class MainScript(Main):
             except marcel.exception.KillAndResumeException:
                 # Error handler printed the error
                 pass
+            except Exception as e:
+                # A failing command must not bring down the shell.
+                marcel.util.print_to_stderr(env, f'{type(e)}: {e}')
 
     # MainScript
 
-- 
2.43.0


From d38d703009e0f6ee3dbcec4b13df17edbea43f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:38 +0000
Subject: [PATCH 108/109] fix: the remote server must not fail for want of its
 input stream when tracing fails

---
 bin/farcel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/farcel.py b/bin/farcel.py
index 1ed0d5b..1424a79 100755
--- a/bin/farcel.py
+++ b/bin/farcel.py
@@ -155,12 +155,12 @@ def shutdown():
 
 def main():
     pipeline_runner = None
+    # Use sys.stdin.buffer because we want binary data, not the text version
+    input = dill.Unpickler(sys.stdin.buffer)
     try:
         TRACE.write('-' * 80)
         TRACE.write(getpass.getuser())
         TRACE.write(f'{datetime.datetime.now()}')
-        # Use sys.stdin.buffer because we want binary data, not the text version
-        input = dill.Unpickler(sys.stdin.buffer)
         # Python version from client
         client_python_version = input.load()
         # Client-side marcel usage, api or script.
-- 
2.43.0


From 916e6482d90a280fb2e137a2f5cc9bc13e9f0744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:38 +0000
Subject: [PATCH 109/109] fix: a blank line must not end a script read from
 standard input

---
 marcel/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index d65c6c5..ad88d6e 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -369,8 +369,9 @@ def main_script_run(script):
 
 def read_heredoc():
     lines = []
-    while len(line := sys.stdin.readline().strip()) != 0:
-        lines.append(line)
+    # A blank line is not the end of the input.
+    while len(line := sys.stdin.readline()) != 0:
+        lines.append(line.strip())
     return '\n'.join(lines)
 
 def read_script(script_path):
-- 
2.43.0

