From 381ebcc7e6edc40500909daafd02aa6f1ffd37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 01/68] fix: a skip raised while a scope ends no longer
 abandons the remaining cleanups, and no longer makes the next test be
 reported without running

---
 slash/core/cleanup_manager.py |  2 +-
 slash/core/scope_manager.py   |  8 ++++++--
 slash/exception_handling.py   | 13 ++++++++++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/slash/core/cleanup_manager.py b/slash/core/cleanup_manager.py
index ce29f71..f6dda5c 100644
--- a/slash/core/cleanup_manager.py
+++ b/slash/core/cleanup_manager.py
@@ -153,7 +153,7 @@ class CleanupManager(object):
                 continue
             if (in_failure or in_interruption) and cleanup.success_only:
                 continue
-            with handling_exceptions(swallow=True):
+            with handling_exceptions(swallow=True, swallow_skips=True):
                 _logger.trace("Calling cleanup: {0}", cleanup)
                 previous_scope = self._current_scope
                 self._current_scope = scope
diff --git a/slash/core/scope_manager.py b/slash/core/scope_manager.py
index 7f820ee..469e4b3 100644
--- a/slash/core/scope_manager.py
+++ b/slash/core/scope_manager.py
@@ -65,8 +65,12 @@ class ScopeManager(object):
         if popped != scope:
             raise SlashInternalError('Popped scope {}, expected {}'.format(popped, scope))
 
-        call_all_raise_first([self._session.cleanups.pop_scope, self._session.fixture_store.pop_scope],
-                             scope)
+        try:
+            call_all_raise_first([self._session.cleanups.pop_scope, self._session.fixture_store.pop_scope],
+                                 scope)
+        except self._session.get_skip_exception_types():
+            # the skip was already recorded when it was handled. Ending a scope should never skip whatever comes next
+            _logger.trace('Ignoring skip while popping scope {0}', popped, exc_info=True)
         _logger.trace('Popped scope {0}', popped)
 
     def flush_remaining_scopes(self):
diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index f949eee..938d1c3 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -75,9 +75,11 @@ def handling_exceptions(fake_traceback=True, **kwargs):
     :param passthrough_types: a tuple specifying exception types to avoid handling, raising them immediately onward
     :param swallow: causes this context to swallow exceptions
     :param swallow_types: causes the context to swallow exceptions of, or derived from, the specified types
+    :param swallow_skips: causes the context to swallow skip exceptions as well (after recording them)
     :param context: An optional string describing the operation being wrapped. This will be emitted to the logs to simplify readability
 
-    .. note:: certain exceptions are never swallowed - most notably KeyboardInterrupt, SystemExit, and SkipTest
+    .. note:: certain exceptions are never swallowed - most notably KeyboardInterrupt, SystemExit, and SkipTest (unless
+       ``swallow_skips`` is used)
     """
 
     if not PYPY and fake_traceback:
@@ -92,11 +94,12 @@ def handling_exceptions(fake_traceback=True, **kwargs):
         fake_tbs = tuple()
     swallow = kwargs.pop("swallow", False)
     swallow_types = kwargs.pop('swallow_types', ())
+    swallow_skips = kwargs.pop('swallow_skips', False)
     if swallow:
         swallow_types = swallow_types + (Exception, )
     assert isinstance(swallow_types, (list, tuple)), 'swallow_types must be either a list or a tuple'
     passthrough_types = kwargs.pop('passthrough_types', ()) + tuple(_ignored_state.ignored_exception_types)
-    return _HandlingException(fake_tbs, swallow_types, passthrough_types, kwargs)
+    return _HandlingException(fake_tbs, swallow_types, passthrough_types, kwargs, swallow_skips=swallow_skips)
 
 
 class _HandledException(object):
@@ -104,11 +107,12 @@ class _HandledException(object):
 
 class _HandlingException(object):
 
-    def __init__(self, fake_tbs, swallow_types, passthrough_types, handling_kwargs):
+    def __init__(self, fake_tbs, swallow_types, passthrough_types, handling_kwargs, swallow_skips=False):
         self._fake_traceback = fake_tbs
         self._kwargs = handling_kwargs
         self._passthrough_types = passthrough_types
         self._swallow_types = swallow_types
+        self._swallow_skips = swallow_skips
         self._handled = _HandledException()
 
     def __enter__(self):
@@ -130,6 +134,9 @@ class _HandlingException(object):
         handle_exception(exc_info, **self._kwargs)
         self._handled.exception = exc_info[1]
         skip_types = () if slash_context.session is None else slash_context.session.get_skip_exception_types()
+        if isinstance(exc_value, skip_types) and self._swallow_skips:
+            _logger.trace('Swallowing {!r}', exc_value)
+            return True
         if isinstance(exc_value, skip_types) or isinstance(exc_value, exceptions.INTERRUPTION_EXCEPTIONS):
             return None
         if self._swallow_types and isinstance(exc_value, self._swallow_types):
-- 
2.43.0


From 39fa789e52b585949f3a4934c9f9362ed8a98faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 02/68] fix: session_end is notified even if a session cleanup
 is interrupted

---
 slash/core/session.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/slash/core/session.py b/slash/core/session.py
index 37c1bf2..a966934 100644
--- a/slash/core/session.py
+++ b/slash/core/session.py
@@ -133,15 +133,16 @@ class Session(Activatable):
             self._started = False
             self.end_time = time.time()
 
-            with handling_exceptions():
-                self.cleanups.pop_scope('session-global')
-
-            if session_start_called:
-                with handling_exceptions():
-                    hooks.session_end()  # pylint: disable=no-member
+            try:
                 with handling_exceptions():
-                    hooks.after_session_end()  # pylint: disable=no-member
-            self.reporter.report_session_end(self)
+                    self.cleanups.pop_scope('session-global')
+            finally:
+                if session_start_called:
+                    with handling_exceptions():
+                        hooks.session_end()  # pylint: disable=no-member
+                    with handling_exceptions():
+                        hooks.after_session_end()  # pylint: disable=no-member
+                self.reporter.report_session_end(self)
 
     def initiate_cleanup(self):
         if not self.scope_manager.has_active_scopes():
-- 
2.43.0


From da39991ea346f9938fd64b1a367e97d150a87309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 03/68] fix: critical cleanups take place when the interruption
 hits during cleanups, and before_test_cleanups errors don't drop the test's
 cleanups

---
 slash/core/cleanup_manager.py | 37 ++++++++++++++++++++++-------------
 slash/utils/python.py         |  7 +++++--
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/slash/core/cleanup_manager.py b/slash/core/cleanup_manager.py
index f6dda5c..8cd7816 100644
--- a/slash/core/cleanup_manager.py
+++ b/slash/core/cleanup_manager.py
@@ -6,7 +6,7 @@ from sentinels import Sentinel
 from .. import hooks
 from ..ctx import context
 from ..exception_handling import handling_exceptions
-from ..exceptions import CannotAddCleanup, IncorrectScope, SlashInternalError
+from ..exceptions import INTERRUPTION_EXCEPTIONS, CannotAddCleanup, IncorrectScope, SlashInternalError
 
 _logger = logbook.Logger(__name__)
 
@@ -142,26 +142,35 @@ class CleanupManager(object):
             scope = self._scope_stack[-1]
             _logger.trace('Deducing last scope={0.name!r}', scope)
 
+        interruption = None
         if scope.name == 'test': # pylint: disable=no-member
-            with handling_exceptions():
-                hooks.before_test_cleanups()  # pylint: disable=no-member
+            try:
+                with handling_exceptions(swallow=True, swallow_skips=True):
+                    hooks.before_test_cleanups()  # pylint: disable=no-member
+            except INTERRUPTION_EXCEPTIONS as e:
+                interruption = e
 
         stack = scope.cleanups # pylint: disable=no-member
         while stack:
             cleanup = stack.pop()
-            if in_interruption and not cleanup.critical:
+            if (in_interruption or interruption is not None) and not cleanup.critical:
                 continue
-            if (in_failure or in_interruption) and cleanup.success_only:
+            if (in_failure or in_interruption or interruption is not None) and cleanup.success_only:
                 continue
-            with handling_exceptions(swallow=True, swallow_skips=True):
-                _logger.trace("Calling cleanup: {0}", cleanup)
-                previous_scope = self._current_scope
-                self._current_scope = scope
-                try:
-                    cleanup()
-                finally:
-                    self._current_scope = previous_scope
-
+            try:
+                with handling_exceptions(swallow=True, swallow_skips=True):
+                    _logger.trace("Calling cleanup: {0}", cleanup)
+                    previous_scope = self._current_scope
+                    self._current_scope = scope
+                    try:
+                        cleanup()
+                    finally:
+                        self._current_scope = previous_scope
+            except INTERRUPTION_EXCEPTIONS as e:
+                # the remaining critical cleanups should still take place
+                interruption = e
+        if interruption is not None:
+            raise interruption
 
 
 class _Cleanup(object):
diff --git a/slash/utils/python.py b/slash/utils/python.py
index 8db6109..9809763 100644
--- a/slash/utils/python.py
+++ b/slash/utils/python.py
@@ -10,6 +10,8 @@ import logbook
 
 from sentinels import NOTHING
 
+from ..exceptions import INTERRUPTION_EXCEPTIONS
+
 
 PYPY = hasattr(sys, 'pypy_version_info')
 _logger = logbook.Logger(__name__)
@@ -103,8 +105,9 @@ def call_all_raise_first(_funcs, *args, **kwargs):
     for func in _funcs:
         try:
             func(*args, **kwargs)
-        except Exception:  # pylint: disable=broad-except
-            exc_info = sys.exc_info()
+        except (Exception,) + INTERRUPTION_EXCEPTIONS:  # pylint: disable=broad-except
+            if exc_info is None or not isinstance(exc_info[1], INTERRUPTION_EXCEPTIONS):
+                exc_info = sys.exc_info()
     if exc_info is not None:
         reraise(*exc_info)
 
-- 
2.43.0


From 70c5c9dca02012aef8fc8f5d13c2490bf5355e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 04/68] fix: success-only cleanups of module scope are not
 called if the test adding them was not successful

---
 slash/core/cleanup_manager.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/slash/core/cleanup_manager.py b/slash/core/cleanup_manager.py
index 8cd7816..758d740 100644
--- a/slash/core/cleanup_manager.py
+++ b/slash/core/cleanup_manager.py
@@ -157,6 +157,8 @@ class CleanupManager(object):
                 continue
             if (in_failure or in_interruption or interruption is not None) and cleanup.success_only:
                 continue
+            if cleanup.success_only and cleanup.added_by_unsuccessful_test():
+                continue
             try:
                 with handling_exceptions(swallow=True, swallow_skips=True):
                     _logger.trace("Calling cleanup: {0}", cleanup)
@@ -193,6 +195,13 @@ class _Cleanup(object):
             self.result.add_exception()
             raise
 
+    def added_by_unsuccessful_test(self):
+        """Returns whether this is a cleanup of a wider scope, which was added by a test that did not end successfully
+        """
+        if self.result is None or self.result is context.result or self.result.is_global_result():
+            return False
+        return not self.result.is_success(allow_skips=True)
+
     def _get_repr(self):
         qual_name = getattr(self.func, '__qualname__', None) or getattr(self.func, '__name__', str(self.func))
         module_name = getattr(self.func, '__module__', '???')
-- 
2.43.0


From 4bedb2a2bc8b4c822db76c9fc68428e131fe0d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 05/68] fix: errors and interruptions in test_start are
 recorded before the test's cleanups are called

---
 slash/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/runner.py b/slash/runner.py
index fe26826..bde40fe 100644
--- a/slash/runner.py
+++ b/slash/runner.py
@@ -108,7 +108,8 @@ def _run_single_test(test, test_iterator):
                         with handling_exceptions(swallow=True):
                             context.session.scope_manager.begin_test(test)
                             try:
-                                controller.start()
+                                with handling_exceptions():
+                                    controller.start()
                                 with handling_exceptions(swallow=True):
                                     test.run()
                             finally:
-- 
2.43.0


From 2be068941d05e25d338d3c9f49a7a45e271323f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 06/68] fix: sys.exit(0) called from a test or a hook no longer
 makes an unsuccessful session exit with 0

---
 slash/app.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slash/app.py b/slash/app.py
index e885f55..5688693 100644
--- a/slash/app.py
+++ b/slash/app.py
@@ -145,6 +145,9 @@ class Application(object):
             _logger.error("Failed to debug_if_needed: {!r}", e, exc_info=True, extra={'capture': False})
         if exc_value is not None:
             self._exit_code = exc_value.code if isinstance(exc_value, SystemExit) else 1
+            if not self._exit_code and self.session is not None and not self.session.results.is_success(allow_skips=True):
+                # sys.exit(0) called from a test or a hook should not conceal an unsuccessful session
+                self._exit_code = 1
 
             if should_inhibit_unhandled_exception_traceback(exc_value):
                 self.get_reporter().report_error_message(str(exc_value))
-- 
2.43.0


From 5ebacde79b8276d46b3c8b06f4c29644843db798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 07/68] fix: a skip raised by a test_end or test_avoided hook
 is recorded and no longer aborts the run

---
 slash/runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slash/runner.py b/slash/runner.py
index bde40fe..263eb19 100644
--- a/slash/runner.py
+++ b/slash/runner.py
@@ -94,7 +94,7 @@ def _run_single_test(test, test_iterator):
         # sets the current result, test id etc.
         result, prev_result = exit_stack.enter_context(_get_test_context(test))
 
-        with handling_exceptions(swallow=True):
+        with handling_exceptions(swallow=True, swallow_skips=True):
 
 
             should_run = _process_requirements_and_exclusions(test)
@@ -178,7 +178,8 @@ class TestStartEndController(object):
             self._started = False
             try:
                 with context.session.cleanups.forbid_implicit_scoping_context():
-                    hooks.test_end() # pylint: disable=no-member
+                    with handling_exceptions(swallow=True, swallow_skips=True):
+                        hooks.test_end() # pylint: disable=no-member
                     self._result.mark_finished()
             finally:
                 context.result = self._prev_result
-- 
2.43.0


From 3d8ee7824202b2e42807d6be0232e932ea054852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 08/68] fix: test_error and not test_skip is notified for tests
 which had both errors and skips

---
 slash/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/runner.py b/slash/runner.py
index 263eb19..07f6774 100644
--- a/slash/runner.py
+++ b/slash/runner.py
@@ -193,7 +193,7 @@ def _fire_test_summary_hooks(test, result): # pylint: disable=unused-argument
     with handling_exceptions():
         if result.is_just_failure():
             hooks.test_failure()  # pylint: disable=no-member
-        elif result.is_skip():
+        elif result.is_skip() and not result.is_error():
             hooks.test_skip(reason=result.get_skips()[0]) # pylint: disable=no-member
         elif result.is_success():
             hooks.test_success()  # pylint: disable=no-member
-- 
2.43.0


From 1e799529583f42f501720d45c87bf448e107e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 09/68] fix: an exception object raised again by another test
 is recorded for that test as well

---
 slash/exception_handling.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index 938d1c3..1e0dc0f 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -155,6 +155,9 @@ def handle_exception(exc_info, context=None):
 
     """
     exc_value = exc_info[1]
+    if _was_handled_in_another_test(exc_value):
+        # the same exception object (e.g. a memoized one) is raised again - it should be recorded for the current test too
+        _forget_handling(exc_value)
     already_handled = is_exception_handled(exc_value)
     msg = "Handling exception"
     if context is not None:
@@ -172,9 +175,21 @@ def handle_exception(exc_info, context=None):
 
 
 def mark_exception_handled(e):
+    mark_exception(e, "handled_in_test", slash_context.test_id)
     return mark_exception(e, "handled", True)
 
 
+def _was_handled_in_another_test(e):
+    if slash_context.test_id is None or not is_exception_handled(e):
+        return False
+    return get_exception_mark(e, "handled_in_test") != slash_context.test_id
+
+
+def _forget_handling(e):
+    mark_exception(e, "handled", False)
+    mark_exception(e, "added_to_result", False)
+
+
 def is_exception_handled(e):
     """
     Checks if the exception ``e`` already passed through the exception handling logic
-- 
2.43.0


From 729eab6c693d948ded82f5373d2e73fd3728506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 10/68] fix: an exception raised by after() no longer replaces
 (and so conceals) an interruption of the test

---
 slash/core/test.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slash/core/test.py b/slash/core/test.py
index d2bb14f..ba4adee 100644
--- a/slash/core/test.py
+++ b/slash/core/test.py
@@ -3,7 +3,7 @@ import itertools
 from types import GeneratorType
 
 from ..exception_handling import handling_exceptions
-from ..exceptions import SkipTest, InvalidTest
+from ..exceptions import INTERRUPTION_EXCEPTIONS, SkipTest, InvalidTest
 from .fixtures.parameters import bound_parametrizations_context
 from .runnable_test import RunnableTest
 from .runnable_test_factory import RunnableTestFactory
@@ -120,14 +120,19 @@ class Test(RunnableTest):
         with bound_parametrizations_context(self._variation, self._fixture_store, self._fixture_namespace):
             _call_with_fixtures = functools.partial(self._fixture_store.call_with_fixtures, namespace=self._fixture_namespace)
             _call_with_fixtures(self.before)
+            interrupted = False
             try:
                 with handling_exceptions():
                     result = _call_with_fixtures(method, trigger_test_start=True)
                     if isinstance(result, GeneratorType):
                         raise InvalidTest('{} is a generator. Running generators is not supported'.format(method))
 
+            except INTERRUPTION_EXCEPTIONS:
+                interrupted = True
+                raise
             finally:
-                with handling_exceptions():
+                # exceptions from after() should not replace an interruption
+                with handling_exceptions(swallow=interrupted, swallow_skips=interrupted):
                     _call_with_fixtures(self.after, trigger_test_end=True)
 
     def before(self):
-- 
2.43.0


From fe24bfbb85e4e5d311cded9aaf1dd01808894ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 11/68] fix: a fatal error raised while a file's scope ends
 stops the run

---
 slash/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/runner.py b/slash/runner.py
index 07f6774..97336a0 100644
--- a/slash/runner.py
+++ b/slash/runner.py
@@ -60,7 +60,8 @@ def run_tests(iterable, stop_on_error=None):
             context.session.reporter.report_test_end(test, result)
             if not test_iterator.has_next() or ensure_test_metadata(test_iterator.peek()).file_path != last_filename:
                 context.session.reporter.report_file_end(last_filename)
-            if result.has_fatal_exception():
+            # fatal errors of wider scopes may be recorded in results of previous tests
+            if context.session.results.has_fatal_errors():
                 _logger.debug("Stopping on fatal exception")
                 break
             if should_stop_on_error() and not context.session.results.is_success(allow_skips=True):
-- 
2.43.0


From c8c759828b933b02ed4f01d1e9e56cdfd11085ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 12/68] fix: a session interrupted outside of its tests reports
 itself as interrupted

---
 slash/core/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/core/result.py b/slash/core/result.py
index 856631a..54a417c 100644
--- a/slash/core/result.py
+++ b/slash/core/result.py
@@ -381,7 +381,7 @@ class SessionResults(object):
     def is_interrupted(self):
         """Indicates if this session was interrupted
         """
-        return any(result.is_interrupted() for result in self._iterator())
+        return any(result.is_interrupted() for result in self.iter_all_results())
 
     def get_num_results(self):
         return len(self._results_dict)
-- 
2.43.0


From 40f23a85092fba38265a687cb2f341caaa07ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:16 +0000
Subject: [PATCH 13/68] fix: a skip raised by a before_session_cleanup hook no
 longer replaces the interruption of the session

---
 slash/core/session.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slash/core/session.py b/slash/core/session.py
index a966934..7966c16 100644
--- a/slash/core/session.py
+++ b/slash/core/session.py
@@ -148,10 +148,10 @@ class Session(Activatable):
         if not self.scope_manager.has_active_scopes():
             return
         try:
-            with handling_exceptions(swallow=True):
+            with handling_exceptions(swallow=True, swallow_skips=True):
                 hooks.before_session_cleanup()  # pylint: disable=no-member
         finally:
-            with handling_exceptions(swallow=True):
+            with handling_exceptions(swallow=True, swallow_skips=True):
                 self.scope_manager.flush_remaining_scopes()
 
     def mark_complete(self):
-- 
2.43.0


From 42092dac2a75a454ee70f03b5051070a9aad8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:04 +0000
Subject: [PATCH 14/68] fix: refuse filter expressions with trailing or
 misplaced parts instead of ignoring them

---
 slash/utils/debug.py            |  4 ++--
 slash/utils/pattern_matching.py | 34 +++++++++++++++++++++++++++------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/slash/utils/debug.py b/slash/utils/debug.py
index 5afcafd..e56e7ed 100644
--- a/slash/utils/debug.py
+++ b/slash/utils/debug.py
@@ -7,7 +7,7 @@ from .. import hooks as trigger_hook
 from ..conf import config
 from ..ctx import context
 from .. import exceptions
-from .pattern_matching import Matcher
+from .pattern_matching import get_text_matcher
 
 import warnings
 
@@ -68,7 +68,7 @@ def debug_if_needed(exc_info=None):
         return
 
     exc_repr = repr(exc_info[1])
-    matchers = [Matcher(s) for s in config.root.debug.filter_strings]
+    matchers = [get_text_matcher(s) for s in config.root.debug.filter_strings]
     if matchers and not all(matcher.matches(exc_repr) for matcher in matchers):
         return
     launch_debugger(exc_info)
diff --git a/slash/utils/pattern_matching.py b/slash/utils/pattern_matching.py
index b05c613..7ecdd20 100644
--- a/slash/utils/pattern_matching.py
+++ b/slash/utils/pattern_matching.py
@@ -1,11 +1,14 @@
+import re
+
 from pyparsing import (
     infixNotation,
     opAssoc,
-    Word,
     alphanums,
     Keyword,
+    Regex,
     ZeroOrMore,
     Literal,
+    ParseException,
 )
 
 
@@ -67,16 +70,26 @@ class Exclude(object):
         return not self.matcher.matches(metadata)
 
 
-word = Word(alphanums + "._,-=/:")
+_word_chars = alphanums + "._,-=/:"
+
+
+def _operator(name):
+    return Keyword(name, identChars=_word_chars)
+
+
+# a word may carry the parenthesized parameters of the test it denotes, as in "test_something(x=1)"
+word = ~(_operator("not") | _operator("and") | _operator("or")) + Regex(
+    "[{}]+(\\([^()]*\\))*".format(re.escape(_word_chars))
+)
 matcher = Literal("tag:") + ZeroOrMore(" ") + word | word
 matcher.setParseAction(Include)
 
 bool_expr = infixNotation(  # pylint: disable=too-many-function-args
     matcher,
     [
-        (Keyword("not"), 1, opAssoc.RIGHT, Exclude),
-        ("and", 2, opAssoc.LEFT, AndMatching.from_tokens),
-        ("or", 2, opAssoc.LEFT, OrMatching.from_tokens),
+        (_operator("not"), 1, opAssoc.RIGHT, Exclude),
+        (_operator("and"), 2, opAssoc.LEFT, AndMatching.from_tokens),
+        (_operator("or"), 2, opAssoc.LEFT, OrMatching.from_tokens),
     ],
 )
 
@@ -84,10 +97,19 @@ bool_expr = infixNotation(  # pylint: disable=too-many-function-args
 class Matcher(object):
     def __init__(self, pattern):
         super(Matcher, self).__init__()
-        self._matcher = bool_expr.parseString(pattern)[0]
+        self._matcher = bool_expr.parseString(pattern, parseAll=True)[0]
 
     def __repr__(self):
         return repr(self._matcher)
 
     def matches(self, metadata):
         return self._matcher.matches(metadata)
+
+
+def get_text_matcher(pattern):
+    """Returns a matcher for arbitrary text. Patterns that are not valid expressions match literally
+    """
+    try:
+        return Matcher(pattern)
+    except ParseException:
+        return Include([pattern])
-- 
2.43.0


From ceb989995a62f93cf2ec65304b5daebe745de95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 15/68] fix: activating an active plugin registered its
 callbacks twice; a failed activation left some of them registered

---
 slash/plugins/plugin_manager.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 6d5a97e..e4ba20d 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -214,11 +214,18 @@ class PluginManager(object):
         """
         plugin = self._get_installed_plugin(plugin)
         plugin_name = plugin.get_name()
+        if plugin_name in self._active:
+            return
         if self._is_parallel_supported(plugin):
             _logger.warn("Activating plugin {} though it's configuration for parallel mode doesn't fit to current session".format(plugin.get_name()))
         plugin.activate()
-        for hook, callback, kwargs in self._get_plugin_registrations(plugin):
-            hook.register(callback, **kwargs)
+        try:
+            for hook, callback, kwargs in self._get_plugin_registrations(plugin):
+                hook.register(callback, **kwargs)
+        except Exception:
+            gossip.get_global_group().unregister_token(self._get_token(plugin_name))
+            plugin.deactivate()
+            raise
         self._active.add(plugin_name)
 
     def activate_later(self, plugin):
-- 
2.43.0


From 7920a2a7cd82413c57cdac453aa44c2bbd7a3339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 16/68] fix: uninstalling a plugin also drops its deferred
 activation or deactivation

---
 slash/plugins/plugin_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index e4ba20d..7ed4f76 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -193,6 +193,8 @@ class PluginManager(object):
         self._unconfigure(plugin)
         plugin_name = plugin.get_name()
         self._installed.pop(plugin_name)
+        self._pending_activation.discard(plugin_name)
+        self._pending_deactivation.discard(plugin_name)
         cmd_name = self.normalize_command_line_name(plugin_name)
         self._cmd_line_to_name.pop(cmd_name, None)
         config_name = self.normalize_config_name(plugin_name)
-- 
2.43.0


From 1066cd913c50dc054fe1f6c5eda8e68b487e6f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 17/68] fix: installing another plugin under the same name left
 the callbacks of the replaced one registered

---
 slash/plugins/plugin_manager.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 7ed4f76..3a78864 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -148,6 +148,10 @@ class PluginManager(object):
         if any(char in plugin_name for char in _DEPRECATED_CHARACTERS):
             warn_deprecation("In the future, dashes and underscore will not be allowed in plugin names - "
                              "spaces should be used instead (plugin name: {!r})".format(plugin_name))
+        replaced = self._installed.get(plugin_name)
+        replaced_active = plugin_name in self._active
+        if replaced is not None and replaced.plugin_instance is not plugin:
+            self.uninstall(replaced.plugin_instance)
         self._configure(plugin)
         self._installed[plugin_name] = PluginInfo(plugin, is_internal)
         self._cmd_line_to_name[self.normalize_command_line_name(plugin_name)] = plugin_name
@@ -161,7 +165,12 @@ class PluginManager(object):
                 self.activate(plugin_name)
             except IncompatiblePlugin:
                 exc_info = sys.exc_info()
-                self.uninstall(plugin)
+                if replaced is not None and replaced.plugin_instance is plugin:
+                    self._installed[plugin_name] = replaced
+                else:
+                    self.uninstall(plugin)
+                    if replaced is not None:
+                        self.install(replaced.plugin_instance, activate=replaced_active, is_internal=replaced.is_internal)
                 reraise(*exc_info)
         if activate_later:
             self.activate_later(plugin_name)
-- 
2.43.0


From 721b419bf0cb1f9b1e67d1d1eb95e1e0121e2d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 18/68] fix: restoring the plugins state also restores replaced
 and internal plugins

---
 slash/plugins/plugin_manager.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 3a78864..ecb4696 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -49,14 +49,17 @@ class PluginManager(object):
         try:
             yield
         finally:
+            for name, info in list(self._installed.items()):
+                previous_info = previous_installed.get(name)
+                if previous_info is None or previous_info.plugin_instance is not info.plugin_instance:
+                    self.uninstall(info.plugin_instance)
             for name in set(previous_installed) - set(self._installed):
-                self.install(previous_installed[name].plugin_instance)
+                self.install(previous_installed[name].plugin_instance, is_internal=previous_installed[name].is_internal)
+            self._installed.update(previous_installed)
             for name in set(previous_active) - self._active:
                 self.activate(name)
             for name in self._active - set(previous_active):
                 self.deactivate(name)
-            for name in set(self._installed) - set(previous_installed):
-                self.uninstall(name)
 
 
     def discover(self):
-- 
2.43.0


From f08526d0e899a0e5286b6988b5dfa9c0d7d39e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 19/68] fix: a plugin deactivated during a session missed the
 start of the next one

---
 slash/plugins/plugin_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index ecb4696..e796472 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -292,6 +292,8 @@ class PluginManager(object):
         if plugin_name in self._active:
             gossip.get_global_group().unregister_token(token)
             self._active.discard(plugin_name)
+            if plugin.__toggles__['session'].is_on():
+                plugin.__toggles__['session'].toggle()
             plugin.deactivate()
 
     def _configure(self, plugin):
@@ -425,7 +427,10 @@ class PluginManager(object):
 
         if has_session_end and not has_session_start:
             hook = gossip.get_hook('slash.session_start')
-            returned.append((hook, lambda: None, {'toggles_on': plugin.__toggles__['session']}))
+            returned.append((hook, lambda: None, {
+                'toggles_on': plugin.__toggles__['session'],
+                'token': self._get_token(plugin_name),
+            }))
             register_no_op_hooks.discard(hook.full_name)
 
         for hook_name in register_no_op_hooks:
-- 
2.43.0


From 9f4f0cc44261fc37c3d7b6d4306412cc284297e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:01 +0000
Subject: [PATCH 20/68] fix: a plugin providing a capability and session_end
 only did not provide it on session_start

---
 slash/plugins/plugin_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index e796472..c552490 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -429,6 +429,7 @@ class PluginManager(object):
             hook = gossip.get_hook('slash.session_start')
             returned.append((hook, lambda: None, {
                 'toggles_on': plugin.__toggles__['session'],
+                'provides': global_provides,
                 'token': self._get_token(plugin_name),
             }))
             register_no_op_hooks.discard(hook.full_name)
-- 
2.43.0


From e5719fbfa01c591bc968dcbed7c458bfa319a51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 21/68] fix: an interruption is no longer swallowed by
 get_exception_swallowing_context

---
 slash/exception_handling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index 1e0dc0f..f80eaae 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -200,10 +200,12 @@ def is_exception_handled(e):
 @contextmanager
 def get_exception_swallowing_context(report_to_sentry=True):
     """
-    Returns a context under which all exceptions are swallowed (ignored)
+    Returns a context under which all exceptions are swallowed (ignored), except for interruptions (e.g. KeyboardInterrupt)
     """
     try:
         yield
+    except exceptions.INTERRUPTION_EXCEPTIONS:
+        raise
     except:
         if not get_exception_mark(sys.exc_info()[1], "swallow", True):
             raise
-- 
2.43.0


From 68d02393067362ef594aa6d0ab1f136f314c382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 22/68] fix: swallow_types given as a list raised TypeError
 instead of swallowing

---
 slash/exception_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index f80eaae..f08bce4 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -94,10 +94,11 @@ def handling_exceptions(fake_traceback=True, **kwargs):
         fake_tbs = tuple()
     swallow = kwargs.pop("swallow", False)
     swallow_types = kwargs.pop('swallow_types', ())
+    assert isinstance(swallow_types, (list, tuple)), 'swallow_types must be either a list or a tuple'
+    swallow_types = tuple(swallow_types)
     swallow_skips = kwargs.pop('swallow_skips', False)
     if swallow:
         swallow_types = swallow_types + (Exception, )
-    assert isinstance(swallow_types, (list, tuple)), 'swallow_types must be either a list or a tuple'
     passthrough_types = kwargs.pop('passthrough_types', ()) + tuple(_ignored_state.ignored_exception_types)
     return _HandlingException(fake_tbs, swallow_types, passthrough_types, kwargs, swallow_skips=swallow_skips)
 
-- 
2.43.0


From 9da02744e4ec07b87ad4a908bc85fec471b3ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:17 +0000
Subject: [PATCH 23/68] fix: tests which failed and also skipped are saved as
 failed for resuming

---
 slash/resuming.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slash/resuming.py b/slash/resuming.py
index f477ac6..f407720 100644
--- a/slash/resuming.py
+++ b/slash/resuming.py
@@ -111,13 +111,15 @@ def save_resume_state(session_result, collected_tests):
         test_to_resume.variation = str(metadata.variation.id) if metadata.variation else None
         if result.is_success_finished():
             test_to_resume.status = ResumeTestStatus.SUCCESS
+        elif result.has_errors_or_failures() or result.is_interrupted():
+            test_to_resume.status = ResumeTestStatus.FAILED
+        elif result.is_skip():
+            test_to_resume.status = ResumeTestStatus.SKIPPED
         elif not result.is_started():
             test_to_resume.status = ResumeTestStatus.PLANNED
         else:
             test_to_resume.status = ResumeTestStatus.FAILED
 
-        if result.is_skip():
-            test_to_resume.status = ResumeTestStatus.SKIPPED
         tests_to_resume.append(test_to_resume)
     tests_with_no_results = {test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None}
 
-- 
2.43.0


From 73d3a63fde0f5374de66126e85b53fd33bc0025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:17 +0000
Subject: [PATCH 24/68] fix: repeated tests which were not reached are resumed
 as many times as selected, in their order

---
 slash/resuming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/resuming.py b/slash/resuming.py
index f407720..faf1997 100644
--- a/slash/resuming.py
+++ b/slash/resuming.py
@@ -121,7 +121,7 @@ def save_resume_state(session_result, collected_tests):
             test_to_resume.status = ResumeTestStatus.FAILED
 
         tests_to_resume.append(test_to_resume)
-    tests_with_no_results = {test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None}
+    tests_with_no_results = [test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None]
 
     for test_metadata in tests_with_no_results:
         test_to_resume = ResumeState(session_id=session_result.session.id, file_name=test_metadata.file_path,\
-- 
2.43.0


From ef3e58ff232b973082f095ec5c1102fd6fb2e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:17 +0000
Subject: [PATCH 25/68] fix: resuming tests marked with slash.repeat no longer
 multiplies them

---
 slash/core/metadata.py | 1 +
 slash/loader.py        | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/slash/core/metadata.py b/slash/core/metadata.py
index fa53170..e6ef63a 100644
--- a/slash/core/metadata.py
+++ b/slash/core/metadata.py
@@ -22,6 +22,7 @@ class Metadata(object):
         self.tags = test.get_tags()
         self._sort_key = next(_sort_key_generator)
         self.repeat_all_index = 0
+        self.is_resumed = False
         self.parallel_index = None
         if factory is not None:
             #: The path to the file from which this test was loaded
diff --git a/slash/loader.py b/slash/loader.py
index c22e50a..0949b2d 100644
--- a/slash/loader.py
+++ b/slash/loader.py
@@ -80,7 +80,9 @@ class Loader(object):
         returned = []
         repeat_each = config.root.run.repeat_each
         for test in tests:
-            for i in range(repeat_each * repeat_marker.get_value(test.get_test_function(), 1)):
+            # each repetition of a resumed test was recorded on its own
+            marked_repeats = 1 if test.__slash__.is_resumed else repeat_marker.get_value(test.get_test_function(), 1)
+            for i in range(repeat_each * marked_repeats):
                 returned.append(test.clone() if i else test)
         num_tests = len(returned)
         for i in range(config.root.run.repeat_all - 1):
@@ -131,6 +133,7 @@ class Loader(object):
                 if resume_state.variation:
                     if not resume_state.variation == test.get_variation().id:
                         continue
+                test.__slash__.is_resumed = True
                 yield test
 
     def _iter_test_address(self, address):
-- 
2.43.0


From 16bee8824424af2fc081a46b354eb64a1ffc5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:34 +0000
Subject: [PATCH 26/68] fix: sessions without any test are not offered for
 resuming

---
 slash/resuming.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slash/resuming.py b/slash/resuming.py
index faf1997..7176b8a 100644
--- a/slash/resuming.py
+++ b/slash/resuming.py
@@ -129,6 +129,10 @@ def save_resume_state(session_result, collected_tests):
         test_to_resume.variation = str(test_metadata.variation.id) if test_metadata.variation else None
         tests_to_resume.append(test_to_resume)
 
+    if not tests_to_resume:
+        _logger.debug('No tests to save for resuming')
+        return
+
     with connecting_to_db() as conn:
         conn.add(session_metadata) # pylint: disable=no-member
         conn.add_all(tests_to_resume) # pylint: disable=no-member
-- 
2.43.0


From e318ed735aae1f24350c11575db610c2dbec5706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:34 +0000
Subject: [PATCH 27/68] fix: sessions can be resumed from another folder, and
 also if their tests changed the current one

---
 slash/frontend/slash_run.py | 4 +++-
 slash/resuming.py           | 9 +++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/slash/frontend/slash_run.py b/slash/frontend/slash_run.py
index 978b977..6c9d1c9 100644
--- a/slash/frontend/slash_run.py
+++ b/slash/frontend/slash_run.py
@@ -1,4 +1,5 @@
 import functools
+import os
 import sys
 import logbook
 from ..app import Application
@@ -30,6 +31,7 @@ def slash_run(args, report_stream=None, resume=False, rerun=False, app_callback=
     app.set_report_stream(report_stream)
     app.enable_interactive()
     collected = []
+    src_folder = os.getcwd()
     try:
         with app:
             if app_callback is not None:
@@ -71,7 +73,7 @@ def slash_run(args, report_stream=None, resume=False, rerun=False, app_callback=
 
             finally:
                 if not is_child():
-                    save_resume_state(app.session.results, collected)
+                    save_resume_state(app.session.results, collected, src_folder)
                     clean_old_entries()
             if app.exit_code == 0 and not app.session.results.is_success(allow_skips=True):
                 app.set_exit_code(1)
diff --git a/slash/resuming.py b/slash/resuming.py
index 7176b8a..45c36ff 100644
--- a/slash/resuming.py
+++ b/slash/resuming.py
@@ -98,16 +98,17 @@ def clean_old_entries():
         old_sessions_query.delete(synchronize_session=False)
 
 
-def save_resume_state(session_result, collected_tests):
+def save_resume_state(session_result, collected_tests, src_folder=None):
+    src_folder = os.path.abspath(src_folder or os.getcwd())
     session_metadata = SessionMetadata(
         session_id=session_result.session.id,
-        src_folder=os.path.abspath(os.getcwd()),
+        src_folder=src_folder,
         created_at=datetime.now())
 
     tests_to_resume = []
     for result in session_result.iter_test_results():
         metadata = result.test_metadata
-        test_to_resume = ResumeState(session_id=session_result.session.id, file_name=metadata.file_path, address_in_file=metadata.address_in_file)
+        test_to_resume = ResumeState(session_id=session_result.session.id, file_name=os.path.join(src_folder, metadata.file_path), address_in_file=metadata.address_in_file)
         test_to_resume.variation = str(metadata.variation.id) if metadata.variation else None
         if result.is_success_finished():
             test_to_resume.status = ResumeTestStatus.SUCCESS
@@ -124,7 +125,7 @@ def save_resume_state(session_result, collected_tests):
     tests_with_no_results = [test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None]
 
     for test_metadata in tests_with_no_results:
-        test_to_resume = ResumeState(session_id=session_result.session.id, file_name=test_metadata.file_path,\
+        test_to_resume = ResumeState(session_id=session_result.session.id, file_name=os.path.join(src_folder, test_metadata.file_path),\
                                      address_in_file=test_metadata.address_in_file, status=ResumeTestStatus.PLANNED)
         test_to_resume.variation = str(test_metadata.variation.id) if test_metadata.variation else None
         tests_to_resume.append(test_to_resume)
-- 
2.43.0


From 5cc75310b76b27e022d7f78c5ab469f590ce501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 28/68] fix: values of parameters of wide-scoped fixtures
 needed only through other fixtures are kept together

---
 slash/core/variation_factory.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/slash/core/variation_factory.py b/slash/core/variation_factory.py
index 918bd6d..b6ec50c 100644
--- a/slash/core/variation_factory.py
+++ b/slash/core/variation_factory.py
@@ -105,6 +105,10 @@ class VariationFactory(object):
         for fixture in self._needed_fixtures:
             needed_ids.update(self._store.get_all_needed_fixture_ids(fixture))
 
+        # parameters of wide-scoped fixtures vary the least often, including fixtures only needed by other fixtures
+        widest_scopes = self._get_widest_scopes()
+        needed_ids = sorted(needed_ids, key=widest_scopes.__getitem__, reverse=True)
+
         parametrizations = [self._store.get_fixture_by_id(param_id) for param_id in needed_ids]
         if not needed_ids:
             yield Variation(self._store, {}, {})
@@ -112,6 +116,23 @@ class VariationFactory(object):
         for value_indices in itertools.product(*(range(len(p.values)) for p in parametrizations)):
             yield self._build_variation(parametrizations, value_indices)
 
+    def _get_widest_scopes(self):
+        """Maps each needed parameter to the widest scope of the fixtures depending on it
+        """
+        returned = {}
+        visited = set()
+        stack = list(self._needed_fixtures)
+        while stack:
+            fixture = stack.pop()
+            if fixture.info.id in visited:
+                continue
+            visited.add(fixture.info.id)
+            for param_id in self._store.get_all_needed_fixture_ids(fixture):
+                returned[param_id] = max(fixture.info.scope, returned.get(param_id, fixture.info.scope))
+            if isinstance(fixture, Fixture):
+                stack.extend(fixture.keyword_arguments.values())
+        return returned
+
     def _build_variation(self, parametrizations, value_indices):
         value_index_by_id = {}
         for param, param_index in zip(parametrizations, value_indices):
-- 
2.43.0


From 30d63f26346e85da5189c7eea304087a9f01d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 29/68] fix: same-named parameters of overridden before/after
 methods no longer share one name

---
 slash/core/variation_factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slash/core/variation_factory.py b/slash/core/variation_factory.py
index b6ec50c..18f64f3 100644
--- a/slash/core/variation_factory.py
+++ b/slash/core/variation_factory.py
@@ -70,6 +70,9 @@ class VariationFactory(object):
             arg_name = argument.name
             if namespace is not None:
                 arg_name = '{}:{}'.format(namespace, arg_name)
+                while self._arg_name_bindings.get(arg_name, fixture) is not fixture:
+                    # overridden by a derived class with an argument of the same name
+                    arg_name = '{}.{}'.format(([func.__module__] + func.__qualname__.split('.'))[-2], arg_name)
 
             self._populate_param_name_bindings(arg_name, fixture)
             self._arg_name_bindings[arg_name] = fixture
-- 
2.43.0


From 6295ed50fed203146eb9d5e78408468c7914e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 30/68] fix: runs of tests marked with nofixtures which differ
 by parameters of autouse fixtures get different names

---
 slash/core/variation_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slash/core/variation_factory.py b/slash/core/variation_factory.py
index 18f64f3..ab8fe9e 100644
--- a/slash/core/variation_factory.py
+++ b/slash/core/variation_factory.py
@@ -43,6 +43,9 @@ class VariationFactory(object):
         else:
             namespace = None
 
+        for fixture in self._autouse_fixtures:
+            self._populate_param_name_bindings(fixture.info.name, fixture, prefix='::')
+
         if nofixtures.is_marked(func):
             return
 
@@ -77,9 +80,6 @@ class VariationFactory(object):
             self._populate_param_name_bindings(arg_name, fixture)
             self._arg_name_bindings[arg_name] = fixture
 
-        for fixture in self._autouse_fixtures:
-            self._populate_param_name_bindings(fixture.info.name, fixture, prefix='::')
-
         for fixture_name in getattr(func, '__extrafixtures__', []):
             fixture = self._store.get_fixture_by_name(fixture_name)
             self._populate_param_name_bindings(fixture_name, fixture)
-- 
2.43.0


From cb9f09f828d718cfd68c3b2412f8eb2103be777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 31/68] fix: several exclusions of the same parameter all take
 effect, and names can be given as a list

---
 slash/core/exclusions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/slash/core/exclusions.py b/slash/core/exclusions.py
index d64db83..e89f872 100644
--- a/slash/core/exclusions.py
+++ b/slash/core/exclusions.py
@@ -36,8 +36,7 @@ def is_excluded(test):
     for entity_func, exclusions in dict(list(fixture_exclusions.items()) + list(test_exclusions.items())).items():
         if not exclusions:
             continue
-        exclusions = dict(exclusions)
-        for parameter_names, value_sets in exclusions.items():
+        for parameter_names, value_sets in exclusions:
             params = []
             values = []
             for parameter_name in parameter_names:
-- 
2.43.0


From f305147def3a750098b0043a36b09ce1290d01d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:35 +0000
Subject: [PATCH 32/68] fix: tags and requirements of a class no longer leak to
 its base classes, and those of all base classes are inherited

---
 slash/core/requirements.py |  7 ++++++-
 slash/core/tagging.py      | 20 +++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/slash/core/requirements.py b/slash/core/requirements.py
index d1a41a0..b244359 100644
--- a/slash/core/requirements.py
+++ b/slash/core/requirements.py
@@ -23,7 +23,10 @@ def requires(req, message=None):
 def _get_requirements_list(thing, create=True):
 
     thing = resolve_underlying_function(thing)
-    existing = getattr(thing, _SLASH_REQUIRES_KEY_NAME, None)
+    if isinstance(thing, type):
+        existing = vars(thing).get(_SLASH_REQUIRES_KEY_NAME)
+    else:
+        existing = getattr(thing, _SLASH_REQUIRES_KEY_NAME, None)
 
     key = id(thing)
 
@@ -41,6 +44,8 @@ def _get_requirements_list(thing, create=True):
 
 
 def get_requirements(test):
+    if isinstance(test, type):
+        return [req for cls in reversed(test.__mro__) for req in _get_requirements_list(cls, create=False)]
     return list(_get_requirements_list(test, create=False))
 
 
diff --git a/slash/core/tagging.py b/slash/core/tagging.py
index e2972c2..b334c49 100644
--- a/slash/core/tagging.py
+++ b/slash/core/tagging.py
@@ -22,12 +22,17 @@ class Tagger(object):
 
 def tag_test(test, tag_name, tag_value):
     tags = get_tags(test)
-    if tags is NO_TAGS:
-        tags = Tags()
-        setattr(test, _TAGS_NAME, tags)
-    if tags.get(tag_name, NOTHING) not in (tag_value, NOTHING):
+    if tags is not NO_TAGS and tags.get(tag_name, NOTHING) not in (tag_value, NOTHING):
         raise TaggingConflict("Tag {} is already set on {}".format(tag_name, test))
-    tags[tag_name] = tag_value
+    if isinstance(test, type):
+        # classes inherit tags, but must not change those of their base classes
+        own_tags = vars(test).get(_TAGS_NAME)
+    else:
+        own_tags = getattr(test, _TAGS_NAME, None)
+    if own_tags is None:
+        own_tags = Tags()
+        setattr(test, _TAGS_NAME, own_tags)
+    own_tags[tag_name] = tag_value
     return test
 
 
@@ -38,6 +43,11 @@ def tag(tag_name, tag_value=NOTHING):
 
 
 def get_tags(test):
+    if isinstance(test, type):
+        returned = NO_TAGS
+        for cls in reversed(test.__mro__):
+            returned = returned + vars(cls).get(_TAGS_NAME, NO_TAGS)
+        return returned
     return getattr(test, _TAGS_NAME, NO_TAGS)
 
 
-- 
2.43.0


From b1258441adfe7525299d58219a96da7c1895e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:35 +0000
Subject: [PATCH 33/68] fix: requirements of fixtures used through
 use_fixtures, before/after and autouse are checked for all tests using them

---
 slash/core/function_test.py |  7 +------
 slash/core/runnable_test.py | 11 +++++++++++
 slash/core/test.py          |  8 +-------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/slash/core/function_test.py b/slash/core/function_test.py
index 1748ef1..e64d62b 100644
--- a/slash/core/function_test.py
+++ b/slash/core/function_test.py
@@ -2,7 +2,6 @@ from types import GeneratorType
 from ..exceptions import InvalidTest
 
 from .fixtures.parameters import bound_parametrizations_context
-from .fixtures.utils import nofixtures
 from .requirements import get_requirements
 from .runnable_test import RunnableTest
 from .runnable_test_factory import RunnableTestFactory
@@ -17,8 +16,6 @@ class FunctionTest(RunnableTest):
 
     def get_tags(self):
         test_tags = get_tags(self._func) + self._variation.tags
-        if nofixtures.is_marked(self.get_test_function()):
-            return test_tags
         return test_tags + self._get_fixture_tags()
 
     def get_address_in_factory(self):
@@ -38,12 +35,10 @@ class FunctionTest(RunnableTest):
 
     def get_requirements(self):
         test_requirements = get_requirements(self._func)
-        if nofixtures.is_marked(self._func):
-            return test_requirements
         return list(set(test_requirements + self._get_fixtures_requirements()))
 
     def get_required_fixture_objects(self):
-        return self._fixture_store.get_required_fixture_objects(self._func, namespace=self._fixture_namespace)
+        return self._get_fixture_objects_required_by(self._func)
 
 
 class FunctionTestFactory(RunnableTestFactory):
diff --git a/slash/core/runnable_test.py b/slash/core/runnable_test.py
index f8959f7..9806487 100644
--- a/slash/core/runnable_test.py
+++ b/slash/core/runnable_test.py
@@ -1,4 +1,5 @@
 import copy
+from .fixtures.utils import nofixtures
 from .tagging import NO_TAGS
 
 class RunnableTest(object):
@@ -70,6 +71,16 @@ class RunnableTest(object):
     def get_required_fixture_objects(self):
         raise NotImplementedError() # pragma: no cover
 
+    def _get_fixture_objects_required_by(self, *funcs):
+        returned = set()
+        for func in funcs:
+            if nofixtures.is_marked(func):
+                continue
+            returned.update(self._fixture_store.get_required_fixture_objects(func, namespace=self._fixture_namespace))
+            for name in getattr(func, '__extrafixtures__', ()):
+                returned.add(self._fixture_store.get_fixture_by_name(name, namespace=self._fixture_namespace))
+        return returned
+
     def get_fixture_namespace(self):
         return self._fixture_namespace
 
diff --git a/slash/core/test.py b/slash/core/test.py
index ba4adee..c823f52 100644
--- a/slash/core/test.py
+++ b/slash/core/test.py
@@ -9,7 +9,6 @@ from .runnable_test import RunnableTest
 from .runnable_test_factory import RunnableTestFactory
 from .requirements import get_requirements
 from .tagging import get_tags
-from .fixtures.utils import nofixtures
 
 class TestTestFactory(RunnableTestFactory):
 
@@ -77,8 +76,6 @@ class Test(RunnableTest):
         test_tags = (get_tags(type(self))
                      + get_tags(getattr(type(self), self._test_method_name))
                      + self.get_variation().tags)
-        if nofixtures.is_marked(self.get_test_function()):
-            return test_tags
         return test_tags + self._get_fixture_tags()
 
     __slash_skipped__ = False
@@ -92,8 +89,7 @@ class Test(RunnableTest):
         cls.__slash_skipped_reason__ = reason
 
     def get_required_fixture_objects(self):
-        method = self.get_test_function()
-        return self._fixture_store.get_required_fixture_objects(method, namespace=self._fixture_namespace)
+        return self._get_fixture_objects_required_by(self.before, self.get_test_function(), self.after)
 
     def get_address_in_factory(self):
         returned = ''
@@ -108,8 +104,6 @@ class Test(RunnableTest):
 
     def get_requirements(self):
         test_requirements = get_requirements(type(self)) + get_requirements(self.get_test_function())
-        if nofixtures.is_marked(self.get_test_function()):
-            return test_requirements
         return list(set(test_requirements + self._get_fixtures_requirements()))
 
     def run(self):  # pylint: disable=E0202
-- 
2.43.0


From 6b070aee93a8642d6a1a9d1d01d54a65c1773b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 34/68] fix: repeat on a suite file line naming another suite
 file is no longer ignored

---
 slash/utils/suite_files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slash/utils/suite_files.py b/slash/utils/suite_files.py
index 774ed95..c5ca4ca 100644
--- a/slash/utils/suite_files.py
+++ b/slash/utils/suite_files.py
@@ -23,8 +23,9 @@ def iter_suite_file_paths(suite_files):
                     path = os.path.relpath(os.path.join(dirname, path))
 
                 if not path.endswith('.py') and '.py:' not in path and not os.path.isdir(path):
-                    for p, other_filter in iter_suite_file_paths([path]):
-                        yield p, _and_matchers(suite_entry.matcher, other_filter)
+                    for _ in range(suite_entry.repeat):
+                        for p, other_filter in iter_suite_file_paths([path]):
+                            yield p, _and_matchers(suite_entry.matcher, other_filter)
                     continue
 
                 for _ in range(suite_entry.repeat):
-- 
2.43.0


From b1f2dc20e64d1762ae07776502a53421ad1dc7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 35/68] fix: suite files in sub-folders of a suite files folder
 were read several times, and in no fixed order

---
 slash/utils/suite_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/utils/suite_files.py b/slash/utils/suite_files.py
index c5ca4ca..7f1edc6 100644
--- a/slash/utils/suite_files.py
+++ b/slash/utils/suite_files.py
@@ -35,7 +35,7 @@ def iter_suite_file_paths(suite_files):
 def _extract_suite_files(suite_files):
     for entity in suite_files:
         if Path(entity).is_dir():
-            yield from _extract_suite_files(Path(entity).rglob("*"))
+            yield from sorted(path for path in Path(entity).rglob("*") if not path.is_dir())
         else:
             yield entity
 
-- 
2.43.0


From 580f63f62336f1778162f1b35b37fc69dd57353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:49 +0000
Subject: [PATCH 36/68] fix: a worker which disconnects or reports a result
 around being declared dead no longer breaks the parallel run

---
 slash/parallel/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index a2586b3..cf725cf 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -94,9 +94,13 @@ class Server(object):
         return len(self.finished_tests) < len(self.tests)
 
     def report_client_failure(self, client_id):
+        if client_id not in self.connected_clients:
+            _logger.debug("Client_id {} disconnected before it was reported as failed", client_id)
+            return
         self.connected_clients.remove(client_id)
         test_index = self.executing_tests.get(client_id, None)
         if test_index is not None:
+            self.executing_tests[client_id] = None
             _logger.error("Worker {} interrupted while executing test {}", client_id,
                           self.tests[test_index].__slash__.address, extra={'capture': False})
             with _get_test_context(self.tests[test_index], logging=False) as (result, _):
-- 
2.43.0


From 14f90f61b7a718c96237a8501b113edb4338f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:49 +0000
Subject: [PATCH 37/68] fix: a worker dying before its first liveness signal no
 longer hangs the parallel run

---
 slash/parallel/parallel_manager.py | 2 +-
 slash/parallel/server.py           | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/slash/parallel/parallel_manager.py b/slash/parallel/parallel_manager.py
index 65d79fc..c9ec086 100644
--- a/slash/parallel/parallel_manager.py
+++ b/slash/parallel/parallel_manager.py
@@ -90,7 +90,7 @@ class ParallelManager(object):
         for worker_id in self.server.get_connected_clients():
             worker_last_connection_time = workers_last_connection_time.get(worker_id, None)
             if worker_last_connection_time is None: #worker keepalive thread didn't started yet
-                continue
+                worker_last_connection_time = self.server.clients_connection_time[worker_id]
             if time.time() - worker_last_connection_time > config.root.parallel.communication_timeout_secs:
                 _logger.error("Worker {} is down, terminating session", worker_id, extra={'capture': False})
                 self.report_worker_error_logs()
diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index cf725cf..58a520b 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -77,6 +77,7 @@ class Server(object):
         self.start_time = time.time()
         self.worker_to_pid = {}
         self.connected_clients = set()
+        self.clients_connection_time = {}
         self.collection = [[test.__slash__.file_path,
                             test.__slash__.function_name,
                             test.__slash__.variation.dump_variation_dict()]
@@ -126,6 +127,7 @@ class Server(object):
 
     def connect(self, client_id, client_pid):
         _logger.notice("Client_id {} connected", client_id)
+        self.clients_connection_time[client_id] = time.time()
         self.connected_clients.add(client_id)
         client_session_id = '{}_{}'.format(context.session.id.split('_')[0], client_id)
         context.session.logging.create_worker_symlink(self._get_worker_session_id(client_id), client_session_id)
-- 
2.43.0


From bb61356886d714d45a8b657be827b70a0b270409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:49 +0000
Subject: [PATCH 38/68] fix: failing to start a worker no longer hangs the
 parallel run

---
 slash/parallel/parallel_manager.py     | 6 ++++++
 slash/parallel/worker_configuration.py | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/slash/parallel/parallel_manager.py b/slash/parallel/parallel_manager.py
index c9ec086..27f2cae 100644
--- a/slash/parallel/parallel_manager.py
+++ b/slash/parallel/parallel_manager.py
@@ -127,6 +127,12 @@ class ParallelManager(object):
             get_xmlrpc_proxy(config.root.parallel.server_addr, self.server.port).session_interrupted()
             self.kill_workers()
             raise
+        except ParallelTimeout:
+            raise
+        except Exception:
+            _logger.error("Failed running workers, stopping workers and terminating", extra={'capture': False})
+            self.kill_workers()
+            raise
         finally:
             for worker in list(self.workers.values()):
                 worker.wait_to_finish()
diff --git a/slash/parallel/worker_configuration.py b/slash/parallel/worker_configuration.py
index 1960fe0..417dffb 100644
--- a/slash/parallel/worker_configuration.py
+++ b/slash/parallel/worker_configuration.py
@@ -112,7 +112,8 @@ class ProcessWorkerConfiguration(WorkerConfiguration):
         return self._pid.poll() is None
 
     def wait_to_finish(self):
-        self._pid.wait()
+        if self._pid is not None:
+            self._pid.wait()
 
 class TmuxWorkerConfiguration(WorkerConfiguration):
     def __init__(self, basic_args, worker_id):
-- 
2.43.0


From 87bdc104b6cb78905a0e935a13916503e0b57801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:20 +0000
Subject: [PATCH 39/68] fix: requirements of fixtures are looked for only where
 class tests are defined; restores the files of function tests

---
 slash/core/function_test.py |  7 ++++++-
 slash/core/runnable_test.py | 11 -----------
 slash/core/test.py          | 10 +++++++++-
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/slash/core/function_test.py b/slash/core/function_test.py
index e64d62b..1748ef1 100644
--- a/slash/core/function_test.py
+++ b/slash/core/function_test.py
@@ -2,6 +2,7 @@ from types import GeneratorType
 from ..exceptions import InvalidTest
 
 from .fixtures.parameters import bound_parametrizations_context
+from .fixtures.utils import nofixtures
 from .requirements import get_requirements
 from .runnable_test import RunnableTest
 from .runnable_test_factory import RunnableTestFactory
@@ -16,6 +17,8 @@ class FunctionTest(RunnableTest):
 
     def get_tags(self):
         test_tags = get_tags(self._func) + self._variation.tags
+        if nofixtures.is_marked(self.get_test_function()):
+            return test_tags
         return test_tags + self._get_fixture_tags()
 
     def get_address_in_factory(self):
@@ -35,10 +38,12 @@ class FunctionTest(RunnableTest):
 
     def get_requirements(self):
         test_requirements = get_requirements(self._func)
+        if nofixtures.is_marked(self._func):
+            return test_requirements
         return list(set(test_requirements + self._get_fixtures_requirements()))
 
     def get_required_fixture_objects(self):
-        return self._get_fixture_objects_required_by(self._func)
+        return self._fixture_store.get_required_fixture_objects(self._func, namespace=self._fixture_namespace)
 
 
 class FunctionTestFactory(RunnableTestFactory):
diff --git a/slash/core/runnable_test.py b/slash/core/runnable_test.py
index 9806487..f8959f7 100644
--- a/slash/core/runnable_test.py
+++ b/slash/core/runnable_test.py
@@ -1,5 +1,4 @@
 import copy
-from .fixtures.utils import nofixtures
 from .tagging import NO_TAGS
 
 class RunnableTest(object):
@@ -71,16 +70,6 @@ class RunnableTest(object):
     def get_required_fixture_objects(self):
         raise NotImplementedError() # pragma: no cover
 
-    def _get_fixture_objects_required_by(self, *funcs):
-        returned = set()
-        for func in funcs:
-            if nofixtures.is_marked(func):
-                continue
-            returned.update(self._fixture_store.get_required_fixture_objects(func, namespace=self._fixture_namespace))
-            for name in getattr(func, '__extrafixtures__', ()):
-                returned.add(self._fixture_store.get_fixture_by_name(name, namespace=self._fixture_namespace))
-        return returned
-
     def get_fixture_namespace(self):
         return self._fixture_namespace
 
diff --git a/slash/core/test.py b/slash/core/test.py
index c823f52..186a254 100644
--- a/slash/core/test.py
+++ b/slash/core/test.py
@@ -9,6 +9,7 @@ from .runnable_test import RunnableTest
 from .runnable_test_factory import RunnableTestFactory
 from .requirements import get_requirements
 from .tagging import get_tags
+from .fixtures.utils import nofixtures
 
 class TestTestFactory(RunnableTestFactory):
 
@@ -89,7 +90,14 @@ class Test(RunnableTest):
         cls.__slash_skipped_reason__ = reason
 
     def get_required_fixture_objects(self):
-        return self._get_fixture_objects_required_by(self.before, self.get_test_function(), self.after)
+        returned = set()
+        for func in (self.before, self.get_test_function(), self.after):
+            if nofixtures.is_marked(func):
+                continue
+            returned.update(self._fixture_store.get_required_fixture_objects(func, namespace=self._fixture_namespace))
+            for name in getattr(func, '__extrafixtures__', ()):
+                returned.add(self._fixture_store.get_fixture_by_name(name, namespace=self._fixture_namespace))
+        return returned
 
     def get_address_in_factory(self):
         returned = ''
-- 
2.43.0


From 7565d18b57b99905ea08404b8dec15f7fcc4db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:34 +0000
Subject: [PATCH 40/68] fix: parallel workers run the test they were given, not
 one of the same name in another class

---
 slash/parallel/server.py | 2 +-
 slash/parallel/worker.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index 58a520b..3e5bcd2 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -79,7 +79,7 @@ class Server(object):
         self.connected_clients = set()
         self.clients_connection_time = {}
         self.collection = [[test.__slash__.file_path,
-                            test.__slash__.function_name,
+                            test.__slash__.address_in_file,
                             test.__slash__.variation.dump_variation_dict()]
                            for test in self.tests]
         self._sorted_collection = sorted(self.collection)
diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index 5719994..201bf30 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -80,7 +80,7 @@ class Worker(object):
         register(self.warning_added)
         register(self.error_added)
         collection = [(test.__slash__.file_path,
-                      test.__slash__.function_name,
+                      test.__slash__.address_in_file,
                       test.__slash__.variation.dump_variation_dict()) for test in collected_tests]
         if not self.client.validate_collection(self.client_id, sorted(collection)):
             _logger.error("Collections of worker id {} and master don't match, worker terminates", self.client_id,
-- 
2.43.0


From 911bbea556be21e49d2b55003ca6cca0b29cc521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:34 +0000
Subject: [PATCH 41/68] fix: objects which cannot be pickled no longer lose the
 result of a test run by a worker

---
 slash/core/error.py   | 10 +++++++++-
 slash/core/result.py  |  8 +++++---
 slash/utils/python.py |  7 +++++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/slash/core/error.py b/slash/core/error.py
index 1b3f020..c0c95ec 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -10,7 +10,7 @@ from ..conf import config
 from ..exception_handling import is_exception_fatal, get_exception_frame_correction
 from ..exceptions import FAILURE_EXCEPTION_TYPES
 from ..utils.formatter import Formatter
-from ..utils.python import safe_set_attribute
+from ..utils.python import safe_set_attribute, survives_pickling
 from ..utils.traceback_utils import distill_call_stack, distill_traceback, distill_object_attributes
 
 
@@ -60,6 +60,14 @@ class Error(object):
         for frame in self.traceback.frames:
             frame.forget_python_frame()
 
+    def __getstate__(self):
+        # the error itself has to reach its destination even if objects provided by the user cannot
+        state = self.__dict__.copy()
+        for attr in ('arg', 'exception_type', '_exception_attributes'):
+            if not survives_pickling(state.get(attr)):
+                state[attr] = None
+        return state
+
     def log_added(self):
         tb = self.traceback.to_string(include_vars=config.root.log.traceback_variables)
         _logger.trace('Error added: {}\n{}', self, tb, extra={'highlight': True})
diff --git a/slash/core/result.py b/slash/core/result.py
index 54a417c..5a71163 100644
--- a/slash/core/result.py
+++ b/slash/core/result.py
@@ -15,7 +15,7 @@ from ..exception_handling import capture_sentry_exception, handling_exceptions
 from .. import exceptions
 from ..utils.exception_mark import ExceptionMarker
 from ..utils.interactive import notify_if_slow_context
-from ..utils.python import unpickle
+from ..utils.python import survives_pickling, unpickle
 from .details import Details
 from .error import Error
 
@@ -58,9 +58,11 @@ class Result(object):
         serialized_object = {}
         for key, value in vars(self).items():
             if key not in Result.pickle_key_blacklist:
+                if key == '_skips':
+                    value = [skip if survives_pickling(skip) else str(skip) for skip in value]
                 try:
                     serialized_object[key] = pickle.dumps(value)
-                except (pickle.PicklingError, TypeError):
+                except Exception:  # pylint: disable=broad-except
                     _logger.debug('Failed serializing result, skipping this value. key = {}', key)
                     capture_sentry_exception()
         return serialized_object
@@ -69,7 +71,7 @@ class Result(object):
         for key, value in result_dict.items():
             try:
                 self.__dict__[key] = unpickle(value)
-            except TypeError:
+            except Exception:  # pylint: disable=broad-except
                 _logger.error('Error when deserialize reult, skipping this value. key = {}', key,
                               extra={'capture': False})
         for failure in self._failures:
diff --git a/slash/utils/python.py b/slash/utils/python.py
index 9809763..5778486 100644
--- a/slash/utils/python.py
+++ b/slash/utils/python.py
@@ -51,6 +51,13 @@ def unpickle(thing):
         return thing
     return pickle.loads(thing.data)
 
+def survives_pickling(thing):
+    try:
+        pickle.loads(pickle.dumps(thing))
+    except Exception:  # pylint: disable=broad-except
+        return False
+    return True
+
 def get_underlying_func(func):
     while True:
         underlying = getattr(func, "__wraps__", None)
-- 
2.43.0


From 74d2442a8ab5ece2587b8c1514e46c129dbeb0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:34 +0000
Subject: [PATCH 42/68] fix: warnings and session errors of workers reach the
 parent whatever they contain, also those added after the result was sent

---
 slash/parallel/server.py |  5 +++--
 slash/parallel/worker.py | 18 +++++++++++++-----
 slash/warnings.py        |  8 ++++++++
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index 3e5bcd2..4a3fde8 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -212,9 +212,10 @@ class Server(object):
         _logger.notice("Client_id {} sent warning", client_id)
         try:
             warning = unpickle(pickled_warning)
-            context.session.warnings.add(warning)
-        except TypeError:
+        except Exception:  # pylint: disable=broad-except
             _logger.error('Error when deserializing warning, not adding it', extra={'capture': False})
+            return
+        context.session.warnings.add(warning)
 
     def report_session_error(self, message):
         self.worker_error_reported = True
diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index 201bf30..4289b91 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -2,6 +2,7 @@ import threading
 import logbook
 import os
 import pickle
+import re
 import time
 import collections
 import platform
@@ -17,6 +18,8 @@ _HAS_PID_PGID = platform.system() != 'Windows'
 
 _logger = logbook.Logger(__name__)
 
+_ILLEGAL_XML_CHARACTER = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
 class Worker(object):
     def __init__(self, client_id, session_id):
         super(Worker, self).__init__()
@@ -26,6 +29,7 @@ class Worker(object):
         self.keepalive_server_addr = 'http://{}:{}'.format(config.root.parallel.server_addr, config.root.parallel.keepalive_port)
         self._stop_event = None
         self._watchdog_thread = None
+        self._reported_results = []
 
     def keep_alive(self, stop_event):
         proxy = xmlrpc_client.ServerProxy(self.keepalive_server_addr)
@@ -35,15 +39,18 @@ class Worker(object):
 
     def warning_added(self, warning):
         try:
-            warning = pickle.dumps(warning)
-            self.client.report_warning(self.client_id, warning)
-        except (pickle.PicklingError, TypeError):
+            pickled_warning = pickle.dumps(warning)
+        except Exception:  # pylint: disable=broad-except
             _logger.error("Failed to pickle warning. Message: {}, File: {}, Line: {}",
                           warning.message, warning.filename, warning.lineno, extra={'capture': False})
+            return
+        self.client.report_warning(self.client_id, pickled_warning)
 
     def error_added(self, error, result):
-        if result.is_global_result():
-            self.client.report_session_error("Session error in client id {}: {}".format(self.client_id, error.message))
+        # errors of scopes wider than the test can be added to its result after it was already sent
+        if result.is_global_result() or any(result is reported for reported in self._reported_results):
+            message = _ILLEGAL_XML_CHARACTER.sub(lambda match: ascii(match.group())[1:-1], error.message)
+            self.client.report_session_error("Session error in client id {}: {}".format(self.client_id, message))
 
     def write_to_error_file(self, msg):
         try:
@@ -114,6 +121,7 @@ class Worker(object):
                         run_tests([test])
                         result = context.session.results[test]
                         _logger.debug("Client {} finished test, sending results", self.client_id)
+                        self._reported_results.append(result)
                         ret = self.client.finished_test(self.client_id, result.serialize())
                         if ret == PROTOCOL_ERROR:
                             _logger.error("Worker_id {} recieved protocol error message, terminating", self.client_id,
diff --git a/slash/warnings.py b/slash/warnings.py
index 7a9d67e..da07b45 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -9,6 +9,7 @@ from . import hooks
 from .utils.warning_capture import warning_callback_context
 from .ctx import context
 from .exception_handling import handling_exceptions
+from .utils.python import survives_pickling
 from contextlib import contextmanager
 
 
@@ -134,6 +135,13 @@ class RecordedWarning(object):
         return self.details.get('filename')
 
 
+    def __getstate__(self):
+        # categories which cannot be sent between processes are represented by their closest ancestor which can
+        state = self.__dict__.copy()
+        if self.category is not None:
+            state['category'] = next((c for c in self.category.__mro__ if survives_pickling(c)), None)
+        return state
+
     def to_dict(self):
         return self.details.copy()
 
-- 
2.43.0


From ccf2850a2371ded10dc082dbd03d96a67d23c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 43/68] fix: ignored_warnings no longer stays in force when
 left by an exception

---
 slash/warnings.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/slash/warnings.py b/slash/warnings.py
index da07b45..ba07054 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -219,13 +219,15 @@ def ignore_warnings(category=None, message=None, filename=None, lineno=None):
 @contextmanager
 def ignored_warnings(**kwargs):
     iw = ignore_warnings(**kwargs)
-    with handling_exceptions():
-        yield
     try:
-        _ignored_warnings.remove(iw)
-    except ValueError:
-        # In case clear_warnings was called inside this context, ValueError will be raised
-        pass
+        with handling_exceptions():
+            yield
+    finally:
+        try:
+            _ignored_warnings.remove(iw)
+        except ValueError:
+            # In case clear_warnings was called inside this context, ValueError will be raised
+            pass
 
 
 def clear_ignored_warnings():
-- 
2.43.0


From a226e496f03438ff7637eeba261ce0bb10b40e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 44/68] fix: warnings without a message, or whose message is
 not a string, are recorded like others

---
 slash/warnings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/warnings.py b/slash/warnings.py
index ba07054..bcd08e9 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -113,7 +113,7 @@ class RecordedWarning(object):
     @classmethod
     def from_native_warning(cls, message, category, filename, lineno):
         if isinstance(message, Warning):
-            message = message.args[0]
+            message = str(message.args[0]) if message.args else str(message)
 
         return cls({
             'message': message,
-- 
2.43.0


From 4b323c8a7da0d88e3ab75b23ec4cfe398e8160ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 45/68] fix: warning logs of customization files are recorded

---
 slash/warnings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/warnings.py b/slash/warnings.py
index bcd08e9..3624f91 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -86,8 +86,9 @@ class WarnHandler(logbook.Handler, logbook.StringFormatterHandlerMixin):
         return record.level == self.level
 
     def emit(self, record):
+        # customization files are not modules, and Python drops warnings which have None for a module
         warnings.warn_explicit(message=record.message, category=LogbookWarning, filename=record.filename,
-                               lineno=record.lineno, module=record.module)
+                               lineno=record.lineno, module=record.module or '<unknown>')
 
 
 WarningKey = collections.namedtuple("WarningKey", ("filename", "lineno"))
-- 
2.43.0


From 8b76c2cd4580f2ace26368e6e3cddecffaf3077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 46/68] fix: temporary ignore rules also apply to warnings
 emitted before the session

---
 slash/app.py      | 6 ++++--
 slash/warnings.py | 9 +++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/slash/app.py b/slash/app.py
index 5688693..5ea15db 100644
--- a/slash/app.py
+++ b/slash/app.py
@@ -19,7 +19,7 @@ from .log import ConsoleHandler
 from .utils import cli_utils
 from .utils.debug import debug_if_needed
 from .utils.warning_capture import warning_callback_context
-from .warnings import RecordedWarning, capture_all_warnings
+from .warnings import RecordedWarning, capture_all_warnings, is_warning_ignored
 
 _logger = logbook.Logger(__name__)
 inhibit_unhandled_exception_traceback(SlashException)
@@ -168,7 +168,9 @@ class Application(object):
         return True
 
     def _capture_native_warning(self, message, category, filename, lineno, file=None, line=None): # pylint: disable=unused-argument
-        self._prelude_warning_records.append(RecordedWarning.from_native_warning(message, category, filename, lineno))
+        warning = RecordedWarning.from_native_warning(message, category, filename, lineno)
+        if not is_warning_ignored(warning):
+            self._prelude_warning_records.append(warning)
 
     def _prelude_logging_context(self):
         self._prelude_log_handler = log.RetainedLogHandler(bubble=True, level=logbook.TRACE)
diff --git a/slash/warnings.py b/slash/warnings.py
index 3624f91..90ba390 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -37,10 +37,7 @@ class SessionWarnings(object):
             yield
 
     def warning_should_be_filtered(self, warning):
-        for ignored_warning in _ignored_warnings:
-            if ignored_warning.matches(warning):
-                return True
-        return False
+        return is_warning_ignored(warning)
 
     def _capture_native_warning(self, message, category, filename, lineno, file=None, line=None): # pylint: disable=unused-argument
         warning = RecordedWarning.from_native_warning(message, category, filename, lineno)
@@ -200,6 +197,10 @@ class _IgnoredWarning(object):
 _ignored_warnings = []
 
 
+def is_warning_ignored(warning):
+    return any(ignored_warning.matches(warning) for ignored_warning in _ignored_warnings)
+
+
 def ignore_warnings(category=None, message=None, filename=None, lineno=None):
     """
     Ignores warnings of specific origin (category/filename/lineno/message) during the session. Unlike
-- 
2.43.0


From d50cbf4f785222a261c54a2ecdf81abbe757649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:45 +0000
Subject: [PATCH 47/68] fix: errors in xunit reports of interrupted sessions
 have their own type and traceback

---
 slash/plugins/builtin/xunit.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/slash/plugins/builtin/xunit.py b/slash/plugins/builtin/xunit.py
index f085d3e..f2c816d 100644
--- a/slash/plugins/builtin/xunit.py
+++ b/slash/plugins/builtin/xunit.py
@@ -1,11 +1,9 @@
 import datetime
 import itertools
 import socket
-import sys
 from ..interface import PluginInterface
 from ...ctx import context
 from ...conf import config
-from ...utils.traceback_utils import get_traceback_string
 from ...utils.conf_utils import Cmdline, Doc
 from slash import config as slash_config
 from slash import context
@@ -34,10 +32,9 @@ class Plugin(PluginInterface):
         self._start_time = datetime.datetime.now()
 
     def _add_error(self, parent, errortype, error):
-        exc_type, exc_value, _ = exc_info = sys.exc_info()
         self._add_element(parent, errortype,
-                          {'type': exc_type.__name__ if exc_type else errortype, 'message': error.message},
-                          text=get_traceback_string(exc_info) if exc_value is not None else None,
+                          {'type': error.exception_type.__name__ if error.exception_type else errortype, 'message': error.message},
+                          text=error.traceback.to_string() if error.traceback else None,
         )
 
     def _add_element(self, parent, tag, attrib, text=None):
-- 
2.43.0


From 8b1670abebc40f3b51d1d779f0826d8f98255650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 48/68] fix: xunit reports are well formed whatever messages,
 skip reasons, details and parameters contain

---
 slash/plugins/builtin/xunit.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/slash/plugins/builtin/xunit.py b/slash/plugins/builtin/xunit.py
index f2c816d..aac886a 100644
--- a/slash/plugins/builtin/xunit.py
+++ b/slash/plugins/builtin/xunit.py
@@ -1,5 +1,6 @@
 import datetime
 import itertools
+import re
 import socket
 from ..interface import PluginInterface
 from ...ctx import context
@@ -13,6 +14,15 @@ from xml.etree.ElementTree import (
     SubElement as SE
 )
 
+_ILLEGAL_CHARACTERS = re.compile('[^\\t\\n\\r\\x20-\\ud7ff\\ue000-\\ufffd\\U00010000-\\U0010ffff]')
+_TAG_NAME = re.compile(r'[A-Za-z_][A-Za-z0-9_.\-]*')
+
+def _xml_str(value):
+    """Returns a string for the given value, in which the characters XML has no representation for are escaped
+    """
+    return _ILLEGAL_CHARACTERS.sub(lambda match: match.group(0).encode('unicode_escape').decode('ascii'), str(value))
+
+
 class Plugin(PluginInterface):
     """
     For more information see https://slash.readthedocs.org/en/master/builtin_plugins.html#xunit
@@ -38,35 +48,33 @@ class Plugin(PluginInterface):
         )
 
     def _add_element(self, parent, tag, attrib, text=None):
-        element = E(tag, attrib)
+        element = E(tag, {name: _xml_str(value) for name, value in attrib.items()})
         if text is not None:
-            element.text = text
+            element.text = _xml_str(text)
         parent.append(element)
 
     def _get_test_case_element(self, test):
         return E('testcase', dict(name=str(test), classname="{}.{}".format(test.__class__.__module__, test.__class__.__name__), time="0"))
 
     def _detail2xml(self, tag, name, value):
-        r = E(tag, {'name': name})
+        r = E(tag, {'name': _xml_str(name)})
         if isinstance(value, (dict, tuple, list)):
             r = self._build_xml(r, value)
-        elif isinstance(value, (float, int)):
-            r.attrib['value'] = str(value)
         else:
-            r.attrib['value'] = value
+            r.attrib['value'] = _xml_str(value)
         return r
 
     def _build_xml(self, r, d):
         if isinstance(d, dict):
             for k, v in d.items():
-                s = SE(r, k)
+                s = SE(r, k) if isinstance(k, str) and _TAG_NAME.fullmatch(k) else SE(r, 'i', {'name': _xml_str(k)})
                 self._build_xml(s, v)
         elif isinstance(d, (tuple, list)):
             for v in d:
                 s = SE(r, 'i')
                 self._build_xml(s, v)
         else:
-            r.text = str(d)
+            r.text = _xml_str(d)
         return r
 
     def session_end(self):
@@ -98,12 +106,12 @@ class Plugin(PluginInterface):
         for result in run_test_results:
 
             test = E("testcase", {
-                "name": result.test_metadata.address,
+                "name": _xml_str(result.test_metadata.address),
                 "time": str(result.get_duration().total_seconds())
             })
 
             if result.test_metadata.class_name:
-                test.attrib["classname"] = result.test_metadata.class_name
+                test.attrib["classname"] = _xml_str(result.test_metadata.class_name)
 
             self._add_errors(test, result)
 
-- 
2.43.0


From 6f31c518890e131f4ac1766ac2f7980fe2a410e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 49/68] fix: skip reasons which are not strings no longer break
 the console summary

---
 slash/reporting/console_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/reporting/console_reporter.py b/slash/reporting/console_reporter.py
index d3a223d..cbb7cba 100644
--- a/slash/reporting/console_reporter.py
+++ b/slash/reporting/console_reporter.py
@@ -323,7 +323,7 @@ class ConsoleReporter(ReporterInterface):
 
     def _report_result_skip_summary(self, result):
         msg = '\tSkipped'
-        skip_reasons = [r for r in result.get_skips() if r is not None]
+        skip_reasons = [str(r) for r in result.get_skips() if r is not None]
         if skip_reasons:
             msg += ' ({})'.format(', '.join(skip_reasons))
         msg += '\n'
-- 
2.43.0


From 44f3f665a8f3b48bcf1c90ee67c33df7aee542f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:25 +0000
Subject: [PATCH 50/68] fix: test details which cannot be converted to strings
 no longer lose the xunit report

---
 slash/plugins/builtin/xunit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slash/plugins/builtin/xunit.py b/slash/plugins/builtin/xunit.py
index aac886a..e112eaa 100644
--- a/slash/plugins/builtin/xunit.py
+++ b/slash/plugins/builtin/xunit.py
@@ -20,7 +20,11 @@ _TAG_NAME = re.compile(r'[A-Za-z_][A-Za-z0-9_.\-]*')
 def _xml_str(value):
     """Returns a string for the given value, in which the characters XML has no representation for are escaped
     """
-    return _ILLEGAL_CHARACTERS.sub(lambda match: match.group(0).encode('unicode_escape').decode('ascii'), str(value))
+    try:
+        value = str(value)
+    except Exception:  # pylint: disable=broad-except
+        value = '[Unprintable {!r} object]'.format(type(value).__name__)
+    return _ILLEGAL_CHARACTERS.sub(lambda match: match.group(0).encode('unicode_escape').decode('ascii'), value)
 
 
 class Plugin(PluginInterface):
-- 
2.43.0


From 8aa1153b26a56226fcba7df1e5436cd9d8c2d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:25 +0000
Subject: [PATCH 51/68] fix: the session summary is reported also when ending
 the session fails

---
 slash/core/session.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/slash/core/session.py b/slash/core/session.py
index 7966c16..a6b7d6c 100644
--- a/slash/core/session.py
+++ b/slash/core/session.py
@@ -137,12 +137,14 @@ class Session(Activatable):
                 with handling_exceptions():
                     self.cleanups.pop_scope('session-global')
             finally:
-                if session_start_called:
-                    with handling_exceptions():
-                        hooks.session_end()  # pylint: disable=no-member
-                    with handling_exceptions():
-                        hooks.after_session_end()  # pylint: disable=no-member
-                self.reporter.report_session_end(self)
+                try:
+                    if session_start_called:
+                        with handling_exceptions():
+                            hooks.session_end()  # pylint: disable=no-member
+                        with handling_exceptions():
+                            hooks.after_session_end()  # pylint: disable=no-member
+                finally:
+                    self.reporter.report_session_end(self)
 
     def initiate_cleanup(self):
         if not self.scope_manager.has_active_scopes():
-- 
2.43.0


From a28e90a4d7a855b080110cf23c40d462d5a432b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:59 +0000
Subject: [PATCH 52/68] fix: parameter values which cannot be converted to
 strings no longer fail the loading of tests

---
 slash/core/variation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slash/core/variation.py b/slash/core/variation.py
index 612c21f..ae9dfc2 100644
--- a/slash/core/variation.py
+++ b/slash/core/variation.py
@@ -55,9 +55,12 @@ class Variation(object):
 
         if isinstance(label, str):
             return label
-        value = str(value)
+        try:
+            value = str(value)
+        except Exception:  # pylint: disable=broad-except
+            return '{}{}'.format(name, label)
         if self._is_printable(value):
-            return str(value)
+            return value
         return '{}{}'.format(name, label)
 
     def _is_printable(self, value):
-- 
2.43.0


From a26830e1f5d0252efac5f3100d6f8681d4ac7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:50 +0000
Subject: [PATCH 53/68] fix: the warning filters are restored at the end of a
 run

---
 slash/app.py      | 2 ++
 slash/warnings.py | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/slash/app.py b/slash/app.py
index 5ea15db..af7a4ea 100644
--- a/slash/app.py
+++ b/slash/app.py
@@ -1,6 +1,7 @@
 import logbook
 import signal
 import sys
+import warnings
 import dessert
 from contextlib import contextmanager, ExitStack
 
@@ -104,6 +105,7 @@ class Application(object):
         self._exit_stack.__enter__()
         try:
             self._exit_stack.enter_context(self._prelude_logging_context())
+            self._exit_stack.enter_context(warnings.catch_warnings())
             self._exit_stack.enter_context(self._prelude_warning_context())
             self._exit_stack.enter_context(self._sigterm_context())
             with dessert.rewrite_assertions_context():
diff --git a/slash/warnings.py b/slash/warnings.py
index 90ba390..bbd86fe 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -32,9 +32,10 @@ class SessionWarnings(object):
 
     @contextmanager
     def capture_context(self):
-        capture_all_warnings()
-        with warning_callback_context(self._capture_native_warning):
-            yield
+        with warnings.catch_warnings():
+            capture_all_warnings()
+            with warning_callback_context(self._capture_native_warning):
+                yield
 
     def warning_should_be_filtered(self, warning):
         return is_warning_ignored(warning)
-- 
2.43.0


From a38023018b2b5a456aaedb69f96d47e3814c824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:50 +0000
Subject: [PATCH 54/68] fix: refusing an override of a configuration group no
 longer leaves the other overrides in force

---
 slash/utils/cli_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slash/utils/cli_utils.py b/slash/utils/cli_utils.py
index 25cd87a..a8cfea0 100644
--- a/slash/utils/cli_utils.py
+++ b/slash/utils/cli_utils.py
@@ -84,11 +84,14 @@ def get_modified_configuration_from_args_context(parser, args, config=None):
             if "=" not in override:
                 parser.error("Invalid config override: {}".format(override))
             path, _ = override.split("=", 1)
-            to_restore.append((path, config.get_path(path)))
             try:
+                if not config.get_config(path).is_leaf():
+                    parser.error("Not a configuration value: {}".format(path))
+                old_value = config.get_path(path)
                 config.assign_path_expression(override, deduce_type=True, default_type=str)
-            except ValueError:
+            except (ValueError, SyntaxError):
                 parser.error("Invalid value for config override: {}".format(override))
+            to_restore.append((path, old_value))
         yield
     finally:
         for path, prev_value in reversed(to_restore):
-- 
2.43.0


From 147c6dad61594d0eb9f07b0dfdae22ab7b1c5237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:50 +0000
Subject: [PATCH 55/68] fix: forcing or preventing console colors no longer
 applies to later runs

---
 slash/reporting/console_reporter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/slash/reporting/console_reporter.py b/slash/reporting/console_reporter.py
index cbb7cba..bd713b3 100644
--- a/slash/reporting/console_reporter.py
+++ b/slash/reporting/console_reporter.py
@@ -2,7 +2,6 @@
 from __future__ import division
 import functools
 import itertools
-import os
 import sys
 
 import vintage
@@ -53,9 +52,9 @@ class TerminalWriterWrapper(object):
 
     def __init__(self, file):
         super(TerminalWriterWrapper, self).__init__()
-        if config.root.log.color_console is not None:
-            os.environ['PY_COLORS'] = '1' if config.root.log.color_console else '0'
         self._writer = TerminalWriter(file=file)
+        if config.root.log.color_console is not None:
+            self._writer.hasmarkup = config.root.log.color_console
         self._isatty = file.isatty()
         self._line = ''
 
-- 
2.43.0


From bd1f96f404c4592dcaf56b5fbc4a5543dfb62f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:43 +0000
Subject: [PATCH 56/68] fix: what a run has changed is undone also when
 reporting the exception which ended it fails

---
 slash/app.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/slash/app.py b/slash/app.py
index af7a4ea..c41ce6c 100644
--- a/slash/app.py
+++ b/slash/app.py
@@ -140,6 +140,18 @@ class Application(object):
             raise
 
     def __exit__(self, exc_type, exc_value, exc_tb):
+        try:
+            self._handle_exit(exc_type, exc_value, exc_tb)
+        finally:
+            try:
+                self._exit_stack.__exit__(exc_type, exc_value, exc_tb)
+            finally:
+                self._exit_stack = None
+                self._reset_parser()
+                trigger_hook.app_quit()  # pylint: disable=no-member
+        return True
+
+    def _handle_exit(self, exc_type, exc_value, exc_tb):
         exc_info = (exc_type, exc_value, exc_tb)
         try:
             debug_if_needed(exc_info)
@@ -163,11 +175,6 @@ class Application(object):
 
         if exc_type is not None:
             trigger_hook.result_summary() # pylint: disable=no-member
-        self._exit_stack.__exit__(exc_type, exc_value, exc_tb)
-        self._exit_stack = None
-        self._reset_parser()
-        trigger_hook.app_quit()  # pylint: disable=no-member
-        return True
 
     def _capture_native_warning(self, message, category, filename, lineno, file=None, line=None): # pylint: disable=unused-argument
         warning = RecordedWarning.from_native_warning(message, category, filename, lineno)
-- 
2.43.0


From 9ea28c8d97767a49615c7e8f5f7da9744e49ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:56 +0000
Subject: [PATCH 57/68] fix: a session which cannot be activated does not
 remain the current one

---
 slash/core/session.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/slash/core/session.py b/slash/core/session.py
index a6b7d6c..e068112 100644
--- a/slash/core/session.py
+++ b/slash/core/session.py
@@ -73,18 +73,22 @@ class Session(Activatable):
 
     def activate(self):
         assert not self._active, 'Attempted to activate an already-active session'
-        with handling_exceptions():
-            ctx.push_context()
-            assert ctx.context.session is None
-            assert ctx.context.result is None
-            ctx.context.session = self
-            ctx.context.result = self.results.global_result
-            self.results.global_result.mark_started()
-            self._logging_context = self.logging.get_session_logging_context()
-            self._logging_context.__enter__()  # https://github.com/PyCQA/pylint/issues/2056: pylint: disable=no-member,unnecessary-dunder-call
-
-            self._warning_capture_context = self.warnings.capture_context()
-            self._warning_capture_context.__enter__()  # https://github.com/PyCQA/pylint/issues/2056: pylint: disable=no-member,unnecessary-dunder-call
+        ctx.push_context()
+        try:
+            with handling_exceptions():
+                assert ctx.context.session is None
+                assert ctx.context.result is None
+                ctx.context.session = self
+                ctx.context.result = self.results.global_result
+                self.results.global_result.mark_started()
+                self._logging_context = self.logging.get_session_logging_context()
+                self._logging_context.__enter__()  # https://github.com/PyCQA/pylint/issues/2056: pylint: disable=no-member,unnecessary-dunder-call
+
+                self._warning_capture_context = self.warnings.capture_context()
+                self._warning_capture_context.__enter__()  # https://github.com/PyCQA/pylint/issues/2056: pylint: disable=no-member,unnecessary-dunder-call
+        except:
+            ctx.pop_context()
+            raise
         self._active = True
 
     def deactivate(self):
-- 
2.43.0


From 1368a7ccfb6c089887818e049919be1dbdfdd798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:42 +0000
Subject: [PATCH 58/68] fix: deactivating a session restores the context also
 when closing its logs fails

---
 slash/core/session.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/slash/core/session.py b/slash/core/session.py
index e068112..88c2b16 100644
--- a/slash/core/session.py
+++ b/slash/core/session.py
@@ -98,13 +98,16 @@ class Session(Activatable):
 
         exc_info = sys.exc_info()
 
-        self._warning_capture_context.__exit__(*exc_info) # pylint: disable=no-member
-        self._warning_capture_context = None
-
-        self._logging_context.__exit__(*exc_info) # pylint: disable=no-member
-        self._logging_context = None
-        self.results.global_result.mark_finished()
-        ctx.pop_context()
+        try:
+            self._warning_capture_context.__exit__(*exc_info) # pylint: disable=no-member
+        finally:
+            self._warning_capture_context = None
+            try:
+                self._logging_context.__exit__(*exc_info) # pylint: disable=no-member
+            finally:
+                self._logging_context = None
+                self.results.global_result.mark_finished()
+                ctx.pop_context()
 
     @property
     def duration(self):
-- 
2.43.0


From 7bae6412a851f805460b203272167ed459bafe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:56 +0000
Subject: [PATCH 59/68] fix: silenced and filtered records appear neither in
 unified session logs nor in those of customization files

---
 slash/log.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slash/log.py b/slash/log.py
index 75b3d07..907cbfc 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -189,13 +189,13 @@ class SessionLogging(object):
             stack.enter_context(self.warnings_handler.applicationbound())
             error_handler = stack.enter_context(self._get_error_logging_context())
             stack.enter_context(error_handler.applicationbound())
-            stack.enter_context(self._get_silenced_logs_context())
             if config.root.log.unittest_mode:
                 stack.enter_context(logbook.StreamHandler(sys.stderr, bubble=True, level=logbook.TRACE))
             for extra_handler in _extra_handlers:
                 stack.enter_context(extra_handler.applicationbound())
             if config.root.log.unified_session_log and self.session_log_handler is not None:
                 stack.enter_context(_make_bubbling_handler(self.session_log_handler))
+            stack.enter_context(self._get_silenced_logs_context())
             if config.root.run.capture.error_logs_as_errors:
                 stack.enter_context(ErrorHandler().applicationbound())
 
@@ -370,6 +370,7 @@ class _BubblingWrapper(logbook.Handler):
     def __init__(self, handler):
         super(_BubblingWrapper, self).__init__(bubble=True)
         self._handler = handler
+        self.filter = handler.filter
         self.should_handle = self._handler.should_handle
         self.handle = self._handler.handle
 
@@ -395,8 +396,11 @@ class RetainedLogHandler(logbook.TestHandler):
             return super(RetainedLogHandler, self).emit(record)
 
     def flush_to_handler(self, handler):
+        silenced = config.root.log.silence_loggers
         for r in self.records:
-            if handler.should_handle(r):
+            if r.channel in silenced or not handler.should_handle(r):
+                continue
+            if handler.filter is None or handler.filter(r, handler):
                 handler.emit(r)
         del self.records[:]
 
-- 
2.43.0


From c59f588a6ed319ded5110657f63cf5124a183775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:56 +0000
Subject: [PATCH 60/68] fix: unified session logs contain also the records of
 threads started by tests

---
 slash/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/log.py b/slash/log.py
index 907cbfc..4e90e13 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -194,7 +194,7 @@ class SessionLogging(object):
             for extra_handler in _extra_handlers:
                 stack.enter_context(extra_handler.applicationbound())
             if config.root.log.unified_session_log and self.session_log_handler is not None:
-                stack.enter_context(_make_bubbling_handler(self.session_log_handler))
+                stack.enter_context(_make_bubbling_handler(self.session_log_handler).applicationbound())
             stack.enter_context(self._get_silenced_logs_context())
             if config.root.run.capture.error_logs_as_errors:
                 stack.enter_context(ErrorHandler().applicationbound())
-- 
2.43.0


From dc82d5d361cb761c7daa7cbd74842a1c0b574553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:56 +0000
Subject: [PATCH 61/68] fix: the last failed log remains linked when failed
 tests have no log

---
 slash/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/log.py b/slash/log.py
index 4e90e13..5eebeb6 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -297,7 +297,7 @@ class SessionLogging(object):
         self._try_create_symlink(worker_dir, symlink)
 
     def _try_create_symlink(self, path, symlink):
-        if symlink is None or config.root.log.root is None or config.root.parallel.worker_id is not None:
+        if path is None or symlink is None or config.root.log.root is None or config.root.parallel.worker_id is not None:
             return
 
         symlink = self._normalize_path(symlink)
-- 
2.43.0


From 27f21e2177c0520838bb76ba73c8ee0534bd7da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:48 +0000
Subject: [PATCH 62/68] fix: records of tests sharing the unified session log
 as their own are written to it once

---
 slash/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/log.py b/slash/log.py
index 5eebeb6..18e8cf0 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -193,7 +193,7 @@ class SessionLogging(object):
                 stack.enter_context(logbook.StreamHandler(sys.stderr, bubble=True, level=logbook.TRACE))
             for extra_handler in _extra_handlers:
                 stack.enter_context(extra_handler.applicationbound())
-            if config.root.log.unified_session_log and self.session_log_handler is not None:
+            if config.root.log.unified_session_log and self.session_log_handler not in (None, handler):
                 stack.enter_context(_make_bubbling_handler(self.session_log_handler).applicationbound())
             stack.enter_context(self._get_silenced_logs_context())
             if config.root.run.capture.error_logs_as_errors:
-- 
2.43.0


From 514f717bf748189941f9974fece81b40b99837c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:14 +0000
Subject: [PATCH 63/68] fix: a failure to signal liveness once no longer ends
 the signalling of a worker

---
 slash/parallel/worker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index 4289b91..4c30af3 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -34,7 +34,10 @@ class Worker(object):
     def keep_alive(self, stop_event):
         proxy = xmlrpc_client.ServerProxy(self.keepalive_server_addr)
         while not stop_event.is_set():
-            proxy.keep_alive(self.client_id)
+            try:
+                proxy.keep_alive(self.client_id)
+            except Exception:  # pylint: disable=broad-except
+                _logger.debug("Worker_id {} failed to send keepalive", self.client_id, exc_info=True)
             stop_event.wait(1)
 
     def warning_added(self, warning):
-- 
2.43.0


From a0d41d0fefc5cd4a95866e4e5055dfd10c3c2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:49 +0000
Subject: [PATCH 64/68] fix: a worker which collected other tests disconnects
 from its parent

---
 slash/parallel/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index 4c30af3..97d18eb 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -96,7 +96,7 @@ class Worker(object):
             _logger.error("Collections of worker id {} and master don't match, worker terminates", self.client_id,
                           extra={'capture': False})
             self._stop_keepalive_thread()
-            self.client.disconnect(self.client_id, has_failure=True)
+            self.client.disconnect(self.client_id, True)
             return
 
         should_stop = False
-- 
2.43.0


From 88730333a479a3b30e06cc3d97370c80ddf9c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:59 +0000
Subject: [PATCH 65/68] fix: tagging a wrapped function does not tag the
 function it wraps

---
 slash/core/tagging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slash/core/tagging.py b/slash/core/tagging.py
index b334c49..5cecace 100644
--- a/slash/core/tagging.py
+++ b/slash/core/tagging.py
@@ -29,10 +29,10 @@ def tag_test(test, tag_name, tag_value):
         own_tags = vars(test).get(_TAGS_NAME)
     else:
         own_tags = getattr(test, _TAGS_NAME, None)
-    if own_tags is None:
-        own_tags = Tags()
-        setattr(test, _TAGS_NAME, own_tags)
+    # wrappers (e.g. through functools.wraps) share the tags of what they wrap, and must not change them
+    own_tags = Tags() if own_tags is None else own_tags.copy()
     own_tags[tag_name] = tag_value
+    setattr(test, _TAGS_NAME, own_tags)
     return test
 
 
-- 
2.43.0


From 9d9027a83a885176a7c90e13f17763e242079a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:59 +0000
Subject: [PATCH 66/68] fix: requirements of a wrapper do not apply to the
 function it wraps

---
 slash/core/requirements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slash/core/requirements.py b/slash/core/requirements.py
index b244359..4730ad2 100644
--- a/slash/core/requirements.py
+++ b/slash/core/requirements.py
@@ -22,11 +22,14 @@ def requires(req, message=None):
 
 def _get_requirements_list(thing, create=True):
 
-    thing = resolve_underlying_function(thing)
+    # methods cannot hold attributes of their own. Wrappers can: several of them may wrap the same function
+    thing = getattr(thing, '__func__', None) or thing
     if isinstance(thing, type):
         existing = vars(thing).get(_SLASH_REQUIRES_KEY_NAME)
     else:
         existing = getattr(thing, _SLASH_REQUIRES_KEY_NAME, None)
+        if existing is None:
+            existing = getattr(resolve_underlying_function(thing), _SLASH_REQUIRES_KEY_NAME, None)
 
     key = id(thing)
 
-- 
2.43.0


From 7a90e01620d9d640be9f80546a3a21be7ccf8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:16 +0000
Subject: [PATCH 67/68] fix: fixtures of a slashconf.py override those of outer
 ones by name, whatever their functions are called

---
 slash/core/local_config.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/slash/core/local_config.py b/slash/core/local_config.py
index 13ffa6e..ccf73ef 100644
--- a/slash/core/local_config.py
+++ b/slash/core/local_config.py
@@ -53,6 +53,10 @@ class LocalConfig(object):
         returned = {}
         # start loading from the parent so that vars are properly overriden
         for slashconf_vars in reversed(confstack):
+            # fixtures are overridden by name, regardless of the variables they are found in
+            overridden = set(_iter_fixture_names(slashconf_vars))
+            returned = {name: value for name, value in returned.items()
+                        if not overridden.intersection(_iter_fixture_names({name: value}))}
             returned.update(slashconf_vars)
         return returned
 
@@ -73,3 +77,10 @@ class LocalConfig(object):
             new_path = os.path.dirname(path)
             assert new_path != path
             path = new_path
+
+
+def _iter_fixture_names(variables):
+    for value in variables.values():
+        fixture_info = getattr(value, '__slash_fixture__', None)
+        if fixture_info is not None:
+            yield fixture_info.name
-- 
2.43.0


From 7471a22836cdaf266b7ce95fd6479e2a73f81703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:15 +0000
Subject: [PATCH 68/68] fix: exceptions and messages which cannot be
 represented are recorded nevertheless

---
 slash/core/error.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/slash/core/error.py b/slash/core/error.py
index c0c95ec..5d20a5e 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -17,6 +17,13 @@ from ..utils.traceback_utils import distill_call_stack, distill_traceback, disti
 _logger = logbook.Logger(__name__)
 _CAPTURED_ERROR_MARKER = "__slash_captured_error__"
 
+def _safe_repr(obj):
+    try:
+        return repr(obj)
+    except Exception:  # pylint: disable=broad-except
+        return '[Unprintable {!r} object]'.format(type(obj).__name__)
+
+
 class Error(object):
 
     traceback = exception_type = arg = _cached_detailed_traceback_str = None
@@ -30,7 +37,7 @@ class Error(object):
             msg = traceback.format_exception_only(exc_info[0], exc_info[1])[0].strip()
         if not isinstance(msg, str):
             self.arg = msg
-            msg = repr(msg)
+            msg = _safe_repr(msg)
         self.message = msg
         #: A string representation of the exception caught, if exists
         self.exception_str = exception = None
@@ -39,7 +46,7 @@ class Error(object):
         self.exc_info = exc_info
         if exc_info is not None:
             self.exception_type, exception, tb = exc_info  # pylint: disable=unpacking-non-sequence
-            self.exception_str = repr(exception)
+            self.exception_str = _safe_repr(exception)
             self._exception_attributes = distill_object_attributes(exception, truncate=False)
             self.traceback = distill_traceback(
                 tb, frame_correction=get_exception_frame_correction(exception))
-- 
2.43.0

