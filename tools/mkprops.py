import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook))
    P.append(d)

p("C01","Cleanups run once, LIFO, at the end of their scope, as their flags say",
"Every cleanup callback registered during a session runs at most once, when the scope it was registered for ends (the test by default, its test file, or the whole session), in reverse order of registration within that scope; one that raises, fails or skips never prevents the remaining ones from running, and its error is recorded against the run. An ordinary cleanup runs whatever the outcome unless the run was interrupted; a critical one runs even after (or during) an interruption; a success-only one runs when everything went well and never runs after an interruption or when the test that registered it did not succeed. Cleanups registered from hooks, fixtures or other cleanups obey the same rules.",
["programs","fault_sequences"],
"All suites of up to three tests in up to two files, all registration points (session_start, test_start, body, fixture, cleanup), scopes, flags and all behaviours (ok, failure, error, skip, interruption) of tests and cleanups up to a deviation bound",
"Unit tests sample a few registration orders and one fault at a time; the guarantee is over every combination of scope, flag, registration site and place where something raises.",
["slash/core/cleanup_manager.py","slash/core/scope_manager.py","slash/runner.py"],
[("LIFO stack per scope and flag filtering","slash/core/cleanup_manager.py:CleanupManager.call_cleanups"),("scope push/pop around tests and files","slash/core/scope_manager.py:ScopeManager")],
[("scope stack","pending cleanups per open scope","slash/core/cleanup_manager.py:CleanupManager")],
["side effects of the callbacks in a real session","session results"])

p("C02","Each test gets exactly one truthful outcome, and totals and exit code agree",
"Whatever happens in a test's fixtures, body, cleanups or hooks, every selected test ends with exactly one result whose classification is: error if any unexpected exception or added error occurred, else failure if any assertion failure or added failure, else interrupted, else skip, else success. No exception is lost or counted twice, exactly one of the success/failure/error/skip notifications is issued for each test that ran to its end and it matches what had happened to the test by then. The session's counters, its overall success and the process exit code (zero only if nothing failed, errored or was interrupted) always follow from these results.",
["programs","fault_sequences"],
"All suites of up to three tests and all sequences of result-affecting events (assertion, exception, add_error, add_failure, skip, interruption) at every phase, up to a deviation bound",
"Existing tests check single events in single phases; the outcome is a function of every combination and order of events over all phases.",
["slash/core/result.py","slash/exception_handling.py","slash/runner.py","slash/frontend/slash_run.py"],
[("classification predicates","slash/core/result.py:Result"),("dedup of exceptions via marks","slash/core/result.py:Result.add_exception"),("summary hook selection","slash/runner.py:_fire_test_summary_hooks"),("exit code","slash/frontend/slash_run.py:slash_run")],
[],["session results","hooks","exit code","console summary"])

p("C03","Session and test lifecycle notifications are properly paired and ordered",
"In every run, test-start and test-end notifications are strictly paired and never nested, lie between session-start and session-end, and each started test's end notification is delivered exactly once even if its body, fixtures, cleanups or other hooks raise or the run is interrupted. Session end is notified exactly once whenever a session start succeeded, after all session-scope cleanups have run; the outcome notification of a test comes between its cleanups and its end. Tests that are avoided (unmet requirement or exclusion) get an avoided notification and never a start.",
["programs","fault_sequences"],
"All suites of up to three tests with every single and double fault (failure, error, skip, interruption) injected at any hook, fixture, body or cleanup point",
"The tests inject an exception in one hook at a time; pairing must hold for every fault point and combination.",
["slash/runner.py","slash/core/session.py","slash/hooks.py"],
[("start/end controller","slash/runner.py:TestStartEndController"),("session bracket","slash/core/session.py:Session.get_started_context")],
[],["hook callbacks"])

p("C04","Fixture values live exactly as long as their scope and are shared within it",
"Within one occurrence of a fixture's scope (one test, one test file, or the session) and one choice of its parameters, every test or fixture that needs the fixture sees the very same value, computed once after the values it depends on; a new value is computed exactly when the scope has ended or a parameter it depends on changes. Each computed value is torn down exactly once, no later than the end of its scope, after everything depending on it has been torn down, unless the run was interrupted; a failure while computing or tearing down one never leaks the others into a later scope. Autouse fixtures are active for every test they apply to, and per-test notifications of a fixture fire once per test around it.",
["programs","histories"],
"All small fixture graphs (up to three fixtures, scopes, parametrization, dependency shapes, generator and cleanup teardown) crossed with all sequences of up to four tests over two files and faults in setup and teardown",
"Tests exercise chosen graphs; lifetime bugs need a particular combination of scope, dependency, parameter switch and file change.",
["slash/core/fixtures/fixture_store.py","slash/core/fixtures/fixture.py","slash/core/fixtures/active_fixture.py","slash/core/variation_factory.py","slash/core/scope_manager.py"],
[("active-fixture cache and invalidation","slash/core/fixtures/fixture_store.py:FixtureStore"),("deactivation on scope pop","slash/core/fixtures/fixture_store.py:FixtureStore.pop_scope")],
[("active fixtures by scope","which values are live","slash/core/fixtures/fixture_store.py")],
["events recorded by fixtures and tests in a real session"])

p("C05","Parametrized tests run exactly once per combination of parameter values",
"A test runs exactly once for every combination of values of all the parameters it transitively depends on (its own, those of its before/after methods, and those of its fixtures), and of nothing else; each run receives the values its reported variation names, consistently everywhere the parameter is visible in that run. Several names parametrized together vary together, labels and per-value tags follow their value, and excluded combinations are reported as skipped without starting. The order of runs keeps wide-scope values grouped together so they are not recomputed needlessly.",
["programs","inputs"],
"All small programs with up to three parameters of up to three values each, attached to functions, methods, before/after, fixtures in any dependency shape, with tuples, labels, toggles and exclusion sets",
"Tests sample Cartesian products; aliasing between parameters through shared fixtures and tuple parametrization is combinatorial.",
["slash/core/variation_factory.py","slash/core/variation.py","slash/core/fixtures/parameters.py","slash/core/exclusions.py","slash/core/function_test.py","slash/core/test.py"],
[("product of needed parameters","slash/core/variation_factory.py:VariationFactory"),("exclusion match","slash/core/exclusions.py:is_excluded")],
[],["values seen by tests and fixtures","test addresses and variations"])

p("C06","Fixture names resolve to the innermost definition, and bad graphs are refused",
"A name required by a test or fixture resolves to the innermost visible definition (a parameter of the function itself, then the test file, then the enclosing directory customization files outward, seen from the file in which the requiring definition stands), and unrelated files never see each other's definitions. Every suite whose fixtures are unknown, cyclic, or depend on something with a narrower scope is refused before any of its tests runs, and every well-formed one is accepted.",
["programs","configurations"],
"All placements of up to three fixture definitions over a two-level directory tree with two files, and all dependency digraphs with scopes over up to three fixtures",
"Tests check a handful of graphs; acceptance/refusal must be exact over all graphs and placements.",
["slash/core/fixtures/fixture_store.py","slash/core/fixtures/namespace.py","slash/core/fixtures/fixture.py","slash/core/local_config.py","slash/loader.py"],
[("namespace chain lookup","slash/core/fixtures/namespace.py"),("cycle and scope validation","slash/core/fixtures/fixture_store.py:FixtureStore.resolve")],
[],["values injected","load errors"])

p("C07","An interruption stops the run promptly, safely and truthfully",
"Wherever an interruption or termination signal lands while tests are running, no further test starts, the test it hit is marked interrupted and nothing is reported as a success because of it, the session-interrupted notification is issued once, critical cleanups still run, session end is still notified, and the exit code is non-zero. Results of tests that had already finished are unaffected (the cleanups of the session itself count as part of the last test's turn), and the saved resume state lists exactly the tests which did not complete successfully.",
["crash_points","programs"],
"An interruption (keyboard or termination) injected at every observable point of every suite in a bounded set, alone and together with one other fault",
"Tests interrupt at two or three fixed places; the guarantee is over every point.",
["slash/core/session.py","slash/runner.py","slash/core/result.py","slash/exception_handling.py","slash/app.py","slash/core/cleanup_manager.py"],
[("interruption propagation","slash/exception_handling.py:handling_exceptions"),("session interrupt hook","slash/core/session.py:Session.get_started_context")],
[],["hooks","results","exit code","resume state"])

p("C08","Early stop and not-run accounting never lose or invent a test",
"When a run stops early because of a stop-on-error request or a fatal error, it stops right after the first test which made the session unsuccessful (or the fatal one), skips alone never stop it, and every selected test that was not reached has a result stating it was not run. Each selected test has exactly one result, in order; tests numbered consecutively; the session is declared complete only if every selected test had its turn.",
["programs","configurations"],
"All outcome sequences (success, failure, error, skip, unmet requirement, fatal, late cleanup error at file or session scope) of up to four tests, with and without stop-on-error",
"Tests check the flag with one failing test; interplay with skips, avoided tests, late errors and last test position is untested.",
["slash/runner.py","slash/core/session.py","slash/core/result.py"],
[("stop decision and unrun marking","slash/runner.py:run_tests")],
[],["results","session completeness","hooks"])

p("C09","Resuming or rerunning selects exactly the right tests of the earlier session",
"Resuming a finished, failed or interrupted session runs exactly the selected tests that did not succeed in it (failed, errored, skipped, not run), and rerunning runs exactly all of them, each the same number of times and with the same parameters as originally selected, in an order controlled by the requested priority. The state of different sessions never mixes, resuming without naming a session picks the latest resumable one of the same working directory, status filters select exactly the named statuses, and only sessions older than the retention period are forgotten.",
["histories","configurations"],
"All outcome vectors of suites of up to four tests (parametrized, repeated, same names in several classes or files), all stop points, and all chains of up to three run/resume/rerun sessions with each filter and order flag",
"Tests resume after one run with one failing test; correctness is over histories and suite shapes.",
["slash/resuming.py","slash/loader.py","slash/frontend/slash_run.py"],
[("status recording","slash/resuming.py:save_resume_state"),("selection","slash/resuming.py:get_tests_from_previous_session"),("re-matching stored entries to tests","slash/loader.py:Loader._iter_test_resume")],
[("resume database","sessions and test statuses on disk","slash/resuming.py")],
["tests executed by the resumed session"])

p("C10","A parallel run executes each test once and accounts for every one of them",
"In a parallel run, under every interleaving of the workers' requests and failures, each selected test is handed to at most one worker, only after all workers agreed on the same collection, and its reported outcome is recorded against that very test exactly once. When all workers are healthy every test some worker may run is executed. When a worker dies, fails to start or to validate its collection, reports an error, or the session is interrupted, the run always terminates and is unsuccessful; no test is recorded as run which was not: a test held by a worker declared dead is recorded as interrupted and all unserved tests as not run, and when the whole run is given up (interrupted or timed out) such tests are left without a result or as not run.",
["schedules","fault_sequences"],
"All interleavings of protocol messages of up to three workers and up to four tests, with up to two faults (crash at any point, timeout, collection mismatch, fatal stop, interruption)",
"Tests run real processes under one OS schedule each; races between requests, deaths and shutdown are not enumerated.",
["slash/parallel/server.py","slash/parallel/tests_distributer.py","slash/parallel/parallel_manager.py","slash/parallel/worker.py"],
[("server state machine","slash/parallel/server.py:Server"),("index distribution","slash/parallel/tests_distributer.py:TestsDistributer"),("supervision","slash/parallel/parallel_manager.py:ParallelManager")],
[("unstarted tests, executing tests, worker states","who runs what","slash/parallel/server.py")],
["server replies, session results"])

p("C11","A parallel worker runs the very test it was given, respecting placement rules",
"Every worker of a parallel run executes exactly the tests the parent assigned to it, with the same file, class, name and parameters, each once, and reports to the parent all their results, errors, skips and warnings as a sequential run would have produced. Tests forced onto, or excluded from, a worker are only executed by permitted workers, and stopping on error in any worker stops the whole run.",
["schedules","programs"],
"All suites of up to four tests including same-named methods in different classes, parametrized and repeated tests, force/exclude settings, under all orders in which two workers ask for work",
"Existing parallel tests use generated suites with unique names and one schedule.",
["slash/parallel/worker.py","slash/parallel/server.py","slash/parallel/worker_configuration.py","slash/core/result.py"],
[("test signatures mapping","slash/parallel/worker.py:Worker"),("result transfer","slash/core/result.py:Result.serialize")],
[],["tests executed in each worker","parent's results"])

p("C12","Test filter expressions select exactly the tests they denote",
"A filter expression of terms combined with not, and, or and parentheses selects a test if and only if the Boolean reading of the expression (not binds tighter than and, and tighter than or) holds for that test, where a plain term is a substring match on its address and tag terms match its tags and their values. Several filters must all hold; a malformed expression is rejected rather than silently matching.",
["inputs"],
"All expressions up to four terms over a small alphabet with every operator nesting, against all tests of a small universe of names, tags and values",
"Tests check a few hand-written expressions; precedence and nesting errors hide in others.",
["slash/utils/pattern_matching.py","slash/loader.py","slash/core/tagging.py"],
[("expression grammar and matcher","slash/utils/pattern_matching.py:Matcher")],[],["tests selected"])

p("C13","Test selection from paths, addresses, suite files and repeats is exact",
"The tests selected by a command line are exactly those its sources denote (files, directories, addresses of tests in them, nested suite files with their comments, filters and repeat counts), in source order, then in a fixed order within each file which is the same on every run, each the requested number of times, every copy with a distinct identity. A source that does not exist, an address that denotes no test, and a run that selects nothing are refused instead of being silently dropped, and errors in one file are never mistaken for an empty file.",
["inputs","programs","configurations"],
"All combinations of up to three sources from a fixed tree of files, directories, addresses and suite-file lines with filters and repeat options",
"Tests check sources one at a time.",
["slash/loader.py","slash/utils/suite_files.py","slash/frontend/slash_run.py","slash/frontend/slash_list.py","slash/core/metadata.py"],
[("source expansion","slash/loader.py:Loader"),("suite file parsing","slash/utils/suite_files.py")],[],["slash list and run"])

p("C14","Plugin activation and hook registration always match, whatever the history",
"After any sequence of installing, uninstalling, activating, deactivating, deferring and restoring plugins, the set of installed and active plugins is what the sequence of successful operations implies, and every hook event reaches each active plugin's callback exactly once and no inactive plugin's callback at all. Installing a plugin under a name already in use replaces the earlier one; activating an active plugin or deactivating an inactive one changes nothing, and operations that are refused (unknown or incompatible plugin) leave the state unchanged.",
["histories"],
"Breadth-first to a fixpoint: every operation from every reachable state of the real plugin manager, over universes of 2-3 plugins (ordinary, several hooks, unknown hook, failing activation, same name), with deferred activation, open sessions and state-restoring contexts",
"Tests check individual operations from the initial state.",
["slash/plugins/plugin_manager.py","slash/plugins/interface.py"],
[("registration bookkeeping","slash/plugins/plugin_manager.py:PluginManager")],
[("installed/active/pending maps","plugin state","slash/plugins/plugin_manager.py")],["which callbacks fire"])

p("C15","Plugin dependencies order callbacks consistently",
"For every set of active plugins whose declared provided and needed capabilities are satisfiable, each callback of a plugin that needs a capability runs after the corresponding callback of every plugin that provides it, on every hook, independent of the order and history of activations. A missing provider or a dependency cycle is reported as an error, never silently ignored.",
["configurations","schedules"],
"All needs/provides relations over three plugins and two capabilities, at class and method level, in all activation orders",
"Tests use a few fixed configurations.",
["slash/plugins/plugin_manager.py","slash/hooks.py"],
[("needs/provides registration","slash/plugins/plugin_manager.py")],[],["callback order"])

p("C16","Exception contexts handle each exception once and swallow only what they may",
"Under any nesting of the handling, swallowing, expecting and allowing contexts, an exception that escapes is processed (reported, notified and added to the result) exactly once, one which is expected or allowed by an enclosing context is not processed at all, and control flow is as documented: a handling context stops only the exceptions it was asked to swallow, and never an interruption, a system exit or (unless asked to) a skip; the general swallowing context stops everything except interruptions and exceptions marked as not to be swallowed. Expectation contexts catch exactly their types, reveal the exception, and complain when nothing was raised; what one thread expects does not affect another.",
["programs","schedules"],
"All nestings of up to three (thorough: five) contexts, re-raises and threads around every kind of exception with every mark; all interleavings of two threads",
"Tests sample nestings of two contexts.",
["slash/exception_handling.py","slash/assertions.py","slash/utils/exception_mark.py","slash/core/result.py"],
[("handled-once marks","slash/exception_handling.py:handling_exceptions"),("ignored types","slash/exception_handling.py:thread_ignore_exception_context")],[],["propagation","hooks","result contents"])

p("C17","Command-line configuration applies exactly and is fully undone",
"Configuration overrides and flags given on a command line take effect for exactly that run with the type of the option, later ones of a kind winning and explicit overrides (-o) winning over flags. Besides the plugins already active or pending, exactly those given by activation flags are active during the run, a deactivation flag winning, each configured by its own arguments. After the run - successful, failing at any stage, or interrupted - the configuration, ambient session context, signal handlers, log handlers and warning capture are as before it, and a further run behaves as if it were the first. An invalid override, flag value or plugin name is refused before any test runs, without side effects.",
["inputs","histories","fault_sequences"],
"All argument lists up to length three over an alphabet of overrides and flags of each type, crossed with failures at every stage of the run",
"Tests check flags individually, and restoration only after success.",
["slash/utils/cli_utils.py","slash/utils/conf_utils.py","slash/conf.py","slash/app.py","slash/ctx.py"],
[("override context","slash/utils/cli_utils.py:get_modified_configuration_from_args_context"),("application teardown","slash/app.py:Application.__exit__")],[],["configuration values during and after the run"])

p("C18","Log records land in the right files, which are kept or removed as configured",
"With file logging on, each record emitted during a test goes to that test's own log file and no other test's, records emitted outside tests go to the session log, and the reported log paths exist at the time they are reported. Log files are deleted exactly when the clean-up configuration says so (never those of failed tests when they are to be kept), links to the last session, last test and last failed test always name the latest such file, and silenced or filtered records appear nowhere.",
["programs","configurations"],
"All outcome vectors of up to three tests crossed with all log options (unified, cleanup, keep failed, compression, links, subdirectories, errors as errors)",
"Tests check each option with one suite.",
["slash/log.py","slash/core/session.py","slash/core/result.py"],
[("per-test handler stack","slash/log.py:SessionLogging"),("retention","slash/log.py")],[],["files on disk"])

p("C19","Warnings are captured once, attributed rightly, and filtered exactly",
"Every warning issued through the warnings mechanism or a warning-level log record during a session is recorded exactly once, attributed to its place and to the test running at the time, and announced once, unless a registered ignore rule matches it in all of the rule's stated criteria. Temporarily ignored warnings are ignored exactly within the extent of the context, however it is left.",
["programs","inputs"],
"All sequences of up to four operations (emit warnings of several kinds, push/pop ignore contexts, raise) and all ignore rules over category, message, file and line",
"Tests check single rules and normal exits.",
["slash/warnings.py","slash/utils/warning_capture.py","slash/log.py"],
[("filtering","slash/warnings.py:SessionWarnings")],[],["session warnings","warning hook"])

p("C20","Machine-readable and console reports agree with the session's results",
"For every run, the xunit report is well-formed XML with one entry per test that started, each with its own name and outcome, and its totals of tests, failures, errors and skips equal those of the session's results; the console summary states the same totals. Nothing in messages or parameter values can corrupt the report.",
["programs","inputs"],
"All outcome vectors of up to three tests (including multiple errors, late cleanup errors, skips, avoided and interrupted tests) with hostile text in messages and names",
"Tests check a single generated suite against the schema.",
["slash/plugins/builtin/xunit.py","slash/reporting/console_reporter.py","slash/core/result.py"],
[("xunit totals","slash/plugins/builtin/xunit.py:Plugin")],[],["xunit file","console output"])

p("C21","Tags and requirements combine along inheritance without leaking",
"The tags and requirements of a test are exactly those put on it, on its class and on its class's ancestors, plus those of the parameter values and fixtures it uses; decorating a class or method never affects its siblings, parents or unrelated tests, and tag conflicts are refused. A test runs if and only if all its requirements, and those of the fixtures it uses, are met; otherwise it is skipped with the reasons, its fixtures untouched.",
["programs"],
"All class hierarchies of up to three classes with tags/requirements placed on any subset of classes, methods, fixtures and parameter values, met or unmet",
"Tests check a few hierarchies.",
["slash/core/tagging.py","slash/core/requirements.py","slash/core/markers.py","slash/core/metadata.py","slash/runner.py"],
[("tag store","slash/core/tagging.py"),("requirement collection","slash/core/requirements.py")],[],["tags visible, tests run or skipped"])

p("C22","Liveness signalling from a worker to its parent survives every thread schedule",
"While a parallel worker is connected, its background liveness thread and its main thread may interleave arbitrarily: the requests of the two threads never share a connection, the liveness signal keeps being sent in time while the worker lives (also after one signal failed), it stops when the worker finishes, and the worker always terminates and disconnects. The parent declares a worker dead if nothing was heard from it for the configured time, and only then.",
["schedules"],
"All interleavings, with a preemption bound, of the worker's main and liveness threads over the synchronisation points, with communication failures injected at any call; and all timings of the parent's supervision loop on a discrete clock",
"Existing tests rely on real time and a single schedule.",
["slash/parallel/worker.py","slash/parallel/parallel_manager.py","slash/parallel/server.py"],
[("keepalive thread","slash/parallel/worker.py"),("supervision timeouts","slash/parallel/parallel_manager.py")],[],["sequence of calls received by the parent"])

p("C23","Recorded errors locate and describe failures truthfully",
"Every error or failure a session records carries the type, the message and the text of the exception it stems from (or the message it was added with), and a traceback which names exactly the functions of the user which were active, in call order from the outermost to the one which raised (or added) it, each once and with the file, the line it was executing, that line's source and its local variables; a frame correction drops just as many inner frames, and assertion helpers point at their caller. Handling contexts, re-raising, chaining, generators, decorators and cleanups on the way neither lose, duplicate nor reorder frames, nor record the same exception twice; objects which cannot be represented or pickled never prevent a failure from being recorded, nor replace it by another one.",
["programs","inputs"],
"All call chains of up to three hops (plain calls, handling contexts, re-raises, chained exceptions, context managers, generators, ...) from all places where a test can fail to all ways a failure can arise",
"Tests check a few tracebacks of direct failures; frames are lost or doubled only in combinations of contexts, places and kinds of failures.",
["slash/core/error.py","slash/utils/traceback_utils.py","slash/utils/traceback_proxy.py","slash/exception_handling.py","slash/core/result.py"],
[("error records","slash/core/error.py:Error"),("frames","slash/utils/traceback_utils.py:distill_call_stack"),("stack taken when an exception is handled","slash/exception_handling.py:handle_exception")],[],["errors and failures of results, with their tracebacks"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
