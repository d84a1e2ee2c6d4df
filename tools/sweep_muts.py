M = []
def m(prop, name, path, old, new): M.append((prop, name, path, old, new))
# C01
m('C01','scopebyname0','slash/core/cleanup_manager.py',"scope = self._scopes_by_name[scope_name][-1]","scope = self._scopes_by_name[scope_name][0]")
m('C01','popleft','slash/core/cleanup_manager.py',"            scope.cleanups.append(p)\n","            scope.cleanups.insert(0, p)\n")
m('C01','cursscope','slash/core/cleanup_manager.py',"in_interruption = context.result.is_interrupted()","in_interruption = context.result.is_interrupted() and scope_name == 'test'")
m('C01','defscope','slash/core/cleanup_manager.py',"        prev = self._default_scope\n        self._default_scope = scope\n        try:\n            yield\n        finally:\n            self._default_scope = prev","        prev = self._default_scope\n        self._default_scope = scope\n        yield\n        self._default_scope = prev")
# C03
m('C03','module_last','slash/core/scope_manager.py',"            self._push_scope('module')\n        self._last_module = test_module\n","            self._last_module = test_module\n            self._push_scope('module')\n")
# C05
m('C05','labelstr','slash/core/variation.py',"        if isinstance(label, str):\n            return label\n","        if isinstance(label, str) and self._is_printable(label):\n            return label\n")
m('C05','excl_any','slash/core/exclusions.py',"if tuple(values) in value_sets:","if any(set(values) == set(v) for v in value_sets):")
m('C05','excl_first','slash/core/exclusions.py',"        if not exclusions:\n            continue\n        for parameter_names","        if not exclusions:\n            break\n        for parameter_names")
m('C05','dirmro','slash/core/test.py',"            if hasattr(cls, name):\n                yield getattr(cls, name)","            if name in vars(cls):\n                yield getattr(cls, name)\n                break")
m('C05','printable','slash/core/variation.py','set(string.digits) | set("-_")','set(string.digits) | set("-_.")')
# C09
m('C09','retention','slash/resuming.py',"(SessionMetadata.created_at < datetime.now()","(SessionMetadata.created_at <= datetime.now() + timedelta(minutes=1)")
m('C09','sortfirst','slash/resuming.py',"wanted_status_first = ResumeTestStatus.PLANNED if unstarted_first","wanted_status_first = (ResumeTestStatus.PLANNED, ResumeTestStatus.SKIPPED) if unstarted_first")
m('C09','srcfolder','slash/resuming.py',"SessionMetadata.src_folder == current_folder)","SessionMetadata.src_folder.startswith(current_folder))")
m('C09','last_success','slash/resuming.py',"    if not tests_to_resume:\n","    if not tests_to_resume or session_result.is_success():\n")
m('C09','variation0','slash/loader.py',"if resume_state.variation:","if resume_state.variation and any(resume_state.variation.values()):")
# C12
m('C12','eqsplit','slash/core/tagging.py','key, predicate = pattern.split("=", 1)','key, predicate = pattern.rsplit("=", 1)')
m('C12','tagval','slash/core/tagging.py','return value is not NOTHING and str(value) == predicate','return value is not NOTHING and str(value).startswith(predicate)')
m('C12','onlytags','slash/utils/pattern_matching.py','            self.only_tags = True\n            self.exact = True\n','            self.only_tags = True\n')
m('C12','notmulti','slash/utils/pattern_matching.py','(_operator("and"), 2, opAssoc.LEFT, AndMatching.from_tokens)','(_operator("and"), 2, opAssoc.LEFT, lambda t: AndMatching(t[0][:3:2]))')
# C13
m('C13','factory','slash/loader.py',"            if address_in_file == test_address_in_file[:test_address_in_file.index('(')]:","            if test_address_in_file.startswith(address_in_file):")
m('C13','dotdirs','slash/loader.py',"dirnames[:] = sorted(dirname","dirnames[:] = list(dirname")
m('C13','suiterepeat','slash/utils/suite_files.py',"                    for _ in range(suite_entry.repeat):\n                        for p","                    for _ in range(max(1, suite_entry.repeat - 1)):\n                        for p")
m('C13','repeatall','slash/loader.py',"clone.__slash__.repeat_all_index = i + 1","clone.__slash__.repeat_all_index = min(i + 1, 2)")
m('C13','reldir','slash/utils/suite_files.py',"dirname = os.path.abspath(os.path.dirname(filename))","dirname = os.path.dirname(os.path.realpath(filename))")
# C14
m('C14','pendorder','slash/plugins/plugin_manager.py',"            if plugin_name not in self._pending_deactivation:\n                self.activate(plugin_name)","            self._pending_deactivation.discard(plugin_name)\n            self.activate(plugin_name)")
m('C14','uninstpend','slash/plugins/plugin_manager.py',"        self._pending_activation.discard(plugin_name)\n        self._pending_deactivation.discard(plugin_name)\n        cmd_name","        cmd_name")
m('C14','unregister','slash/plugins/plugin_manager.py',"        except Exception:\n            gossip.get_global_group().unregister_token(self._get_token(plugin_name))\n            plugin.deactivate()","        except IncompatiblePlugin:\n            gossip.get_global_group().unregister_token(self._get_token(plugin_name))\n            plugin.deactivate()")
m('C14','regif','slash/plugins/plugin_manager.py',"                    # asked not to register for nothing\n                    continue","                    # asked not to register for nothing\n                    break")
# C15
m('C15','noopprov','slash/plugins/plugin_manager.py',"hook.register_no_op(provides=global_provides,","hook.register_no_op(provides=global_provides[:1],")
m('C15','endprov','slash/plugins/plugin_manager.py',"            register_no_op_hooks.discard(hook.full_name)\n\n        for hook_name","\n        for hook_name")
m('C15','needschain','slash/plugins/plugin_manager.py',"                        try_get_mark(method, 'plugin_needs', []),\n                        global_needs,","                        try_get_mark(method, 'plugin_needs', []) or global_needs,")
# C16
m('C16','ignored','slash/exception_handling.py',"list(_ignored_state.ignored_exception_types) + [self._exc_type]","[self._exc_type]")
m('C16','swmark','slash/exception_handling.py','if not get_exception_mark(sys.exc_info()[1], "swallow", True):','if get_exception_mark(sys.exc_info()[1], "swallow", NOTHING) is False and not isinstance(sys.exc_info()[1], AssertionError):')
m('C16','swskip','slash/exception_handling.py',"if isinstance(exc_value, skip_types) and self._swallow_skips:","if isinstance(exc_value, skip_types) and (self._swallow_skips or self._swallow_types):")
# C19
m('C19','reverse','slash/warnings.py',"if self.lineno and warning.lineno != self.lineno:","if self.lineno and warning.lineno < self.lineno:")
m('C19','exists','slash/warnings.py',"issubclass(warning.category, self.category)","warning.category is self.category")
m('C19','listrem','slash/warnings.py',"            _ignored_warnings.remove(iw)","            _ignored_warnings.pop()")
m('C19','search','slash/warnings.py',"if regex_or_str.match(warning_str):","if regex_or_str.search(warning_str):")
# C20
m('C20','notrun','slash/plugins/builtin/xunit.py',"context.session.results.get_num_skipped(include_not_run=False)","context.session.results.get_num_skipped()")
m('C20','skipafter','slash/plugins/builtin/xunit.py',"            for skip in result.get_skips():\n","            for skip in result.get_skips()[:1]:\n")
# C21
m('C21','basesfirst','slash/core/tagging.py',"        for cls in reversed(test.__mro__):\n","        for cls in reversed((test,) + test.__bases__):\n")
m('C21','conflict','slash/core/tagging.py',"if tags is not NO_TAGS and tags.get(tag_name, NOTHING) not in (tag_value, NOTHING):","if tags is not NO_TAGS and tag_value is not NOTHING and tags.get(tag_name, NOTHING) not in (tag_value, NOTHING):")
m('C21','reqcopy','slash/core/requirements.py',"[] if existing is None else existing[1][:]","[] if existing is None else existing[1]")
m('C21','nofix','slash/core/test.py',"        return list(set(test_requirements + self._get_fixtures_requirements()))","        if nofixtures.is_marked(self.get_test_function()):\n            return test_requirements\n        return list(set(test_requirements + self._get_fixtures_requirements()))")
# C10
m('C10','valid','slash/parallel/server.py',"if self.num_collections_validated >= config.root.parallel.num_workers and self.state","if self.num_collections_validated >= len(self.connected_clients) and self.state")
m('C10','fin','slash/parallel/server.py',"                self.finished_tests.append(test_index)\n        self.state = ServerStates.STOP_TESTS_SERVING\n        self._mark_unrun_tests()","                self.finished_tests.append(test_index)\n        self.state = ServerStates.STOP_TESTS_SERVING\n        if test_index is not None:\n            self._mark_unrun_tests()")
# C11
m('C11','sig','slash/parallel/worker.py',"signatures_dict[tuple(test_entry[0])].pop()","signatures_dict[tuple(test_entry[0])].copy().pop()")
m('C11','collsort','slash/core/variation.py',"json.dumps({k: v for k, v in sorted(self.id.items())})","json.dumps(self.id)")
# C22
m('C22','kawait','slash/parallel/parallel_manager.py',"if worker_last_connection_time is None: #worker keepalive thread didn't started yet\n                worker_last_connection_time = self.server.clients_connection_time[worker_id]","if worker_last_connection_time is None: #worker keepalive thread didn't started yet\n                worker_last_connection_time = self.server.start_time")
m('C22','lrt','slash/parallel/server.py',"self.clients_last_communication_time[client_id] = self.last_request_time = time.time()","self.clients_last_communication_time[client_id] = time.time()")
# C02/C07/C08
m('C08','peek','slash/runner.py',"if should_stop_on_error() and not context.session.results.is_success(allow_skips=True):","if should_stop_on_error() and not result.is_success(allow_skips=True):")
m('C08','unrun','slash/runner.py',"        elif last_filename is not None:\n            context.session.reporter","        else:\n            context.session.reporter")
m('C07','endsafe','slash/runner.py',"                    self._result.mark_finished()\n            finally:","                        self._result.mark_finished()\n            finally:")
m('C17','restorder','slash/utils/cli_utils.py',"in reversed(to_restore):","in to_restore:")
m('C17','falsy','slash/utils/cli_utils.py',"            if new_value != old_value:\n","            if new_value and new_value != old_value:\n")
m('C17','toklast','slash/utils/cli_utils.py',"            to_restore.append((path, old_value))\n        yield","            if path not in [p for p, _ in to_restore]:\n                to_restore.insert(0, (path, config.get_path(path)))\n        yield")
m('C18','delint','slash/log.py',"(not result.is_global_result() and result.is_success(allow_skips=True))","(not result.is_global_result() and not result.has_errors_or_failures())")
m('C18','globdel','slash/log.py',"(result.is_global_result() and self.session.results.is_success(allow_skips=True))","(result.is_global_result() and not result.has_errors_or_failures())")
m('C18','lastfailed','slash/log.py',"        if result.is_error() or result.is_failure():","        if result.is_just_failure() or (result.is_error() and not result.is_interrupted()):")
m('C18','islink','slash/log.py',"if os.path.exists(symlink) or os.path.islink(symlink):","if os.path.exists(symlink):")
m('C10','pinstop','slash/parallel/server.py',"            if test_index is None: #we have omre tests but current worker cannot execute them\n","            if test_index is None: #we have omre tests but current worker cannot execute them\n                self.state = ServerStates.STOP_TESTS_SERVING\n")
m('C10','nostopstate','slash/parallel/server.py',"        if self.state != ServerStates.STOP_SERVE:\n            self.state = ServerStates.STOP_TESTS_SERVING","        if self.state == ServerStates.SERVE_TESTS:\n            self.state = ServerStates.STOP_TESTS_SERVING")
m('C10','markint','slash/parallel/server.py',"                result.mark_interrupted()\n                self.finished_tests","                result.mark_interrupted()\n                result.mark_started()\n                self.finished_tests")
m('C10','killfin','slash/parallel/server.py',"        self._mark_unrun_tests()\n        self.worker_error_reported = True","        self._mark_unrun_tests()\n        self.worker_error_reported = test_index is not None")
m('C10','unst','slash/parallel/server.py',"                    self.state = ServerStates.STOP_TESTS_SERVING\n                    self._mark_unrun_tests()","                    self.state = ServerStates.STOP_TESTS_SERVING\n                    if not self.executing_tests:\n                        self._mark_unrun_tests()")
m('C11','fatal','slash/parallel/server.py',"if result.has_fatal_exception() or (not","if (result.is_error() and result.has_fatal_exception()) or (not")
m('C11','exclforced','slash/parallel/tests_distributer.py',"            return forced_worker == client_id\n","            return forced_worker == client_id or test_index < self._current_tests_index\n")
m('C11','excl','slash/parallel/tests_distributer.py',"        if forced_worker is not None:","        if forced_worker is not None and forced_worker in self._workers_excluded_tests and len(self._forced_tests_dict) > 1:")
m('C20','nosess','slash/plugins/builtin/xunit.py','        self._add_errors(e, context.session.results.global_result)\n','')
m('C20','intr','slash/plugins/builtin/xunit.py',"lambda result: result.is_started(),","lambda result: result.is_started() and result.is_finished(),")
m('C22','join','slash/parallel/worker.py',"        if not self.client.validate_collection(","        if self.client.validate_collection(self.client_id, sorted(collection)) is False and not self._stop_event.set() and not self.client.validate_collection(")
m('C22','dead','slash/parallel/worker.py',"            self._stop_event.set()\n            self._watchdog_thread.join()","            self._watchdog_thread.join()\n            self._stop_event.set()")
m('C22','finally','slash/parallel/worker.py',"            finally:\n                context.session.initiate_cleanup()\n                self._stop_keepalive_thread()","            finally:\n                context.session.initiate_cleanup()")
m('C22','proxy','slash/parallel/worker.py',"                proxy.keep_alive(self.client_id)","                self.client.keep_alive(self.client_id)")
m('C02','gexit','slash/core/result.py',"            self.add_error(exc_info=exc_info)\n        else","            self.add_error(exc_info=exc_info, append=not isinstance(exc_value, SystemExit))\n        else")
m('C02','skipglobal','slash/core/result.py',"        return all(result.is_success(allow_skips=allow_skips) for result in self._session_results.iter_test_results())","        return all(result.is_success(allow_skips=allow_skips) for result in self._session_results.iter_test_results() if result.is_started())")
m('C07','rf','slash/core/session.py',"                with handling_exceptions():\n                    self.cleanups.pop_scope('session-global')","                with handling_exceptions(swallow=True):\n                    self.cleanups.pop_scope('session-global')")
m('C07','clintr','slash/app.py',"            if isinstance(exc_value, exceptions.INTERRUPTION_EXCEPTIONS):","            if isinstance(exc_value, KeyboardInterrupt):")
m('C03','asess','slash/core/session.py',"                    session_start_called = True\n                    hooks.after_session_start()  # pylint: disable=no-member\n","                    hooks.after_session_start()  # pylint: disable=no-member\n                    session_start_called = True\n")
m('C03','bsc','slash/core/session.py',"        if not self.scope_manager.has_active_scopes():\n            return\n        try:","        if len(self.scope_manager.get_current_stack()) < 2:\n            return\n        try:")

m('C06','conforder','slash/core/local_config.py',"for slashconf_vars in reversed(confstack):","for slashconf_vars in confstack:")
m('C06','confcache','slash/core/local_config.py',"                confstack.append(slashconf_vars)\n                self._slashconf_vars_cache[dir_path] = slashconf_vars","                confstack.append(slashconf_vars)\n                self._slashconf_vars_cache[os.path.basename(dir_path)] = slashconf_vars")
m('C06','poppath','slash/loader.py',"self._local_config.push_path(os.path.dirname(file_path))","self._local_config.push_path(os.path.dirname(os.path.dirname(file_path)))")
m('C06','nonew','slash/loader.py',"                with context.session.fixture_store.new_namespace_context():\n                    context.session.fixture_store.add_fixtures_from_dict(\n                        vars(module))","                if True:\n                    context.session.fixture_store.add_fixtures_from_dict(\n                        vars(module))")
m('C06','resolve','slash/loader.py',"                    context.session.fixture_store.resolve()\n                    yield","                    context.session.fixture_store.resolve()\n                yield")
m('C04','poporder','slash/core/scope_manager.py',"for s in self._scopes[::-1]])","for s in self._scopes[:]])")
m('C04','modonce','slash/core/scope_manager.py',"            if self._last_module is not None:\n                _logger.trace('Module","            if self._last_module is not None and self._scopes[-1:] != ['session']:\n                _logger.trace('Module")
m('C04','skipboth','slash/core/scope_manager.py',"            call_all_raise_first([self._session.cleanups.pop_scope, self._session.fixture_store.pop_scope],\n                                 scope)","            self._session.cleanups.pop_scope(scope)\n            self._session.fixture_store.pop_scope(scope)")
m('C05','varorder','slash/core/variation_factory.py',"needed_ids = sorted(needed_ids, key=widest_scopes.__getitem__, reverse=True)","needed_ids = list(needed_ids)")
m('C04','lastmod','slash/core/scope_manager.py',"        self._last_module = test_module\n        self._push","        if self._last_module is None:\n            self._last_module = test_module\n        self._push")
m('C04','tstart','slash/core/function_test.py',"trigger_test_start=True, trigger_test_end=True,","trigger_test_start=True, trigger_test_end=bool(self._variation.id),")
m('C04','tend','slash/core/test.py',"_call_with_fixtures(self.after, trigger_test_end=True)","_call_with_fixtures(self.after)")
m('C04','cls','slash/core/test.py',"result = _call_with_fixtures(method, trigger_test_start=True)","result = _call_with_fixtures(method)")
# second batch
m('C01','added_by','slash/core/cleanup_manager.py',"        if self.result is None or self.result is context.result or self.result.is_global_result():\n            return False\n        return not","        if self.result is None or self.result is not context.result or self.result.is_global_result():\n            return False\n        return not")
m('C01','btc_scope','slash/core/cleanup_manager.py',"        if scope.name == 'test': # pylint","        if scope.name == 'test' and scope.cleanups: # pylint")
m('C01','popfirst','slash/core/cleanup_manager.py',"        finally:\n            self._scope_stack.pop()\n            self._scopes_by_name[scope_name].pop()","        finally:\n            self._scope_stack.pop()\n            self._scopes_by_name[scope_name].pop(0)")
m('C01','finally','slash/core/cleanup_manager.py',"        finally:\n            self._default_scope = prev","        finally:\n            self._default_scope = None")
m('C01','forbid','slash/core/cleanup_manager.py',"            self._allow_implicit_scopes = prev","            self._allow_implicit_scopes = True")
m('C01','skipsfail','slash/core/cleanup_manager.py',"in_failure = not context.result.is_success(allow_skips=True)","in_failure = context.result.has_errors_or_failures()")
m('C02','notrun','slash/core/result.py',"return not self.is_started() and not self.has_errors_or_failures()","return not self.is_started()")
m('C02','justfail','slash/core/result.py',"return self._count(Result.is_just_failure)","return self._count(Result.is_failure)")
m('C02','summary','slash/runner.py',"elif result.is_skip() and not result.is_error():","elif result.is_skip():")
m('C02','fatalfail','slash/core/result.py',"for e in\n                   itertools.chain(self._errors, self._failures))","for e in self._errors)")
m('C02','markres','slash/core/result.py',"        _ADDED_TO_RESULT.mark_exception(exc_value)\n        if isinstance(exc_value, exceptions.FAILURE","        if not isinstance(exc_value, context.session.get_skip_exception_types()):\n            _ADDED_TO_RESULT.mark_exception(exc_value)\n        if isinstance(exc_value, exceptions.FAILURE")
m('C03','sintr','slash/core/session.py',"        except exceptions.INTERRUPTION_EXCEPTIONS:\n            hooks.session_interrupt()","        except exceptions.INTERRUPTION_EXCEPTIONS if self._started else ():\n            hooks.session_interrupt()")
m('C03','avoid','slash/runner.py',"        messages.add(msg)\n\n    hooks.test_avoided","        messages.add(msg)\n\n    if context.result.is_started():\n        return False\n    hooks.test_avoided")
m('C03','fend','slash/runner.py',"        elif last_filename is not None:\n            context.session.reporter.report_file_end(last_filename)","        elif last_filename is not None and not test_iterator.has_next():\n            context.session.reporter.report_file_end(last_filename)")
m('C03','cafterend','slash/core/session.py',"                    self.cleanups.pop_scope('session-global')\n            finally:\n                try:\n                    if session_start_called:\n                        with handling_exceptions():\n                            hooks.session_end()  # pylint: disable=no-member\n","                    self.cleanups.pop_scope('session-global')\n            finally:\n                try:\n                    if session_start_called:\n                        with handling_exceptions(swallow=True):\n                            hooks.session_end()  # pylint: disable=no-member\n")
m('C05','excl_msg','slash/runner.py',"        context.result.add_skip(reason)\n        hooks.test_avoided(reason=reason)","        hooks.test_avoided(reason=reason)")
m('C05','revmro','slash/core/test.py',"            if hasattr(cls, name):\n                yield getattr(cls, name)","            if name in vars(cls):\n                yield getattr(cls, name)\n                return")
m('C07','aftr','slash/core/test.py',"            except INTERRUPTION_EXCEPTIONS:\n                interrupted = True\n                raise","            except KeyboardInterrupt:\n                interrupted = True\n                raise")
m('C07','critloop','slash/core/cleanup_manager.py',"                # the remaining critical cleanups should still take place\n                interruption = e","                # the remaining critical cleanups should still take place\n                interruption = e\n                break")
m('C07','intrsess','slash/core/result.py',"            if not interrupted_session:\n                session_result.mark_interrupted()","            if not interrupted_session and self.is_global_result():\n                session_result.mark_interrupted()")
m('C08','skipstop','slash/runner.py',"if should_stop_on_error() and not context.session.results.is_success(allow_skips=True):","if should_stop_on_error() and not context.session.results.is_success():")
m('C08','curres','slash/runner.py',"            if context.session.results.has_fatal_errors():","            if result.has_fatal_errors():")
m('C08','index','slash/runner.py',"    remaining = list(test_iterator)\n    for test in remaining:\n        with","    remaining = list(test_iterator)\n    for test in remaining:\n        ensure_test_metadata(test).test_index0 = next(context.session.test_index_counter)\n        with")
m('C08','complete','slash/runner.py',"                _logger.debug(\"Stopping (run.stop_on_error==True)\")\n                break","                _logger.debug(\"Stopping (run.stop_on_error==True)\")\n                complete = not test_iterator.has_next()\n                break")
m('C13','negrel','slash/utils/suite_files.py',"path = os.path.relpath(os.path.join(dirname, path))","path = os.path.join(os.path.relpath(dirname), path) if not path.startswith('..') else path")
m('C13','rglob','slash/utils/suite_files.py',"yield from sorted(path for path in Path(entity).rglob(\"*\") if not path.is_dir())","yield from sorted(path for path in Path(entity).glob(\"*\") if not path.is_dir())")
m('C13','andm','slash/utils/suite_files.py',"yield p, _and_matchers(suite_entry.matcher, other_filter)","yield p, other_filter or suite_entry.matcher")
m('C13','comment','slash/utils/suite_files.py',"if not path or path.startswith(\"#\"):","if not path or path.startswith(\"# \"):")
m('C13','elif','slash/utils/suite_files.py',"        if remainder.startswith('repeat:'):","        elif remainder.startswith('repeat:') and repeat == 1:")
m('C14','oldactive','slash/plugins/plugin_manager.py',"activate=replaced_active, is_internal=replaced.is_internal","activate=True, is_internal=replaced.is_internal")
m('C14','actfail','slash/plugins/plugin_manager.py',"            gossip.get_global_group().unregister_token(self._get_token(plugin_name))\n            plugin.deactivate()\n            raise","            gossip.get_global_group().unregister_token(self._get_token(plugin_name))\n            raise")
m('C14','cfgname','slash/plugins/plugin_manager.py',"        config_name = self.normalize_config_name(plugin.get_name())\n        if config_name in plugin_config:","        config_name = plugin.get_name()\n        if config_name in plugin_config:")
m('C14','typeget','slash/plugins/plugin_manager.py',"if type(plugin.plugin_instance) is plugin_class:","if isinstance(plugin.plugin_instance, plugin_class):")
m('C14','future','slash/plugins/plugin_manager.py',"        for name in self._pending_deactivation:\n            returned.pop(name, None)\n        return returned","        for name in self._pending_deactivation - self._pending_activation:\n            returned.pop(name, None)\n        return returned")
m('C15','noopneeds','slash/plugins/plugin_manager.py',"                'toggles_on': plugin.__toggles__['session'],\n                'provides': global_provides,","                'toggles_on': plugin.__toggles__['session'],\n                'provides': [],")
m('C15','mprov','slash/plugins/plugin_manager.py',"                        try_get_mark(method, 'plugin_provides', []),\n                        global_provides,","                        try_get_mark(method, 'plugin_provides', []) or global_provides,")
m('C17','pdeact','slash/plugins/plugin_manager.py',"            for name in self._active - set(previous_active):\n                self.deactivate(name)","            for name in self._active - set(previous_active):\n                self.deactivate_later(name)")
m('C21','mreq','slash/core/test.py',"test_requirements = get_requirements(type(self)) + get_requirements(self.get_test_function())","test_requirements = get_requirements(self.get_test_function()) or get_requirements(type(self))")
m('C21','auto','slash/core/runnable_test.py',"for fixture in self._fixture_store.iter_autouse_fixtures_in_namespace(self.get_fixture_namespace()) \\\n                            for","for fixture in self._fixture_store.iter_autouse_fixtures_in_namespace() \\\n                            for")
m('C21','extra','slash/core/test.py',"            for name in getattr(func, '__extrafixtures__', ()):","            for name in getattr(func, '__extrafixtures__', ())[:1]:")
m('C21','vartags','slash/core/test.py',"                     + get_tags(getattr(type(self), self._test_method_name))\n                     + self.get_variation().tags)","                     + self.get_variation().tags\n                     + get_tags(getattr(type(self), self._test_method_name)))")
m('C16','restore','slash/exception_handling.py',"        _ignored_state.ignored_exception_types = self._prev\n","        _ignored_state.ignored_exception_types = ()\n")
m('C16','passonly','slash/exception_handling.py',"        if isinstance(exc_value, self._passthrough_types):\n            return None","        if type(exc_value) in self._passthrough_types:\n            return None")
m('C16','intrswallow','slash/exception_handling.py',"        if isinstance(exc_value, skip_types) or isinstance(exc_value, exceptions.INTERRUPTION_EXCEPTIONS):\n            return None","        if isinstance(exc_value, skip_types) or (isinstance(exc_value, exceptions.INTERRUPTION_EXCEPTIONS) and not self._swallow_skips):\n            return None")
m('C16','handledexc','slash/exception_handling.py',"        self._handled.exception = exc_info[1]\n        skip_types","        skip_types")
m('C16','forget','slash/exception_handling.py','    mark_exception(e, "handled", False)\n    mark_exception(e, "added_to_result", False)','    mark_exception(e, "handled", False)')
m('C16','noswallow','slash/exception_handling.py','if not get_exception_mark(sys.exc_info()[1], "swallow", True):','if get_exception_mark(sys.exc_info()[1], "swallow", False):')
m('C05','visited','slash/core/variation_factory.py',"                    if obj.info.id in visited:\n                        continue\n                    visited.add(obj.info.id)\n","")
m('C05','widest','slash/core/variation_factory.py',"max(fixture.info.scope, returned.get(param_id, fixture.info.scope))","returned.get(param_id, fixture.info.scope)")
m('C05','extrabind','slash/core/variation_factory.py',"            self._populate_param_name_bindings(fixture_name, fixture)\n            self._needed_fixtures.append(fixture)","            self._populate_param_name_bindings(fixture_name, fixture)\n            if fixture not in self._autouse_fixtures and not fixture.parametrization_ids:\n                self._needed_fixtures.append(fixture)")
m('C05','nofixret','slash/core/variation_factory.py',"        if nofixtures.is_marked(func):\n            return\n","        if nofixtures.is_marked(func):\n            self._needed_fixtures = []\n            return\n")
m('C05','exclfix','slash/core/exclusions.py',"fixture_funcs = {fixture.fixture_func for fixture in test.get_required_fixture_objects()}","fixture_funcs = {fixture.fixture_func for fixture in list(test.get_required_fixture_objects())[:1]}")
m('C05','exclbreak','slash/core/exclusions.py',"            if tuple(values) in value_sets:\n                return True\n","            return tuple(values) in value_sets\n")
m('C21','tagown','slash/core/tagging.py',"        own_tags = vars(test).get(_TAGS_NAME)\n    else:","        own_tags = getattr(test, _TAGS_NAME, None)\n    else:")
m('C21','tagconf','slash/core/tagging.py',"    if tags is not NO_TAGS and tags.get(tag_name, NOTHING) not in (tag_value, NOTHING):","    if tags is not NO_TAGS and tags.get(tag_name) not in (tag_value, None):")
m('C21','tagupd','slash/core/tagging.py',"        new_tags.update(other._tags)  # pylint","        for _k, _v in other._tags.items():\n            new_tags.setdefault(_k, _v)\n        if False: new_tags.update({})  # pylint")
m('C21','tuplereq','slash/core/requirements.py',"        if not isinstance(returned, tuple):\n            returned = (returned, self._message)","        if not isinstance(returned, tuple):\n            returned = (returned is not False, self._message)")
m('C12','exactand','slash/core/tagging.py',"                if pattern in key:\n                    return True","                if pattern in key or key in pattern:\n                    return True")
m('C19','msgcls','slash/warnings.py',"        if self.lineno and warning.lineno != self.lineno:\n            return False\n","        if self.lineno and not self.filename and warning.lineno != self.lineno:\n            return False\n")
m('C19','popiw','slash/warnings.py',"            _ignored_warnings.remove(iw)","            _ignored_warnings.pop()")
m('C19','handleronly','slash/warnings.py',"        if record.channel == _native_logger.name:\n            return False\n        return record.level == self.level","        return record.level >= self.level and record.channel != _native_logger.name")
m('C19','simplefilter','slash/warnings.py',"warnings.simplefilter('always')","warnings.simplefilter('default')")
m('C19','hookfirst','slash/warnings.py',"        if self.warning_should_be_filtered(warning):\n            return\n        self.add(warning)","        if self.warning_should_be_filtered(warning) or warning.message in [w.message for w in self.warnings[-1:]]:\n            return\n        self.add(warning)")
m('C18','failcond','slash/log.py',"        if result.is_error() or result.is_failure():\n            self._try_create_symlink(result.get_log_path()","        if result.is_failure():\n            self._try_create_symlink(result.get_log_path()")
m('C18','keepf','slash/log.py',"(result.is_global_result() and self.session.results.is_success(allow_skips=True))","result.is_global_result()")
m('C18','delskip','slash/log.py',"(not result.is_global_result() and result.is_success(allow_skips=True)) or","(not result.is_global_result() and result.is_success()) or")
m('C18','rmdirroot','slash/log.py',"if not os.listdir(dir_path) and dir_path != self._normalize_path(config.root.log.root):","if not os.listdir(dir_path):")
m('C18','handlernone','slash/log.py',"                    self._log_path_to_handler[log_path] = None\n","                    pass\n")
m('C18','unif','slash/log.py',"if config.root.log.unified_session_log and self.session_log_handler not in (None, handler):","if config.root.log.unified_session_log and self.session_log_handler is not None:")
m('C18','silenced','slash/log.py',"return record.channel in self._silenced_names","return any(record.channel.startswith(n) for n in self._silenced_names)")
m('C18','symrel','slash/log.py',"            if os.path.exists(symlink) or os.path.islink(symlink):","            if os.path.exists(symlink):")
m('C18','extra1','slash/log.py',"            for extra_handler in _extra_handlers:","            for extra_handler in _extra_handlers[:1]:")
m('C18','closed','slash/log.py',"                result = context.result\n                ensure_containing","                result = self.session.results.current\n                ensure_containing")
m('C09','statfail','slash/resuming.py',"elif result.has_errors_or_failures() or result.is_interrupted():","elif result.has_errors_or_failures():")
m('C09','skiporder','slash/resuming.py',"        elif not result.is_started():\n            test_to_resume.status = ResumeTestStatus.PLANNED\n        else:\n            test_to_resume.status = ResumeTestStatus.FAILED","        else:\n            test_to_resume.status = ResumeTestStatus.PLANNED")
m('C09','desc','slash/resuming.py',".order_by(SessionMetadata.created_at.desc()).first()",".order_by(SessionMetadata.session_id.desc()).first()")
m('C09','orphan','slash/resuming.py',"            conn.query(ResumeState).filter(ResumeState.session_id.in_(old_sessions_ids)).delete(synchronize_session=False)","            conn.query(ResumeState).filter(ResumeState.session_id == old_sessions_ids[0]).delete(synchronize_session=False)")
m('C09','noresult','slash/resuming.py',"for test in collected_tests if session_result.safe_get_result(test) is None]","for test in collected_tests[:1] if session_result.safe_get_result(test) is None]")
m('C09','isres','slash/loader.py',"                test.__slash__.is_resumed = True\n","                test.__slash__.is_resumed = bool(resume_state.variation)\n")
m('C09','addr','slash/loader.py',"if resume_state.address_in_file == test.__slash__.address_in_file:","if self._address_in_file_matches(resume_state.address_in_file, test):")
m('C13','clone','slash/loader.py',"returned.append(test.clone() if i else test)","returned.append(test.clone() if i < repeat_each * marked_repeats - 1 else test)")
m('C13','filtmatch','slash/loader.py',"            matched = True\n            if self._is_excluded(test):\n                continue\n            yield test","            if self._is_excluded(test):\n                continue\n            matched = True\n            yield test")
m('C13','sort','slash/loader.py',"test.__slash__.repeat_all_index, test.__slash__.get_sort_key()","test.__slash__.get_sort_key(), test.__slash__.repeat_all_index")
m('C13','matchall','slash/loader.py',"return not all(m.matches(test.__slash__) for m in matchers)","return not any(m.matches(test.__slash__) for m in matchers)")
m('C13','walkdirs','slash/loader.py',"dirnames[:] = sorted(dirname for dirname in dirnames if not dirname.startswith('.'))","dirnames[:] = [dirname for dirname in sorted(dirnames, key=str.lower) if not dirname.startswith('.')]")
m('C13','paren','slash/loader.py',"if address_in_file == test_address_in_file[:test_address_in_file.index('(')]:","if address_in_file == test_address_in_file[:test_address_in_file.index('(')].split('.')[0]:")
m('C13','repidx','slash/loader.py',"clone.__slash__.repeat_all_index = i + 1","clone.__slash__.repeat_all_index = 1")
