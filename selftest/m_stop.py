"""C25 orderly shutdown"""
CASES = []
C = "src/bees-context.cc"
B = "src/bees.cc"
R = "src/bees-roots.cc"
H = "src/bees-hash.cc"
T = "lib/task.cc"


def bug(name, *edits):
    CASES.append(dict(name=name, props=["C25"], edits=list(edits)))


def quiet(name, *edits):
    CASES.append(dict(name=name, props=["C25"], edits=list(edits), expect="quiet"))


FLAG = """	unique_lock<mutex> lock(m_stop_mutex);
	m_stop_requested = true;
	m_stop_condvar.notify_all();
	lock.unlock();

	// Wait for hash table flush to complete
"""
RW = """	if (m_roots) {
		m_roots->stop_wait();
	}
"""
HW = """	if (m_hash_table) {
		m_hash_table->stop_wait();
	}
"""
HR = """	if (m_hash_table) {
		m_hash_table->stop_request();
	} else {
		BEESLOGDEBUG("Hash table not running");
	}
"""
RR = """	if (m_roots) {
		m_roots->stop_request();
	} else {
		BEESLOGDEBUG("Crawlers not running");
	}
"""
bug("flag-first", (C, RW, ""), (C, HW, RW + HW))
bug("no-roots-wait", (C, RW, ""))
bug("no-hash-wait", (C, HW, ""))
bug("no-roots-request", (C, RR, ""))
bug("no-hash-request", (C, HR, ""))
bug("hash-instead-of-roots", (C, RW, "	if (m_hash_table) {\n		m_roots->stop_wait();\n	}\n"))
bug("roots-wait-only-with-hash", (C, RW, "	if (m_roots && m_hash_table) {\n		m_roots->stop_wait();\n	}\n"))
bug("exit-early", (C, "	m_status_thread->join();\n\n	BEESLOGNOTICE(\"bees stopped", "	m_status_thread->join();\n\n	BEESLOGNOTICE(\"bees stopped"), (C, "	// Wait for crawler writeback to finish\n", "	if (stop_timer.age() > 30) {\n		_exit(EXIT_SUCCESS);\n	}\n"))
bug("exit-slow-hash", (C, "	// Wait for hash table flush to complete\n", "	if (stop_timer.age() > 30) {\n		_exit(EXIT_SUCCESS);\n	}\n"))
bug("exit-fail", (C, "	_exit(EXIT_SUCCESS);", "	_exit(EXIT_FAILURE);"))
bug("exit-destructors", (C, "	_exit(EXIT_SUCCESS);", "	exit(EXIT_SUCCESS);"))
bug("no-exit", (C, "	_exit(EXIT_SUCCESS);", ""))
bug("unpaused", (C, "	TaskMaster::pause();\n", "	TaskMaster::pause(false);\n"))
bug("no-pause", (C, "	TaskMaster::pause();\n", ""))
bug("cancel", (C, "	TaskMaster::pause();\n", "	TaskMaster::pause();\n	TaskMaster::cancel();\n"))
bug("cancel-elsewhere", (R, "	BEESLOGDEBUG(\"BeesRoots stop requested\");\n", "	BEESLOGDEBUG(\"BeesRoots stop requested\");\n	TaskMaster::cancel();\n"))
bug("status-first", (C, "	m_stop_status = true;\n	m_stop_condvar.notify_all();\n	lock.unlock();\n	m_status_thread->join();\n", "	m_status_thread->join();\n	m_stop_status = true;\n	m_stop_condvar.notify_all();\n	lock.unlock();\n"))
bug("no-term", (B, "	DIE_IF_NON_ZERO(sigaddset(&new_sigset, SIGTERM));\n", ""))
bug("no-int", (B, "	DIE_IF_NON_ZERO(sigaddset(&new_sigset, SIGINT));\n", ""))
bug("no-usr2", (B, "	DIE_IF_NON_ZERO(sigaddset(&new_sigset, SIGUSR2));\n", ""))
bug("hup-for-term", (B, "sigaddset(&new_sigset, SIGTERM)", "sigaddset(&new_sigset, SIGHUP)"))
bug("unblock", (B, "sigprocmask(SIG_BLOCK, &new_sigset, &old_sigset)", "sigprocmask(SIG_UNBLOCK, &new_sigset, &old_sigset)"))
bug("block-empty-first", (B, "	DIE_IF_NON_ZERO(sigprocmask(SIG_BLOCK, &new_sigset, &old_sigset));\n", ""), (B, "	DIE_IF_NON_ZERO(sigaddset(&new_sigset, SIGUSR2));\n", "	DIE_IF_NON_ZERO(sigprocmask(SIG_BLOCK, &new_sigset, &old_sigset));\n	DIE_IF_NON_ZERO(sigaddset(&new_sigset, SIGUSR2));\n"))
bug("block-late", (B, "	block_signals();\n\n	// Create a context", "	// Create a context"), (B, "	// Now we just wait forever\n", "	block_signals();\n"))
bug("block-after-workers", (B, "	block_signals();\n\n	// Create a context", "	// Create a context"), (B, "	// Set root path\n", "	block_signals();\n"))
bug("usr1-ends", (B, "					TaskMaster::pause(true);\n					break;\n				case SIGUSR2:", "					TaskMaster::pause(true);\n					return;\n				case SIGUSR2:"))
bug("usr1-resumes", (B, "TaskMaster::pause(true);\n					break;", "TaskMaster::pause(false);\n					break;"))
bug("usr-swapped", (B, "				case SIGUSR1:\n", "				case SIGUSR2 + 0 * 1:\n"), (B, "				case SIGUSR2:\n					BEESLOGNOTICE(\"Received SIGUSR2", "				case SIGUSR1:\n					BEESLOGNOTICE(\"Received SIGUSR2"))
bug("usr2-falls", (B, "					TaskMaster::pause(false);\n					break;\n", "					TaskMaster::pause(false);\n"))
bug("usr1-nothing", (B, "					TaskMaster::pause(true);\n", ""))
bug("int-ignored", (B, "				case SIGINT:\n				default:", "				case SIGINT:\n					break;\n				default:"))
bug("int-falls-off", (B, "				case SIGTERM:\n				case SIGINT:\n				default:", "				default:\n					break;\n				case SIGTERM:"))
bug("second-term-blocked", (B, "sigprocmask(SIG_SETMASK, &old_sigset, nullptr)", "sigprocmask(SIG_SETMASK, &new_sigset, nullptr)"))
bug("second-term-old-bug", (B, "sigprocmask(SIG_SETMASK, &old_sigset, nullptr)", "sigprocmask(SIG_BLOCK, &old_sigset, &new_sigset)"))
bug("no-stop", (B, "	bc->stop();\n", ""))
bug("stop-unless-paused", (B, "	bc->stop();\n", "	if (TaskMaster::get_thread_count()) {\n		bc->stop();\n	}\n"))
bug("no-wait", (B, "	wait_for_signals();\n\n", ""))
bug("roots-flag-unset", (R, "	unique_lock<mutex> lock(m_stop_mutex);\n	m_stop_requested = true;\n", "	unique_lock<mutex> lock(m_stop_mutex);\n	if (!m_crawl_dirty) {\n		return;\n	}\n	m_stop_requested = true;\n"))
bug("hash-flag-false", (H, "	m_stop_requested = true;\n", "	m_stop_requested = false;\n"))
bug("roots-no-writeback-join", (R, "	m_writeback_thread.join();\n", ""))
bug("roots-no-crawl-join", (R, "	m_crawl_thread.join();\n", ""))
bug("hash-no-writeback-join", (H, "	m_writeback_thread.join();\n", ""))
bug("hash-join-if", (H, "	m_prefetch_thread.join();\n", "	if (m_prefetch_running) {\n		m_prefetch_thread.join();\n	}\n"))
bug("join-twice-same", (H, "	m_writeback_thread.join();\n", "	m_prefetch_thread.join();\n"))
bug("join-detach", ("src/bees-thread.cc", "		Timer thread_time;\n		m_thread_ptr->join();\n		BEESLOGDEBUG(\"Waited for \" << m_name << \", \" << thread_time << \" sec\");\n	} else if (!m_name.empty()) {\n		BEESLOGDEBUG(\"BeesThread \"", "		Timer thread_time;\n		m_thread_ptr->detach();\n		BEESLOGDEBUG(\"Waited for \" << m_name << \", \" << thread_time << \" sec\");\n	} else if (!m_name.empty()) {\n		BEESLOGDEBUG(\"BeesThread \""))
bug("join-unnamed", ("src/bees-thread.cc", "	BEESLOGDEBUG(\"BeesThread::join \" << m_name);\n", "	BEESLOGDEBUG(\"BeesThread::join \" << m_name);\n	if (m_timer.age() < 1) {\n		return;\n	}\n"))
bug("no-final-save", (R, """			catch_all([&]() {
				BEESNOTE("flushing crawler state");
				state_save();
			});
			return;""", "			return;"))
bug("final-save-when-dirty-late", (R, """	while (true) {
		BEESNOTE("idle, " """, """	while (!m_stop_requested) {
		BEESNOTE("idle, " """))
bug("no-final-flush", (H, "	flush_dirty_extents(false);\n", ""))
bug("final-flush-slow", (H, "	flush_dirty_extents(false);\n", "	flush_dirty_extents(true);\n"))
bug("hash-early-return", (H, "		if (m_stop_requested) {\n			break;\n		}\n		if (m_dirty) {", "		if (m_stop_requested) {\n			return;\n		}\n		if (m_dirty) {"))
bug("crawl-never-leaves", (R, "	while (!m_stop_requested) {\n		BEESTRACE(\"Measure current transid\");", "	while (true) {\n		BEESTRACE(\"Measure current transid\");"), (R, "			BEESLOGDEBUG(\"Stop requested in crawl thread\");\n			break;", "			BEESLOGDEBUG(\"Stop requested in crawl thread\");"))
bug("crawl-blind", (R, """		if (m_stop_requested) {
			BEESLOGDEBUG("Stop requested in crawl thread");
			break;
		}
""", "		nanosleep(0.1);\n"))
bug("status-goes-on", (C, "		if (m_stop_status) {\n			return;\n		}\n", "		if (m_stop_status) {\n			BEESLOGDEBUG(\"stopping\");\n		}\n"), (C, "	while (!m_stop_status) {", "	while (true) {"))
bug("worker-unpaused", (T, "		while (!master_copy->m_paused) {\n", "		while (!master_copy->m_paused || !m_local_queue.empty()) {\n"))
bug("worker-never-pauses", (T, "		while (!master_copy->m_paused) {\n", "		while (!master_copy->m_cancelled) {\n"))
bug("pause-ignored", (T, "		m_paused = paused;\n", "		m_paused = true;\n"))
bug("pause-not-passed", (T, "		s_tms->pause(paused);\n", "		s_tms->pause();\n"))
bug("flag-elsewhere", (C, "BeesContext::dump_status()\n{\n", "BeesContext::dump_status()\n{\n	if (getenv(\"BEES_STOP\")) {\n		unique_lock<mutex> lock(m_stop_mutex);\n		m_stop_requested = true;\n		m_stop_condvar.notify_all();\n	}\n"))

# ---- behaviour kept
quiet("helper-flush", (C, RW, "	if (m_roots) {\n		const auto r = m_roots;\n		r->stop_wait();\n	}\n"))
quiet("request-hash-first", (C, RR, ""), (C, HR, HR + RR))
quiet("exit-status-var", (C, "	_exit(EXIT_SUCCESS);", "	const int status = EXIT_SUCCESS;\n	_exit(status);"))
quiet("null-early", (C, RW, "	if (!m_roots) {\n		BEESLOGDEBUG(\"no roots\");\n	} else {\n		m_roots->stop_wait();\n	}\n"))
quiet("null-compare", (C, RW, "	if (m_roots != nullptr) {\n		m_roots->stop_wait();\n	}\n"))
quiet("flag-guard", (C, FLAG, """	unique_lock<mutex> lock(m_stop_mutex, defer_lock);
	{
		lock_guard<mutex> lg(m_stop_mutex);
		m_stop_requested = true;
		m_stop_condvar.notify_all();
	}

	// Wait for hash table flush to complete
"""))
quiet("unblock-set", (B, "sigprocmask(SIG_SETMASK, &old_sigset, nullptr)", "sigprocmask(SIG_UNBLOCK, &new_sigset, nullptr)"))
quiet("pthread-sigmask", (B, "sigprocmask(SIG_SETMASK, &old_sigset, nullptr)", "pthread_sigmask(SIG_SETMASK, &old_sigset, nullptr)"), (B, "sigprocmask(SIG_BLOCK, &new_sigset, &old_sigset)", "pthread_sigmask(SIG_BLOCK, &new_sigset, &old_sigset)"))
quiet("if-chain", (B, """			switch (info.si_signo) {
				case SIGUSR1:
					BEESLOGNOTICE("Received SIGUSR1 - pausing workers");
					TaskMaster::pause(true);
					break;
				case SIGUSR2:
					BEESLOGNOTICE("Received SIGUSR2 - unpausing workers");
					TaskMaster::pause(false);
					break;
				case SIGTERM:
				case SIGINT:
				default:
					DIE_IF_NON_ZERO(sigprocmask(SIG_SETMASK, &old_sigset, nullptr));
					BEESLOGDEBUG("Signal catcher exiting");
					return;
			}
""", """			if (rv == SIGUSR1) {
				TaskMaster::pause(true);
			} else if (rv == SIGUSR2) {
				TaskMaster::pause(false);
			} else {
				DIE_IF_NON_ZERO(sigprocmask(SIG_SETMASK, &old_sigset, nullptr));
				return;
			}
"""))
quiet("pause-expr", (B, """				case SIGUSR1:
					BEESLOGNOTICE("Received SIGUSR1 - pausing workers");
					TaskMaster::pause(true);
					break;
""", """				case SIGUSR1:
					BEESLOGNOTICE("Received SIGUSR1 - pausing workers");
					TaskMaster::pause();
					continue;
"""))
quiet("wait-inlined", (B, "		const int rv = sigwaitinfo(&new_sigset, &info);\n		if (rv == -1) {", "		const int rv = sigwaitinfo(&new_sigset, &info);\n		const bool failed = rv < 0;\n		if (failed) {"))
quiet("sets-loop", (B, """	DIE_IF_NON_ZERO(sigaddset(&new_sigset, SIGTERM));
	DIE_IF_NON_ZERO(sigaddset(&new_sigset, SIGINT));
""", """	DIE_IF_NON_ZERO(sigaddset(&new_sigset, SIGINT));
	DIE_IF_NON_ZERO(sigaddset(&new_sigset, SIGTERM));
"""))
quiet("writeback-rewritten", (R, """	while (true) {
		BEESNOTE("idle, " << (m_crawl_clean != m_crawl_dirty ? "dirty" : "clean"));

		catch_all([&]() {
			BEESNOTE("saving crawler state");
			state_save();
		});

		unique_lock<mutex> lock(m_stop_mutex);
		if (m_stop_requested) {
			BEESLOGDEBUG("Stop requested in writeback thread");
			catch_all([&]() {
				BEESNOTE("flushing crawler state");
				state_save();
			});
			return;
		}
		m_stop_condvar.wait_for(lock, chrono::duration<double>(BEES_WRITEBACK_INTERVAL));
	}
""", """	bool stopping = false;
	while (!stopping) {
		{
			unique_lock<mutex> lock(m_stop_mutex);
			if (!m_stop_requested) {
				m_stop_condvar.wait_for(lock, chrono::duration<double>(BEES_WRITEBACK_INTERVAL));
			}
			stopping = m_stop_requested;
		}
		catch_all([&]() {
			BEESNOTE("saving crawler state");
			state_save();
		});
	}
"""))
quiet("writeback-exit-loop", (R, """			catch_all([&]() {
				BEESNOTE("flushing crawler state");
				state_save();
			});
			return;
		}
		m_stop_condvar.wait_for(lock, chrono::duration<double>(BEES_WRITEBACK_INTERVAL));
	}
""", """			break;
		}
		m_stop_condvar.wait_for(lock, chrono::duration<double>(BEES_WRITEBACK_INTERVAL));
	}
	catch_all([&]() {
		BEESNOTE("flushing crawler state");
		state_save();
	});
"""))
quiet("join-early-return", ("src/bees-thread.cc", """	if (m_thread_ptr->joinable()) {
		BEESLOGDEBUG("Joining thread " << m_name);
""", """	const bool can_join = m_thread_ptr->joinable();
	if (can_join) {
		BEESLOGDEBUG("Joining thread " << m_name);
"""))
quiet("stop-wait-helper", (H, """	m_writeback_thread.join();

	BEESLOGDEBUG("BeesHashTable stopped");
""", """	const auto wait_for = [](BeesThread &t) { t.join(); };
	wait_for(m_writeback_thread);

	BEESLOGDEBUG("BeesHashTable stopped");
"""))
quiet("worker-loop", (T, "		while (!master_copy->m_paused) {\n			if (master_copy->m_thread_max", "		while (true) {\n			if (master_copy->m_paused) {\n				break;\n			}\n			if (master_copy->m_thread_max"))
quiet("pause-plain", (T, """		m_paused = paused;
		m_condvar.notify_all();
		if (!m_paused) {""", """		m_paused = paused;
		m_condvar.notify_all();
		if (!paused) {"""))
quiet("request-guard", (R, "	unique_lock<mutex> lock(m_stop_mutex);\n	m_stop_requested = true;\n	m_stop_condvar.notify_all();\n}", "	{\n		lock_guard<mutex> lock(m_stop_mutex);\n		m_stop_requested = true;\n	}\n	m_stop_condvar.notify_all();\n}"))
quiet("stop-split", (C, """	// Skip all destructors, do not pass GO, do not collect atexit() functions
	_exit(EXIT_SUCCESS);
""", """	// Skip all destructors, do not pass GO, do not collect atexit() functions
	const auto leave = []() { _exit(EXIT_SUCCESS); };
	leave();
"""))
quiet("main-rethink", (B, "	wait_for_signals();\n\n	// Shut it down\n	bc->stop();\n\n	// That is all.\n	return EXIT_SUCCESS;", "	wait_for_signals();\n\n	auto &ctx = *bc;\n	ctx.stop();\n	return EXIT_SUCCESS;"))
