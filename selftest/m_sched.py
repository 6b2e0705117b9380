T = "lib/task.cc"


def s(name, *edits, **k):
    return dict(name="s-" + name, props=["C21"], edits=list(edits), **k)


RUN = """	void
	TaskState::run()
	{
		unique_lock<mutex> lock(m_mutex);
		m_idle = false;
		if (m_run_now) {
			return;
		}
		m_run_now = true;
		if (m_is_running) {
			m_run_again = true;
		} else {
			lock.unlock();
			TaskMasterState::push_back(shared_from_this());
		}
	}
"""
TAKE = """			if (!m_local_queue.empty()) {
				m_current_task = *m_local_queue.begin();
				m_local_queue.pop_front();
			} else if (!master_copy->m_queue.empty()) {
				m_current_task = *master_copy->m_queue.begin();
				master_copy->m_queue.pop_front();
			} else if (!master_copy->m_idle_queue.empty()) {
				m_current_task = *master_copy->m_idle_queue.begin();
				master_copy->m_idle_queue.pop_front();
			} else {
				master_copy->m_condvar.wait(lock);
				continue;
			}
"""
AGAIN = """		bool run_idle = false;
		if (m_run_again) {
			m_run_again = false;
			if (m_idle) {
				// All the way back to the end of the line
				run_idle = true;
			} else {
				// Insert after any dependents waiting for this Task
				m_post_exec_queue.push_back(shared_from_this());
			}
		}
"""
EX = """		if (m_is_running) {
			m_run_again = true;
			return;
		} else {
			m_run_now = false;
			m_is_running = true;
		}
"""

CASES = [
    s("exec-norun", (T, EX, EX.replace("			m_run_again = true;\n			return;\n", "			return;\n"))),
    s("exec-twice", (T, EX, "		m_run_now = false;\n		m_is_running = true;\n")),
    s("exec-keepnow", (T, EX, EX.replace("			m_run_now = false;\n", ""))),
    s("exec-unset", (T, "		swap(this_task, tl_current_task);\n		m_is_running = false;\n", "		swap(this_task, tl_current_task);\n")),
    s("exec-clearnow", (T, "		swap(this_task, tl_current_task);\n		m_is_running = false;\n", "		swap(this_task, tl_current_task);\n		m_is_running = false;\n		m_run_now = false;\n")),
    s("exec-noclear", (T, "		if (m_run_again) {\n			m_run_again = false;\n", "		if (m_run_again) {\n")),
    s("exec-noidle", (T, "		if (run_idle) {\n", "		if (run_idle && sort_queue) {\n")),
    s("exec-early", (T, "		TaskStatePtr this_task = shared_from_this();\n		swap(this_task, tl_current_task);\n		lock.unlock();\n", "		TaskStatePtr this_task = shared_from_this();\n		swap(this_task, tl_current_task);\n		m_run_again = false;\n		lock.unlock();\n"),
      (T, EX, EX.replace("m_is_running = true;", "m_is_running = true;\n			m_run_again = false;")), expect="quiet"),
    s("exec-drop", (T, "		lock.unlock();\n\n		// Splice task post_exec queue at front of local queue\n		TaskState::rescue_queue(post_exec_queue, sort_queue);\n", "		lock.unlock();\n\n		// Splice task post_exec queue at front of local queue\n		if (sort_queue) TaskState::rescue_queue(post_exec_queue, sort_queue);\n")),
    s("run-skip", (T, RUN, RUN.replace("		if (m_is_running) {\n			m_run_again = true;\n		} else {", "		if (!m_is_running) {"))),
    s("run-noflag", (T, RUN, RUN.replace("		m_run_now = true;\n", ""))),
    s("run-dup", (T, RUN, RUN.replace("		if (m_is_running) {\n			m_run_again = true;\n		} else {", "		m_run_again = m_is_running;\n		{"))),
    s("idle-check", (T, """		m_idle = true;
		if (m_run_now) {
			return;
		}
""", """		m_idle = true;
		if (m_run_now || m_is_running) {
			return;
		}
""")),
    s("append-both", (T, """		if (!task->m_run_now) {
			task->m_run_now = true;
			append_nolock(task);
		}
""", """		task->m_run_now = true;
		append_nolock(task);
""")),
    s("append-running", (T, """		if (!task->m_run_now) {
			task->m_run_now = true;
			append_nolock(task);
		}
""", """		if (!task->m_run_now && !task->m_is_running) {
			task->m_run_now = true;
			append_nolock(task);
		}
""")),
    s("insert-noflag", (T, """		if (!task->m_run_now) {
			task->m_run_now = true;
			// Move""", """		if (!task->m_run_now) {
			// Move""")),
    s("insert-lose", (T, "			m_post_exec_queue.push_back(task);\n			m_post_exec_queue.splice(", "			if (!task->m_post_exec_queue.empty()) m_post_exec_queue.push_back(task);\n			m_post_exec_queue.splice(")),
    s("rescue-many", (T, "			if (queue.size() == 1) {\n				TaskMasterState::push_front(queue);\n			} else {", "			if (queue.size() == 1) {\n				TaskMasterState::push_front(queue);\n			} else if (sort_queue) {"), (T, "		assert(queue.empty());\n", "")),
    s("rescue-one", (T, "				TaskQueue tq_one { rescue_task };\n				TaskMasterState::push_front(tq_one);\n", "				TaskQueue tq_one { rescue_task };\n				tq_one.clear();\n				TaskMasterState::push_front(tq_one);\n")),
    s("dtor", (T, "		TaskState::rescue_queue(m_post_exec_queue, m_sort_queue);\n		// No need", "		if (m_sort_queue) TaskState::rescue_queue(m_post_exec_queue, m_sort_queue);\n		// No need")),
    s("leave-local", (T, "		TaskState::rescue_queue(m_local_queue, false);\n", "		if (!master_copy->m_paused) TaskState::rescue_queue(m_local_queue, false);\n")),
    s("take-nopop", (T, TAKE, TAKE.replace("				m_current_task = *master_copy->m_idle_queue.begin();\n				master_copy->m_idle_queue.pop_front();\n", "				m_current_task = *master_copy->m_idle_queue.begin();\n"))),
    s("take-wrongpop", (T, TAKE, TAKE.replace("				m_current_task = *master_copy->m_queue.begin();\n				master_copy->m_queue.pop_front();\n", "				m_current_task = *master_copy->m_queue.rbegin();\n				master_copy->m_queue.pop_front();\n"))),
    s("take-back", (T, TAKE, TAKE.replace("				m_current_task = *master_copy->m_queue.begin();\n				master_copy->m_queue.pop_front();\n", "				m_current_task = master_copy->m_queue.front();\n				master_copy->m_queue.pop_back();\n"))),
    s("take-twopops", (T, TAKE, TAKE.replace("				m_current_task = *m_local_queue.begin();\n				m_local_queue.pop_front();\n", "				m_current_task = *m_local_queue.begin();\n				m_local_queue.pop_front();\n				if (m_local_queue.size() > 100) m_local_queue.pop_front();\n"))),
    s("take-idlefirst", (T, TAKE, TAKE.replace("} else if (!master_copy->m_queue.empty()) {", "} else if (!master_copy->m_queue.empty() && master_copy->m_idle_queue.size() < 2) {"))),
    s("take-pause", (T, "			// Execute task without lock\n			lock.unlock();\n", "			if (master_copy->m_paused) continue;\n			// Execute task without lock\n			lock.unlock();\n")),
    s("pause-nostart", (T, "		if (!m_paused) {\n			start_threads_nolock();\n		}\n		lock.unlock();\n", "		lock.unlock();\n")),
    s("pause-half", (T, "		if (!m_paused) {\n			start_threads_nolock();\n", "		if (!m_paused && m_threads.empty()) {\n			start_threads_nolock();\n")),
    s("start-one", (T, "		while (m_threads.size() < m_thread_max && !m_paused) {\n", "		if (m_threads.size() < m_thread_max && !m_paused) {\n"), expect="violation"),
    s("start-none", (T, "		while (m_threads.size() < m_thread_max && !m_paused) {\n", "		while (m_threads.size() < m_thread_max && !m_paused && !m_queue.empty()) {\n")),
    s("idle-nostart", (T, "		s_tms->m_idle_queue.push_back(task);\n		s_tms->m_condvar.notify_all();\n		s_tms->start_threads_nolock();\n", "		s_tms->m_idle_queue.push_back(task);\n		s_tms->m_condvar.notify_all();\n")),
    s("adjust-nostart", (T, "			m_condvar.notify_all();\n			start_threads_nolock();\n", "			m_condvar.notify_all();\n")),
    s("erase-nostart", (T, "			master_copy->start_threads_nolock();\n", "			if (!m_local_queue.empty()) master_copy->start_threads_nolock();\n")),
    s("excl-unlock", (T, "			const auto rv = make_shared<Task>(task);\n			m_owner = rv;\n", "			lock.unlock();\n			const auto rv = make_shared<Task>(task);\n			lock.lock();\n			m_owner = rv;\n")),
    s("excl-notask", (T, "		if (sp) {\n			if (task) {", "		if (sp && task) {\n			if (task) {")),
    s("excl-forget", (T, "			m_owner = rv;\n", "			if (task) m_owner = rv;\n")),
    s("excl-copy", (T, "			m_owner = rv;\n			return ExclusionLock(rv);\n", "			m_owner = rv;\n			return ExclusionLock(make_shared<Task>(task));\n")),
    s("excl-quiet", (T, "			if (task) {\n				sp->insert(task);\n			}\n", "			if (task && task.id() < sp->id()) {\n				sp->insert(task);\n			}\n")),
    # refactorings
    s("q-exec-flat", (T, EX, EX.replace("		} else {\n			m_run_now = false;\n			m_is_running = true;\n		}\n", "		}\n		m_run_now = false;\n		m_is_running = true;\n")), expect="quiet"),
    s("q-run-flat", (T, RUN, """	void
	TaskState::run()
	{
		unique_lock<mutex> lock(m_mutex);
		m_idle = false;
		const bool queued = m_run_now;
		m_run_now = true;
		if (queued) return;
		if (!m_is_running) {
			lock.unlock();
			TaskMasterState::push_back(shared_from_this());
			return;
		}
		m_run_again = true;
	}
"""), expect="quiet"),
    s("q-run-or", (T, RUN, RUN.replace("		if (m_is_running) {\n			m_run_again = true;\n		} else {", "		m_run_again |= m_is_running;\n		if (!m_is_running) {")), expect="quiet"),
    s("q-again-local", (T, AGAIN, """		const bool again = m_run_again;
		m_run_again = false;
		const bool run_idle = again && m_idle;
		if (again && !run_idle) {
			m_post_exec_queue.push_back(shared_from_this());
		}
"""), expect="quiet"),
    s("q-take-front", (T, TAKE, TAKE.replace("*m_local_queue.begin()", "m_local_queue.front()").replace("*master_copy->m_queue.begin()", "master_copy->m_queue.front()")), expect="quiet"),
    s("q-take-nested", (T, TAKE, """			TaskQueue *q = &master_copy->m_idle_queue;
			if (!m_local_queue.empty()) {
				q = &m_local_queue;
			} else if (!master_copy->m_queue.empty()) {
				q = &master_copy->m_queue;
			}
			if (q->empty()) {
				master_copy->m_condvar.wait(lock);
				continue;
			}
			m_current_task = q->front();
			q->pop_front();
"""), expect="quiet"),
    s("q-take-lambda", (T, TAKE, """			const auto take = [&](TaskQueue &q) {
				if (q.empty()) {
					return false;
				}
				m_current_task = q.front();
				q.pop_front();
				return true;
			};
			if (!take(m_local_queue) && !take(master_copy->m_queue) && !take(master_copy->m_idle_queue)) {
				master_copy->m_condvar.wait(lock);
				continue;
			}
"""), expect="quiet"),
    s("q-take-cond", (T, TAKE, """			if (m_local_queue.empty() && master_copy->m_queue.empty() && master_copy->m_idle_queue.empty()) {
				master_copy->m_condvar.wait(lock);
				continue;
			}
			auto &q = !m_local_queue.empty() ? m_local_queue : !master_copy->m_queue.empty() ? master_copy->m_queue : master_copy->m_idle_queue;
			m_current_task = q.front();
			q.pop_front();
"""), expect="quiet"),
    s("q-rescue-flip", (T, "			if (queue.size() == 1) {\n				TaskMasterState::push_front(queue);\n			} else {", "			if (queue.size() < 2) {\n				TaskMasterState::push_front(queue);\n			} else {")
      , expect="quiet"),
    s("q-start-for", (T, "		while (m_threads.size() < m_thread_max && !m_paused) {\n", "		for (;;) {\n			if (m_paused) break;\n			if (m_threads.size() >= m_thread_max) break;\n"), expect="quiet"),
    s("q-pause-always", (T, "		if (!m_paused) {\n			start_threads_nolock();\n		}\n		lock.unlock();\n", "		start_threads_nolock();\n"), expect="quiet"),
    s("q-append-early", (T, """		if (!task->m_run_now) {
			task->m_run_now = true;
			append_nolock(task);
		}
		task->m_idle = false;
""", """		task->m_idle = false;
		if (task->m_run_now) {
			return;
		}
		append_nolock(task);
		task->m_run_now = true;
"""), expect="quiet"),
    s("q-excl-early", (T, """			return ExclusionLock();
		} else {
			const auto rv = make_shared<Task>(task);
			m_owner = rv;
			return ExclusionLock(rv);
		}
""", """			return ExclusionLock();
		}
		const auto new_owner = make_shared<Task>(task);
		ExclusionLock rv(new_owner);
		m_owner = new_owner;
		return rv;
"""), expect="quiet"),
    s("q-excl-not", (T, """		if (sp) {
			if (task) {
				sp->insert(task);
			}
			return ExclusionLock();
		} else {
			const auto rv = make_shared<Task>(task);
			m_owner = rv;
			return ExclusionLock(rv);
		}
""", """		if (!sp) {
			const auto rv = make_shared<Task>(task);
			m_owner = rv;
			return ExclusionLock(rv);
		}
		if (!task) {
			return ExclusionLock();
		}
		sp->insert(task);
		return {};
"""), expect="quiet"),
]
