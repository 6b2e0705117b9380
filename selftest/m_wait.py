T = "lib/task.cc"
K = "include/crucible/lockset.h"
M = "lib/multilock.cc"
H = "src/bees-hash.cc"
R = "src/bees-roots.cc"
C = "src/bees-context.cc"
V = "lib/time.cc"


def w(name, *edits, **k):
    return dict(name="w-" + name, props=["C19"], edits=list(edits), **k)


CASES = [
    w("back", (T, "		s_tms->m_queue.push_back(task);\n		s_tms->m_condvar.notify_all();\n", "		s_tms->m_queue.push_back(task);\n")),
    w("idle", (T, "		s_tms->m_idle_queue.push_back(task);\n		s_tms->m_condvar.notify_all();\n", "		s_tms->m_idle_queue.push_back(task);\n")),
    w("front", (T, "queue);\n		s_tms->m_condvar.notify_all();\n", "queue);\n")),
    w("front1", (T, "queue);\n		s_tms->m_condvar.notify_all();\n", "queue);\n		s_tms->m_condvar.notify_one();\n")),
    w("front-cond", (T, "queue);\n		s_tms->m_condvar.notify_all();\n", "queue);\n		if (s_tms->m_queue.size() == 1) s_tms->m_condvar.notify_all();\n")),
    w("pause", (T, "		m_paused = paused;\n		m_condvar.notify_all();\n", "		m_paused = paused;\n")),
    w("pause-cond", (T, "		m_paused = paused;\n		m_condvar.notify_all();\n", "		m_paused = paused;\n		if (!m_paused) m_condvar.notify_all();\n")),
    w("threads", (T, "			m_condvar.notify_all();\n			start_threads_nolock();", "			start_threads_nolock();")),
    w("threads-gt", (T, "if (new_thread_max != old_thread_max) {", "if (new_thread_max > old_thread_max) {")),
    w("exit", (T, "		master_copy->m_threads.erase(shared_from_this());\n		master_copy->m_condvar.notify_all();", "		master_copy->m_threads.erase(shared_from_this());")),
    w("consumer-idle", (T, "} else if (!master_copy->m_idle_queue.empty()) {\n				m_current_task = *master_copy->m_idle_queue.begin();\n				master_copy->m_idle_queue.pop_front();\n			} else {\n				master_copy->m_condvar.wait(lock);\n", "} else {\n				master_copy->m_condvar.wait(lock);\n				if (master_copy->m_queue.empty() && !master_copy->m_idle_queue.empty()) { m_local_queue.splice(m_local_queue.begin(), master_copy->m_idle_queue); }\n")),
    w("lockset", (K, "		m_condvar.notify_all();\n", "")),
    w("lockset-one", (K, "		m_condvar.notify_all();\n", "		m_condvar.notify_one();\n")),
    w("lockset-if", (K, "		while (full() || locked(name)) {\n			m_condvar", "		if (full() || locked(name)) {\n			m_condvar")),
    w("lockset-throw", (K, "		m_condvar.notify_all();\n		THROW_CHECK1(invalid_argument, erase_count, erase_count == 1);\n", "		if (full()) m_condvar.notify_all();\n		THROW_CHECK1(invalid_argument, erase_count, erase_count == 1);\n")),
    w("multi", (M, "			m_cv.notify_all();\n", "")),
    w("multi-one", (M, "counter == 0", "counter == 1")),
    w("multi-if", (M, "		while (!is", "		if (!is")),
    w("multi-unlocked", (M, "		unique_lock<mutex> lock(m_mutex);\n		m_counters.insert(make_pair(type, size_t(0)));\n		while (!is_lock_available(type)) {\n			m_cv.wait(lock);\n		}", "		unique_lock<mutex> lock(m_mutex);\n		m_counters.insert(make_pair(type, size_t(0)));\n		bool ok = is_lock_available(type);\n		while (!ok) {\n			lock.unlock();\n			ok = is_lock_available(type);\n			lock.lock();\n			if (!ok) m_cv.wait(lock);\n		}")),
    w("dirty", (H, "	m_dirty = true;\n	m_dirty_condvar.notify_one();\n", "	m_dirty = true;\n")),
    w("dirty-unlocked", (H, "	unique_lock<mutex> dirty_lock(m_dirty_mutex);\n	m_dirty = true;\n", "	m_dirty = true;\n")),
    w("dirty-stop", (H, "		if (m_stop_requested) {\n			break;\n		}\n		if (m_dirty)", "		if (m_dirty)")),
    w("dirty-set", (H, "		if (m_dirty) {\n			m_dirty = false;\n		} else {\n			m_dirty_condvar.wait(lock);\n		}", "		m_dirty = false;\n		m_dirty_condvar.wait(lock);")),
    w("stop-dirty", (H, "	m_dirty_condvar.notify_all();\n	dirty", "	dirty")),
    w("stop-hash", (H, "	m_stop_condvar.notify_all();\n	lock", "	lock")),
    w("flush", (H, "				if (!m_stop_requested) {\n					m_stop_condvar.wait_for(lock, sleep_time);\n				}", "				m_stop_condvar.wait_for(lock, sleep_time);")),
    w("roots-stop", (R, "	m_stop_requested = true;\n	m_stop_condvar.notify_all();\n", "	m_stop_requested = true;\n")),
    w("roots-stop-early", (R, "	m_stop_requested = true;\n	m_stop_condvar.notify_all();\n", "	m_stop_condvar.notify_all();\n	lock.unlock();\n	m_stop_requested = true;\n")),
    w("wb-check", (R, "		unique_lock<mutex> lock(m_stop_mutex);\n		if (m_stop_requested) {\n			BEESLOGDEBUG(\"Stop requested in writeback", "		const bool stop = m_stop_requested;\n		unique_lock<mutex> lock(m_stop_mutex);\n		if (stop) {\n			BEESLOGDEBUG(\"Stop requested in writeback")),
    w("ctx-stop", (C, "	m_stop_requested = true;\n	m_stop_condvar.notify_all();\n", "	m_stop_requested = true;\n")),
    w("ctx-status", (C, "	m_stop_status = true;\n	m_stop_condvar.notify_all();\n", "	m_stop_status = true;\n")),
    w("rate", (V, "			m_condvar.notify_all();\n", "")),
    w("rate-cond", (V, "if (delta > 0) {", "if (increment > 1) {")),
    # behaviour kept
    w("q-pred", (M, "		while (!is_lock_available(type)) {\n			m_cv.wait(lock);\n		}", "		m_cv.wait(lock, [&]() { return is_lock_available(type); });"), (H, "				if (!m_stop_requested) {\n					m_stop_condvar.wait_for(lock, sleep_time);\n				}", "				m_stop_condvar.wait_for(lock, sleep_time, [&]() -> bool { return m_stop_requested; });"), expect="quiet"),
    w("q-late", (R, "	m_stop_requested = true;\n	m_stop_condvar.notify_all();\n", "	m_stop_requested = true;\n	lock.unlock();\n	m_stop_condvar.notify_all();\n"), (T, "		m_paused = paused;\n		m_condvar.notify_all();\n		if (!m_paused) {\n			start_threads_nolock();\n		}\n", "		m_paused = paused;\n		if (!m_paused) {\n			start_threads_nolock();\n		}\n		m_condvar.notify_all();\n"), (M, "		if (counter == 0) {\n			m_cv.notify_all();\n		}", "		m_cv.notify_all();"), expect="quiet"),
    w("q-for", (K, "		while (full() || locked(name)) {\n			m_condvar.wait(lock);\n		}", "		for (;;) {\n			if (!full() && !locked(name)) break;\n			m_condvar.wait(lock);\n		}"), (R, "		unique_lock<mutex> lock(m_stop_mutex);\n		if (m_stop_requested) {\n			BEESLOGDEBUG(\"Stop requested in writeback", "		unique_lock<mutex> lock(m_stop_mutex);\n		const bool stop = m_stop_requested;\n		if (stop) {\n			BEESLOGDEBUG(\"Stop requested in writeback"), (T, "if (new_thread_max != old_thread_max) {", "if (old_thread_max < new_thread_max || new_thread_max < old_thread_max) {"), expect="quiet"),
    w("q-early", (M, "		if (counter == 0) {\n			m_cv.notify_all();\n		}", "		if (counter != 0) {\n			return;\n		}\n		m_cv.notify_all();"), (T, "		if (new_thread_max != old_thread_max) {\n			m_condvar", "		if (new_thread_max == old_thread_max) {\n			return;\n		}\n		{\n			m_condvar"), (K, "		auto erase_count = m_set.erase(name);\n		m_condvar.notify_all();\n		THROW_CHECK1(invalid_argument, erase_count, erase_count == 1);", "		auto erase_count = m_set.erase(name);\n		if (erase_count) m_condvar.notify_all();\n		THROW_CHECK1(invalid_argument, erase_count, erase_count == 1);"), expect="quiet"),
]
