B = "src/bees.cc"
H = "src/bees-hash.cc"
R = "src/bees-roots.cc"
C = "src/bees-context.cc"
T = "lib/task.cc"
TR = "src/bees-trace.cc"
BV = "lib/bytevector.cc"
ML = "lib/multilock.cc"
L = "	unique_lock<mutex> lock(m_mutex);\n"
G = "	lock_guard<mutex> lock(m_mutex);\n"
CASES = [
 dict(name="stat-add", props=["C17"], edits=[(B, L + "	if (!m_stats_map.count(idx)) {", "	if (!m_stats_map.count(idx)) {")]),
 dict(name="stat-late", props=["C17"], edits=[(B, L + "	auto rv = m_stats_map.at(idx);\n", "	auto rv = m_stats_map.at(idx);\n" + L)]),
 dict(name="stat-other", props=["C17"], edits=[(B, "	unique_lock<mutex> that_lock(that.m_mutex);\n	BeesStats that_copy;", "	unique_lock<mutex> that_lock(m_mutex);\n	BeesStats that_copy;")]),
 dict(name="readahead-set", props=["C17"], edits=[(B, "	unique_lock<mutex> lock(s_recent_mutex);\n	if (s_recent_timer", "	if (s_recent_timer")]),
 dict(name="blacklist-read", props=["C17"], edits=[(C, "	unique_lock<mutex> lock(m_blacklist_mutex);\n	return m_blacklist.find", "	return m_blacklist.find")]),
 dict(name="progress-str", props=["C17"], edits=[(C, "	unique_lock<mutex> lock(m_progress_mtx);\n	m_progress_str = str;", "	m_progress_str = str;")]),
 dict(name="tmpfile-iter", props=["C17"], edits=[(R, "	m_tmpfiles.erase(found);\n", "	lock.unlock();\n	m_tmpfiles.erase(found);\n")]),
 dict(name="crawl-dirty", props=["C17"], edits=[(R, L + "	++m_crawl_dirty;", "	++m_crawl_dirty;")]),
 dict(name="crawl-map-unlock", props=["C17"], edits=[(R, "	if (m_root_crawl_map.count(bcs.m_root)) {\n		m_root_crawl_map.erase", "	lock.unlock();\n	if (m_root_crawl_map.count(bcs.m_root)) {\n		m_root_crawl_map.erase")]),
 dict(name="found-after", props=["C17"], edits=[(R, "	found->second->deferred(false);\n	return found->second;\n", "	lock.unlock();\n	found->second->deferred(false);\n	return found->second;\n")]),
 dict(name="peek-nolock", props=["C17"], edits=[(R, L + "	fetch_extents_harder();\n	return bti_to_bfr(m_next_extent_data);", "	fetch_extents_harder();\n	return bti_to_bfr(m_next_extent_data);")]),
 dict(name="pop-late", props=["C17"], edits=[(R, L + "	fetch_extents_harder();\n	BtrfsTreeItem rv;\n", "	fetch_extents_harder();\n" + L + "	BtrfsTreeItem rv;\n")]),
 dict(name="ext-scope", props=["C17"], edits=[(R, "		" + L[1:] + "		for (const auto &i : s_magic_crawl_map) {\n			const auto subvol = i.first;\n			const auto found = m_size_tiers.find", "		for (const auto &i : s_magic_crawl_map) {\n			const auto subvol = i.first;\n			const auto found = m_size_tiers.find")]),
 dict(name="dirty-lost", props=["C17"], edits=[(H, "		unique_lock<mutex> lock(m_dirty_mutex);\n		if (m_stop_requested) {", "		unique_lock<mutex> lock(m_stop_mutex);\n		if (m_stop_requested) {")]),
 dict(name="q-dtor-only", props=["C17"], expect="quiet", edits=[(T, "		unique_lock<mutex> lock(m_mutex);\n		swap(tasks_local, m_tasks);\n		lock.unlock();", "		swap(tasks_local, m_tasks);")]),
 dict(name="barrier-insert", props=["C17"], edits=[(T, "		unique_lock<mutex> lock(m_mutex);\n		m_tasks.insert(t);", "		m_tasks.insert(t);")]),
 dict(name="excl", props=["C17"], edits=[(T, "			const auto rv = make_shared<Task>(task);\n			m_owner = rv;", "			lock.unlock();\n			const auto rv = make_shared<Task>(task);\n			m_owner = rv;")]),
 dict(name="exec-unlocked", props=["C17"], edits=[(T, "		lock.lock();\n		swap(this_task, tl_current_task);", "		swap(this_task, tl_current_task);")]),
 dict(name="multi-ref", props=["C17"], edits=[(ML, "		--counter;\n		if (counter == 0) {", "		lock.unlock();\n		--counter;\n		if (counter == 0) {")]),
 dict(name="bv-at", props=["C17"], edits=[(BV, "		unique_lock<mutex> lock(m_mutex);\n		THROW_CHECK0(out_of_range, m_ptr);\n		THROW_CHECK2(out_of_range, size, m_size, size < m_size);", "		THROW_CHECK0(out_of_range, m_ptr);\n		THROW_CHECK2(out_of_range, size, m_size, size < m_size);")]),
 dict(name="progress-get", props=["C17"], edits=[("include/crucible/progress.h", "		unique_lock<mutex> lock(m_state->m_mutex);\n		return m_state->m_end;", "		return m_state->m_end;")]),
 dict(name="q-guard", props=["C17"], expect="quiet", edits=[(B, L + "	auto rv = m_stats_map.at(idx);\n	return rv;", G + "	return m_stats_map.at(idx);"), (C, "	unique_lock<mutex> lock(m_progress_mtx);\n	m_progress_str = str;", "	const lock_guard<mutex> guard(m_progress_mtx);\n	m_progress_str = str;")]),
 dict(name="q-scope", props=["C17"], expect="quiet", edits=[(R, L + "	++m_crawl_dirty;", "	{\n		scoped_lock<mutex> guard(m_mutex);\n		++m_crawl_dirty;\n	}"), (R, "	auto found = m_tmpfiles.find(fid);\n	THROW_CHECK1(runtime_error, fd, found != m_tmpfiles.end());\n	m_tmpfiles.erase(found);\n", "	const auto gone = m_tmpfiles.erase(fid);\n	lock.unlock();\n	THROW_CHECK1(runtime_error, fd, gone == 1);\n")]),
 dict(name="q-alias", props=["C17"], expect="quiet", edits=[(R, L + "	if (!m_root_crawl_map.count(new_bcs.m_root)) {\n		auto new_bcp", L + "	auto &crawls = m_root_crawl_map;\n	if (!crawls.count(new_bcs.m_root)) {\n		auto new_bcp"), (R, "		m_root_crawl_map.insert(new_pair);\n		++m_crawl_dirty;", "		crawls.insert(new_pair);\n		++m_crawl_dirty;")]),
 dict(name="q-mlock", props=["C17"], expect="quiet", edits=[(C, "	unique_lock<mutex> lock(m_blacklist_mutex);\n	m_blacklist.insert(fid);", "	m_blacklist_mutex.lock();\n	m_blacklist.insert(fid);\n	m_blacklist_mutex.unlock();")]),
 dict(name="q-lambda", props=["C17"], expect="quiet", edits=[(B, L + "	if (!m_stats_map.count(idx)) {\n		m_stats_map[idx] = amount;\n	} else {\n		m_stats_map[idx] += amount;\n	}", L + "	const auto add = [&]() {\n		auto &n = m_stats_map[idx];\n		n += amount;\n	};\n	add();")]),

 dict(name="o-d12", props=["C18"], edits=[(T, "		lock.unlock();\n\n		// Splice task post_exec queue", "		// Splice task post_exec queue")]),
 dict(name="o-run-locked", props=["C18"], edits=[(T, "			m_run_again = true;\n		} else {\n			lock.unlock();\n			TaskMasterState::push_back(", "			m_run_again = true;\n		} else {\n			TaskMasterState::push_back(")]),
 dict(name="o-run-and-push", props=["C18"], edits=[(T, "			m_run_again = true;\n		} else {\n			lock.unlock();\n			TaskMasterState::push_back(", "			m_run_again = true;\n		} else {\n			TaskMasterState::push_back("), (T, "			lock.unlock();\n			task->clear();\n", "			task->clear();\n")]),
 dict(name="o-note", props=["C18"], edits=[(R, "	BEESNOTE(\"fetch_extents \" << get_state_end());", "	const auto note_roots = m_ctx->roots();\n	BEESNOTE(\"fetch_extents \" << note_roots->transid_min());")]),
 dict(name="o-pair", props=["C18"], edits=[(T, "				lock(m_lock1, m_lock2);", "				m_lock1.lock();\n				m_lock2.lock();")]),
 dict(name="o-bv", props=["C18"], edits=[(BV, "			lock(lock_this, lock_that);\n			m_ptr = that.m_ptr;", "			lock_this.lock();\n			lock_that.lock();\n			m_ptr = that.m_ptr;")]),
 dict(name="o-crawl", props=["C18"], edits=[(R, "	found->second->deferred(false);\n	return found->second;\n", "	found->second->deferred(false);\n	found->second->restart_crawl();\n	return found->second;\n")]),
 dict(name="o-self", props=["C18"], edits=[(R, "		m_root_crawl_map.erase(bcs.m_root);\n		++m_crawl_dirty;", "		m_root_crawl_map.erase(bcs.m_root);\n		crawl_state_set_dirty();")]),
 dict(name="o-self2", props=["C18"], edits=[(R, "	if (m_root_crawl_map.empty()) {\n		return 0;\n	}\n	const uint64_t max_rv", "	if (m_root_crawl_map.empty()) {\n		crawl_state_set_dirty();\n		return 0;\n	}\n	const uint64_t max_rv")]),
 dict(name="o-proc", props=["C18"], edits=[(C, "			Timer dedup_timer;\n", "			Timer dedup_timer;\n			resolve_addr(first_addr);\n")]),
 dict(name="o-hold", props=["C18"], edits=[(T, "			// Destroy hold_task without lock\n			lock.unlock();\n			hold_task.reset();\n\n			// Invariant: lock held\n			lock.lock();\n", "")]),
 dict(name="o-hold2", props=["C18"], edits=[(T, "			lock.unlock();\n			hold_task.reset();\n\n			// Invariant: lock held\n			lock.lock();\n", "			hold_task.reset();\n")]),
 dict(name="o-join", props=["C18"], edits=[(R, "	m_writeback_thread.join();\n", "	unique_lock<mutex> lock(m_stop_mutex);\n	m_writeback_thread.join();\n")]),
 dict(name="o-throttle", props=["C18"], edits=[(B, "	throttle_lock.unlock();\n	BEESNOTE(", "	BEESNOTE(")]),
 dict(name="o-rescue", props=["C18"], edits=[(T, "		lock.unlock();\n		TaskState::rescue_queue(m_local_queue, false);\n\n		// Hold lock so we can erase ourselves\n		lock.lock();\n", "		TaskState::rescue_queue(m_local_queue, false);\n")]),
 dict(name="o-barrier", props=["C18"], edits=[(T, "		swap(tasks_local, m_tasks);\n		lock.unlock();\n		for", "		swap(tasks_local, m_tasks);\n		for")], expect="quiet"),
 dict(name="o-dirty", props=["C18"], edits=[(H, "		unique_lock<mutex> lock(m_dirty_mutex);\n		if (m_stop_requested) {", "		unique_lock<mutex> lock(m_dirty_mutex);\n		flush_dirty_extents(false);\n		if (m_stop_requested) {")]),
 dict(name="o-q-scope", props=["C18"], expect="quiet", edits=[(B, "	throttle_lock.unlock();\n	BEESNOTE(", "	throttle_lock.unlock();\n	const double seconds = sleep_time;\n	BEESNOTE("), (R, "	++m_crawl_dirty;\n}\n\nvoid\nBeesRoots::crawl_state_erase", "	++m_crawl_dirty;\n	lock.unlock();\n}\n\nvoid\nBeesRoots::crawl_state_erase"), (T, "				lock(m_lock1, m_lock2);", "				std::lock(m_lock2, m_lock1);")]),
 dict(name="o-q-hold", props=["C18"], expect="quiet", edits=[(T, "			// Destroy hold_task without lock\n			lock.unlock();\n			hold_task.reset();\n", "			// Destroy hold_task without lock\n			lock.unlock();\n			TaskStatePtr gone;\n			swap(gone, hold_task);\n			gone.reset();\n")]),
]
