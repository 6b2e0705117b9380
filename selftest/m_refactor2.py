"""More edits that keep the behaviour (library and support code); every check has to stay quiet on each."""
X, R, H, V, T, B = ("src/bees-%s.cc" % x for x in ("context", "roots", "hash", "resolve", "types", "thread"))
M = "src/bees.cc"
K, ML, TM = "lib/task.cc", "lib/multilock.cc", "lib/time.cc"
I = "include/crucible/%s.h"
CASES = []


def c(name, *edits):
    CASES.append(dict(name=name, props=["ALL"], edits=list(edits), expect="quiet"))


# ---------------------------------------------------------------- task.cc
c("barrier-scope", (K, "		set<Task> tasks_local;\n		unique_lock<mutex> lock(m_mutex);\n		swap(tasks_local, m_tasks);\n		lock.unlock();\n",
  "		set<Task> tasks_local;\n		{\n			unique_lock<mutex> lock(m_mutex);\n			tasks_local.swap(m_tasks);\n		}\n"))
c("barrier-guard", (K, "		unique_lock<mutex> lock(m_mutex);\n		m_tasks.insert(t);\n", "		lock_guard<mutex> guard(m_mutex);\n		m_tasks.emplace(t);\n"))
c("barrier-iter", (K, "		for (const auto &i : tasks_local) {\n			i.run();\n		}\n", "		for (auto it = tasks_local.begin(); it != tasks_local.end(); ++it) {\n			it->run();\n		}\n"))
c("exclusion-flat", (K, """		const auto sp = m_owner.lock();
		if (sp) {
			if (task) {
				sp->insert(task);
			}
			return ExclusionLock();
		} else {
			const auto rv = make_shared<Task>(task);
			m_owner = rv;
			return ExclusionLock(rv);
		}
""", """		if (const auto owner = m_owner.lock()) {
			if (!task) {
				return ExclusionLock();
			}
			owner->insert(task);
			return ExclusionLock();
		}
		auto new_owner = make_shared<Task>(task);
		m_owner = new_owner;
		return ExclusionLock(new_owner);
"""))
c("consumer-end-scope", (K, "		// Hold lock so we can erase ourselves\n		lock.lock();\n", "		// Retake lock so we can erase ourselves\n		if (!lock.owns_lock()) {\n			lock.lock();\n		}\n"))

# ---------------------------------------------------------------- headers
c("lockset-pred", (I % "lockset", "		while (full() || locked(name)) {\n			m_condvar.wait(lock);\n		}\n", "		m_condvar.wait(lock, [&]() { return !full() && !locked(name); });\n"))
c("lockset-for", (I % "lockset", "		while (full() || locked(name)) {\n			m_condvar.wait(lock);\n		}\n", "		for (;;) {\n			const bool busy = full() || locked(name);\n			if (!busy) break;\n			m_condvar.wait(lock);\n		}\n"))
c("cache-flat", (I % "cache", """			// Do we have it cached?
		unique_lock<mutex> lock(m_mutex);
""".lstrip("\t").replace("// Do", "		// Do", 1) if False else "		// Do we have it cached?\n		unique_lock<mutex> lock(m_mutex);\n", "		// Look for it in the cache\n		unique_lock<mutex> lock(m_mutex);\n"),
  (I % "cache", "				Value v {\n					.key = k,\n					.ret = fn(args...),\n				};\n", "				auto new_ret = fn(args...);\n				Value v {\n					.key = k,\n					.ret = new_ret,\n				};\n"))
c("cache-clear-scope", (I % "cache", "		unique_lock<mutex> lock(m_mutex);\n		m_list.swap(new_list);\n		m_map.swap(new_map);\n		lock.unlock();\n", "		{\n			unique_lock<mutex> lock(m_mutex);\n			swap(m_list, new_list);\n			swap(m_map, new_map);\n		}\n"))
c("cache-erase", (I % "cache", "			auto list_item = map_item->second;\n			m_map.erase(map_item);\n			m_list.erase(list_item);\n", "			erase_item(map_item->second);\n"))
c("namedptr-dtor", (I % "namedptr", "		if (found != m_map_rep->m_map.end() && found->second.expired()) {\n			m_map_rep->m_map.erase(found);\n		}\n", "		if (found == m_map_rep->m_map.end()) {\n			return;\n		}\n		if (found->second.expired()) {\n			m_map_rep->m_map.erase(found);\n		}\n"))
c("namedptr-count", (I % "namedptr", "		const auto found = m_map_rep->m_map.find(k);\n		if (found != m_map_rep->m_map.end()) {\n			// Get the strong pointer back\n", "		auto &the_map = m_map_rep->m_map;\n		const auto found = the_map.find(k);\n		if (found != the_map.end()) {\n			// Get the strong pointer back\n"))
c("pool-back", (I % "pool", "		if (m_list_rep->m_list.empty()) {\n			// No, release cache lock and call the function\n			lock.unlock();\n", "		auto &the_list = m_list_rep->m_list;\n		const bool none = the_list.empty();\n		if (none) {\n			// No, release cache lock and call the function\n			lock.unlock();\n"))
c("progress-name", (I % "progress", "		m_state->m_begin = m_state->m_in_progress.begin()->first;\n		// If this value is past", "		const auto &first_item = *m_state->m_in_progress.begin();\n		m_state->m_begin = first_item.first;\n		// If this value is past"))
c("progress-max", (I % "progress", "		if (m_state->m_end < m_value) {\n			m_state->m_end = m_value;\n		}\n", "		m_state->m_end = max(m_state->m_end, m_value);\n"))
c("progress-dtor", (I % "progress", """		if (m_state->m_in_progress.empty()) {
			// If we made the list empty, then m_begin == m_end
			m_state->m_begin = m_state->m_end;
		} else {
			// If we deleted the first element, then m_begin = current first element
			m_state->m_begin = m_state->m_in_progress.begin()->first;
		}
""", """		const bool idle = m_state->m_in_progress.empty();
		m_state->m_begin = idle ? m_state->m_end : m_state->m_in_progress.begin()->first;
"""))

# ---------------------------------------------------------------- multilock.cc
c("multilock-pred", (ML, "		while (!is_lock_available(type)) {\n			m_cv.wait(lock);\n		}\n", "		m_cv.wait(lock, [&]() { return is_lock_available(type); });\n"))
c("multilock-find", (ML, "		for (const auto &i : m_counters) {\n			if (i.second != 0 && i.first != type) {\n				return false;\n			}\n		}\n		return true;\n",
  "		bool available = true;\n		for (const auto &i : m_counters) {\n			const bool in_use = i.second != 0;\n			if (in_use && i.first != type) {\n				available = false;\n				break;\n			}\n		}\n		return available;\n"))
c("multilock-put", (ML, "		--counter;\n		if (counter == 0) {\n			m_cv.notify_all();\n		}\n", "		if (--counter == 0) {\n			m_cv.notify_all();\n		}\n"))
c("multilock-put-all", (ML, "		--counter;\n		if (counter == 0) {\n			m_cv.notify_all();\n		}\n", "		--counter;\n		m_cv.notify_all();\n"))
c("multilock-early", (ML, "		if (s_process_instance.m_do_locking) {\n			return s_process_instance.get_lock_private(type);\n		} else {\n			return shared_ptr<MultiLocker::LockHandle>();\n		}\n",
  "		if (!s_process_instance.m_do_locking) {\n			return shared_ptr<MultiLocker::LockHandle>();\n		}\n		return s_process_instance.get_lock_private(type);\n"))
c("multilock-ref", (ML, "		const auto rv = make_shared<LockHandle>(type, *this);\n		++m_counters[type];\n		rv->set_locked(true);\n", "		const auto rv = make_shared<LockHandle>(type, *this);\n		auto &counter = m_counters[type];\n		++counter;\n		rv->set_locked(true);\n"))

# ---------------------------------------------------------------- time.cc
c("rate-sleep", (TM, "		double time_to_sleep = sleep_time(cost);\n		if (time_to_sleep > 0.0) {\n			nanosleep(time_to_sleep);\n		} else {\n			return;\n		}\n", "		const auto delay = sleep_time(cost);\n		if (delay > 0.0) nanosleep(delay);\n"))
c("rate-guard", (TM, "		unique_lock<mutex> lock(m_mutex);\n		update_tokens();\n		return m_tokens >= 0;\n", "		lock_guard<mutex> guard(m_mutex);\n		update_tokens();\n		return !(m_tokens < 0);\n"))
c("rate-wait-helper", (TM, "		unique_lock<mutex> lock(m_mutex);\n		auto saved_count = m_last_count;\n		while (saved_count <= m_last_count && m_last_count < new_count_absolute) {\n",
  "		unique_lock<mutex> lock(m_mutex);\n		for (auto saved_count = m_last_count; saved_count <= m_last_count && m_last_count < new_count_absolute; ) {\n"))
c("rate-mono", (TM, """		if (m_last_count == numeric_limits<uint64_t>::max() || new_count > m_last_count) {
			return update_unlocked(new_count);
		} else {
			return update_unlocked(m_last_count);
		}
""", """		if (m_last_count != numeric_limits<uint64_t>::max() && new_count <= m_last_count) {
			update_unlocked(m_last_count);
			return;
		}
		update_unlocked(new_count);
"""))

# ---------------------------------------------------------------- bees.cc
c("throttle-scope", (M, "	auto &this_time = s_time_map[context];\n", "	time_pair &this_time = s_time_map[string(context)];\n"),
  (M, "	if (sleep_time <= 0) {\n		return;\n	}\n", "	if (!(sleep_time > 0)) {\n		return;\n	}\n"))
c("write-helper", (M, "void\nBeesStringFile::write(string contents)\n{", """static
void
write_and_sync(const Fd &ofd, const string &contents)
{
	write_or_die(ofd, contents);
	bees_fsync(ofd);
}

void
BeesStringFile::write(string contents)
{"""), (M, """		BEESNOTE("writing " << tmpname << " in " << name_fd(m_dir_fd));
		write_or_die(ofd, contents);
		BEESNOTE("fsyncing " << tmpname << " in " << name_fd(m_dir_fd));
		bees_fsync(ofd);
""", """		BEESNOTE("writing " << tmpname << " in " << name_fd(m_dir_fd));
		write_and_sync(ofd, contents);
"""))
c("write-tmp-helper", (M, "void\nBeesStringFile::write(string contents)\n{", """static
string
tmp_name_of(const string &name)
{
	return name + ".tmp";
}

void
BeesStringFile::write(string contents)
{"""), (M, '	auto tmpname = m_name + ".tmp";\n', "	const auto tmpname = tmp_name_of(m_name);\n"))
c("write-ignore", (M, "	unlinkat(m_dir_fd, tmpname.c_str(), 0);\n", "	const int unlink_rv = unlinkat(m_dir_fd, tmpname.c_str(), 0);\n	(void)unlink_rv;\n"))
c("fsync-nest", (M, "	if (static_cast<decltype(BTRFS_SUPER_MAGIC)>(stf.f_type) != BTRFS_SUPER_MAGIC) {\n", "	const bool on_btrfs = static_cast<decltype(BTRFS_SUPER_MAGIC)>(stf.f_type) == BTRFS_SUPER_MAGIC;\n	if (!on_btrfs) {\n"))
c("fsync-early", (M, "	if (do_fsync) {\n		BEESNOTE(\"fsync btrfs \" << name_fd(fd));\n		DIE_IF_NON_ZERO(fsync(fd));\n	}\n", "	if (!do_fsync) {\n		return;\n	}\n	BEESNOTE(\"fsync btrfs \" << name_fd(fd));\n	DIE_IF_NON_ZERO(fsync(fd));\n"))
c("read-flat", (M, "	Stat st(fd);\n	THROW_CHECK1(out_of_range, st.st_size, st.st_size > 0);\n", "	const Stat st(fd);\n	const auto size = st.st_size;\n	THROW_CHECK1(out_of_range, size, size > 0);\n"),
  (M, "	return read_string(fd, st.st_size);\n", "	return read_string(fd, size);\n"))
c("resize-flags", (M, "	flags |= FS_COMPR_FL;\n	flags &= ~(FS_NOCOMP_FL | FS_NOCOW_FL);\n	if (flags != orig_flags) {\n", "	flags = (flags | FS_COMPR_FL) & ~(FS_NOCOMP_FL | FS_NOCOW_FL);\n	if (orig_flags != flags) {\n"))
c("resize-flags-helper", (M, "void\nBeesTempFile::resize(off_t offset)\n{", """static
void
fix_inode_flags(int const fd)
{
	int flags = ioctl_iflags_get(fd);
	const auto orig_flags = flags;
	flags |= FS_COMPR_FL;
	flags &= ~(FS_NOCOMP_FL | FS_NOCOW_FL);
	if (flags != orig_flags) {
		BEESTRACE("Setting FS_COMPR_FL and clearing FS_NOCOMP_FL | FS_NOCOW_FL on fd " << name_fd(fd) << " flags " << to_hex(flags));
		ioctl_iflags_set(fd, flags);
	}
}

void
BeesTempFile::resize(off_t offset)
{"""), (M, """	int flags = ioctl_iflags_get(m_fd);
	const auto orig_flags = flags;

	flags |= FS_COMPR_FL;
	flags &= ~(FS_NOCOMP_FL | FS_NOCOW_FL);
	if (flags != orig_flags) {
		BEESTRACE("Setting FS_COMPR_FL and clearing FS_NOCOMP_FL | FS_NOCOW_FL on m_fd " << name_fd(m_fd) << " flags " << to_hex(flags));
		ioctl_iflags_set(m_fd, flags);
	}
""", "	fix_inode_flags(m_fd);\n"))
c("hole-order", (M, "	auto end = m_end_offset + count;\n	BeesFileRange rv(m_fd, m_end_offset, end);\n\n	resize(end);\n", "	const auto begin = m_end_offset;\n	const auto end = begin + count;\n	resize(end);\n	BeesFileRange rv(m_fd, begin, end);\n"))
c("copy-for", (M, "	auto src_p = src.begin();\n	auto dst_p = begin;\n\n	while (dst_p < end) {\n", "	auto src_p = src.begin();\n	for (auto dst_p = begin; dst_p < end; ) {\n"))
c("copy-continue", (M, "		src_p += len;\n		dst_p += len;\n	}\n	BEESCOUNTADD(tmp_copy_ms", "		dst_p += len;\n		src_p += len;\n	}\n	BEESCOUNTADD(tmp_copy_ms"),
  (M, "		if (bbd.is_data_zero()) {\n			BEESCOUNT(tmp_block_zero);\n		} else {\n			BEESNOTE(\"copying", "		const bool hole = bbd.is_data_zero();\n		if (hole) {\n			BEESCOUNT(tmp_block_zero);\n		} else {\n			BEESNOTE(\"copying"))
c("copy-block-helper", ("src/bees.h", "	void realign();\n	void resize(off_t new_end_offset);\n", "	void realign();\n	void copy_block(BeesBlockData &bbd, off_t dst_p);\n	void resize(off_t new_end_offset);\n"),
  (M, "BeesFileRange\nBeesTempFile::make_copy(const BeesFileRange &src)\n{", """void
BeesTempFile::copy_block(BeesBlockData &bbd, off_t const dst_p)
{
	// Don't fill in holes
	if (bbd.is_data_zero()) {
		BEESCOUNT(tmp_block_zero);
		return;
	}
	pwrite_or_die(m_fd, bbd.data().data(), bbd.size(), dst_p);
	BEESCOUNT(tmp_block);
	BEESCOUNTADD(tmp_bytes, bbd.size());
}

BeesFileRange
BeesTempFile::make_copy(const BeesFileRange &src)
{"""), (M, """		// Don't fill in holes
		if (bbd.is_data_zero()) {
			BEESCOUNT(tmp_block_zero);
		} else {
			BEESNOTE("copying " << src << " to " << rv << "\\n"
				"\\tpwrite " << bbd << " to " << name_fd(m_fd) << " offset " << to_hex(dst_p) << " len " << len);
			pwrite_or_die(m_fd, bbd.data().data(), len, dst_p);
			BEESCOUNT(tmp_block);
			BEESCOUNTADD(tmp_bytes, len);
		}
""", "		copy_block(bbd, dst_p);\n"))
c("realign-flat", (M, "	if (m_end_offset & BLOCK_MASK_CLONE) {\n		// BEESTRACE(\"temporary file size \" << to_hex(m_end_offset) << \" not aligned\");\n		BEESCOUNT(tmp_realign);\n		reset();\n		return;\n	}\n	// OK as is\n	BEESCOUNT(tmp_aligned);\n",
  "	const bool aligned = (m_end_offset & BLOCK_MASK_CLONE) == 0;\n	if (aligned) {\n		BEESCOUNT(tmp_aligned);\n	} else {\n		BEESCOUNT(tmp_realign);\n		reset();\n	}\n"))
c("tmp-ctor-fid", (M, "	m_ctx->blacklist_insert(BeesFileId(m_fd));\n", "	const BeesFileId fid(m_fd);\n	m_ctx->blacklist_insert(fid);\n"))
c("tmp-ctor-register", ("src/bees.h", "	void realign();\n	void resize(off_t new_end_offset);\n", "	void realign();\n	void register_file();\n	void resize(off_t new_end_offset);\n"),
  (M, "BeesTempFile::BeesTempFile(shared_ptr<BeesContext> ctx) :\n", """void
BeesTempFile::register_file()
{
	// Don't include this file in new extent scans
	m_ctx->blacklist_insert(BeesFileId(m_fd));

	// Add this file to open_root_ino lookup table
	m_roots->insert_tmpfile(m_fd);
}

BeesTempFile::BeesTempFile(shared_ptr<BeesContext> ctx) :
"""), (M, "	// Don't include this file in new extent scans\n	m_ctx->blacklist_insert(BeesFileId(m_fd));\n\n	// Add this file to open_root_ino lookup table\n	m_roots->insert_tmpfile(m_fd);\n\n	// Count time", "	register_file();\n\n	// Count time"))

# ---------------------------------------------------------------- bees-thread.cc
c("thread-flat", (B, "		catch_all([&]() {\n			func();\n		});\n		BEESLOGDEBUG(\"Exiting", "		catch_all(func);\n		BEESLOGDEBUG(\"Exiting"))
c("thread-dtor-join", (B, """	BEESLOGDEBUG("BeesThread destructor " << m_name);
	if (m_thread_ptr->joinable()) {
		BEESLOGDEBUG("Waiting for thread " << m_name);
		Timer thread_time;
		m_thread_ptr->join();
		BEESLOGDEBUG("Waited for " << m_name << ", " << thread_time << " sec");
	} else if (!m_name.empty()) {
		BEESLOGDEBUG("Thread " << m_name << " not joinable");
	} else {
		BEESLOGDEBUG("Thread destroy else " << m_name);
	}
""", """	BEESLOGDEBUG("BeesThread destructor " << m_name);
	join();
"""))
