H = "src/bees-hash.cc"; B = "src/bees.cc"; C = "src/bees-context.cc"
CASES = [
 dict(name="w-nosync", props=["C10"], edits=[(B, "		bees_fsync(ofd);\n", "")]),
 dict(name="w-rename-first", props=["C10"], edits=[(B, "		bees_fsync(ofd);\n", "		renameat_or_die(m_dir_fd, tmpname, m_dir_fd, m_name);\n		bees_fsync(ofd);\n"), (B, "	renameat_or_die(m_dir_fd, tmpname, m_dir_fd, m_name);\n}", "}")]),
 dict(name="w-inplace", props=["C10"], edits=[(B, "openat_or_die(m_dir_fd, tmpname, FLAGS_CREATE_FILE, S_IRUSR | S_IWUSR);", "openat_or_die(m_dir_fd, m_name, FLAGS_CREATE_FILE & ~O_EXCL, S_IRUSR | S_IWUSR);")]),
 dict(name="w-nounlink", props=["C10"], edits=[(B, "	unlinkat(m_dir_fd, tmpname.c_str(), 0);\n", "")]),
 dict(name="w-unlink-real", props=["C10"], edits=[(B, "	unlinkat(m_dir_fd, tmpname.c_str(), 0);\n", "	unlinkat(m_dir_fd, m_name.c_str(), 0);\n")]),
 dict(name="w-sync-unchecked", props=["C10"], edits=[(B, "		DIE_IF_NON_ZERO(fsync(fd));\n		return;", "		if (fsync(fd)) BEESLOGWARN(\"fsync\");\n		return;")]),
 dict(name="w-sync-inverted", props=["C10"], edits=[(B, "(stf.f_type) != BTRFS_SUPER_MAGIC", "(stf.f_type) == BTRFS_SUPER_MAGIC")]),
 dict(name="w-size-late", props=["C10"], edits=[(B, "	THROW_CHECK2(out_of_range, contents.size(), m_limit, contents.size() < m_limit);\n", ""), (B, "		write_or_die(ofd, contents);\n", "		THROW_CHECK2(out_of_range, contents.size(), m_limit, contents.size() < m_limit);\n		write_or_die(ofd, contents);\n")]),
 dict(name="w-read-nolimit", props=["C10"], edits=[(B, "	THROW_CHECK1(out_of_range, st.st_size, st.st_size < ranged_cast<off_t>(m_limit));\n", "")]),
 dict(name="w-status-noclose", props=["C10"], edits=[(C, "		ofs.close();\n", "")]),
 dict(name="w-status-inplace", props=["C10"], edits=[(C, 'ofstream ofs(status_file + ".tmp");', 'ofstream ofs(status_file);')]),
 dict(name="w-partial", props=["C10"], edits=[(B, "		write_or_die(ofd, contents);\n", "		DIE_IF_MINUS_ONE(::write(ofd, contents.data(), contents.size()));\n")]),
 dict(name="w-q-helper", props=["C10"], expect="quiet", edits=[(B, "void\nBeesStringFile::write(string contents)\n{", "static\nvoid\nflush_contents(const Fd &fd, const string &contents)\n{\n	write_or_die(fd, contents);\n	bees_fsync(fd);\n}\n\nvoid\nBeesStringFile::write(string contents)\n{"), (B, "		write_or_die(ofd, contents);\n		BEESNOTE(\"fsyncing \" << tmpname << \" in \" << name_fd(m_dir_fd));\n		bees_fsync(ofd);\n", "		flush_contents(ofd, contents);\n")]),
 dict(name="w-q-names", props=["C10"], expect="quiet", edits=[(B, "	renameat_or_die(m_dir_fd, tmpname, m_dir_fd, m_name);\n}", "	const string from = tmpname;\n	const auto &to = m_name;\n	renameat_or_die(m_dir_fd, from, m_dir_fd, to);\n}")]),
 dict(name="w-q-throw", props=["C10"], expect="quiet", edits=[(B, "	THROW_CHECK2(out_of_range, contents.size(), m_limit, contents.size() < m_limit);\n", "	if (contents.size() >= m_limit) {\n		THROW_ERROR(out_of_range, \"too big\");\n	}\n")]),
 dict(name="w-q-fsync", props=["C10"], expect="quiet", edits=[(B, "		DIE_IF_NON_ZERO(fsync(fd));\n		return;", "		if (fsync(fd) != 0) {\n			THROW_ERRNO(\"fsync\");\n		}\n		return;")]),
 # C11
 dict(name="h-nolock-find", props=["C11"], edits=[(H, "	vector<Cell> rv;\n	auto lock = lock_extent_by_hash(hash);\n", "	vector<Cell> rv;\n")]),
 dict(name="h-unlock-early", props=["C11"], edits=[(H, "	const auto pos = tl_distribution(bees_generator);\n", "	lock.unlock();\n	const auto pos = tl_distribution(bees_generator);\n	lock.lock();\n")]+[(H, "	auto er = get_cell_range(hash);\n	Cell mv(hash, addr);\n	Cell *ip = find(er.first, er.second, mv);\n	bool found = (ip < er.second);\n	if (found) {\n		*ip", "	auto er = get_cell_range(hash);\n	lock.unlock();\n	Cell mv(hash, addr);\n	Cell *ip = find(er.first, er.second, mv);\n	bool found = (ip < er.second);\n	if (found) {\n		lock.lock();\n		*ip")]),
 dict(name="h-nodirty-random", props=["C11"], edits=[(H, "				case_cond = 4;\n				goto ret_dirty;", "				case_cond = 4;\n				goto ret;")]),
 dict(name="h-nodirty-erase", props=["C11"], edits=[(H, "		*ip = Cell(0, 0);\n		set_extent_dirty_locked(hash_to_extent_index(hash));\n", "		*ip = Cell(0, 0);\n")]),
 dict(name="h-dirty-cond", props=["C11"], edits=[(H, "		er.first[0] = mv;\n		set_extent_dirty_locked(hash_to_extent_index(hash));\n", "		er.first[0] = mv;\n		if (!found) set_extent_dirty_locked(hash_to_extent_index(hash));\n")]),
 dict(name="h-dirty-unlocked", props=["C11"], edits=[(H, "		*ip = Cell(0, 0);\n		set_extent_dirty_locked(hash_to_extent_index(hash));\n", "		*ip = Cell(0, 0);\n		lock.unlock();\n		set_extent_dirty_locked(hash_to_extent_index(hash));\n")]),
 dict(name="h-wrong-extent", props=["C11"], edits=[(H, "		*ip = Cell(0, 0);\n		set_extent_dirty_locked(hash_to_extent_index(hash));\n", "		*ip = Cell(0, 0);\n		set_extent_dirty_locked(hash % m_extents);\n")]),
 dict(name="h-nofetch", props=["C11"], edits=[(H, "BeesHashTable::push_front_hash_addr(HashType hash, AddrType addr)\n{\n	fetch_missing_extent_by_hash(hash);\n", "BeesHashTable::push_front_hash_addr(HashType hash, AddrType addr)\n{\n")]),
 dict(name="h-fetch-late", props=["C11"], edits=[(H, "	m_extent_metadata.at(extent_index).m_missing = false;\n", "	m_extent_metadata.at(extent_index).m_missing = false;\n	lock.unlock();\n"), (H, "	Cell *cell     = m_extent_ptr[extent_index    ].p_buckets[0].p_cells;", "	lock.lock();\n	Cell *cell     = m_extent_ptr[extent_index    ].p_buckets[0].p_cells;")]),
 dict(name="h-clear-late", props=["C11"], edits=[(H, "		m_extent_metadata.at(extent_index).m_dirty = false;\n\n		// Release", "		// Release"), (H, "		wrote_extent = true;\n", "		lock.lock();\n		m_extent_metadata.at(extent_index).m_dirty = false;\n		wrote_extent = true;\n")]),
 dict(name="h-norestore", props=["C11"], edits=[(H, "		m_extent_metadata.at(extent_index).m_dirty = true;\n	}\n\n	return", "	}\n\n	return")]),
 dict(name="h-restore-inverted", props=["C11"], edits=[(H, "	if (!wrote_extent) {\n		if (!lock", "	if (wrote_extent) {\n		if (!lock")]),
 dict(name="h-offset", props=["C11"], edits=[(H, "pwrite_or_die(m_fd, extent_copy, dirty_extent_offset);", "pwrite_or_die(m_fd, extent_copy, extent_index * BLOCK_SIZE_HASHTAB_BUCKET);")]),
 dict(name="h-offset-end", props=["C11"], edits=[(H, "		const size_t dirty_extent_offset = dirty_extent - m_byte_ptr;", "		const size_t dirty_extent_offset = dirty_extent_end - m_byte_ptr;")]),
 dict(name="h-len", props=["C11"], edits=[(H, "	const size_t dirty_extent_size   = dirty_extent_end - dirty_extent;", "	const size_t dirty_extent_size   = (dirty_extent_end - dirty_extent) / 2;")]),
 dict(name="h-nofinal", props=["C11"], edits=[(H, "	flush_dirty_extents(false);\n", "	if (m_dirty) flush_dirty_extents(false);\n")]),
 dict(name="h-final-before", props=["C11"], edits=[(H, "	flush_dirty_extents(false);\n\n	// If there were any", "	// If there were any"), (H, "	while (!m_stop_requested) {\n		auto wrote_extents = flush_dirty_extents(true);", "	while (!m_stop_requested) {\n		auto wrote_extents = flush_dirty_extents(true);\n		flush_dirty_extents(false);")]),
 dict(name="h-break-stop", props=["C11"], edits=[(H, "					slowly = false;\n					continue;", "					break;")]),
 dict(name="h-skip-first", props=["C11"], edits=[(H, "for (size_t extent_index = 0; extent_index < m_extents; ++extent_index) {\n		// Skip", "for (size_t extent_index = 1; extent_index < m_extents; ++extent_index) {\n		// Skip")]),
 dict(name="h-skip-missing", props=["C11"], edits=[(H, "		if (!m_extent_metadata.at(extent_index).m_dirty) {\n			continue;", "		if (!m_extent_metadata.at(extent_index).m_dirty || m_extent_metadata.at(extent_index).m_missing) {\n			continue;")]),
 dict(name="h-bucket-mask", props=["C11"], edits=[(H, "&m_bucket_ptr[hash % m_buckets];", "&m_bucket_ptr[hash & (m_buckets - 1)];")]),
 dict(name="h-extent-mod", props=["C11"], edits=[(H, "&m_extent_ptr[ (hash % m_buckets) / c_buckets_per_extent ]", "&m_extent_ptr[ (hash / c_buckets_per_extent) % m_extents ]")]),
 dict(name="h-nonotify", props=["C11"], edits=[(H, "	m_dirty = true;\n	m_dirty_condvar.notify_one();", "	if (!m_dirty) {\n		m_dirty = true;\n	} else {\n		m_dirty_condvar.notify_one();\n	}")]),
 dict(name="h-flag-unlocked", props=["C11"], edits=[(H, "	unique_lock<mutex> dirty_lock(m_dirty_mutex);\n	m_dirty = true;", "	m_dirty = true;")]),
 dict(name="h-prefetch-unlock", props=["C11"], edits=[(H, "				if (duplicate_bugs_found) {\n					set", "				lock.unlock();\n				if (duplicate_bugs_found) {\n					set")]),
 dict(name="h-prefetch-nodirty", props=["C11"], edits=[(H, "				if (duplicate_bugs_found) {\n					set", "				if (duplicate_bugs_found && m_prefetch_running) {\n					set")]),
 dict(name="h-q-helper", props=["C11"], expect="quiet", edits=[(H, "vector<BeesHashTable::Cell>\nBeesHashTable::find_cell(HashType hash)\n{\n	fetch_missing_extent_by_hash(hash);\n", "vector<BeesHashTable::Cell>\nBeesHashTable::find_cell(HashType hash)\n{\n	const auto h = hash;\n	fetch_missing_extent_by_index(hash_to_extent_index(h));\n")]),
 dict(name="h-q-inline-dirty", props=["C11"], expect="quiet", edits=[(H, "		*ip = Cell(0, 0);\n		set_extent_dirty_locked(hash_to_extent_index(hash));\n", "		const auto index = hash_to_extent_index(hash);\n		ip->e_hash = 0;\n		ip->e_addr = 0;\n		set_extent_dirty_locked(index);\n")]),
 dict(name="h-q-while", props=["C11"], expect="quiet", edits=[(H, "	for (size_t extent_index = 0; extent_index < m_extents; ++extent_index) {\n		// Skip the clean ones\n		auto lock = lock_extent_by_index(extent_index);\n		if (!m_extent_metadata.at(extent_index).m_dirty) {\n			continue;\n		}\n		lock.unlock();\n", "	for (size_t extent_index = 0; extent_index != m_extents; extent_index += 1) {\n		// Skip the clean ones\n		bool is_dirty = false;\n		{\n			auto lock = lock_extent_by_index(extent_index);\n			is_dirty = m_extent_metadata.at(extent_index).m_dirty;\n		}\n		if (!is_dirty) {\n			continue;\n		}\n")]),
 dict(name="h-q-find", props=["C11"], expect="quiet", edits=[(H, "	if (found) {\n		*ip = Cell(0, 0);", "	if (ip != er.second) {\n		*ip = Cell(0, 0);")]),
 dict(name="h-q-front", props=["C11"], expect="quiet", edits=[(H, "		er.first[0] = mv;\n		set_extent_dirty_locked(hash_to_extent_index(hash));\n", "		set_extent_dirty_locked(hash_to_extent_index(hash));\n		*er.first = mv;\n")]),
]
