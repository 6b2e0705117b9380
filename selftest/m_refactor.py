"""Edits that keep the behaviour; every check has to stay quiet on each."""
X, R, H, V, T, B = ("src/bees-%s.cc" % x for x in ("context", "roots", "hash", "resolve", "types", "thread"))
M = "src/bees.cc"
CASES = []


def c(name, *edits):
    CASES.append(dict(name=name, props=["ALL"], edits=list(edits), expect="quiet"))


# ---------------------------------------------------------------- bees-context.cc
c("dedup-lambda", (X, "			const bool rv = btrfs_extent_same(brp.first.fd(), brp.first.begin(), brp.first.size(), brp.second.fd(), brp.second.begin());\n",
  "			const auto &src = brp.first;\n			const auto &dst = brp.second;\n			const auto len = src.size();\n			const bool rv = btrfs_extent_same(src.fd(), src.begin(), len, dst.fd(), dst.begin());\n"))
c("dedup-helper", (X, "bool\nBeesContext::dedup(const BeesRangePair &brp_in)\n{", """static
bool
dedup_ioctl(const BeesRangePair &brp)
{
	const bool rv = btrfs_extent_same(brp.first.fd(), brp.first.begin(), brp.first.size(), brp.second.fd(), brp.second.begin());
	if (!rv) {
		BEESCOUNT(dedup_miss);
		BEESLOGINFO("NO Dedup! " << brp);
		return false;
	}
	BEESCOUNT(dedup_hit);
	BEESCOUNTADD(dedup_bytes, brp.first.size());
	return true;
}

static
void
check_dedup_pair(const BeesRangePair &brp)
{
	THROW_CHECK1(invalid_argument, brp, !brp.first.overlaps(brp.second));
	THROW_CHECK1(invalid_argument, brp, brp.first.size() == brp.second.size());
}

bool
BeesContext::dedup(const BeesRangePair &brp_in)
{"""),
  (X, "	THROW_CHECK1(invalid_argument, brp, !brp.first.overlaps(brp.second));\n	THROW_CHECK1(invalid_argument, brp, brp.first.size() == brp.second.size());\n\n	BEESCOUNT(dedup_try);", "	check_dedup_pair(brp);\n\n	BEESCOUNT(dedup_try);"),
  (X, """			const bool rv = btrfs_extent_same(brp.first.fd(), brp.first.begin(), brp.first.size(), brp.second.fd(), brp.second.begin());
			BEESCOUNTADD(dedup_ms, dedup_timer.age() * 1000);

			if (rv) {
				BEESCOUNT(dedup_hit);
				BEESCOUNTADD(dedup_bytes, brp.first.size());
			} else {
				BEESCOUNT(dedup_miss);
				BEESLOGINFO("NO Dedup! " << brp);
			}
""", """			const bool rv = dedup_ioctl(brp);
			BEESCOUNTADD(dedup_ms, dedup_timer.age() * 1000);
"""))
c("dedup-loop", (X, "	while (true) {\n		try {\n			Timer dedup_timer;", "	bool rv = false;\n	for (bool done = false; !done; ) {\n		try {\n			Timer dedup_timer;"),
  (X, "			const bool rv = btrfs_extent_same(", "			rv = btrfs_extent_same("),
  (X, """			bees_throttle(dedup_timer.age(), "dedup");
			return rv;
		} catch (const std::system_error &e) {
			if (e.code().value() == EAGAIN) {
				BEESNOTE("dedup waiting for btrfs send on " << brp.second);
				BEESLOGDEBUG("dedup waiting for btrfs send on " << brp.second);
				roots()->wait_for_transid(1);
			} else {
				throw;
			}
		}
	}
""", """			bees_throttle(dedup_timer.age(), "dedup");
			done = true;
		} catch (const std::system_error &e) {
			if (e.code().value() != EAGAIN) {
				throw;
			}
			BEESNOTE("dedup waiting for btrfs send on " << brp.second);
			BEESLOGDEBUG("dedup waiting for btrfs send on " << brp.second);
			roots()->wait_for_transid(1);
		}
	}
	return rv;
"""))
c("dedup-ro", (X, "	if (is_root_ro(brp_in.second.fid().root())) {", "	const auto dst_root = brp_in.second.fid().root();\n	const bool dst_ro = is_root_ro(dst_root);\n	if (dst_ro) {"))
c("rewrite-loop", (X, "	for (off_t next_p = bfr.begin(); next_p < bfr.end(); ) {\n		off_t p = next_p;\n		next_p += BLOCK_SIZE_SUMS;\n		ew.seek(p);", "	for (off_t p = bfr.begin(); p < bfr.end(); p += BLOCK_SIZE_SUMS) {\n		const off_t next_p = p + BLOCK_SIZE_SUMS;\n		ew.seek(p);"))
c("rewrite-cond", (X, """		if (!addr.is_magic() && !bbd.is_data_zero()) {
			hash_table->push_random_hash_addr(bbd.hash(), bbd.addr());
			BEESCOUNT(scan_reinsert);
		}
""", """		if (addr.is_magic() || bbd.is_data_zero()) {
			continue;
		}
		hash_table->push_random_hash_addr(bbd.hash(), bbd.addr());
		BEESCOUNT(scan_reinsert);
"""))
c("rewrite-names", (X, "	auto rewrite_tmpfile = tmpfile();\n	BeesRangePair dup_brp(dup_extent(BeesFileRange(bfr.fd(), bfr.begin(), min(bfr.file_size(), bfr.end())), rewrite_tmpfile));\n",
  "	const auto copy_file = tmpfile();\n	const auto copy_end = min(bfr.file_size(), bfr.end());\n	const BeesFileRange copy_src(bfr.fd(), bfr.begin(), copy_end);\n	BeesRangePair dup_brp(dup_extent(copy_src, copy_file));\n"))
c("prealloc-helper", (X, "void\nBeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)\n{", """static
bool
replace_prealloc(const shared_ptr<BeesContext> &ctx, const BeesFileRange &bfr, const Extent &e)
{
	BEESLOGINFO("prealloc extent " << e << " in " << bfr);
	const auto extent_size = min(e.end(), bfr.file_size()) - e.begin();
	const auto tmpfile = ctx->tmpfile();
	const BeesFileRange prealloc_bfr(tmpfile->make_hole(extent_size));
	const BeesFileRange copy_bfr(bfr.fd(), e.begin(), e.begin() + extent_size);
	if (!ctx->dedup(BeesRangePair(prealloc_bfr, copy_bfr))) {
		BEESCOUNT(dedup_prealloc_miss);
		return false;
	}
	BEESCOUNT(dedup_prealloc_hit);
	BEESCOUNTADD(dedup_prealloc_bytes, e.size());
	return true;
}

void
BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
{"""), (X, """		BEESLOGINFO("prealloc extent " << e << " in " << bfr);
		// Must not extend past EOF
		auto extent_size = min(e.end(), bfr.file_size()) - e.begin();
		// Must hold tmpfile until dedupe is done
		const auto tmpfile = m_ctx->tmpfile();
		BeesFileRange prealloc_bfr(tmpfile->make_hole(extent_size));
		// Apparently they can both extend past EOF
		BeesFileRange copy_bfr(bfr.fd(), e.begin(), e.begin() + extent_size);
		BeesRangePair brp(prealloc_bfr, copy_bfr);
		// Raw dedupe here - nothing else to do with this extent, nothing to merge with
		if (m_ctx->dedup(brp)) {
			BEESCOUNT(dedup_prealloc_hit);
			BEESCOUNTADD(dedup_prealloc_bytes, e.size());
			return;
		} else {
			BEESCOUNT(dedup_prealloc_miss);
		}
""", """		if (replace_prealloc(m_ctx, bfr, e)) {
			return;
		}
"""))
c("seen-helper", (X, "void\nBeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)\n{", """static mutex s_seen_mutex;
static set<BeesSeenRange> s_seen;

static
bool
seen_before(const BeesSeenRange &tup)
{
	unique_lock<mutex> lock_seen(s_seen_mutex);
	if (s_seen.size() > BEES_MAX_EXTENT_REF_COUNT) {
		s_seen.clear();
		BEESCOUNT(scan_seen_clear);
	}
	const bool seen = s_seen.count(tup) > 0;
	if (seen) {
		BEESCOUNT(scan_seen_hit);
	} else {
		BEESCOUNT(scan_seen_miss);
	}
	return seen;
}

static
void
remember_seen(const BeesSeenRange &tup, const bool extent_modified)
{
	unique_lock<mutex> lock_seen(s_seen_mutex);
	if (extent_modified) {
		s_seen.erase(tup);
		BEESCOUNT(scan_seen_erase);
	} else {
		s_seen.insert(tup);
		BEESCOUNT(scan_seen_insert);
	}
}

void
BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
{"""), (X, "	static mutex s_seen_mutex;\n	unique_lock<mutex> lock_seen(s_seen_mutex);\n	const BeesSeenRange tup", "	const BeesSeenRange tup"),
  (X, """	static set<BeesSeenRange> s_seen;
	if (s_seen.size() > BEES_MAX_EXTENT_REF_COUNT) {
		s_seen.clear();
		BEESCOUNT(scan_seen_clear);
	}
	const auto seen_rv = s_seen.find(tup) != s_seen.end();
	if (!seen_rv) {
		BEESCOUNT(scan_seen_miss);
	} else {
		// BEESLOGDEBUG("Skip " << tup << " " << e);
		BEESCOUNT(scan_seen_hit);
		return;
	}
	lock_seen.unlock();
""", """	if (seen_before(tup)) {
		return;
	}
"""), (X, """	lock_seen.lock();
	if (extent_modified) {
		s_seen.erase(tup);
		BEESCOUNT(scan_seen_erase);
	} else {
		// BEESLOGDEBUG("Seen " << tup << " " << e);
		s_seen.insert(tup);
		BEESCOUNT(scan_seen_insert);
	}
	lock_seen.unlock();
""", "	remember_seen(tup, extent_modified);\n"))
c("found-iter", (X, "		for (const auto &i : found) {\n			BEESTRACE(\"found (hash, address): \" << i);", "		for (auto it = found.begin(); it != found.end(); ++it) {\n			const auto &i = *it;\n			BEESTRACE(\"found (hash, address): \" << i);"))
c("found-order", (X, """			// Block must have matching EOF alignment
			if (found_addr.is_unaligned_eof() != addr.is_unaligned_eof()) {
				BEESCOUNT(scan_malign);
				continue;
			}
""", """			// Block must have matching EOF alignment
			const bool found_at_eof = found_addr.is_unaligned_eof();
			const bool at_eof = addr.is_unaligned_eof();
			if (found_at_eof == at_eof) {
				// can match
			} else {
				BEESCOUNT(scan_malign);
				continue;
			}
"""))
c("found-hash-flat", (X, """			if (resolved.found_hash()) {
				BEESCOUNT(scan_hash_hit);
			} else {
				BEESLOGDEBUG("Erasing stale hash " << hash << " addr " << resolved.addr());
				hash_table->erase_hash_addr(hash, resolved.addr());
				BEESCOUNT(scan_hash_miss);
				continue;
			}

			// We found a block and it was a duplicate
			if (resolved.found_dup()) {
""", """			if (!resolved.found_hash()) {
				BEESLOGDEBUG("Erasing stale hash " << hash << " addr " << resolved.addr());
				hash_table->erase_hash_addr(hash, resolved.addr());
				BEESCOUNT(scan_hash_miss);
				continue;
			}
			BEESCOUNT(scan_hash_hit);

			// We found a block and it was a duplicate
			const bool dup = resolved.found_dup();
			if (dup) {
"""))
c("overlap-helper", (X, "void\nBeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)\n{", """static
bool
covers(const BeesFileRange &a, const BeesFileRange &b)
{
	return a.begin() <= b.begin() && a.end() >= b.end();
}

void
BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
{"""), (X, "			if (j.second.begin() <= i.second.begin() && j.second.end() >= i.second.end()) {\n				insert_i = false;", "			if (covers(j.second, i.second)) {\n				insert_i = false;"))
c("force-flags", (X, "	if (cost_copy > gain_dedupe) {\n", "	const bool too_expensive = cost_copy > gain_dedupe;\n	if (too_expensive) {\n"),
  (X, "	if (dedupe_list.size() + copy_list.size() > 100) {\n", "	const size_t op_count = dedupe_list.size() + copy_list.size();\n	if (op_count > 100) {\n"))
c("dedupe-flat", (X, """		if (force_insert || m_ctx->dedup(i)) {
			BEESCOUNT(replacedst_dedup_hit);
			THROW_CHECK0(runtime_error, i.second);
""", """		const bool dedup_ok = force_insert || m_ctx->dedup(i);
		if (dedup_ok) {
			BEESCOUNT(replacedst_dedup_hit);
			THROW_CHECK0(runtime_error, i.second);
"""))
c("dedupe-guard", (X, """		if (force_insert || m_ctx->dedup(i)) {
			BEESCOUNT(replacedst_dedup_hit);
			THROW_CHECK0(runtime_error, i.second);
			for (off_t ip""", """		if (!force_insert && !m_ctx->dedup(i)) {
			BEESLOGINFO("dedup failed: " << i);
			BEESCOUNT(replacedst_dedup_miss);
			return;
		}
		{
			BEESCOUNT(replacedst_dedup_hit);
			THROW_CHECK0(runtime_error, i.second);
			for (off_t ip"""), (X, """			extent_modified = !force_insert;
		} else {
			BEESLOGINFO("dedup failed: " << i);
			BEESCOUNT(replacedst_dedup_miss);
			// User data changed while we were looking up the extent, or we have a bug.
			// We can't fix this, but we can immediately stop wasting effort.
			return;
		}
""", """			extent_modified = !force_insert;
		}
"""))
c("insert-foreach", (X, """		for (const auto &i : insert_map) {
			hash_table->push_random_hash_addr(i.second.first, i.second.second);
			off_t bar_p = (i.first - e.begin()) / BLOCK_SIZE_SUMS;
			if (bar.at(bar_p) == 'i') {
				bar.at(bar_p) = '.';
			}
			BEESCOUNT(scan_hash_insert);
		}
""", """		for (auto it = insert_map.begin(); it != insert_map.end(); ++it) {
			const auto &hash_addr = it->second;
			hash_table->push_random_hash_addr(hash_addr.first, hash_addr.second);
			off_t bar_p = (it->first - e.begin()) / BLOCK_SIZE_SUMS;
			if (bar.at(bar_p) == 'i') {
				bar.at(bar_p) = '.';
			}
			BEESCOUNT(scan_hash_insert);
		}
"""))
c("copy-split", (X, """	for (const auto &i : copy_list) {
		if (!force_insert) {
			rewrite_file_range(i);
			extent_modified = true;
		}
		for (auto p""", """	if (!force_insert) {
		for (const auto &i : copy_list) {
			rewrite_file_range(i);
			extent_modified = true;
		}
	}
	for (const auto &i : copy_list) {
		for (auto p"""))
c("zero-name", (X, "		const bool data_is_zero = bbd.is_data_zero();\n		if (data_is_zero) {\n", "		if (bbd.is_data_zero()) {\n"))
c("scan-const", (X, "	shared_ptr<BeesHashTable> hash_table = m_ctx->hash_table();\n\n	if (e.flags()", "	const auto hash_table = m_ctx->hash_table();\n\n	if (e.flags()"),
  (X, "	if (e.flags() & Extent::HOLE) {\n		// Nothing", "	const auto flags = e.flags();\n	if (flags & Extent::HOLE) {\n		// Nothing"),
  (X, "	if (e.flags() & Extent::PREALLOC) {\n		// Prealloc", "	if (flags & Extent::PREALLOC) {\n		// Prealloc"))
c("forward-helper", (X, """bool
BeesContext::scan_forward(const BeesFileRange &bfr_in)
{""", """static
bool
nothing_to_scan(const BeesFileRange &bfr)
{
	if (!bfr.fd()) {
		BEESCOUNT(scanf_no_fd);
		return true;
	}
	if (bfr.begin() >= bfr.file_size()) {
		BEESLOGDEBUG("past EOF: " << bfr);
		BEESCOUNT(scanf_eof);
		return true;
	}
	return false;
}

bool
BeesContext::scan_forward(const BeesFileRange &bfr_in)
{"""), (X, """	// No FD?  Well, that was quick.
	if (!bfr.fd()) {
		// BEESLOGINFO("No FD in " << root_path() << " for " << bfr);
		BEESCOUNT(scanf_no_fd);
		return false;
	}

	// Sanity check
	if (bfr.begin() >= bfr.file_size()) {
		BEESLOGDEBUG("past EOF: " << bfr);
		BEESCOUNT(scanf_eof);
		return false;
	}
""", """	if (nothing_to_scan(bfr)) {
		return false;
	}
"""))
c("forward-loop", (X, """			if (e.end() >= bfr.end()) {
				break;
			}

			if (!ew.next()) {
				break;
			}
""", """			const bool more = e.end() < bfr.end() && ew.next();
			if (!more) {
				break;
			}
"""))
c("forward-lock", (X, """				if (!extent_lock) {
					// BEESLOGDEBUG("Deferring extent bytenr " << to_hex(extent_bytenr) << " from " << bfr);
					BEESCOUNT(scanf_deferred_extent);
					start_over = true;
					return; // from closure
				}
				Timer one_extent_timer;
				scan_one_extent(bfr, e);
				// BEESLOGDEBUG("Scanned " << e << " " << bfr);
				BEESCOUNTADD(scanf_extent_ms, one_extent_timer.age() * 1000);
				BEESCOUNT(scanf_extent);
""", """				if (extent_lock) {
					Timer one_extent_timer;
					scan_one_extent(bfr, e);
					BEESCOUNTADD(scanf_extent_ms, one_extent_timer.age() * 1000);
					BEESCOUNT(scanf_extent);
				} else {
					BEESCOUNT(scanf_deferred_extent);
					start_over = true;
				}
"""))
c("forward-method", ("src/bees.h", "	void scan_one_extent(const BeesFileRange &bfr, const Extent &e);\n", "	void scan_one_extent(const BeesFileRange &bfr, const Extent &e);\n	bool scan_locked_extent(const BeesFileRange &bfr, const Extent &e);\n"),
  (X, "bool\nBeesContext::scan_forward(const BeesFileRange &bfr_in)\n{", """bool
BeesContext::scan_locked_extent(const BeesFileRange &bfr, const Extent &e)
{
	const uint64_t extent_bytenr = e.bytenr();
	const auto extent_mutex = m_extent_locks(extent_bytenr);
	const auto extent_lock = extent_mutex->try_lock(Task::current_task());
	if (!extent_lock) {
		BEESCOUNT(scanf_deferred_extent);
		return false;
	}
	Timer one_extent_timer;
	scan_one_extent(bfr, e);
	BEESCOUNTADD(scanf_extent_ms, one_extent_timer.age() * 1000);
	BEESCOUNT(scanf_extent);
	return true;
}

bool
BeesContext::scan_forward(const BeesFileRange &bfr_in)
{"""), (X, """				uint64_t extent_bytenr = e.bytenr();
				auto extent_mutex = m_extent_locks(extent_bytenr);
				const auto extent_lock = extent_mutex->try_lock(Task::current_task());
				if (!extent_lock) {
					// BEESLOGDEBUG("Deferring extent bytenr " << to_hex(extent_bytenr) << " from " << bfr);
					BEESCOUNT(scanf_deferred_extent);
					start_over = true;
					return; // from closure
				}
				Timer one_extent_timer;
				scan_one_extent(bfr, e);
				// BEESLOGDEBUG("Scanned " << e << " " << bfr);
				BEESCOUNTADD(scanf_extent_ms, one_extent_timer.age() * 1000);
				BEESCOUNT(scanf_extent);
""", """				if (!scan_locked_extent(bfr, e)) {
					start_over = true;
				}
"""))
c("resolve-helper", (X, "BeesResolveAddrResult\nBeesContext::resolve_addr_uncached(BeesAddress addr)\n{", """static
double
sys_seconds(const struct rusage &usage)
{
	return usage.ru_stime.tv_sec + usage.ru_stime.tv_usec / 1000000.0;
}

BeesResolveAddrResult
BeesContext::resolve_addr_uncached(BeesAddress addr)
{"""), (X, """		(usage_after.ru_stime.tv_sec + usage_after.ru_stime.tv_usec / 1000000.0) -
		(usage_before.ru_stime.tv_sec + usage_before.ru_stime.tv_usec / 1000000.0);
""", "		sys_seconds(usage_after) - sys_seconds(usage_before);\n"))
c("resolve-cond", (X, """	if (sys_usage_delta < BEES_TOXIC_SYS_DURATION) {
		rv.m_is_toxic = false;
	} else {
		BEESLOGDEBUG("WORKAROUND: toxic""", """	rv.m_is_toxic = !(sys_usage_delta < BEES_TOXIC_SYS_DURATION);
	if (rv.m_is_toxic) {
		BEESLOGDEBUG("WORKAROUND: toxic"""), (X, "		BEESCOUNT(resolve_toxic);\n		rv.m_is_toxic = true;\n", "		BEESCOUNT(resolve_toxic);\n"))
c("resolve-count", (X, "	if (rv_count < BEES_MAX_EXTENT_REF_COUNT) {\n		rv.m_biors = vector<BtrfsInodeOffsetRoot>(log_ino.m_iors.begin(), log_ino.m_iors.end());\n	} else {\n", "	if (rv_count < BEES_MAX_EXTENT_REF_COUNT) {\n		rv.m_biors.assign(log_ino.m_iors.begin(), log_ino.m_iors.end());\n	} else {\n"))
c("resolve-count2", (X, "	if (rv_count < BEES_MAX_EXTENT_REF_COUNT) {\n		rv.m_biors = vector<BtrfsInodeOffsetRoot>(log_ino.m_iors.begin(), log_ino.m_iors.end());\n	} else {\n", "	const bool too_many_refs = rv_count >= BEES_MAX_EXTENT_REF_COUNT;\n	if (!too_many_refs) {\n		rv.m_biors = vector<BtrfsInodeOffsetRoot>(log_ino.m_iors.begin(), log_ino.m_iors.end());\n	} else {\n"))
c("resolve-lock-helper", (X, "		const auto resolve_timer_age = resolve_timer.age();\n		BEESCOUNTADD(resolve_ms, resolve_timer_age * 1000);\n		lock.reset();\n		bees_throttle(resolve_timer_age, \"resolve_addr\");\n", "		const auto age = resolve_timer.age();\n		lock.reset();\n		BEESCOUNTADD(resolve_ms, age * 1000);\n		bees_throttle(age, \"resolve_addr\");\n"))
c("stop-scopes", (X, """	unique_lock<mutex> lock(m_stop_mutex);
	m_stop_requested = true;
	m_stop_condvar.notify_all();
	lock.unlock();

	// Wait for hash""", """	{
		unique_lock<mutex> lock(m_stop_mutex);
		m_stop_requested = true;
		m_stop_condvar.notify_all();
	}

	// Wait for hash"""), (X, """	lock.lock();
	m_stop_condvar.notify_all();
	lock.unlock();

	// then wake""", """	{
		unique_lock<mutex> lock(m_stop_mutex);
		m_stop_condvar.notify_all();
	}

	// then wake"""), (X, """	lock.lock();
	m_stop_status = true;
	m_stop_condvar.notify_all();
	lock.unlock();
	m_status""", """	{
		unique_lock<mutex> lock(m_stop_mutex);
		m_stop_status = true;
		m_stop_condvar.notify_all();
	}
	m_status"""))
c("stop-helper", (X, "void\nBeesContext::stop()\n{", """static
void
stop_crawlers(const shared_ptr<BeesRoots> &roots)
{
	if (!roots) {
		BEESLOGDEBUG("Crawlers not running");
		return;
	}
	roots->stop_request();
}

void
BeesContext::stop()
{"""), (X, """	if (m_roots) {
		m_roots->stop_request();
	} else {
		BEESLOGDEBUG("Crawlers not running");
	}
""", "	stop_crawlers(m_roots);\n"))
c("stop-notify-after", (X, "	m_stop_requested = true;\n	m_stop_condvar.notify_all();\n	lock.unlock();\n", "	m_stop_requested = true;\n	lock.unlock();\n	m_stop_condvar.notify_all();\n"))
c("blacklist-count", (X, "	return m_blacklist.find(fid) != m_blacklist.end();", "	return m_blacklist.count(fid) > 0;"),
  (X, "	if (fid.root() == 1) {\n		return true;\n	}\n	unique_lock", "	const bool always = fid.root() == 1;\n	if (always) {\n		return true;\n	}\n	unique_lock"))
c("lazy-make", (X, """	if (!m_fd_cache) {
		m_fd_cache = make_shared<BeesFdCache>(shared_from_this());
	}
	return m_fd_cache;
""", """	if (m_fd_cache) {
		return m_fd_cache;
	}
	return m_fd_cache = make_shared<BeesFdCache>(shared_from_this());
"""))
c("fdcache-helper", (X, """	m_root_cache.func([&](uint64_t root) -> Fd {
		Timer open_timer;
		auto rv = m_ctx->roots()->open_root_nocache(root);
		BEESCOUNTADD(open_root_ms, open_timer.age() * 1000);
		return rv;
	});
""", """	m_root_cache.func([this](const uint64_t root) {
		const Timer open_timer;
		const Fd fd = m_ctx->roots()->open_root_nocache(root);
		BEESCOUNTADD(open_root_ms, open_timer.age() * 1000);
		return fd;
	});
"""))
c("status-loop", (X, """		unique_lock<mutex> lock(m_stop_mutex);
		if (m_stop_status) {
			return;
		}
		m_stop_condvar.wait_for(lock, chrono::duration<double>(BEES_STATUS_INTERVAL));
	}
""", """		unique_lock<mutex> lock(m_stop_mutex);
		if (!m_stop_status) {
			m_stop_condvar.wait_for(lock, chrono::duration<double>(BEES_STATUS_INTERVAL));
		} else {
			return;
		}
	}
"""))
c("status-name", (X, '		ofstream ofs(status_file + ".tmp");\n', '		const string tmp_file = status_file + ".tmp";\n		ofstream ofs(tmp_file);\n'), (X, '		rename((status_file + ".tmp").c_str(), status_file.c_str());', "		rename(tmp_file.c_str(), status_file.c_str());"))
# ---------------------------------------------------------------- bees-hash.cc
c("hash-flush-helper", (H, "bool\nBeesHashTable::flush_dirty_extent(uint64_t extent_index)\n{", """static
void
write_extent_copy(int fd, const ByteVector &extent_copy, off_t offset)
{
	pwrite_or_die(fd, extent_copy, offset);
	BEESCOUNT(hash_extent_out);
}

bool
BeesHashTable::flush_dirty_extent(uint64_t extent_index)
{"""), (H, "		pwrite_or_die(m_fd, extent_copy, dirty_extent_offset);\n		BEESCOUNT(hash_extent_out);\n", "		write_extent_copy(m_fd, extent_copy, dirty_extent_offset);\n"))
c("hash-flush-invert", (H, """	// Mark extent dirty again if write was not successful
	if (!wrote_extent) {
		if (!lock.owns_lock()) {
			lock.lock();
		}
		m_extent_metadata.at(extent_index).m_dirty = true;
	}

	return wrote_extent;
""", """	if (wrote_extent) {
		return true;
	}

	// Mark extent dirty again if write was not successful
	if (!lock.owns_lock()) {
		lock.lock();
	}
	auto &metadata = m_extent_metadata.at(extent_index);
	metadata.m_dirty = true;

	return false;
"""))
c("hash-flush-loop", (H, """		auto lock = lock_extent_by_index(extent_index);
		if (!m_extent_metadata.at(extent_index).m_dirty) {
			continue;
		}
		lock.unlock();

		if (flush_dirty_extent(extent_index)) {
""", """		{
			const auto lock = lock_extent_by_index(extent_index);
			const bool dirty = m_extent_metadata.at(extent_index).m_dirty;
			if (!dirty) {
				continue;
			}
		}

		const bool wrote = flush_dirty_extent(extent_index);
		if (wrote) {
"""))
c("hash-flush-while", (H, "	for (size_t extent_index = 0; extent_index < m_extents; ++extent_index) {\n		// Skip the clean ones\n		auto lock = lock_extent_by_index(extent_index);\n		if (!m_extent_metadata.at(extent_index).m_dirty) {\n			continue;\n		}\n", "	size_t next_index = 0;\n	while (next_index < m_extents) {\n		const size_t extent_index = next_index++;\n		// Skip the clean ones\n		auto lock = lock_extent_by_index(extent_index);\n		if (!m_extent_metadata.at(extent_index).m_dirty) {\n			continue;\n		}\n"))
c("hash-dirty-scope", (H, """	unique_lock<mutex> dirty_lock(m_dirty_mutex);
	m_dirty = true;
	m_dirty_condvar.notify_one();
}
""", """	{
		const lock_guard<mutex> dirty_lock(m_dirty_mutex);
		m_dirty = true;
	}
	m_dirty_condvar.notify_one();
}
"""))
c("hash-wb-loop", (H, """		if (m_stop_requested) {
			break;
		}
		if (m_dirty) {
			m_dirty = false;
		} else {
			m_dirty_condvar.wait(lock);
		}
""", """		if (m_stop_requested) {
			break;
		}
		if (!m_dirty) {
			m_dirty_condvar.wait(lock);
			continue;
		}
		m_dirty = false;
"""))
c("hash-fetch-early", (H, "	if (!m_extent_metadata.at(extent_index).m_missing) {\n		return;\n	}\n", "	auto &metadata = m_extent_metadata.at(extent_index);\n	const bool missing = metadata.m_missing;\n	if (!missing) {\n		return;\n	}\n"), (H, "	m_extent_metadata.at(extent_index).m_missing = false;\n", "	metadata.m_missing = false;\n"))
c("hash-toxic-for", (H, "	while (cell < cell_end) {\n		if (cell->e_addr & BeesAddress::c_toxic_mask) {\n			++toxic", "	for (; cell < cell_end; ++cell) {\n		const bool toxic = cell->e_addr & BeesAddress::c_toxic_mask;\n		if (toxic) {\n			++toxic"), (H, "			}\n		}\n		++cell;\n	}\n", "			}\n		}\n	}\n"))
c("hash-toxic-helper", (H, "void\nBeesHashTable::fetch_missing_extent_by_index(uint64_t extent_index)\n{", """static
void
clear_cell(BeesHashTable::Cell &cell)
{
	cell.e_addr = 0;
	cell.e_hash = 0;
}

void
BeesHashTable::fetch_missing_extent_by_index(uint64_t extent_index)
{"""), (H, "			if (seen_it.count(*cell)) {\n				cell->e_addr = 0;\n				cell->e_hash = 0;\n			}\n", "			if (seen_it.count(*cell)) {\n				clear_cell(*cell);\n			}\n"))
c("hash-find-loop", (H, "	copy_if(er.first, er.second, back_inserter(rv), [=](const Cell &ip) { return ip.e_hash == hash && ip.e_addr >= 0x1000; });\n", "	for (const Cell *ip = er.first; ip < er.second; ++ip) {\n		if (ip->e_hash == hash && ip->e_addr >= 0x1000) {\n			rv.push_back(*ip);\n		}\n	}\n"))
c("hash-find-pred", (H, "	copy_if(er.first, er.second, back_inserter(rv), [=](const Cell &ip) { return ip.e_hash == hash && ip.e_addr >= 0x1000; });\n", "	const auto usable = [hash](const Cell &c) {\n		if (c.e_addr < 0x1000) return false;\n		return c.e_hash == hash;\n	};\n	copy_if(er.first, er.second, back_inserter(rv), usable);\n"))
c("hash-erase-early", (H, """	bool found = (ip < er.second);
	if (found) {
		*ip = Cell(0, 0);
		set_extent_dirty_locked(hash_to_extent_index(hash));
		BEESCOUNT(hash_erase);
""", """	if (ip >= er.second) {
		BEESCOUNT(hash_erase_miss);
		return;
	}
	{
		*ip = Cell(0, 0);
		set_extent_dirty_locked(hash_to_extent_index(hash));
		BEESCOUNT(hash_erase);
"""), (H, """	} else {
		BEESCOUNT(hash_erase_miss);
	}
}
""", """	}
}
"""))
c("hash-front-std", (H, """		auto sp = ip;
		auto dp = ip;
		--sp;
		// If we are deleting the last entry then don't copy it
		if (dp == er.second) {
			--sp;
			--dp;
			BEESCOUNT(hash_evict);
		}
		while (dp > er.first) {
			*dp-- = *sp--;
		}
""", """		auto dp = ip;
		// If we are deleting the last entry then don't copy it
		if (dp == er.second) {
			--dp;
			BEESCOUNT(hash_evict);
		}
		move_backward(er.first, dp, dp + 1);
"""))
c("hash-front-insert", (H, """	if (er.first[0] != mv) {
		er.first[0] = mv;
		set_extent_dirty_locked(hash_to_extent_index(hash));
		BEESCOUNT(hash_front);
	} else {
		BEESCOUNT(hash_front_already);
	}
""", """	Cell &front = *er.first;
	if (front == mv) {
		BEESCOUNT(hash_front_already);
	} else {
		front = mv;
		BEESCOUNT(hash_front);
		set_extent_dirty_locked(hash_to_extent_index(hash));
	}
"""))
c("hash-random-nogoto", (H, """			BEESCOUNT(hash_bump);
			case_cond = 1;
			goto ret_dirty;
""", """			BEESCOUNT(hash_bump);
			BEESCOUNT(hash_insert);
			set_extent_dirty_locked(hash_to_extent_index(hash));
			return found;
"""), (H, "		BEESCOUNT(hash_already);\n		case_cond = 2;\n		goto ret;\n", "		BEESCOUNT(hash_already);\n		return found;\n"), (H, "	set_extent_dirty_locked(hash_to_extent_index(hash));\nret:\n", "	set_extent_dirty_locked(hash_to_extent_index(hash));\n"))
c("hash-locals", (H, "	fetch_missing_extent_by_hash(hash);\n	BEESTOOLONG(\"erase hash \" << to_hex(hash) << \" addr \" << addr);\n	auto lock = lock_extent_by_hash(hash);\n", "	const auto extent_index = hash_to_extent_index(hash);\n	fetch_missing_extent_by_index(extent_index);\n	BEESTOOLONG(\"erase hash \" << to_hex(hash) << \" addr \" << addr);\n	auto lock = lock_extent_by_index(extent_index);\n"), (H, "		*ip = Cell(0, 0);\n		set_extent_dirty_locked(hash_to_extent_index(hash));\n", "		*ip = Cell(0, 0);\n		set_extent_dirty_locked(extent_index);\n"))
c("hash-open-helper", (H, "void\nBeesHashTable::open_file()\n{", """static
Fd
make_hash_file(int dir_fd, const string &filename, off_t size)
{
	const string tmp_filename = filename + ".tmp";
	BEESLOGINFO("Creating new hash table '" << tmp_filename << "'");
	unlinkat(dir_fd, tmp_filename.c_str(), 0);
	Fd fd = openat_or_die(dir_fd, tmp_filename, FLAGS_CREATE_FILE, 0700);
	ftruncate_or_die(fd, size);
	renameat_or_die(dir_fd, tmp_filename, dir_fd, filename);
	return fd;
}

void
BeesHashTable::open_file()
{"""), (H, """		string tmp_filename = m_filename + ".tmp";
		BEESNOTE("creating new hash table '" << tmp_filename << "'");
		BEESLOGINFO("Creating new hash table '" << tmp_filename << "'");
		unlinkat(m_ctx->home_fd(), tmp_filename.c_str(), 0);
		new_fd = openat_or_die(m_ctx->home_fd(), tmp_filename, FLAGS_CREATE_FILE, 0700);
		BEESNOTE("truncating new hash table '" << tmp_filename << "' size " << m_size << " (" << pretty(m_size) << ")");
		BEESLOGINFO("Truncating new hash table '" << tmp_filename << "' size " << m_size << " (" << pretty(m_size) << ")");
		ftruncate_or_die(new_fd, m_size);
		BEESNOTE("truncating new hash table '" << tmp_filename << "' -> '" << m_filename << "'");
		BEESLOGINFO("Truncating new hash table '" << tmp_filename << "' -> '" << m_filename << "'");
		renameat_or_die(m_ctx->home_fd(), tmp_filename, m_ctx->home_fd(), m_filename);
""", "		new_fd = make_hash_file(m_ctx->home_fd(), m_filename, m_size);\n"))
c("hash-range-tmp", (H, "	Bucket *pp = &m_bucket_ptr[hash % m_buckets];\n	Cell *bp = pp[0].p_cells;\n	Cell *ep = pp[1].p_cells;\n", "	const auto bucket_index = hash % m_buckets;\n	Bucket *const pp = m_bucket_ptr + bucket_index;\n	Cell *const bp = pp->p_cells;\n	Cell *const ep = (pp + 1)->p_cells;\n"))
c("hash-prefetch-wait", (H, """		if (m_stop_requested) {
			BEESLOGDEBUG("Stop requested in hash table prefetch");
			return;
		}
		m_stop_condvar.wait_for(lock, chrono::duration<double>(BEES_HASH_TABLE_ANALYZE_INTERVAL));
""", """		const bool stopping = m_stop_requested;
		if (stopping) {
			BEESLOGDEBUG("Stop requested in hash table prefetch");
			return;
		}
		const chrono::duration<double> interval(BEES_HASH_TABLE_ANALYZE_INTERVAL);
		m_stop_condvar.wait_for(lock, interval);
"""))
# ---------------------------------------------------------------- bees-resolve.cc
c("resolve-eof-helper", (V, "BeesBlockData\nBeesResolver::adjust_offset(const BeesFileRange &haystack, const BeesBlockData &needle)\n{", """static
bool
same_tail(off_t a, off_t b)
{
	return (a & BLOCK_MASK_CLONE) == (b & BLOCK_MASK_CLONE);
}

BeesBlockData
BeesResolver::adjust_offset(const BeesFileRange &haystack, const BeesBlockData &needle)
{"""), (V, "		if ( (haystack_size & BLOCK_MASK_CLONE) != (needle_bfr.end() & BLOCK_MASK_CLONE) ) {\n", "		if (!same_tail(haystack_size, needle_bfr.end())) {\n"))
c("resolve-eof-flat", (V, """		if (straw.is_data_equal(needle)) {
			BEESCOUNT(adjust_eof_hit);
			m_found_data = true;
			m_found_hash = true;
			return straw;
		}
""", """		const bool same = straw.is_data_equal(needle);
		if (same) {
			m_found_data = true;
			m_found_hash = true;
			BEESCOUNT(adjust_eof_hit);
			return straw;
		}
"""))
c("resolve-comp", (V, """		if (e.offset() > coff) {
			// this extent begins after the target block
			BEESCOUNT(adjust_offset_low);
			return BeesBlockData();
		}
		coff -= e.offset();
		if (e.size() <= coff) {
			// this extent ends before the target block
			BEESCOUNT(adjust_offset_high);
			return BeesBlockData();
		}
		haystack_offset = e.begin() + coff;
""", """		const off_t extent_offset = e.offset();
		if (coff < extent_offset) {
			// this extent begins after the target block
			BEESCOUNT(adjust_offset_low);
			return BeesBlockData();
		}
		const off_t delta = coff - extent_offset;
		if (!(delta < e.size())) {
			// this extent ends before the target block
			BEESCOUNT(adjust_offset_high);
			return BeesBlockData();
		}
		haystack_offset = e.begin() + delta;
"""))
c("resolve-straw", (V, """	// Straw cannot extend beyond end of haystack
	if (haystack_offset + needle.size() > haystack_size) {
""", """	// Straw cannot extend beyond end of haystack
	const off_t straw_end = haystack_offset + needle_len;
	if (straw_end > haystack_size) {
"""))
c("resolve-hashmiss", (V, """	if (straw.hash() != needle.hash()) {
		// Not the same hash or data, try next block
		BEESCOUNT(adjust_miss);
		return BeesBlockData();
	}

	// Found the hash but not the data.  Yay!
	m_found_hash = true;
""", """	m_found_hash = m_found_hash || straw.hash() == needle.hash();
	if (straw.hash() != needle.hash()) {
		// Not the same hash or data, try next block
		BEESCOUNT(adjust_miss);
		return BeesBlockData();
	}
"""))
c("chase-addr", (V, "	if (file_addr.get_physical_or_zero() != m_addr.get_physical_or_zero()) {\n", "	const bool same_block = file_addr.get_physical_or_zero() == m_addr.get_physical_or_zero();\n	if (!same_block) {\n"))
c("chase-end", (V, "	off_t end_offset = min(file_size, bior_offset + needle_bbd.size());\n	BeesBlockData haystack_bbd(file_fd, bior_offset, end_offset - bior_offset);\n", "	off_t end_offset = bior_offset + needle_bbd.size();\n	if (end_offset > file_size) {\n		end_offset = file_size;\n	}\n	const off_t haystack_len = end_offset - bior_offset;\n	BeesBlockData haystack_bbd(file_fd, bior_offset, haystack_len);\n"))
c("chase-dst", (V, "	BeesFileRange dst_bfr(BeesFileId(haystack_bbd.fd()), haystack_bbd.begin(), haystack_bbd.end());\n\n	return dst_bfr;\n", "	const BeesFileId dst_fid(haystack_bbd.fd());\n	return BeesFileRange(dst_fid, haystack_bbd.begin(), haystack_bbd.end());\n"))
c("replace-src-flat", (V, """		if (m_ctx->dedup(brp)) {
			BEESCOUNT(replacesrc_dedup_hit);
			m_found_dup = true;
		} else {
			BEESCOUNT(replacesrc_dedup_miss);
		}
		return false; // i.e. continue
""", """		const bool deduped = m_ctx->dedup(brp);
		if (!deduped) {
			BEESCOUNT(replacesrc_dedup_miss);
			return false;
		}
		BEESCOUNT(replacesrc_dedup_hit);
		m_found_dup = true;
		return false; // i.e. continue
"""))
c("replace-overlap", (V, "		if (i_bfr.overlaps(j_bfr)) {\n", "		if (j_bfr.overlaps(i_bfr)) {\n"), (V, "		if (dst_bfr.overlaps(src_bfr)) {\n", "		const bool overlapping = src_bfr.overlaps(dst_bfr);\n		if (overlapping) {\n"))
c("matches-iter", (V, "	for (auto ino_off_root : m_biors) {\n		if (m_wrong_data) {\n			return;\n		}\n", "	for (size_t i = 0; i < m_biors.size(); ++i) {\n		const auto &ino_off_root = m_biors[i];\n		if (m_wrong_data) {\n			return;\n		}\n"))
c("visit-flat", (V, "			if (new_range) {\n				stop_now = visitor(new_range);\n			} else {", "			if (!!new_range) {\n				stop_now = visitor(new_range);\n			} else {"), (V, "		// });\n\n		if (stop_now) {\n			break;\n		}\n	}\n	return stop_now;\n", "		// });\n\n		if (stop_now) {\n			return true;\n		}\n	}\n	return false;\n"))
c("find-one", (V, "	if (m_ranges.empty()) {\n		return BeesFileRange();\n	} else {\n		return *m_ranges.begin();\n	}\n", "	return m_ranges.empty() ? BeesFileRange() : *m_ranges.begin();\n"))
c("addr-order", (V, "	m_biors.clear();\n	m_ranges.clear();\n	m_addr = new_addr;\n	m_bior_count = 0;\n\n	auto rv = m_ctx->resolve_addr(m_addr);\n	m_biors = rv.m_biors;\n	m_is_toxic = rv.m_is_toxic;\n", "	m_ranges.clear();\n	m_addr = new_addr;\n\n	const auto rv = m_ctx->resolve_addr(new_addr);\n	m_is_toxic = rv.m_is_toxic;\n	m_biors = rv.m_biors;\n"))
c("replace-dst-helper", (V, "BeesRangePair\nBeesResolver::replace_dst(const BeesFileRange &dst_bfr_in)\n{", """static
bool
same_physical(const BeesAddress &a, const BeesAddress &b)
{
	return a.get_physical_or_zero() == b.get_physical_or_zero();
}

BeesRangePair
BeesResolver::replace_dst(const BeesFileRange &dst_bfr_in)
{"""), (V, "		if (bbd.addr().get_physical_or_zero() == src_bbd.addr().get_physical_or_zero()) {", "		if (same_physical(bbd.addr(), src_bbd.addr())) {"))
# ---------------------------------------------------------------- bees-roots.cc
c("inode-helper", (R, "bool\nBeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)\n{", """static
bool
inode_is_scannable(const shared_ptr<BeesContext> &ctx, uint64_t subvol, uint64_t inode)
{
	BtrfsInodeFetcher inode_btf(ctx->root_fd());
	const auto inode_item = inode_btf.stat(subvol, inode);
	if (!inode_item) {
		return false;
	}
	const auto flags = inode_item.inode_flags();
	if (0 != (flags & BTRFS_INODE_NODATASUM)) {
		BEESLOGDEBUG("unsupported inode flags for ref at root " << subvol << " ino " << inode << ": " << btrfs_inode_flags_ntoa(flags));
		return false;
	}
	return true;
}

bool
BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
{"""), (R, """		BtrfsInodeFetcher inode_btf(m_ctx->root_fd());
		const auto inode_item = inode_btf.stat(subvol, inode);
		if (!!inode_item) {
			const auto flags = inode_item.inode_flags();
			if (0 != (flags & BTRFS_INODE_NODATASUM)) {
				BEESLOGDEBUG("unsupported inode flags for ref at root " << subvol << " ino " << inode << ": " << btrfs_inode_flags_ntoa(flags));
			} else {
				run_the_task = true;
			}
		}
	});
	if (run_the_task) {""", """		run_the_task = inode_is_scannable(m_ctx, subvol, inode);
	});
	if (run_the_task) {"""))
c("inode-task-var", (R, """		Task(task_title, [bfc]() {
			BEESNOTE("crawl_one_inode " << bfc->m_hold->get());
			if (bfc->scan_one_ref()) {
				// Append the current task to itself to make
				// sure we keep a worker processing this file
				Task::current_task().append(Task::current_task());
			}
		}).run();
""", """		const Task scan_file_task(task_title, [bfc]() {
			BEESNOTE("crawl_one_inode " << bfc->m_hold->get());
			const bool again = bfc->scan_one_ref();
			if (!again) {
				return;
			}
			const auto self = Task::current_task();
			self.append(self);
		});
		scan_file_task.run();
"""))
c("throttle-early", (R, "	// Do nothing if we are throttled\n	if (should_throttle()) return;\n\n	unique_lock<mutex> lock(m_mutex);\n	const auto size_tiers_copy = m_size_tiers;\n	lock.unlock();\n", "	// Do nothing if we are throttled\n	const bool throttled = should_throttle();\n	if (throttled) {\n		return;\n	}\n\n	decltype(m_size_tiers) size_tiers_copy;\n	{\n		unique_lock<mutex> lock(m_mutex);\n		size_tiers_copy = m_size_tiers;\n	}\n"))
c("scan-iter", (R, "		for (const auto &i : size_tiers_copy) {\n			i.second->run_task();\n		}\n", "		for (auto it = size_tiers_copy.cbegin(); it != size_tiers_copy.cend(); ++it) {\n			const auto &tier = it->second;\n			tier->run_task();\n		}\n"))
c("ref-defer", (R, """	auto inode_mutex = m_ctx->get_inode_mutex(bior.m_inum);
	auto inode_lock = inode_mutex->try_lock(Task::current_task());
	if (!inode_lock) {
		BEESCOUNT(extent_deferred_inode);
		return true;
	}

	BEESNOTE("scanning root \"""", """	const auto inode_mutex = m_ctx->get_inode_mutex(bior.m_inum);
	const auto this_task = Task::current_task();
	const auto inode_lock = inode_mutex->try_lock(this_task);
	const bool locked = !!inode_lock;
	if (!locked) {
		BEESCOUNT(extent_deferred_inode);
		return true;
	}

	BEESNOTE("scanning root \""""))
c("map-count", (R, "        } else if (rv_count >= BEES_MAX_EXTENT_REF_COUNT) {\n", "        }\n	const bool overflow = rv_count >= BEES_MAX_EXTENT_REF_COUNT;\n	if (overflow) {\n"))
c("map-ioctl-helper", ("src/bees-roots.cc", "void\nBeesScanModeExtent::SizeTier::create_extent_map(", """static
void
lookup_extent_refs(BtrfsIoctlLogicalInoArgs &log_ino, const int root_fd)
{
	const auto lock = MultiLocker::get_lock("logical_ino");
	Timer resolve_timer;
	if (log_ino.do_ioctl_nothrow(root_fd)) {
		BEESCOUNT(extent_ok);
	} else {
		BEESCOUNT(extent_fail);
	}
	BEESCOUNTADD(extent_ms, resolve_timer.age() * 1000);
}

void
BeesScanModeExtent::SizeTier::create_extent_map("""), (R, """		auto lock = MultiLocker::get_lock("logical_ino");

		BEESNOTE("Resolving bytenr " << to_hex(bytenr) << " refs " << log_ino.m_iors.size());
		BEESTOOLONG("Resolving bytenr " << to_hex(bytenr) << " refs " << log_ino.m_iors.size());

		// Time how long this takes
		Timer resolve_timer;

		if (log_ino.do_ioctl_nothrow(m_ctx->root_fd())) {
			BEESCOUNT(extent_ok);
		} else {
			BEESCOUNT(extent_fail);
		}
		const auto resolve_age = resolve_timer.age();

		BEESCOUNTADD(extent_ms, resolve_age * 1000);
		lock.reset();
		bees_throttle(resolve_age, "extent_map");
""", """		Timer call_timer;
		lookup_extent_refs(log_ino, m_ctx->root_fd());
		bees_throttle(call_timer.age(), "extent_map");
"""))
c("map-extref", (R, """			const auto length = bti.file_extent_logical_bytes();
			const ExtentRef extref = {
				.m_root = i.m_root,
				.m_inum = i.m_inum,
				.m_offset = i.m_offset,
				.m_length = length,
				.m_hold = hold,
			};

			refs_list->push_back(extref);
""", """			ExtentRef extref;
			extref.m_root = i.m_root;
			extref.m_inum = i.m_inum;
			extref.m_offset = i.m_offset;
			extref.m_length = bti.file_extent_logical_bytes();
			extref.m_hold = hold;
			refs_list->push_back(extref);
"""))
c("map-emplace", (R, """			const auto length = bti.file_extent_logical_bytes();
			const ExtentRef extref = {
				.m_root = i.m_root,
				.m_inum = i.m_inum,
				.m_offset = i.m_offset,
				.m_length = length,
				.m_hold = hold,
			};

			refs_list->push_back(extref);
""", """			refs_list->push_back((ExtentRef) {
				.m_root = i.m_root,
				.m_inum = i.m_inum,
				.m_offset = i.m_offset,
				.m_length = bti.file_extent_logical_bytes(),
				.m_hold = hold,
			});
"""))
c("map-task-front", (R, """			const auto extref = *(refs_list->begin());
			refs_list->pop_front();
			catch_all([&]() {
				// Exceptions in scan_one_ref make us forget about this ref
				const bool restart_ref = bec->scan_one_ref(extref);
				if (restart_ref) {
					refs_list->push_front(extref);
				}
			});
""", """			const ExtentRef extref = refs_list->front();
			refs_list->pop_front();
			bool restart_ref = false;
			catch_all([&]() {
				restart_ref = bec->scan_one_ref(extref);
			});
			if (restart_ref) {
				refs_list->push_front(extref);
			}
"""))
c("map-task-flip", (R, """		if (refs_list->empty()) {
			// We might be throttled and we're about to exit a task, so restart our map task
			if (!should_throttle()) {
				next_task.idle();
			}
		} else {
			// Run the next ref
			Task::current_task().run();
		}
""", """		if (!refs_list->empty()) {
			// Run the next ref
			Task::current_task().run();
			return;
		}
		// We might be throttled and we're about to exit a task, so restart our map task
		if (should_throttle()) {
			return;
		}
		next_task.idle();
"""))
c("next-flip", (R, """		if (this_length < lower_size_bound || this_length > upper_size_bound) {
			MNE_DEBUG(""", """		const bool in_range = this_length >= lower_size_bound && this_length <= upper_size_bound;
		if (!in_range) {
			MNE_DEBUG("""))
c("next-hold", (R, "		auto next_hold = m_crawl->hold_state(next_state);\n		swap(current_hold, next_hold);\n", "		const auto prev_hold = current_hold;\n		current_hold = m_crawl->hold_state(next_state);\n"))
c("next-skip-helper", (R, "			const auto new_bytenr = bti.objectid();\n			if (new_bytenr <= next_bytenr) {", "			const auto new_bytenr = bti.objectid();\n			const bool flopped = !(new_bytenr > next_bytenr);\n			if (flopped) {"))
c("next-task", (R, """		Task create_map_task(oss.str(), [sft, this_bytenr, hold_state, this_length, find_next_task]() {
			sft->create_extent_map(this_bytenr, hold_state, this_length, find_next_task);
			BEESCOUNT(crawl_extent);
		});
		create_map_task.run();
""", """		const auto map_fn = [sft, this_bytenr, hold_state, this_length, find_next_task]() {
			sft->create_extent_map(this_bytenr, hold_state, this_length, find_next_task);
			BEESCOUNT(crawl_extent);
		};
		Task(oss.str(), map_fn).run();
"""))
c("next-for", (R, "	while (!m_crawl->deferred()) {\n		if (debug_oss) {\n			// There is a lot", "	for (;;) {\n		if (m_crawl->deferred()) {\n			break;\n		}\n		if (debug_oss) {\n			// There is a lot"))
c("init-tiers", (R, """		const auto found = m_size_tiers.find(subvol);
		if (found == m_size_tiers.end()) {
			lock.unlock();""", """		const bool known = m_size_tiers.count(subvol) > 0;
		if (!known) {
			lock.unlock();"""))
c("save-helper", (R, """	state_to_stream(ofs);
	const auto crawl_saved = m_crawl_dirty;

	if (ofs.str().empty()) {
		BEESLOGWARN("Crawl state empty!");
		m_crawl_clean = crawl_saved;
		return;
	}

	lock.unlock();

	// This may throw an exception, so we didn't save the state we thought we did.
	m_crawl_state_file.write(ofs.str());
""", """	const auto crawl_saved = m_crawl_dirty;
	state_to_stream(ofs);
	const string state_text = ofs.str();

	if (state_text.empty()) {
		BEESLOGWARN("Crawl state empty!");
		m_crawl_clean = crawl_saved;
		return;
	}

	lock.unlock();

	// This may throw an exception, so we didn't save the state we thought we did.
	m_crawl_state_file.write(state_text);
"""))
c("save-stream", (R, """	for (auto i : m_root_crawl_map) {
		auto ibcs = i.second->get_state_begin();
		if (ibcs.m_max_transid) {
			ofs << "root "        << ibcs.m_root                 << " ";
""", """	for (const auto &i : m_root_crawl_map) {
		const auto ibcs = i.second->get_state_begin();
		if (!ibcs.m_max_transid) {
			continue;
		}
		{
			ofs << "root "        << ibcs.m_root                 << " ";
"""))
c("save-stream-helper", (R, "ostream &\nBeesRoots::state_to_stream(ostream &ofs)\n{", """static
void
write_crawl_state(ostream &ofs, const BeesCrawlState &ibcs)
{
	ofs << "root " << ibcs.m_root << " objectid " << ibcs.m_objectid << " offset " << ibcs.m_offset
		<< " min_transid " << ibcs.m_min_transid << " max_transid " << ibcs.m_max_transid
		<< " started " << ibcs.m_started << " start_ts " << format_time(ibcs.m_started) << "\\n";
}

ostream &
BeesRoots::state_to_stream(ostream &ofs)
{"""), (R, """			ofs << "root "        << ibcs.m_root                 << " ";
			ofs << "objectid "    << ibcs.m_objectid             << " ";
			ofs << "offset "      << ibcs.m_offset               << " ";
			ofs << "min_transid " << ibcs.m_min_transid          << " ";
			ofs << "max_transid " << ibcs.m_max_transid          << " ";
			ofs << "started "     << ibcs.m_started              << " ";
			ofs << "start_ts "    << format_time(ibcs.m_started) << "\\n";
""", "			write_crawl_state(ofs, ibcs);\n"))
c("erase-find", (R, """	if (m_root_crawl_map.count(bcs.m_root)) {
		m_root_crawl_map.erase(bcs.m_root);
		++m_crawl_dirty;
	}
""", """	const auto found = m_root_crawl_map.find(bcs.m_root);
	if (found == m_root_crawl_map.end()) {
		return;
	}
	m_root_crawl_map.erase(found);
	++m_crawl_dirty;
"""))
c("min-iter", (R, """	for (auto i : m_root_crawl_map) {
		// Do not count subvols that are isolated by btrfs send workaround.
		// They will not advance until the workaround is removed or they are set read-write.
		catch_all([&](){
			if (!is_root_ro(i.first)) {
				rv = min(rv, i.second->get_state_end().m_min_transid);
			}
		});
""", """	for (const auto &i : m_root_crawl_map) {
		// Do not count subvols that are isolated by btrfs send workaround.
		// They will not advance until the workaround is removed or they are set read-write.
		catch_all([&](){
			if (is_root_ro(i.first)) {
				return;
			}
			const auto this_min = i.second->get_state_end().m_min_transid;
			if (this_min < rv) {
				rv = this_min;
			}
		});
"""))
c("file-gen", (R, "	if (gen < m_state.m_min_transid) {\n		BEESCOUNT(crawl_gen_low);\n		// The header", "	const auto min_gen = m_state.m_min_transid;\n	if (gen < min_gen) {\n		BEESCOUNT(crawl_gen_low);\n		// The header"))
c("file-black", (R, """				if (m_ctx->is_blacklisted(bfi)) {
					BEESCOUNT(crawl_blacklisted);
				} else {
					BeesFileRange bfr(bfi, bti.offset(), bti.offset() + len);
					BEESCOUNT(crawl_push);
""", """				const bool blacklisted = m_ctx->is_blacklisted(bfi);
				if (blacklisted) {
					BEESCOUNT(crawl_blacklisted);
				} else {
					const auto begin = bti.offset();
					BeesFileRange bfr(bfi, begin, begin + len);
					BEESCOUNT(crawl_push);
"""))
c("file-again", (R, """					if (!scan_again) {
						m_hold = new_holder;
					} else {
						BEESCOUNT(crawl_again);
						// Scan this ref again when the extent is available
						m_offset = bti.offset();
					}
""", """					if (scan_again) {
						BEESCOUNT(crawl_again);
						// Scan this ref again when the extent is available
						m_offset = bti.offset();
					} else {
						m_hold = new_holder;
					}
"""))
c("file-if", (R, """	const auto type = bti.file_extent_type();
	switch (type) {
		default:
			BEESLOGDEBUG("Unhandled file extent type " << btrfs_search_type_ntoa(type) << " in root " << m_state.m_root << " " << bti);
			BEESCOUNT(crawl_unknown);
			break;
		case BTRFS_FILE_EXTENT_INLINE:
			// Ignore these for now.
			// TODO:  replace with out-of-line dup extents
			BEESCOUNT(crawl_inline);
			break;
""", """	const auto type = bti.file_extent_type();
	if (type == BTRFS_FILE_EXTENT_INLINE) {
		// Ignore these for now.
		// TODO:  replace with out-of-line dup extents
		BEESCOUNT(crawl_inline);
		return true;
	}
	switch (type) {
		default:
			BEESLOGDEBUG("Unhandled file extent type " << btrfs_search_type_ntoa(type) << " in root " << m_state.m_root << " " << bti);
			BEESCOUNT(crawl_unknown);
			break;
"""))
c("crawl-wait", (R, """		unique_lock<mutex> lock(m_stop_mutex);
		if (m_stop_requested) {
			BEESLOGDEBUG("Stop requested in crawl thread");
			break;
		}
		m_stop_condvar.wait_for(lock, chrono::duration<double>(poll_time));
""", """		{
			unique_lock<mutex> lock(m_stop_mutex);
			if (!m_stop_requested) {
				m_stop_condvar.wait_for(lock, chrono::duration<double>(poll_time));
				continue;
			}
		}
		BEESLOGDEBUG("Stop requested in crawl thread");
		break;
"""))
c("crawl-changed", (R, "		if (new_transid != last_transid) {\n			// Don't hold", "		const bool changed = new_transid != last_transid;\n		last_transid = new_transid;\n		if (changed) {\n			// Don't hold"), (R, "			crawl_new.run();\n		}\n		last_transid = new_transid;\n", "			crawl_new.run();\n		}\n"))
c("wb-helper", ("src/bees-roots.cc", """	while (true) {
		BEESNOTE("idle, " << (m_crawl_clean != m_crawl_dirty ? "dirty" : "clean"));

		catch_all([&]() {
			BEESNOTE("saving crawler state");
			state_save();
		});
""", """	const auto save_now = [this]() {
		catch_all([&]() {
			BEESNOTE("saving crawler state");
			state_save();
		});
	};
	while (true) {
		BEESNOTE("idle, " << (m_crawl_clean != m_crawl_dirty ? "dirty" : "clean"));

		save_now();
"""), (R, """			catch_all([&]() {
				BEESNOTE("flushing crawler state");
				state_save();
			});
			return;
""", """			save_now();
			return;
"""))
c("insert-emplace", (R, """	if (!m_root_crawl_map.count(new_bcs.m_root)) {
		auto new_bcp = make_shared<BeesCrawl>(m_ctx, new_bcs);
		auto new_pair = make_pair(new_bcs.m_root, new_bcp);
		m_root_crawl_map.insert(new_pair);
		++m_crawl_dirty;
	}
	const auto found = m_root_crawl_map.find(new_bcs.m_root);
	THROW_CHECK0(runtime_error, found != m_root_crawl_map.end());
	found->second->deferred(false);
	return found->second;
""", """	auto found = m_root_crawl_map.find(new_bcs.m_root);
	if (found == m_root_crawl_map.end()) {
		const auto new_bcp = make_shared<BeesCrawl>(m_ctx, new_bcs);
		found = m_root_crawl_map.insert(make_pair(new_bcs.m_root, new_bcp)).first;
		++m_crawl_dirty;
	}
	const auto crawl = found->second;
	crawl->deferred(false);
	return crawl;
"""))
c("newcrawl-loop", (R, """	while (new_bcs.m_root) {
		BEESTRACE("excess_roots.erase(" << new_bcs.m_root << ")");
		excess_roots.erase(new_bcs.m_root);
		BEESTRACE("insert_root(" << new_bcs << ")");
		insert_root(new_bcs);
		BEESCOUNT(crawl_create);
		BEESTRACE("next_root(" << new_bcs.m_root << ")");
		new_bcs.m_root = next_root(new_bcs.m_root);
	}
""", """	for (uint64_t root = new_bcs.m_root; root; root = next_root(root)) {
		new_bcs.m_root = root;
		BEESTRACE("insert_root(" << new_bcs << ")");
		insert_root(new_bcs);
		BEESCOUNT(crawl_create);
		excess_roots.erase(root);
	}
"""))
c("load-helper", (R, "void\nBeesRoots::state_load()\n{", """static
map<string, uint64_t>
parse_state_line(const string &line)
{
	map<string, uint64_t> d;
	const auto words = split(" ", line);
	for (auto it = words.begin(); it < words.end(); ++it) {
		const string key = *it;
		++it;
		THROW_CHECK1(out_of_range, words.size(), it < words.end());
		const uint64_t val = from_hex(*it);
		const auto result = d.insert(make_pair(key, val));
		THROW_CHECK0(runtime_error, result.second);
	}
	return d;
}

void
BeesRoots::state_load()
{"""), (R, """		map<string, uint64_t> d;
		auto words = split(" ", line);
		for (auto it = words.begin(); it < words.end(); ++it) {
			auto it1 = it;
			++it;
			THROW_CHECK1(out_of_range, words.size(), it < words.end());
			string key = *it1;
			uint64_t val = from_hex(*it);
			BEESTRACE("key " << key << " val " << val);
			auto result = d.insert(make_pair(key, val));
			THROW_CHECK0(runtime_error, result.second);
		}
""", "		const auto d = parse_state_line(line);\n"))
c("load-bad", (R, "		if (loaded_state.m_min_transid == numeric_limits<uint64_t>::max()) {\n", "		const auto bad_transid = numeric_limits<uint64_t>::max();\n		if (loaded_state.m_min_transid == bad_transid) {\n"), (R, "		if (loaded_state.m_max_transid == numeric_limits<uint64_t>::max()) {\n", "		if (loaded_state.m_max_transid == bad_transid) {\n"))
c("start-order", (R, """	m_crawl_thread.exec([&]() {
		// Measure current transid before creating any crawlers
		catch_all([&]() {
			transid_max_nocache();
		});

		// Make sure we have a full complement of crawlers
		catch_all([&]() {
			state_load();
		});

		m_writeback""", """	m_crawl_thread.exec([this]() {
		const auto try_transid = [this]() { transid_max_nocache(); };
		const auto try_load = [this]() { state_load(); };
		catch_all(try_transid);
		catch_all(try_load);

		m_writeback"""))
c("stopreq-lock", (R, "	BEESNOTE(\"stopping BeesRoots\");\n	unique_lock<mutex> lock(m_stop_mutex);\n	m_stop_requested = true;\n	m_stop_condvar.notify_all();\n", "	BEESNOTE(\"stopping BeesRoots\");\n	{\n		const lock_guard<mutex> lock(m_stop_mutex);\n		m_stop_requested = true;\n	}\n	m_stop_condvar.notify_all();\n"))
c("openat-early", (R, """	if (can_openat2) {
		open_how how {
			.flags = flags,
			.resolve = RESOLVE_BENEATH | RESOLVE_NO_SYMLINKS | RESOLVE_NO_XDEV,
		};
		const auto rv = openat2(parent_fd, pathname, &how, sizeof(open_how));
		if (rv == -1 && errno == ENOSYS) {
			BEESLOGWARN("openat2 returns ENOSYS, falling back to openat");
			can_openat2 = false;
		} else {
			return Fd(rv);
		}
	}
""", """	if (can_openat2) {
		open_how how {};
		how.flags = flags;
		how.resolve = RESOLVE_BENEATH | RESOLVE_NO_SYMLINKS | RESOLVE_NO_XDEV;
		const int rv = openat2(parent_fd, pathname, &how, sizeof(how));
		const bool unsupported = rv == -1 && errno == ENOSYS;
		if (!unsupported) {
			return Fd(rv);
		}
		BEESLOGWARN("openat2 returns ENOSYS, falling back to openat");
		can_openat2 = false;
	}
"""))
c("open-check-helper", (R, "Fd\nBeesRoots::open_root_ino_nocache(uint64_t root, uint64_t ino)\n{", """static
bool
is_same_file(const Fd &fd, const Fd &root_fd, const uint64_t root, const uint64_t ino)
{
	Stat file_stat(fd);
	if (file_stat.st_ino != ino) {
		BEESCOUNT(open_wrong_ino);
		return false;
	}
	if (btrfs_get_root_id(fd) != root) {
		BEESCOUNT(open_wrong_root);
		return false;
	}
	Stat root_stat(root_fd);
	if (root_stat.st_dev != file_stat.st_dev) {
		BEESCOUNT(open_wrong_dev);
		return false;
	}
	return true;
}

Fd
BeesRoots::open_root_ino_nocache(uint64_t root, uint64_t ino)
{"""), (R, """		// Correct inode?
		Stat file_stat(rv);
		if (file_stat.st_ino != ino) {
			BEESLOGWARN("Opening " << name_fd(root_fd) << "/" << file_path << " found wrong inode " << file_stat.st_ino << " instead of " << ino);
			rv = Fd();
			BEESCOUNT(open_wrong_ino);
			break;
		}

		// Correct root?
		auto file_root = btrfs_get_root_id(rv);
		if (file_root != root) {
			BEESLOGWARN("Opening " << name_fd(root_fd) << "/" << file_path << " found wrong root " << file_root << " instead of " << root);
			rv = Fd();
			BEESCOUNT(open_wrong_root);
			break;
		}

		// Same filesystem?
		Stat root_stat(root_fd);
		if (root_stat.st_dev != file_stat.st_dev) {
			BEESLOGWARN("Opening root " << name_fd(root_fd) << " path " << file_path << " found path st_dev " << file_stat.st_dev << " but root st_dev is " << root_stat.st_dev);
			rv = Fd();
			BEESCOUNT(open_wrong_dev);
			break;
		}
""", """		if (!is_same_file(rv, root_fd, root, ino)) {
			rv = Fd();
			break;
		}
"""))
c("open-attr", (R, """		int attr = ioctl_iflags_get(rv);
		if (attr & FS_NOCOW_FL) {
			BEESLOGINFO("Opening " << name_fd(rv) << " found FS_NOCOW_FL flag in " << to_hex(attr));
			rv = Fd();
			BEESCOUNT(open_wrong_flags);
			break;
		}

		BEESCOUNT(open_hit);
		return rv;
	}
""", """		const int attr = ioctl_iflags_get(rv);
		const bool nocow = attr & FS_NOCOW_FL;
		if (!nocow) {
			BEESCOUNT(open_hit);
			return rv;
		}
		BEESLOGINFO("Opening " << name_fd(rv) << " found FS_NOCOW_FL flag in " << to_hex(attr));
		BEESCOUNT(open_wrong_flags);
		break;
	}
"""))
c("open-tmp-helper", (R, """	{
		unique_lock<mutex> lock(m_tmpfiles_mutex);
		auto found = m_tmpfiles.find(BeesFileId(root, ino));
		if (found != m_tmpfiles.end()) {
			BEESCOUNT(open_tmpfile);
			return found->second;
		}
	}
""", """	const BeesFileId wanted(root, ino);
	unique_lock<mutex> lock(m_tmpfiles_mutex);
	const auto found = m_tmpfiles.find(wanted);
	if (found != m_tmpfiles.end()) {
		BEESCOUNT(open_tmpfile);
		return found->second;
	}
	lock.unlock();
"""))
c("root-ro-flat", (R, """	// If we are not working around btrfs send, all roots are rw to us
	if (!m_workaround_btrfs_send) {
		return false;
	}

	// If it's not a subvol tree, it's rw
	if (!is_subvol_tree(root)) {
		return false;
	}
""", """	// If we are not working around btrfs send, or it is not a subvol tree, it is rw to us
	if (!m_workaround_btrfs_send || !is_subvol_tree(root)) {
		return false;
	}
"""), (R, """	if (!item || item.root_flags() & BTRFS_ROOT_SUBVOL_RDONLY) {
		return true;
	}
	return false;
""", """	if (!item) {
		return true;
	}
	return 0 != (item.root_flags() & BTRFS_ROOT_SUBVOL_RDONLY);
"""))
c("nextroot-iter", (R, """		for (auto i : sk.m_result) {
			sk.next_min(i, BTRFS_ROOT_BACKREF_KEY);
			if (i.type == BTRFS_ROOT_BACKREF_KEY) {
				// BEESLOGDEBUG("Found root " << i.objectid << " parent " << i.offset << " transid " << i.transid);
				return i.objectid;
			}
		}
""", """		for (const auto &i : sk.m_result) {
			sk.next_min(i, BTRFS_ROOT_BACKREF_KEY);
			if (i.type != BTRFS_ROOT_BACKREF_KEY) {
				continue;
			}
			return i.objectid;
		}
"""))
c("tmp-erase", (R, "	auto found = m_tmpfiles.find(fid);\n	THROW_CHECK1(runtime_error, fd, found != m_tmpfiles.end());\n	m_tmpfiles.erase(found);\n", "	const auto erased = m_tmpfiles.erase(fid);\n	THROW_CHECK1(runtime_error, fd, erased == 1);\n"))
c("restart-flip", (R, """	if (m_finished) {
		m_deferred = true;
		BEESLOGINFO("Crawl finished " << crawl_state);
	} else {
		// Log""", """	if (m_finished) {
		m_deferred = true;
		BEESLOGINFO("Crawl finished " << crawl_state);
		return false;
	}
	{
		// Log"""), (R, "		BEESLOGINFO(\"Crawl started \" << crawl_state);\n	}\n\n	return !m_finished;\n", "		BEESLOGINFO(\"Crawl started \" << crawl_state);\n	}\n\n	return true;\n"))
c("restart-newstate", (R, """		crawl_state.m_min_transid = crawl_state.m_max_transid;
		crawl_state.m_max_transid = roots->transid_max();
		crawl_state.m_objectid = 0;
		crawl_state.m_offset = 0;
		crawl_state.m_started = current_time;
		BEESCOUNT(crawl_restart);
		set_state(crawl_state);
""", """		auto next_state = crawl_state;
		next_state.m_objectid = 0;
		next_state.m_offset = 0;
		next_state.m_started = current_time;
		next_state.m_min_transid = crawl_state.m_max_transid;
		next_state.m_max_transid = roots->transid_max();
		BEESCOUNT(crawl_restart);
		set_state(next_state);
		crawl_state = next_state;
"""))
c("fetch-ro-helper", (R, """			crawl_state.m_max_transid = max(next_transid, crawl_state.m_max_transid);
""", """			if (next_transid > crawl_state.m_max_transid) {
				crawl_state.m_max_transid = next_transid;
			}
"""))
c("fetch-empty", (R, "	if (m_finished || old_state.m_max_transid <= old_state.m_min_transid) {\n", "	const bool empty_interval = old_state.m_max_transid <= old_state.m_min_transid;\n	if (empty_interval || m_finished) {\n"))
c("fetch-catch", (R, """	if (catch_all([&]() {
		m_next_extent_data = m_btof.lower_bound(old_state.m_objectid);
	})) {
		// Whoops""", """	const bool failed = catch_all([&]() {
		m_next_extent_data = m_btof.lower_bound(old_state.m_objectid);
	});
	if (failed) {
		// Whoops"""))
c("harder-do", (R, """	while (!m_next_extent_data) {
		const bool progress_made = fetch_extents();
		if (!progress_made) {
			return;
		}
	}
""", """	while (!m_next_extent_data && fetch_extents()) {
		// keep going
	}
"""))
c("pop-tmp", (R, "	BtrfsTreeItem rv;\n	swap(rv, m_next_extent_data);\n	return bti_to_bfr(rv);\n", "	const auto item = m_next_extent_data;\n	m_next_extent_data = BtrfsTreeItem();\n	const auto rv = bti_to_bfr(item);\n	return rv;\n"))
# ---------------------------------------------------------------- lib/task.cc
K = "lib/task.cc"
c("task-exec-else", (K, """		if (m_is_running) {
			m_run_again = true;
			return;
		} else {
			m_run_now = false;
			m_is_running = true;
		}

		TaskStatePtr this_task""", """		if (m_is_running) {
			m_run_again = true;
			return;
		}
		m_is_running = true;
		m_run_now = false;

		TaskStatePtr this_task"""))
c("task-exec-again", (K, """		bool run_idle = false;
		if (m_run_again) {
			m_run_again = false;
			if (m_idle) {
				// All the way back to the end of the line
				run_idle = true;
			} else {
				// Insert after any dependents waiting for this Task
				m_post_exec_queue.push_back(shared_from_this());
			}
		}
""", """		const bool run_again = m_run_again;
		m_run_again = false;
		const bool run_idle = run_again && m_idle;
		if (run_again && !run_idle) {
			// Insert after any dependents waiting for this Task
			m_post_exec_queue.push_back(shared_from_this());
		}
"""))
c("task-run-helper", (K, "		bool					m_idle = false;\n", "		bool					m_idle = false;\n\n		/// Mark the task as queued.  Returns true if the caller must queue it.\n		bool queue_nolock();\n"),
  (K, "	void\n	TaskState::run()\n	{", """	bool
	TaskState::queue_nolock()
	{
		if (m_run_now) {
			return false;
		}
		m_run_now = true;
		if (m_is_running) {
			m_run_again = true;
			return false;
		}
		return true;
	}

	void
	TaskState::run()
	{"""), (K, """		m_idle = false;
		if (m_run_now) {
			return;
		}
		m_run_now = true;
		if (m_is_running) {
			m_run_again = true;
		} else {
			lock.unlock();
			TaskMasterState::push_back(shared_from_this());
		}
""", """		m_idle = false;
		const bool queue_it = queue_nolock();
		lock.unlock();
		if (queue_it) {
			TaskMasterState::push_back(shared_from_this());
		}
"""), (K, """		m_idle = true;
		if (m_run_now) {
			return;
		}
		m_run_now = true;
		if (m_is_running) {
			m_run_again = true;
		} else {
			lock.unlock();
			TaskMasterState::push_back_idle(shared_from_this());
		}
""", """		m_idle = true;
		const bool queue_it = queue_nolock();
		lock.unlock();
		if (queue_it) {
			TaskMasterState::push_back_idle(shared_from_this());
		}
"""))
c("task-push-helper", (K, "	void\n	TaskMasterState::push_back(const TaskStatePtr &task)\n	{", """	static
	bool
	usable_task(const TaskStatePtr &task)
	{
		return !!task;
	}

	void
	TaskMasterState::push_back(const TaskStatePtr &task)
	{"""), (K, "		THROW_CHECK0(runtime_error, task);\n		unique_lock<mutex> lock(s_tms->m_mutex);\n		if (s_tms->m_cancelled) {\n			lock.unlock();\n			task->clear();\n			return;\n		}\n		s_tms->m_queue.push_back(task);\n		s_tms->m_condvar.notify_all();\n		s_tms->start_threads_nolock();\n", "		THROW_CHECK0(runtime_error, usable_task(task));\n		const auto &tms = s_tms;\n		unique_lock<mutex> lock(tms->m_mutex);\n		if (tms->m_cancelled) {\n			lock.unlock();\n			task->clear();\n			return;\n		}\n		tms->m_queue.push_back(task);\n		tms->start_threads_nolock();\n		tms->m_condvar.notify_all();\n"))
c("task-append", (K, """		if (!task->m_run_now) {
			task->m_run_now = true;
			append_nolock(task);
		}
		task->m_idle = false;
	}

	void
	TaskState::insert""", """		task->m_idle = false;
		if (task->m_run_now) {
			return;
		}
		task->m_run_now = true;
		append_nolock(task);
	}

	void
	TaskState::insert"""))
c("task-consume", (K, """			if (!m_local_queue.empty()) {
				m_current_task = *m_local_queue.begin();
				m_local_queue.pop_front();
			} else if (!master_copy->m_queue.empty()) {
				m_current_task = *master_copy->m_queue.begin();
				master_copy->m_queue.pop_front();
			} else if (!master_copy->m_idle_queue.empty()) {
				m_current_task = *master_copy->m_idle_queue.begin();
				master_copy->m_idle_queue.pop_front();
			} else {
				master_copy->m_condvar.wait(lock);
				continue;
			}
""", """			TaskQueue &next_queue =
				!m_local_queue.empty() ? m_local_queue :
				!master_copy->m_queue.empty() ? master_copy->m_queue :
				master_copy->m_idle_queue;
			if (next_queue.empty()) {
				master_copy->m_condvar.wait(lock);
				continue;
			}
			m_current_task = next_queue.front();
			next_queue.pop_front();
"""))
c("task-consume-exit", (K, """		while (!master_copy->m_paused) {
			if (master_copy->m_thread_max < master_copy->m_threads.size()) {
				// We are one of too many threads, exit now
				break;
			}
""", """		// Leave if paused, or if we are one of too many threads
		while (!master_copy->m_paused && master_copy->m_threads.size() <= master_copy->m_thread_max) {
"""))
c("task-startstop", (K, """		while (m_threads.size() != m_thread_max) {
			if (m_threads.size() < m_thread_max) {
				m_threads.insert(make_shared<TaskConsumer>(shared_from_this()));
			} else if (m_threads.size() > m_thread_max) {
				m_condvar.wait(lock);
			}
		}
""", """		for (;;) {
			const auto count = m_threads.size();
			if (count == m_thread_max) {
				break;
			}
			if (count < m_thread_max) {
				m_threads.insert(make_shared<TaskConsumer>(shared_from_this()));
			} else {
				m_condvar.wait(lock);
			}
		}
"""))
c("task-rescue", (K, """			if (queue.size() == 1) {
				TaskMasterState::push_front(queue);
			} else {
				// If""", """			const bool only_one = queue.size() == 1;
			if (only_one) {
				TaskMasterState::push_front(queue);
			} else {
				// If"""))
c("task-clear-scope", (K, """		TaskQueue post_exec_queue;
		unique_lock<mutex> lock(m_mutex);
		swap(post_exec_queue, m_post_exec_queue);
		lock.unlock();
		clear_queue(post_exec_queue);
""", """		TaskQueue post_exec_queue;
		{
			lock_guard<mutex> lock(m_mutex);
			post_exec_queue.swap(m_post_exec_queue);
		}
		clear_queue(post_exec_queue);
"""))
c("task-adjust", (K, """		size_t new_thread_max = calculate_thread_count_nolock();
		size_t old_thread_max = m_thread_max;
		m_thread_max = new_thread_max;
""", """		const size_t new_thread_max = calculate_thread_count_nolock();
		const size_t old_thread_max = exchange(m_thread_max, new_thread_max);
"""), (K, "#include <thread>\n", "#include <thread>\n#include <utility>\n"))
