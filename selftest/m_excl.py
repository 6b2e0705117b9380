T = "lib/task.cc"
C = "src/bees-context.cc"
R = "src/bees-roots.cc"
NP = "include/crucible/namedptr.h"
LS = "include/crucible/lockset.h"


def e(name, *edits, **k):
    return dict(name="x-" + name, props=["C24"], edits=list(edits), **k)


LOCK = "				const auto extent_lock = extent_mutex->try_lock(Task::current_task());\n"
MX = "				auto extent_mutex = m_extent_locks(extent_bytenr);\n"
NOT = """				if (!extent_lock) {
					// BEESLOGDEBUG("Deferring extent bytenr " << to_hex(extent_bytenr) << " from " << bfr);
					BEESCOUNT(scanf_deferred_extent);
					start_over = true;
					return; // from closure
				}
"""
SCAN = "				scan_one_extent(bfr, e);\n"
TIER = """	auto inode_mutex = m_ctx->get_inode_mutex(bior.m_inum);
	auto inode_lock = inode_mutex->try_lock(Task::current_task());
	if (!inode_lock) {
		BEESCOUNT(extent_deferred_inode);
		return true;
	}
"""
CRAWL = """	auto inode_mutex = m_ctx->get_inode_mutex(bedf.objectid());
	auto inode_lock = inode_mutex->try_lock(Task::current_task());
	if (!inode_lock) {
		BEESCOUNT(crawl_deferred_inode);
		// Returning false here means we won't reschedule ourselves, but inode_mutex will do that
		return false;
	}
"""
TRY = """		if (sp) {
			if (task) {
				sp->insert(task);
			}
			return ExclusionLock();
		} else {
			const auto rv = make_shared<Task>(task);
			m_owner = rv;
			return ExclusionLock(rv);
		}
"""

CASES = [
    e("ext-untested", (C, NOT, "				if (!extent_lock) {\n					BEESCOUNT(scanf_deferred_extent);\n					start_over = true;\n				}\n")),
    e("ext-temp", (C, MX, ""), (C, LOCK, "				const auto extent_lock = m_extent_locks(extent_bytenr)->try_lock(Task::current_task());\n")),
    e("ext-scope", (C, LOCK + NOT, "				{\n" + LOCK + NOT + "				}\n")),
    e("ext-physical", (C, "				uint64_t extent_bytenr = e.bytenr();\n", "				uint64_t extent_bytenr = e.physical();\n")),
    e("ext-inode-lock", (C, MX, "				auto extent_mutex = m_inode_locks(extent_bytenr);\n")),
    e("ext-refresh", (C, SCAN, "				e = ew.current();\n" + SCAN)),
    e("ext-release", (C, LOCK, LOCK.replace("const auto", "auto")), (C, SCAN, "				extent_lock.release();\n" + SCAN)),
    e("ext-mutex-reset", (C, SCAN, "				extent_mutex.reset();\n" + SCAN)),
    e("ext-dropped-scope", (C, MX + LOCK, "				ExclusionLock extent_lock;\n				{\n					auto extent_mutex = m_extent_locks(extent_bytenr);\n					extent_lock = extent_mutex->try_lock(Task::current_task());\n				}\n")),
    e("ino-untested", (R, TIER, TIER.replace("		return true;\n", ""))),
    e("ino-root", (R, TIER, TIER.replace("bior.m_inum", "bior.m_root"))),
    e("ino-temp", (R, TIER, TIER.replace("	auto inode_mutex = m_ctx->get_inode_mutex(bior.m_inum);\n", "").replace("inode_mutex->", "m_ctx->get_inode_mutex(bior.m_inum)->"))),
    e("ino-none", (R, TIER, "")),
    e("ino-crawl-root", (R, CRAWL, CRAWL.replace("bedf.objectid()", "m_state.m_root"))),
    e("ino-crawl-none", (R, CRAWL, CRAWL.replace("		return false;\n", ""))),
    e("ino-crawl-scope", (R, CRAWL, "	{\n" + CRAWL + "	}\n")),
    e("try-steal", (T, TRY, TRY.replace("if (sp) {", "if (sp && task) {"))),
    e("try-forget", (T, TRY, TRY.replace("				sp->insert(task);\n", ""))),
    e("try-unowned", (T, TRY, TRY.replace("			m_owner = rv;\n", "			m_owner = make_shared<Task>(task);\n"))),
    e("try-noowner", (T, TRY, TRY.replace("			m_owner = rv;\n", ""))),
    e("try-inverted", (T, TRY, TRY.replace("if (sp) {", "if (!sp) {").replace("sp->insert(task)", "task.run()"))),
    e("try-other", (C, LOCK, LOCK.replace("Task::current_task()", "Task()"))),
    e("np-recheck", (NP, """		lock_lookup.lock();
		rv = lookup_item(k);
		if (rv) {
			return rv;
		}
""", "		lock_lookup.lock();\n")),
    e("np-nokey", (NP, "		const auto key_lock = m_lockset.make_lock(k);\n", "")),
    e("np-keyscope", (NP, "		const auto key_lock = m_lockset.make_lock(k);\n", "		{ const auto key_lock = m_lockset.make_lock(k); }\n")),
    e("np-nomap", (NP, "		unique_lock<mutex> lock_insert(m_map_rep->m_mutex);\n", "")),
    e("np-alias", (NP, "		return shared_ptr<Return>(new_value_ptr, new_value_ptr->m_ret_ptr.get());", "		return new_value_ptr->m_ret_ptr;")),
    e("np-alias2", (NP, "			return shared_ptr<Return>(rv, rv->m_ret_ptr.get());", "			return rv->m_ret_ptr;"), (NP, "			const auto rv = found->second.lock();\n			if (rv) {", "			const auto rv = found->second.lock();\n			if (rv) {")),
    e("np-erase", (NP, "		if (found != m_map_rep->m_map.end() && found->second.expired()) {", "		if (found != m_map_rep->m_map.end()) {")),
    e("np-erase-unlocked", (NP, "		unique_lock<mutex> lock(m_map_rep->m_mutex);\n		// We are called", "		// We are called")),
    e("fresh-shared", (C, "	m_inode_locks.func([](const uint64_t fid) {\n", "	static const auto the_lock = make_shared<Exclusion>();\n	m_inode_locks.func([](const uint64_t fid) {\n		return the_lock;\n")),
    e("ls-nolocked", (LS, "		while (full() || locked(name)) {", "		while (full()) {")),
    e("ls-if", (LS, "		while (full() || locked(name)) {", "		if (full() || locked(name)) {")),
    e("ls-and", (LS, "		while (full() || locked(name)) {", "		while (full() && locked(name)) {")),
    # behaviour kept
    e("q-ext-direct", (C, "				uint64_t extent_bytenr = e.bytenr();\n", ""), (C, MX, MX.replace("extent_bytenr", "e.bytenr()")), expect="quiet"),
    e("q-ext-nest", (C, NOT, "				if (extent_lock) {\n"), (C, """				Timer one_extent_timer;
				scan_one_extent(bfr, e);
				// BEESLOGDEBUG("Scanned " << e << " " << bfr);
				BEESCOUNTADD(scanf_extent_ms, one_extent_timer.age() * 1000);
				BEESCOUNT(scanf_extent);
""", """				Timer one_extent_timer;
				scan_one_extent(bfr, e);
				BEESCOUNTADD(scanf_extent_ms, one_extent_timer.age() * 1000);
				BEESCOUNT(scanf_extent);
				} else {
					BEESCOUNT(scanf_deferred_extent);
					start_over = true;
				}
"""), expect="quiet"),
    e("q-ext-decl", (C, LOCK, "				ExclusionLock extent_lock;\n				extent_lock = extent_mutex->try_lock(Task::current_task());\n"), expect="quiet"),
    e("q-ext-task", (C, LOCK, "				const auto me = Task::current_task();\n				const auto extent_lock = extent_mutex->try_lock(me);\n"), expect="quiet"),
    e("q-ext-lambda", (C, SCAN, "				const auto scan_it = [&]() {\n	" + SCAN + "				};\n				scan_it();\n"), expect="quiet"),
    e("q-ext-bool", (C, NOT, "				const bool locked = extent_lock;\n" + NOT.replace("!extent_lock", "!locked")), expect="quiet"),
    e("q-ino-var", (R, TIER, "	const auto inum = bior.m_inum;\n" + TIER.replace("bior.m_inum", "inum")), expect="quiet"),
    e("q-ino-fid", (R, TIER, "	const BeesFileId fid(bior.m_root, bior.m_inum);\n" + TIER), (R, "		BeesFileId(bior.m_root, bior.m_inum),\n		bior.m_offset,\n", "		fid,\n		bior.m_offset,\n"), expect="quiet"),
    e("q-ino-state", (R, CRAWL, CRAWL.replace("bedf.objectid()", "m_state.m_objectid")), expect="quiet"),
    e("q-ino-inline", (R, TIER, TIER.replace("	if (!inode_lock) {", "	const bool busy = !inode_lock;\n	if (busy) {")), expect="quiet"),
    e("q-try-flat", (T, TRY, """		if (!sp) {
			const auto rv = make_shared<Task>(task);
			m_owner = rv;
			return ExclusionLock(rv);
		}
		if (task) {
			sp->insert(task);
		}
		return ExclusionLock();
"""), expect="quiet"),
    e("q-try-var", (T, TRY, """		ExclusionLock granted;
		if (sp) {
			if (task) {
				sp->insert(task);
			}
		} else {
			const auto rv = make_shared<Task>(task);
			m_owner = rv;
			granted = ExclusionLock(rv);
		}
		return granted;
"""), expect="quiet"),
    e("q-np-slot", (NP, "		new_item_ref = new_value_ptr;", "		m_map_rep->m_map[k] = new_value_ptr;"), expect="quiet"),
    e("q-np-first", (NP, """		auto rv = lookup_item(k);
		if (rv) {
			return rv;
		}
""", """		Ptr rv;
		if ((rv = lookup_item(k))) {
			return rv;
		}
"""), expect="quiet"),
    e("q-np-erase", (NP, """		if (found != m_map_rep->m_map.end() && found->second.expired()) {
			m_map_rep->m_map.erase(found);
		}""", """		if (found == m_map_rep->m_map.end()) return;
		if (!found->second.expired()) return;
		m_map_rep->m_map.erase(found);"""), expect="quiet"),
    e("q-fresh", (C, "	m_inode_locks.func([](const uint64_t fid) {\n", "	m_inode_locks.func([](const uint64_t fid) -> shared_ptr<Exclusion> {\n"), expect="quiet"),
    e("q-ls-pred", (LS, "		while (full() || locked(name)) {\n			m_condvar.wait(lock);\n		}\n", "		m_condvar.wait(lock, [&]() { return !full() && !locked(name); });\n"), expect="quiet"),
    e("q-ls-for", (LS, "		while (full() || locked(name)) {\n			m_condvar.wait(lock);\n		}\n", "		for (;;) {\n			if (!full() && !locked(name)) break;\n			m_condvar.wait(lock);\n		}\n"), expect="quiet"),
]
