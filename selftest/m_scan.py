C = "src/bees-context.cc"; T = "src/bees-types.cc"; RS = "src/bees-resolve.cc"; BV = "lib/bytevector.cc"
TOXFILT = """			// Hash is toxic
			if (found_addr.is_toxic()) {"""
CASES = [
 dict(name="t-nofilter", props=["C07"], edits=[(C, "			if (found_addr.is_toxic()) {", "			if (addr.is_toxic()) {")]),
 dict(name="t-filter-eof", props=["C07"], edits=[(C, "			if (found_addr.is_toxic()) {", "			if (found_addr.is_toxic() && !found_addr.is_compressed()) {")]),
 dict(name="t-filter-late", props=["C07"], edits=[(C, "			ordered_addrs.push_back(found_addr);", ""), (C, TOXFILT, "			ordered_addrs.push_back(found_addr);\n"+TOXFILT), (C, "				BEESCOUNT(scan_toxic_hash);\n				return;", "				BEESCOUNT(scan_toxic_hash);\n				continue;")]),
 dict(name="t-noremember", props=["C07"], edits=[(C, "				hash_table->push_front_hash_addr(hash, found_addr);\n				return;", "				return;")]),
 dict(name="t-nomark", props=["C07"], edits=[(C, "				found_addr.set_toxic();\n", "				addr.set_toxic();\n")]),
 dict(name="t-continue", props=["C07"], edits=[(C, "				hash_table->push_front_hash_addr(hash, found_addr);\n				return;", "				hash_table->push_front_hash_addr(hash, found_addr);\n				break;")]),
 dict(name="t-nocheck-throw", props=["C07"], edits=[(C, "			if (resolved.is_toxic()) {", "			if (resolved.is_toxic() && resolved.count()) {")]),
 dict(name="t-inverted", props=["C07"], edits=[(C, "		rv.m_is_toxic = true;", "		rv.m_is_toxic = !!rv_count;")]),
 dict(name="t-user-time", props=["C07"], edits=[(C, "	if (sys_usage_delta < BEES_TOXIC_SYS_DURATION) {", "	if (user_usage_delta < BEES_TOXIC_SYS_DURATION) {")]),
 dict(name="t-delta", props=["C07"], edits=[(C, "(usage_before.ru_stime.tv_sec + usage_before.ru_stime.tv_usec / 1000000.0);", "(usage_before.ru_utime.tv_sec + usage_before.ru_utime.tv_usec / 1000000.0);")]),
 dict(name="t-after-late", props=["C07"], edits=[(C, "		DIE_IF_MINUS_ONE(getrusage(RUSAGE_THREAD, &usage_before));\n", ""), (C, "		DIE_IF_MINUS_ONE(getrusage(RUSAGE_THREAD, &usage_after));", "		DIE_IF_MINUS_ONE(getrusage(RUSAGE_THREAD, &usage_before));\n		DIE_IF_MINUS_ONE(getrusage(RUSAGE_THREAD, &usage_after));")]),
 dict(name="t-reflimit", props=["C07"], edits=[(C, "	if (rv_count < BEES_MAX_EXTENT_REF_COUNT) {", "	if (rv_count) {")]),
 dict(name="t-stale", props=["C07"], edits=[(RS, "	m_is_toxic = rv.m_is_toxic;\n", "	if (m_biors.size()) m_is_toxic = rv.m_is_toxic;\n")]),
 dict(name="t-grow-fwd", props=["C07"], edits=[(T, "			if (BeesAddress(i.e_addr).is_toxic()) {\n				found_toxic = true;\n				break;\n			}\n		}\n		if (found_toxic) {\n			BEESLOGDEBUG(\"WORKAROUND: found toxic hash in \" << first_bbd << \" while extending forward", "			if (BeesAddress(i.e_addr).is_toxic()) {\n				found_toxic = true;\n				break;\n			}\n		}\n		if (found_toxic && constrained) {\n			BEESLOGDEBUG(\"WORKAROUND: found toxic hash in \" << first_bbd << \" while extending forward")]),
 dict(name="t-grow-hash", props=["C07"], edits=[(T, "		auto found_hashes = hash_table->find_cell(first_bbd.hash());", "		auto found_hashes = hash_table->find_cell(BeesHash(0));")]),
 dict(name="v-hash-only", props=["C08"], edits=[(RS, "	if (straw.hash() != needle.hash()) {", "	if (straw.hash() == needle.hash() && !is_exact) {\n		m_found_data = m_found_hash = true;\n		return straw;\n	}\n	if (straw.hash() != needle.hash()) {")]),
 dict(name="v-eof", props=["C08"], edits=[(RS, "		if (straw.is_data_equal(needle)) {\n			BEESCOUNT(adjust_eof_hit);", "		if (straw.hash() == needle.hash()) {\n			BEESCOUNT(adjust_eof_hit);")]),
 dict(name="v-noempty", props=["C08"], edits=[(RS, "	if (new_bbd.empty()) {\n", "	if (new_bbd.empty() && !m_found_hash) {\n")]),
 dict(name="v-phys", props=["C08"], edits=[(RS, "	if (file_addr.get_physical_or_zero() != m_addr.get_physical_or_zero()) {", "	if (file_addr.get_physical_or_zero() != m_addr.get_physical_or_zero() && !m_addr.is_compressed()) {")]),
 dict(name="v-magic", props=["C08"], edits=[(RS, "	if (file_addr.is_magic()) {", "	if (m_addr.is_magic()) {")]),
 dict(name="v-memcmp", props=["C08"], edits=[(BV, "memcmp(m_ptr.get(), that.m_ptr.get(), m_size)", "memcmp(m_ptr.get(), that.m_ptr.get(), min<size_t>(m_size, 2048))")]),
 dict(name="v-grow-noeq", props=["C08"], edits=[(T, "		if (!first_bbd.is_data_equal(second_bbd)) {\n			BEESCOUNT(pairforward_miss);", "		if (first_bbd.hash() != second_bbd.hash()) {\n			BEESCOUNT(pairforward_miss);")]),
 dict(name="v-grow-span", props=["C08"], edits=[(T, "		BeesBlockData second_bbd(second.fd(), second.end(), new_second.end() - second.end());", "		BeesBlockData second_bbd(second.fd(), second.end(), new_first.end() - first.end());\n		BeesBlockData third_bbd(first.fd(), first.end(), new_first.end() - first.end());"), (T, "		if (!first_bbd.is_data_equal(second_bbd)) {\n			BEESCOUNT(pairforward_miss);", "		if (!first_bbd.is_data_equal(third_bbd)) {\n			BEESCOUNT(pairforward_miss);")]),
 dict(name="v-grow-start", props=["C08"], edits=[(T, "		BeesBlockData second_bbd(second.fd(), new_second.begin(), second.begin() - new_second.begin());", "		BeesBlockData second_bbd(second.fd(), second.begin(), second.begin() - new_second.begin());")]),
 dict(name="v-grow-two", props=["C08"], edits=[(T, "		new_first.grow_end(BLOCK_SIZE_CLONE);\n		if (new_first.end() == first.end()) {", "		new_first.grow_end(BLOCK_SIZE_CLONE * 2);\n		if (new_first.end() == first.end()) {"), (T, "		BeesBlockData first_bbd(first.fd(), first.end(), new_first.end() - first.end());", "		BeesBlockData first_bbd(first.fd(), first.end(), BLOCK_SIZE_CLONE);"), (T, "		new_second.grow_end(BLOCK_SIZE_CLONE);\n", "		new_second.grow_end(BLOCK_SIZE_CLONE * 2);\n"), (T, "		BeesBlockData second_bbd(second.fd(), second.end(), new_second.end() - second.end());", "		BeesBlockData second_bbd(second.fd(), second.end(), BLOCK_SIZE_CLONE);")]),
 dict(name="v-grow-overlap", props=["C08"], edits=[(T, "		if (new_first.overlaps(new_second)) {\n			BEESCOUNT(pairforward_overlap);", "		if (new_first.overlaps(second)) {\n			BEESCOUNT(pairforward_overlap);")]),
 dict(name="v-grow-same", props=["C08"], edits=[(T, "			BEESCOUNT(pairforward_same);\n			break;", "			BEESCOUNT(pairforward_same);\n			if (constrained) break;")]),
 dict(name="v-grow-len", props=["C08"], edits=[(T, "		THROW_CHECK2(invalid_argument, new_first.size(), new_second.size(), new_first.size() == new_second.size());\n		first = new_first;\n		second = new_second;\n		rv = true;\n		BEESCOUNT(pairforward_hit);", "		first = new_first;\n		second = new_second;\n		rv = true;\n		BEESCOUNT(pairforward_hit);")]),
 dict(name="n-modified", props=["C09"], edits=[(C, "			rewrite_file_range(i);\n			extent_modified = true;", "			rewrite_file_range(i);")]),
 dict(name="n-dedup-mod", props=["C09"], edits=[(C, "			extent_modified = !force_insert;\n", "")]),
 dict(name="n-or", props=["C09"], edits=[(C, "	if (!extent_modified) {\n", "	if (!extent_modified || copy_list.empty()) {\n")]),
 dict(name="n-seen", props=["C09"], edits=[(C, "		s_seen.erase(tup);\n", "		s_seen.insert(tup);\n")]),
 dict(name="n-fail-continue", props=["C09"], edits=[(C, "			// We can't fix this, but we can immediately stop wasting effort.\n			return;", "			// We can't fix this, but we can immediately stop wasting effort.\n			break;")]),
 dict(name="n-force-order", props=["C09"], edits=[(C, "		if (force_insert || m_ctx->dedup(i)) {", "		if (m_ctx->dedup(i) || force_insert) {")]),
 dict(name="n-force-copy", props=["C09"], edits=[(C, "		if (!force_insert) {\n			rewrite_file_range(i);", "		if (!force_insert || bytes_zeroed) {\n			rewrite_file_range(i);")]),
 dict(name="n-ops", props=["C09"], edits=[(C, "		BEESCOUNT(scan_skip_ops);\n		force_insert = true;", "		BEESCOUNT(scan_skip_ops);\n		force_insert = !extent_compressed;")]),
 dict(name="q-tox-lambda", props=["C07", "C08", "C09"], expect="quiet", edits=[(C, "			if (found_addr.is_toxic()) {", "			const bool toxic_entry = found_addr.is_toxic();\n			if (toxic_entry) {"), (C, "			if (resolved.is_toxic()) {", "			const bool lookup_slow = resolved.is_toxic();\n			if (lookup_slow) {")]),
 dict(name="q-resolve-ternary", props=["C07"], expect="quiet", edits=[(C, "		rv.m_is_toxic = false;\n	} else {", "	} else {"), (C, "		rv.m_is_toxic = true;\n	}", "	}\n	rv.m_is_toxic = !(sys_usage_delta < BEES_TOXIC_SYS_DURATION);")]),
 dict(name="q-loop-idx", props=["C07", "C09"], expect="quiet", edits=[(C, "		for (auto found_addr : ordered_addrs) {", "		for (auto it_addr = ordered_addrs.begin(); it_addr != ordered_addrs.end(); ++it_addr) {\n			BeesAddress found_addr = *it_addr;")]),
 dict(name="q-grow-helper", props=["C07", "C08"], expect="quiet", edits=[(T, "bool\nBeesRangePair::grow(", "static\nbool\nhas_toxic_hash(const shared_ptr<BeesHashTable> &hash_table, BeesBlockData &bbd)\n{\n	for (auto i : hash_table->find_cell(bbd.hash())) {\n		if (BeesAddress(i.e_addr).is_toxic()) {\n			return true;\n		}\n	}\n	return false;\n}\n\nbool\nBeesRangePair::grow("),
   (T, """		auto found_hashes = hash_table->find_cell(first_bbd.hash());
		bool found_toxic = false;
		for (auto i : found_hashes) {
			if (BeesAddress(i.e_addr).is_toxic()) {
				found_toxic = true;
				break;
			}
		}
		if (found_toxic) {
			BEESLOGDEBUG("WORKAROUND: found toxic hash in " << first_bbd << " while extending forward""", """		if (has_toxic_hash(hash_table, first_bbd)) {
			BEESLOGDEBUG("WORKAROUND: found toxic hash in " << first_bbd << " while extending forward""")]),
 dict(name="q-copy-split", props=["C09"], expect="quiet", edits=[(C, "	if (!force_insert) {\n		// Push matched hashes to front", "	const bool publish = !extent_modified;\n	if (!force_insert) {\n		// Push matched hashes to front"), (C, "	if (!extent_modified) {\n		// We did not", "	if (publish) {\n		// We did not")]),
 dict(name="q-eqv", props=["C08"], expect="quiet", edits=[(RS, "	if (straw.is_data_equal(needle)) {\n		BEESCOUNT(adjust_hit);", "	const bool same_bytes = straw.is_data_equal(needle);\n	if (same_bytes) {\n		BEESCOUNT(adjust_hit);"), (RS, "	if (new_bbd.empty()) {\n", "	const bool nothing_found = new_bbd.empty();\n	if (nothing_found) {\n")]),
]
