C = "src/bees-context.cc"; R = "src/bees-roots.cc"; B = "src/bees.h"; FS = "lib/fs.cc"; ML = "lib/multilock.cc"; RS = "src/bees-resolve.cc"
CASES = [
 dict(name="d-ro-swapped", props=["C04"], edits=[(C, "is_root_ro(brp_in.second.fid().root())", "is_root_ro(brp_in.first.fid().root())")]),
 dict(name="d-ro-late", props=["C04"], edits=[(C, "is_root_ro(brp_in.second.fid().root())", "is_root_ro(brp_in.second.fid().root()) && brp_in.second.size() > 4096")]),
 dict(name="d-overlap-first", props=["C04"], edits=[(C, "!brp.first.overlaps(brp.second)", "!brp.first.overlaps(brp.first) || true")]),
 dict(name="d-size-le", props=["C04"], edits=[(C, "brp.first.size() == brp.second.size());\n\n	BEESCOUNT(dedup_try)", "brp.first.size() <= brp.second.size());\n\n	BEESCOUNT(dedup_try)")]),
 dict(name="d-args-end", props=["C04"], edits=[(C, "btrfs_extent_same(brp.first.fd(), brp.first.begin(), brp.first.size(), brp.second.fd(), brp.second.begin())", "btrfs_extent_same(brp.first.fd(), brp.first.begin(), brp.first.size(), brp.second.fd(), brp.first.begin())")]),
 dict(name="d-noreopen", props=["C04"], edits=[(C, "	brp.second.fd(shared_from_this());\n\n	BEESTOOLONG(\"dedup", "	BEESTOOLONG(\"dedup")]),
 dict(name="d-chunk-src", props=["C04"], edits=[(FS, "				src_offset += length;\n", "")]),
 dict(name="d-chunk-all", props=["C04"], edits=[(FS, "				src_length -= length;\n				continue;", "				src_length = 0;\n				continue;")]),
 dict(name="d-chunk-req", props=["C04"], edits=[(FS, "				src_offset += length;\n				dst_offset += length;\n				src_length -= length;", "				const off_t step = min<off_t>(src_length, 16777216);\n				src_offset += step;\n				dst_offset += step;\n				src_length -= step;")]),
 dict(name="d-differs-true", props=["C04"], edits=[(FS, "			if (status == BTRFS_SAME_DATA_DIFFERS) {\n				return false;", "			if (status == BTRFS_SAME_DATA_DIFFERS) {\n				return src_length < length_0;"), (FS, "		while (src_length > 0) {\n			BtrfsExtentSame", "		const off_t length_0 = src_length;\n		while (src_length > 0) {\n			BtrfsExtentSame")]),
 dict(name="d-ro-flags", props=["C04"], edits=[(R, "BTRFS_ROOT_SUBVOL_RDONLY", "BTRFS_ROOT_SUBVOL_DEAD")]),
 dict(name="x-nolock", props=["C05"], edits=[(C, '	auto lock = MultiLocker::get_lock("dedupe");', '	auto lock = MultiLocker::get_lock("logical_ino");')]),
 dict(name="x-early-reset", props=["C05"], edits=[(C, "				roots()->wait_for_transid(1);", "				lock.reset();\n				roots()->wait_for_transid(1);")]),
 dict(name="x-temp-lock", props=["C05"], edits=[(C, '	auto lock = MultiLocker::get_lock("dedupe");', '	decltype(MultiLocker::get_lock("")) lock;\n	MultiLocker::get_lock("dedupe");')]),
 dict(name="x-disable", props=["C05"], edits=[("src/bees.cc", "MultiLocker::enable_locking(true);", "MultiLocker::enable_locking(bees_worker_thread_count > 1);"), ("src/bees.cc", "	bool workaround_btrfs_send = false;", "	bool workaround_btrfs_send = false;\n	const int bees_worker_thread_count = getenv(\"X\") ? 1 : 2;")]),
 dict(name="x-if-wait", props=["C05"], edits=[(ML, "		while (!is_lock_available(type)) {", "		if (!is_lock_available(type)) {")]),
 dict(name="x-avail", props=["C05"], edits=[(ML, "return false;", "return i.second < 2;")]),
 dict(name="b-noscan", props=["C06"], edits=[(C, "	if (is_blacklisted(bfr_in.fid())) {\n", "	if (is_blacklisted(bfr_in.fid()) && bfr_in.begin() == 0) {\n")]),
 dict(name="b-noresolve", props=["C06"], edits=[(RS, "bool stop_now = false;\n	for (auto ino_off_root : m_biors) {\n		BEESTRACE(\"ino_off_root \" << ino_off_root);\n		BeesFileId this_fid(ino_off_root.m_root, ino_off_root.m_inum);\n\n		// Silently ignore blacklisted files, e.g. BeesTempFile files\n		if (m_ctx->is_blacklisted(this_fid)) {\n			continue;\n		}\n\n		// Look at the old data\n		// FIXME", "bool stop_now = false;\n	for (auto ino_off_root : m_biors) {\n		BEESTRACE(\"ino_off_root \" << ino_off_root);\n		BeesFileId this_fid(ino_off_root.m_inum, ino_off_root.m_root);\n\n		// Silently ignore blacklisted files, e.g. BeesTempFile files\n		if (m_ctx->is_blacklisted(this_fid)) {\n			continue;\n		}\n\n		// Look at the old data\n		// FIXME")]),
 dict(name="b-late", props=["C06"], edits=[("src/bees.cc", "	m_ctx->blacklist_insert(BeesFileId(m_fd));\n", ""), ("src/bees.cc", "	reset();\n}\n\nvoid\nBeesTempFile::realign", "	reset();\n	m_ctx->blacklist_insert(BeesFileId(m_fd));\n}\n\nvoid\nBeesTempFile::realign")]),
 dict(name="q-dedup-while", props=["C04", "C05"], expect="quiet", edits=[(C, """	THROW_CHECK1(invalid_argument, brp, !brp.first.overlaps(brp.second));
	THROW_CHECK1(invalid_argument, brp, brp.first.size() == brp.second.size());
""", """	const bool mismatch = brp.first.size() != brp.second.size();
	if (mismatch) {
		THROW_ERROR(invalid_argument, "sizes differ in " << brp);
	}
	const bool overlapping = brp.first.overlaps(brp.second);
	THROW_CHECK1(invalid_argument, brp, !overlapping);
"""), (C, """			const bool rv = btrfs_extent_same(brp.first.fd(), brp.first.begin(), brp.first.size(), brp.second.fd(), brp.second.begin());""", """			const auto &src = brp.first;
			const auto &dst = brp.second;
			const bool rv = btrfs_extent_same(src.fd(), src.begin(), src.size(), dst.fd(), dst.begin());""")]),
 dict(name="q-same-for", props=["C04"], expect="quiet", edits=[(FS, """		while (src_length > 0) {
			BtrfsExtentSame bes(src_fd, src_offset, src_length);
			bes.add(dst_fd, dst_offset);
			bes.do_ioctl();
			const auto status = bes.m_info.at(0).status;
			if (status == 0) {
				const off_t length = bes.m_info.at(0).bytes_deduped;
				THROW_CHECK0(invalid_argument, length > 0);
				src_offset += length;
				dst_offset += length;
				src_length -= length;
				continue;
			}
""", """		for (off_t done = 0; done < src_length; ) {
			BtrfsExtentSame bes(src_fd, src_offset + done, src_length - done);
			bes.add(dst_fd, dst_offset + done);
			bes.do_ioctl();
			const auto &info = bes.m_info.at(0);
			const auto status = info.status;
			if (!status) {
				const off_t length = info.bytes_deduped;
				THROW_CHECK0(invalid_argument, length > 0);
				done += length;
				continue;
			}
""")]),
 dict(name="q-multilock", props=["C05"], expect="quiet", edits=[(ML, "		while (!is_lock_available(type)) {\n			m_cv.wait(lock);\n		}", "		m_cv.wait(lock, [&]() { return is_lock_available(type); });")]),
 dict(name="q-black-helper", props=["C06"], expect="quiet", edits=[(RS, """bool stop_now = false;
	for (auto ino_off_root : m_biors) {
		BEESTRACE("ino_off_root " << ino_off_root);
		BeesFileId this_fid(ino_off_root.m_root, ino_off_root.m_inum);

		// Silently ignore blacklisted files, e.g. BeesTempFile files
		if (m_ctx->is_blacklisted(this_fid)) {
			continue;
		}

		// Look at the old data
		// FIXME""", """bool stop_now = false;
	for (const auto &ino_off_root : m_biors) {
		const bool ours = m_ctx->is_blacklisted(BeesFileId(ino_off_root.m_root, ino_off_root.m_inum));
		if (ours) {
			continue;
		}

		// FIXME""")]),
]
