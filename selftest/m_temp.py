B = "src/bees.cc"
T = "src/bees-types.cc"
C = "src/bees-context.cc"
PO = "include/crucible/pool.h"
LOOP = """	auto src_p = src.begin();
	auto dst_p = begin;

	while (dst_p < end) {
		auto len = min(BLOCK_SIZE_CLONE, end - dst_p);
		BeesBlockData bbd(src.fd(), src_p, len);
"""
CASES = [
 dict(name="noalign", props=["C15"], edits=[(B, "	realign();\n\n	auto begin", "	auto begin")]),
 dict(name="align-mask", props=["C15"], edits=[(B, "	if (m_end_offset & BLOCK_MASK_CLONE) {", "	if (m_end_offset & (BLOCK_MASK_CLONE >> 1)) {")]),
 dict(name="short-ext", props=["C15"], edits=[(B, "	auto end = m_end_offset + src.size();\n", "	auto end = m_end_offset + src.size() - 1;\n")]),
 dict(name="late-begin", props=["C15"], edits=[(B, "	auto begin = m_end_offset;\n	auto end = m_end_offset + src.size();\n	resize(end);\n", "	auto end = m_end_offset + src.size();\n	resize(end);\n	auto begin = m_end_offset;\n")]),
 dict(name="src-step", props=["C15"], edits=[(B, "		src_p += len;\n", "		src_p += BLOCK_SIZE_CLONE;\n")]),
 dict(name="zero-short", props=["C15"], edits=[(B, "			BEESCOUNT(tmp_block_zero);\n		} else {", "			BEESCOUNT(tmp_block_zero);\n			src_p += len;\n			dst_p += len;\n		} else {")]),
 dict(name="len-sums", props=["C15"], edits=[(B, "			pwrite_or_die(m_fd, bbd.data().data(), len, dst_p);", "			pwrite_or_die(m_fd, bbd.data().data(), min(len, src.size() / 2), dst_p);")]),
 dict(name="off", props=["C15"], edits=[(B, "bbd.data().data(), len, dst_p);", "bbd.data().data(), len, src_p);")]),
 dict(name="loop-short", props=["C15"], edits=[(B, "	while (dst_p < end) {\n", "	while (dst_p + BLOCK_SIZE_CLONE <= end) {\n")]),
 dict(name="zero-hash", props=["C15"], edits=[(B, "		if (bbd.is_data_zero()) {\n			BEESCOUNT(tmp_block_zero);", "		if (bbd.hash() == BeesHash() || bbd.is_data_zero()) {\n			BEESCOUNT(tmp_block_zero);")]),
 dict(name="break-zero", props=["C15"], edits=[(B, "			BEESCOUNT(tmp_block_zero);\n", "			BEESCOUNT(tmp_block_zero);\n			if (dst_p == begin) break;\n")]),
 dict(name="hole-off", props=["C15"], edits=[(B, "	BeesFileRange rv(m_fd, m_end_offset, end);\n\n	resize(end);\n", "	resize(end);\n	BeesFileRange rv(m_fd, m_end_offset, end);\n")]),
 dict(name="end-early", props=["C15"], edits=[(B, "	DIE_IF_NON_ZERO(ftruncate(m_fd, offset));\n	BEESCOUNT(tmp_resize);\n\n	// Success\n	m_end_offset = offset;\n", "	m_end_offset = offset;\n	DIE_IF_NON_ZERO(ftruncate(m_fd, offset));\n	BEESCOUNT(tmp_resize);\n")]),
 dict(name="trunc-unchecked", props=["C15"], edits=[(B, "	DIE_IF_NON_ZERO(ftruncate(m_fd, offset));\n", "	if (ftruncate(m_fd, offset)) {\n		BEESLOGWARN(\"resize failed\");\n	}\n")]),
 dict(name="blk-off", props=["C15"], edits=[(T, "		pread_or_die(m_fd, rv, m_offset);", "		pread_or_die(m_fd, rv, m_offset & ~BLOCK_MASK_CLONE);")]),
 dict(name="zero-skip", props=["C15"], edits=[(T, "	for (auto c : data()) {\n		if (c != '\\0') {", "	for (auto c : data()) {\n		if (c & 0x7f) {")]),
 dict(name="zero-sample", props=["C15"], edits=[(T, "	for (auto c : data()) {\n		if (c != '\\0') {\n			return false;\n		}\n	}\n\n	BEESCOUNT(block_zero);", "	for (auto c : data()) {\n		if (c != '\\0') {\n			return false;\n		}\n		if (m_hash_done && !m_hash) {\n			break;\n		}\n	}\n\n	BEESCOUNT(block_zero);")]),
 dict(name="temp-early", props=["C15"], edits=[(C, "	auto rewrite_tmpfile = tmpfile();\n	BeesRangePair dup_brp(dup_extent(BeesFileRange(bfr.fd(), bfr.begin(), min(bfr.file_size(), bfr.end())), rewrite_tmpfile));\n", "	BeesRangePair dup_brp(dup_extent(BeesFileRange(bfr.fd(), bfr.begin(), min(bfr.file_size(), bfr.end())), tmpfile()));\n")]),
 dict(name="pool-kept", props=["C15"], edits=[(PO, "			m_list_rep->m_list.pop_front();\n", "			if (m_list_rep->m_list.size() > 1) m_list_rep->m_list.pop_front();\n")]),
 dict(name="pool-back", props=["C15"], edits=[(PO, "			m_list_rep->m_list.pop_front();\n", "			m_list_rep->m_list.pop_back();\n")]),
 dict(name="pool-early", props=["C15"], edits=[(PO, "		auto checkin = list_rep->m_checkin;\n", "		list_rep->m_list.push_front(m_ret_ptr);\n		auto checkin = list_rep->m_checkin;\n"), (PO, "		// Place object back in pool\n		list_rep->m_list.push_front(m_ret_ptr);\n", "")]),
 dict(name="pool-nohandle", props=["C15"], edits=[(PO, "		return Ptr(hv, rv.get());", "		m_list_rep->m_list.push_back(rv);\n		return rv;")]),
 dict(name="no-checkin", props=["C15"], edits=[(C, "			btf->reset();\n", "			BEESCOUNT(tmp_aligned);\n")]),
 dict(name="q-off", props=["C15"], expect="quiet", edits=[(B, LOOP, """	for (off_t pos = 0; pos < src.size(); ) {
		const off_t src_p = src.begin() + pos;
		const off_t dst_p = begin + pos;
		const auto len = min(BLOCK_SIZE_CLONE, src.size() - pos);
		const BeesBlockData bbd(src.fd(), src_p, len);
"""), (B, "		src_p += len;\n		dst_p += len;\n", "		pos += len;\n")]),
 dict(name="q-count", props=["C15"], expect="quiet", edits=[(B, "	while (dst_p < end) {\n", "	auto remaining = src.size();\n	while (remaining > 0) {\n"), (B, "		src_p += len;\n		dst_p += len;\n", "		dst_p += len;\n		remaining -= len;\n		src_p += len;\n"), (B, "		auto len = min(BLOCK_SIZE_CLONE, end - dst_p);", "		auto len = min(BLOCK_SIZE_CLONE, remaining);")]),
 dict(name="q-not", props=["C15"], expect="quiet", edits=[(B, "		if (bbd.is_data_zero()) {\n			BEESCOUNT(tmp_block_zero);\n		} else {", "		const bool zero_block = bbd.is_data_zero();\n		if (zero_block) {\n			BEESCOUNT(tmp_block_zero);\n		}\n		if (!zero_block) {")]),
 dict(name="q-end", props=["C15"], expect="quiet", edits=[(B, "	auto end = m_end_offset + src.size();\n	resize(end);\n", "	resize(begin + src.size());\n	const auto end = m_end_offset;\n")]),
 dict(name="q-helper", props=["C15"], expect="quiet", edits=[(B, "BeesFileRange\nBeesTempFile::make_copy(", """static
void
copy_block(const Fd &dst, const BeesBlockData &block, off_t where)
{
	if (block.is_data_zero()) {
		BEESCOUNT(tmp_block_zero);
		return;
	}
	pwrite_or_die(dst, block.data().data(), block.size(), where);
	BEESCOUNT(tmp_block);
	BEESCOUNTADD(tmp_bytes, block.size());
}

BeesFileRange
BeesTempFile::make_copy("""), (B, """		// Don't fill in holes
		if (bbd.is_data_zero()) {
			BEESCOUNT(tmp_block_zero);
		} else {
			BEESNOTE("copying " << src << " to " << rv << "\\n"
				"\\tpwrite " << bbd << " to " << name_fd(m_fd) << " offset " << to_hex(dst_p) << " len " << len);
			pwrite_or_die(m_fd, bbd.data().data(), len, dst_p);
			BEESCOUNT(tmp_block);
			BEESCOUNTADD(tmp_bytes, len);
		}
""", "		copy_block(m_fd, bbd, dst_p);\n")]),
 dict(name="q-realign", props=["C15"], expect="quiet", edits=[(B, "	if (m_end_offset & BLOCK_MASK_CLONE) {\n		// BEESTRACE(\"temporary file size \" << to_hex(m_end_offset) << \" not aligned\");\n		BEESCOUNT(tmp_realign);\n		reset();\n		return;\n	}\n	// OK as is\n	BEESCOUNT(tmp_aligned);\n", "	if ((m_end_offset % BLOCK_SIZE_CLONE) == 0) {\n		BEESCOUNT(tmp_aligned);\n	} else {\n		BEESCOUNT(tmp_realign);\n		reset();\n	}\n")]),
 dict(name="q-zero", props=["C15"], expect="quiet", edits=[(T, "	for (auto c : data()) {\n		if (c != '\\0') {\n			return false;\n		}\n	}\n", "	const auto &d = data();\n	if (!all_of(d.begin(), d.end(), [](uint8_t c) { return c == 0; })) {\n		return false;\n	}\n")]),
 dict(name="q-zero2", props=["C15"], expect="quiet", edits=[(T, "	for (auto c : data()) {\n		if (c != '\\0') {\n			return false;\n		}\n	}\n", "	const auto &d = data();\n	for (auto i = d.begin(); i != d.end(); ++i) {\n		if (*i) {\n			return false;\n		}\n	}\n")]),
 dict(name="q-trunc", props=["C15"], expect="quiet", edits=[(B, "	DIE_IF_NON_ZERO(ftruncate(m_fd, offset));\n", "	if (ftruncate(m_fd, offset) != 0) {\n		THROW_ERRNO(\"ftruncate\");\n	}\n")]),
 dict(name="q-trunc2", props=["C15"], expect="quiet", edits=[(B, "	DIE_IF_NON_ZERO(ftruncate(m_fd, offset));\n", "	ftruncate_or_die(m_fd, offset);\n")]),
 dict(name="q-pool", props=["C15"], expect="quiet", edits=[(PO, "		auto checkin = list_rep->m_checkin;\n		if (checkin) {\n			lock.unlock();\n			checkin(m_ret_ptr);\n			lock.lock();\n		}\n", "		const auto checkin = list_rep->m_checkin;\n		lock.unlock();\n		if (checkin) {\n			checkin(m_ret_ptr);\n		}\n		lock.lock();\n")]),
]
