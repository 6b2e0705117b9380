R = "src/bees-roots.cc"


def t(name, *edits, **k):
    return dict(name="t-" + name, props=["C20"], edits=[(R,) + e for e in edits], **k)


OUT = "if (this_length < lower_size_bound || this_length > upper_size_bound) {"
OBJ = "const auto objectid = next_bytenr + lsb_rounded - m_fetcher.scale_size();"
CASES = [
    t("gap", (".m_min_size = 8 * 1024 * 1024 + 1,", ".m_min_size = 8 * 1024 * 1024 + 4096,")),
    t("gap2", (".m_max_size = 512 * 1024,", ".m_max_size = 256 * 1024,")),
    t("low", (".m_min_size = 0,", ".m_min_size = 4096 + 1,")),
    t("high", (".m_max_size = numeric_limits<uint64_t>::max(),", ".m_max_size = 128 * 1024 * 1024,")),
    t("mult", (".m_min_size = 512 * 1024 + 1,", ".m_min_size = 512 * 1024,"), (".m_max_size = 512 * 1024,", ".m_max_size = 512 * 1024 - 1,")),
    t("key", ("BTRFS_FIRST_FREE_OBJECTID - 6,", "BTRFS_FIRST_FREE_OBJECTID - 5,")),
    t("key-tree", ("BTRFS_FIRST_FREE_OBJECTID - 6,", "BTRFS_FIRST_FREE_OBJECTID + 6,")),
    t("lt", (OUT, "if (this_length <= lower_size_bound || this_length > upper_size_bound) {")),
    t("ge", (OUT, "if (this_length < lower_size_bound || this_length >= upper_size_bound) {")),
    t("mask", ("BTRFS_EXTENT_FLAG_TREE_BLOCK) {", "(BTRFS_EXTENT_FLAG_TREE_BLOCK | BTRFS_EXTENT_FLAG_DATA)) {")),
    t("far", (OBJ, "const auto objectid = next_bytenr + lsb_rounded + m_fetcher.scale_size();")),
    t("far2", (OBJ, "const auto objectid = next_bytenr + 2 * lsb_rounded - m_fetcher.scale_size();")),
    t("far3", (OBJ, "const auto objectid = next_bytenr + upper_size_bound - m_fetcher.scale_size();")),
    t("far4", (OBJ, "const auto objectid = next_bytenr + this_length + lsb_rounded - m_fetcher.scale_size();")),
    t("jump", ("				current_bytenr = new_bytenr;\n", "				current_bytenr = objectid;\n")),
    t("jump2", ("				current_bytenr = new_bytenr;\n", "				current_bytenr = new_bytenr + bti.offset();\n")),
    t("jump3", ("		current_bytenr = next_bytenr;\n", "		current_bytenr = next_bytenr + m_fetcher.scale_size();\n")),
    t("back", ("			if (new_bytenr <= next_bytenr) {", "			if (new_bytenr < this_bytenr) {")),
    t("start", ("	auto current_bytenr = old_state.m_objectid;", "	auto current_bytenr = old_state.m_objectid + 1;")),
    t("throttled", ("		const auto find_next_task = Task::current_task();\n", "		const auto find_next_task = Task::current_task();\n		if (should_throttle()) continue;\n")),
    t("norun", ("		create_map_task.run();\n", "		if (this_length > 4096) create_map_task.run();\n")),
    t("init-break", ("		m_extent_size.m_map.insert(make_pair(subvol, ExtentSizeCount {}));\n	}\n}", "		m_extent_size.m_map.insert(make_pair(subvol, ExtentSizeCount {}));\n		if (m_size_tiers.size() > 4) break;\n	}\n}")),
    t("init-skip", ("		const auto found = m_size_tiers.find(subvol);\n", "		if (magic.m_max_size > (1ULL << 40)) continue;\n		const auto found = m_size_tiers.find(subvol);\n")),
    t("init-range", ("make_shared<SizeTier>(dynamic_pointer_cast<BeesScanModeExtent>(shared_from_this()), subvol, magic)", "make_shared<SizeTier>(dynamic_pointer_cast<BeesScanModeExtent>(shared_from_this()), subvol, s_magic_crawl_map.begin()->second)")),
    t("init-root", ("			new_bcs.m_root = subvol;\n", "			new_bcs.m_root = s_magic_crawl_map.begin()->first;\n")),
    t("scan-one", ("			i.second->run_task();\n", "			i.second->run_task();\n			if (should_throttle()) break;\n")),
    t("scan-skip", ("			i.second->run_task();\n", "			if (!i.second->crawl()->deferred()) i.second->run_task();\n")),
    t("ordered", ("			if (i.second->find_next_extent()) break;\n", "			if (!i.second->find_next_extent()) break;\n")),
    t("task", ("SizeTier::run_task()\n{\n	m_scan_task.idle();\n", "SizeTier::run_task()\n{\n	if (m_subvol & 1) m_scan_task.idle();\n")),
    t("refs-dup", ("			refs_list->push_back(extref);\n", "			if (refs_list->empty() || refs_list->back().m_root != extref.m_root) refs_list->push_back(extref);\n")),
    t("refs-len", ("				.m_length = length,\n", "				.m_length = min(length, len),\n")),
    t("refs-off", ("				.m_offset = i.m_offset,\n", "				.m_offset = bti.offset() + bti.file_extent_offset(),\n")),
    t("refs-limit", ("		if (found_nocow) {\n", "		if (found_nocow || refs_list->size() > 100) {\n")),
    t("refs-max", ("rv_count >= BEES_MAX_EXTENT_REF_COUNT", "rv_count >= BEES_MAX_EXTENT_REF_COUNT / 100")),
    t("refs-flag", ("if (0 != (flags & BTRFS_INODE_NODATASUM)) {\n						BEESLOGDEBUG(\"unsupported inode flags for extent", "if (0 != (flags & (BTRFS_INODE_NODATASUM | BTRFS_INODE_NODATACOW | BTRFS_INODE_COMPRESS))) {\n						BEESLOGDEBUG(\"unsupported inode flags for extent")),
    t("refs-one", ("	// Don't need to do anything if we found no refs\n	if (refs_list->empty()) {", "	// Don't need to do anything if we found no refs\n	if (refs_list->size() < 2) {")),
    t("ref-range", ("		bior.m_offset + bior.m_length\n", "		bior.m_offset + bior.m_length - BLOCK_SIZE_CLONE\n")),
    t("file-step", ("	m_offset = max(bti.offset() + bedf.block_size(), bti.offset());", "	m_offset = max(bti.offset() + 2 * bedf.block_size(), bti.offset());")),
    t("file-prealloc", ("			BEESCOUNT(crawl_prealloc);\n			// fallthrough\n", "			BEESCOUNT(crawl_prealloc);\n			break;\n")),
    t("file-hole", ("			if (physical) {\n", "			if (physical && len > BLOCK_SIZE_CLONE) {\n")),
    t("file-range", ("BeesFileRange bfr(bfi, bti.offset(), bti.offset() + len);", "BeesFileRange bfr(bfi, bti.offset(), bti.offset() + min(len, uint64_t(BLOCK_SIZE_MAX_EXTENT)));")),
    # behaviour kept
    t("q-split", (OUT, "if (this_length > upper_size_bound || !(this_length >= lower_size_bound)) {"), ("			if (physical) {\n", "			if (physical != 0) {\n"), expect="quiet"),
    t("q-order", ("			if (new_bytenr <= next_bytenr) {\n", "			const bool flop = new_bytenr <= next_bytenr;\n			if (flop) {\n"), (OBJ, "const auto objectid = next_bytenr - m_fetcher.scale_size() + lsb_rounded;"), expect="quiet"),
    t("q-iter", ("	for (const auto &i : s_magic_crawl_map) {\n		const auto subvol = i.first;\n		const auto &magic = i.second;\n		const auto found", "	for (auto it = s_magic_crawl_map.begin(); it != s_magic_crawl_map.end(); ++it) {\n		const auto subvol = it->first;\n		const auto &magic = it->second;\n		const auto found"), expect="quiet"),
    t("q-helper", ("bool\nBeesScanModeExtent::SizeTier::find_next_extent()\n{", "static bool length_not_in(uint64_t len, uint64_t lo, uint64_t hi)\n{\n	return len < lo || len > hi;\n}\n\nbool\nBeesScanModeExtent::SizeTier::find_next_extent()\n{"), (OUT, "if (length_not_in(this_length, lower_size_bound, upper_size_bound)) {"), expect="quiet"),
    t("q-gen", ("		if (gen < min_transid) {\n			MNE_DEBUG(\"generation \" << gen << \" < \" << min_transid);\n			BEESCOUNT(crawl_gen_low);\n			++gen_low_count;\n			continue;\n		}\n", ""), ("		if (gen > max_transid) {\n			MNE_DEBUG", "		if (gen < min_transid) {\n			BEESCOUNT(crawl_gen_low);\n			++gen_low_count;\n			continue;\n		} else if (gen > max_transid) {\n			MNE_DEBUG"), expect="quiet"),
    t("q-refs", ("			const auto bti = bedf.at(i.m_offset);\n			if (!bti) {", "			const auto &ref = i;\n			const auto bti = bedf.at(ref.m_offset);\n			const bool gone = !bti;\n			if (gone) {"), ("		if (found_nocow) {\n			BEESCOUNT(extent_nodatasum);\n			return;\n		}\n", "		if (!found_nocow) {\n			continue;\n		}\n		BEESCOUNT(extent_nodatasum);\n		return;\n"), expect="quiet"),
    t("q-const", (".m_max_size = numeric_limits<uint64_t>::max(),", ".m_max_size = ~uint64_t(0),"), (".m_min_size = 8 * 1024 * 1024 + 1,", ".m_min_size = (8 << 20) + 1,"), expect="quiet"),
]
