R = "src/bees-roots.cc"; PH = "include/crucible/progress.h"
CASES = [
 # C12
 dict(name="p-begin-end", props=["C12"], edits=[(PH, "			m_state->m_begin = m_state->m_in_progress.begin()->first;\n		}", "			m_state->m_begin = m_state->m_end;\n		}")]),
 dict(name="p-end-back", props=["C12"], edits=[(PH, "		if (m_state->m_end < m_value) {\n			m_state->m_end = m_value;\n		}", "		m_state->m_end = m_value;")]),
 dict(name="p-no-begin", props=["C12"], edits=[(PH, "		m_state->m_begin = m_state->m_in_progress.begin()->first;\n		// If this", "		// If this")]),
 dict(name="p-last", props=["C12"], edits=[(PH, "		m_state->m_begin = m_state->m_in_progress.begin()->first;\n		// If this", "		m_state->m_begin = m_state->m_in_progress.rbegin()->first;\n		// If this")]),
 dict(name="p-save-end", props=["C12"], edits=[(R, "get_state_begin();\n", "get_state_end();\n")]),
 dict(name="p-inode-nohold", props=["C12"], edits=[(R, ".m_hold = this_crawl->hold_state(bfc_state),", ".m_hold = this_crawl->hold_state(this_state),")]),
 dict(name="p-set-first", props=["C12"], expect="quiet", edits=[(R, "	bool run_the_task = false;\n	catch_all([&]() {\n		BtrfsInodeFetcher", "	this_crawl->set_state(BeesCrawlState(this_state));\n	{\n		auto next_state = this_state;\n		next_state.m_offset = numeric_limits<uint64_t>::max();\n		this_crawl->set_state(next_state);\n	}\n	bool run_the_task = false;\n	catch_all([&]() {\n		BtrfsInodeFetcher")]),
 dict(name="p-no-swap", props=["C12"], edits=[(R, "		swap(current_hold, next_hold);\n", "		current_hold = next_hold;\n")]),
 dict(name="p-hold-next", props=["C12"], edits=[(R, "		const auto hold_state = m_crawl->hold_state(this_state);\n", "		const auto hold_state = current_hold;\n")]),
 dict(name="p-no-capture", props=["C12"], edits=[(R, "		Task create_map_task(oss.str(), [sft, this_bytenr, hold_state, this_length, find_next_task]() {\n			sft->create_extent_map(this_bytenr, hold_state,", "		Task create_map_task(oss.str(), [sft, this_bytenr, this_state, this_length, find_next_task]() {\n			sft->create_extent_map(this_bytenr, sft->m_crawl->hold_state(this_state),")]),
 dict(name="p-ref-nohold", props=["C12"], edits=[(R, "				.m_hold = hold,\n", "")]),
 dict(name="p-forget-ref", props=["C12"], edits=[(R, "				if (restart_ref) {\n					refs_list->push_front(extref);\n				}\n", "				if (restart_ref) {\n					BEESCOUNT(extent_restart);\n				}\n")]),
 dict(name="p-run-once", props=["C12"], edits=[(R, "			// Run the next ref\n			Task::current_task().run();\n", "			// Run the next ref\n			next_task.idle();\n")]),
 dict(name="p-busy-done", props=["C12"], edits=[(R, "		BEESCOUNT(extent_deferred_inode);\n		return true;\n", "		BEESCOUNT(extent_deferred_inode);\n		return false;\n")]),
 dict(name="p-file-skip", props=["C12"], edits=[(R, "						m_offset = bti.offset();\n", "")]),
 dict(name="p-file-hold", props=["C12"], edits=[(R, "					bcs.m_offset = bfr.begin();\n", "					bcs.m_offset = bfr.end();\n")]),
 dict(name="p-no-nexthold", props=["C12"], edits=[(R, "	m_next_hold = hold_state(item_state);\n", "")]),
 dict(name="p-nexthold-late", props=["C12"], edits=[(R, "	item_state.m_objectid = m_next_extent_data.objectid();\n", "	item_state.m_objectid = m_next_extent_data.objectid() + 1;\n")]),
 dict(name="p-nexthold-after", props=["C12"], edits=[(R, "	m_next_hold = hold_state(item_state);\n", ""), (R, "	set_state(new_state);\n	return true;", "	set_state(new_state);\n	m_next_hold = hold_state(item_state);\n	return true;")]),
 dict(name="p-peek-drop", props=["C12"], edits=[(R, "	fetch_extents_harder();\n	return bti_to_bfr(m_next_extent_data);", "	fetch_extents_harder();\n	m_next_hold.reset();\n	return bti_to_bfr(m_next_extent_data);")]),
 dict(name="p-no-pophold", props=["C12"], edits=[(R, "	const auto pop_hold = this_crawl->hold_state(this_crawl->get_state_begin());\n", "")]),
 dict(name="p-pophold-end", props=["C12"], edits=[(R, "this_crawl->hold_state(this_crawl->get_state_begin());\n", "this_crawl->hold_state(this_crawl->get_state_end());\n")]),
 dict(name="p-q-while", props=["C12"], expect="quiet", edits=[(R, "	while (!m_next_extent_data) {\n		const bool progress_made = fetch_extents();\n		if (!progress_made) {\n			return;\n		}\n	}\n", "	if (!!m_next_extent_data) {\n		return;\n	}\n	while (fetch_extents()) {\n		if (!!m_next_extent_data) {\n			return;\n		}\n	}\n")]),
 dict(name="p-q-helper", props=["C12"], expect="quiet", edits=[(R, "		Task create_map_task(oss.str(), [sft, this_bytenr, hold_state, this_length, find_next_task]() {\n			sft->create_extent_map(this_bytenr, hold_state, this_length, find_next_task);\n			BEESCOUNT(crawl_extent);\n		});\n		create_map_task.run();\n", "		const auto fn = [sft, this_bytenr, hold_state, this_length, find_next_task]() {\n			sft->create_extent_map(this_bytenr, hold_state, this_length, find_next_task);\n			BEESCOUNT(crawl_extent);\n		};\n		Task(oss.str(), fn).run();\n")]),
 dict(name="p-q-begin", props=["C12"], expect="quiet", edits=[(PH, "		if (m_state->m_in_progress.empty()) {\n			// If we made the list empty, then m_begin == m_end\n			m_state->m_begin = m_state->m_end;\n		} else {\n			// If we deleted the first element, then m_begin = current first element\n			m_state->m_begin = m_state->m_in_progress.begin()->first;\n		}", "		const auto first = m_state->m_in_progress.begin();\n		if (first != m_state->m_in_progress.end()) {\n			m_state->m_begin = first->first;\n			return;\n		}\n		m_state->m_begin = m_state->m_end;")]),
 dict(name="p-q-max", props=["C12"], expect="quiet", edits=[(PH, "		if (m_state->m_end < m_value) {\n			m_state->m_end = m_value;\n		}", "		m_state->m_end = std::max(m_state->m_end, m_value);")]),
 dict(name="p-q-ref", props=["C12"], expect="quiet", edits=[(R, "				const bool restart_ref = bec->scan_one_ref(extref);\n				if (restart_ref) {\n					refs_list->push_front(extref);\n				}\n", "				if (!bec->scan_one_ref(extref)) {\n					return;\n				}\n				refs_list->push_back(extref);\n")]),
 dict(name="p-q-file", props=["C12"], expect="quiet", edits=[(R, "					if (!scan_again) {\n						m_hold = new_holder;\n					} else {\n						BEESCOUNT(crawl_again);\n						// Scan this ref again when the extent is available\n						m_offset = bti.offset();\n					}\n", "					if (scan_again) {\n						BEESCOUNT(crawl_again);\n						m_offset = bfr.begin();\n						return true;\n					}\n					m_hold = new_holder;\n")]),
 dict(name="p-q-state", props=["C12"], expect="quiet", edits=[(R, "		auto this_state = old_state;\n		this_state.m_objectid = this_bytenr;\n\n		auto next_state = this_state;\n		next_state.m_objectid = next_bytenr;\n", "		auto next_state = old_state;\n		next_state.m_objectid = next_bytenr;\n\n		auto this_state = old_state;\n		this_state.m_objectid = this_bytenr;\n")]),
]
CASES += [
 dict(name="v-crossed", props=["C13"], edits=[(R, '"objectid "    << ibcs.m_objectid', '"objectid "    << ibcs.m_offset')]),
 dict(name="v-load-crossed", props=["C13"], edits=[(R, 'loaded_state.m_offset      = d.at("offset");', 'loaded_state.m_offset      = d.at("objectid");')]),
 dict(name="v-nokey", props=["C13"], edits=[(R, '			ofs << "offset "      << ibcs.m_offset               << " ";\n', '')]),
 dict(name="v-gen-next", props=["C13"], edits=[(R, 'd.count("gen_next") ? d.at("gen_next") : d.at("max_transid")', 'd.count("gen_next") ? d.at("gen_next") : d.at("min_transid")')]),
 dict(name="v-started-lost", props=["C13"], edits=[(R, '			loaded_state.m_started = d.at("started");\n', '')]),
 dict(name="v-skip-idle", props=["C13"], edits=[(R, "		if (ibcs.m_max_transid) {\n", "		if (ibcs.m_objectid) {\n")]),
 dict(name="v-skip-ro", props=["C13"], edits=[(R, "		auto ibcs = i.second->get_state_begin();\n", "		if (i.second->finished()) continue;\n		auto ibcs = i.second->get_state_begin();\n")]),
 dict(name="v-clean-early", props=["C13"], edits=[(R, "	const auto crawl_saved = m_crawl_dirty;\n", "	const auto crawl_saved = m_crawl_dirty;\n	m_crawl_clean = crawl_saved;\n")]),
 dict(name="v-clean-now", props=["C13"], edits=[(R, "	m_crawl_clean = crawl_saved;\n	BEESLOGINFO(\"Saved", "	m_crawl_clean = m_crawl_dirty;\n	BEESLOGINFO(\"Saved")]),
 dict(name="v-snap-late", props=["C13"], edits=[(R, "	const auto crawl_saved = m_crawl_dirty;\n", ""), (R, "		m_crawl_clean = crawl_saved;\n		return;", "		return;"), (R, "	lock.lock();\n	// This records", "	lock.lock();\n	const auto crawl_saved = m_crawl_dirty;\n	// This records")]),
 dict(name="v-nodirty", props=["C13"], edits=[(R, "	m_state.hold(bcs);\n	m_ctx->roots()->crawl_state_set_dirty();\n", "	m_state.hold(bcs);\n")]),
 dict(name="v-dirty-first", props=["C13"], edits=[(R, "	m_state.hold(bcs);\n	m_ctx->roots()->crawl_state_set_dirty();\n", "	m_ctx->roots()->crawl_state_set_dirty();\n	m_state.hold(bcs);\n")]),
 dict(name="v-insert-nodirty", props=["C13"], edits=[(R, "		m_root_crawl_map.insert(new_pair);\n		++m_crawl_dirty;\n", "		m_root_crawl_map.insert(new_pair);\n")]),
 dict(name="v-erase-nodirty", props=["C13"], edits=[(R, "		m_root_crawl_map.erase(bcs.m_root);\n		++m_crawl_dirty;\n", "		m_root_crawl_map.erase(bcs.m_root);\n")]),
 dict(name="v-load-late", props=["C13"], edits=[(R, "		// Make sure we have a full complement of crawlers\n		catch_all([&]() {\n			state_load();\n		});\n", ""), (R, "			writeback_thread();\n		});\n", "			writeback_thread();\n		});\n		catch_all([&]() {\n			state_load();\n		});\n")]),
 dict(name="v-skip-root", props=["C13"], edits=[(R, '		BEESLOGDEBUG("loaded_state " << loaded_state);\n', '		if (!loaded_state.m_objectid) {\n			continue;\n		}\n')]),
 dict(name="v-replace", props=["C13"], edits=[(R, "		m_root_crawl_map.insert(new_pair);\n", "		m_root_crawl_map[new_bcs.m_root] = new_bcp;\n")]),
 dict(name="v-reset-min", props=["C13"], edits=[(R, "		if (loaded_state.m_min_transid == numeric_limits<uint64_t>::max()) {", "		if (loaded_state.m_min_transid >= loaded_state.m_max_transid) {")]),
 dict(name="v-hex", props=["C13"], edits=[(R, 'ofs << "root "        << ibcs.m_root ', 'ofs << "root "        << hex << ibcs.m_root ')]),
 dict(name="v-q-helper", props=["C13"], expect="quiet", edits=[(R, "ostream &\nBeesRoots::state_to_stream(ostream &ofs)\n{", "static\nvoid\nput_value(ostream &os, const char *key, uint64_t value)\n{\n	os << key << value << \" \";\n}\n\nostream &\nBeesRoots::state_to_stream(ostream &ofs)\n{"), (R, '			ofs << "offset "      << ibcs.m_offset               << " ";\n', '			put_value(ofs, "offset ", ibcs.m_offset);\n')]),
 dict(name="v-q-one", props=["C13"], expect="quiet", edits=[(R, '			ofs << "root "        << ibcs.m_root                 << " ";\n			ofs << "objectid "    << ibcs.m_objectid             << " ";\n', '			ofs << "root " << ibcs.m_root << " objectid " << ibcs.m_objectid << " ";\n')]),
 dict(name="v-q-continue", props=["C13"], expect="quiet", edits=[(R, "		if (ibcs.m_max_transid) {\n", "		if (0 == ibcs.m_max_transid) {\n			continue;\n		}\n		{\n")]),
 dict(name="v-q-loadhelper", props=["C13"], expect="quiet", edits=[(R, '		loaded_state.m_min_transid = d.count("gen_current") ? d.at("gen_current") : d.at("min_transid");\n', '		const auto old_min = d.find("gen_current");\n		if (old_min != d.end()) {\n			loaded_state.m_min_transid = old_min->second;\n		} else {\n			loaded_state.m_min_transid = d.at("min_transid");\n		}\n')]),
 dict(name="v-q-string", props=["C13"], expect="quiet", edits=[(R, "	if (ofs.str().empty()) {\n", "	const auto contents = ofs.str();\n	if (contents.empty()) {\n"), (R, "	m_crawl_state_file.write(ofs.str());", "	m_crawl_state_file.write(contents);")]),
 dict(name="v-q-iter", props=["C13"], expect="quiet", edits=[(R, "	for (auto i : m_root_crawl_map) {\n		auto ibcs = i.second->get_state_begin();\n", "	for (const auto &i : m_root_crawl_map) {\n		const auto &crawl = i.second;\n		const auto ibcs = crawl->get_state_begin();\n")]),
 dict(name="v-q-dirty", props=["C13"], expect="quiet", edits=[(R, "		m_root_crawl_map.erase(bcs.m_root);\n		++m_crawl_dirty;\n", "		++m_crawl_dirty;\n		m_root_crawl_map.erase(bcs.m_root);\n		m_crawl_dirty++;\n")]),
 dict(name="v-q-lockscope", props=["C13"], expect="quiet", edits=[(R, "	const auto rv = m_state.hold(bcs);\n	m_ctx->roots()->crawl_state_set_dirty();\n	return rv;", "	auto rv = m_state.hold(bcs);\n	const auto roots = m_ctx->roots();\n	roots->crawl_state_set_dirty();\n	return rv;")]),
]
CASES += [
 dict(name="w-gen-le", props=["C14"], edits=[(R, "		if (gen < min_transid) {", "		if (gen <= min_transid) {")]),
 dict(name="w-gen-ge", props=["C14"], edits=[(R, "	if (gen > m_state.m_max_transid) {", "	if (gen >= m_state.m_max_transid) {")]),
 dict(name="w-max-kept", props=["C14"], edits=[(R, "		crawl_state.m_min_transid = crawl_state.m_max_transid;\n", "		crawl_state.m_min_transid = crawl_state.m_max_transid + 1;\n")]),
 dict(name="w-max-first", props=["C14"], edits=[(R, "		crawl_state.m_min_transid = crawl_state.m_max_transid;\n		crawl_state.m_max_transid = roots->transid_max();\n", "		crawl_state.m_max_transid = roots->transid_max();\n		crawl_state.m_min_transid = crawl_state.m_max_transid;\n")]),
 dict(name="w-objectid", props=["C14"], edits=[(R, "		crawl_state.m_objectid = 0;\n", "")]),
 dict(name="w-nofilter-bti", props=["C14"], edits=[(R, "	if (!m_next_extent_data) {\n		// Ran out", "	if (!m_next_extent_data || old_state.m_objectid > (1ULL << 40)) {\n		// Ran out")]),
 dict(name="w-undefer", props=["C14"], edits=[(R, "				crawl->deferred(false);\n", "")]),
 dict(name="w-undefer-true", props=["C14"], edits=[(R, "				crawl->deferred(false);\n", "				crawl->deferred(crawl->finished());\n")]),
 dict(name="w-root-undefer", props=["C14"], edits=[(R, "	const auto found = m_root_crawl_map.find(new_bcs.m_root);\n	THROW", "	const auto found = m_root_crawl_map.find(new_bcs.m_root);\n	if (found != m_root_crawl_map.end() && found->second->finished()) return found->second;\n	THROW")]),
 dict(name="w-uptodate", props=["C14"], edits=[(R, "	return bcs.m_max_transid >= transid_max();", "	return bcs.m_max_transid + 1 >= transid_max();")]),
 dict(name="w-uptodate-min", props=["C14"], edits=[(R, "	return bcs.m_max_transid >= transid_max();", "	return bcs.m_min_transid >= transid_max();")]),
 dict(name="w-search-max", props=["C14"], edits=[(R, "	m_btof.transid(old_state.m_min_transid);", "	m_btof.transid(old_state.m_min_transid, old_state.m_max_transid);")]),
 dict(name="w-search-min", props=["C14"], edits=[(R, "	m_fetcher.transid(min_transid);", "	m_fetcher.transid(max_transid);")]),
 dict(name="w-ro-max", props=["C14"], edits=[(R, "		if (crawl_state.m_objectid == 0) {\n", "		{\n")]),
 dict(name="w-nowake", props=["C14"], edits=[(R, "		if (new_transid != last_transid) {", "		if (new_transid > last_transid + 1) {")]),
 dict(name="w-order", props=["C14"], edits=[(R, "	return tie(m_min_transid, m_max_transid, m_objectid, m_offset, m_root)\n		< tie(that.m_min_transid, that.m_max_transid, that.m_objectid, that.m_offset, that.m_root);", "	return tie(m_objectid, m_offset, m_min_transid, m_max_transid, m_root)\n		< tie(that.m_objectid, that.m_offset, that.m_min_transid, that.m_max_transid, that.m_root);")]),
 dict(name="w-startscan", props=["C14"], edits=[(R, "	// Kick off tasks if they aren't already running\n	start_scan();\n", ""), (R, "	// Grab a copy of members\n", "	start_scan();\n	// Grab a copy of members\n")]),
 dict(name="w-q-order", props=["C14"], expect="quiet", edits=[(R, "		crawl_state.m_min_transid = crawl_state.m_max_transid;\n		crawl_state.m_max_transid = roots->transid_max();\n		crawl_state.m_objectid = 0;\n		crawl_state.m_offset = 0;\n", "		crawl_state.m_offset = 0;\n		crawl_state.m_objectid = 0;\n		const auto old_max = crawl_state.m_max_transid;\n		crawl_state.m_max_transid = roots->transid_max();\n		crawl_state.m_min_transid = old_max;\n")]),
 dict(name="w-q-if", props=["C14"], expect="quiet", edits=[(R, "	m_finished = roots->up_to_date(crawl_state);\n\n	if (m_finished) {\n		m_deferred = true;\n		BEESLOGINFO(\"Crawl finished \" << crawl_state);\n	} else {", "	m_finished = roots->up_to_date(crawl_state);\n	if (m_finished) {\n		m_deferred = true;\n		BEESLOGINFO(\"Crawl finished \" << crawl_state);\n		return false;\n	}\n	{")]),
 dict(name="w-q-gen", props=["C14"], expect="quiet", edits=[(R, "		if (gen < min_transid) {", "		if (!(min_transid <= gen)) {")]),
 dict(name="w-q-utd", props=["C14"], expect="quiet", edits=[(R, "	return bcs.m_max_transid >= transid_max();", "	const auto now = transid_max();\n	if (bcs.m_max_transid < now) {\n		return false;\n	}\n	return true;")]),
 dict(name="w-q-wake", props=["C14"], expect="quiet", edits=[(R, "			const auto found = m_size_tiers.find(subvol);\n			if (found != m_size_tiers.end()) {\n				const auto crawl = found->second->crawl();\n", "			const auto found = m_size_tiers.find(subvol);\n			if (found == m_size_tiers.end()) {\n				continue;\n			}\n			{\n				const auto crawl = found->second->crawl();\n")]),
 dict(name="w-q-fetch", props=["C14"], expect="quiet", edits=[(R, "	if (m_finished || old_state.m_max_transid <= old_state.m_min_transid) {\n", "	const bool empty_range = old_state.m_max_transid <= old_state.m_min_transid;\n	if (empty_range || m_finished) {\n")]),
 dict(name="w-q-ro", props=["C14"], expect="quiet", edits=[(R, "			const auto next_transid = roots->transid_max();\n			const auto current_time = time(NULL);\n			crawl_state.m_max_transid = max(next_transid, crawl_state.m_max_transid);\n", "			const auto current_time = time(NULL);\n			const auto next_transid = roots->transid_max();\n			if (crawl_state.m_max_transid < next_transid) {\n				crawl_state.m_max_transid = next_transid;\n			}\n")]),
]
