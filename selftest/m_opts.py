"""C26: command line options"""
B = "src/bees.cc"
R = "src/bees-roots.cc"
CASES = []


def bad(name, *edits):
    CASES.append(dict(name="o-" + name, props=["C26"], edits=list(edits)))


def quiet(name, *edits):
    CASES.append(dict(name="o-q-" + name, props=["C26"], edits=list(edits), expect="quiet"))


# --- violations
bad("letter", (B, ".has_arg = required_argument, .val = 'G' }", ".has_arg = required_argument, .val = 'M' }"), (B, "case 'G':", "case 'M':"))
bad("noarg", (B, '"loadavg-target",        .has_arg = required_argument', '"loadavg-target",        .has_arg = optional_argument'))
bad("gone", (B, """		{ .name = "timestamps",            .has_arg = no_argument,       .val = 't' },\n""", ""))
bad("swap-cC", (B, "thread_factor = stod(optarg);", "thread_count = stoul(optarg);"))
bad("stoul-factor", (B, "thread_factor = stod(optarg);", "thread_factor = stoul(optarg);"))
bad("stoul-load", (B, "load_target = stod(optarg);", "load_target = stoi(optarg);"))
bad("stoul-throttle", (B, "bees_throttle_factor = stod(optarg);", "bees_throttle_factor = atoi(optarg);"))
bad("fallthrough-T", (B, "				chatter_prefix_timestamp = false;\n				break;\n", "				chatter_prefix_timestamp = false;\n				workaround_btrfs_send = true;\n				break;\n"))
bad("missing-break", (B, "				workaround_btrfs_send = true;\n				break;\n			case 'c':", "				workaround_btrfs_send = true;\n				// fall through\n			case 'c':"))
bad("default-mode", (B, "root_scan_mode = BeesRoots::SCAN_MODE_EXTENT;", "root_scan_mode = BeesRoots::SCAN_MODE_RECENT;"))
bad("default-path", (B, "bool use_relative_paths = false;", "bool use_relative_paths = true;"))
bad("default-time", (B, "bool chatter_prefix_timestamp = true;", "bool chatter_prefix_timestamp = false;"))
bad("default-load", (B, "double load_target = 0;", "double load_target = 5;"))
bad("path-order", (B, "			case 'p':\n				use_relative_paths = false;\n", "			case 'p':\n				use_relative_paths |= false;\n"))
bad("factor-wins", (B, "	if (thread_count < 1) {\n		if", "	if (thread_count < 1 || thread_factor != 0) {\n		if"))
bad("factor-lost", (B, "		if (thread_factor == 0) {\n", "		if (thread_factor != 0) {\n"))
bad("count-clamp", (B, "	if (load_target != 0) {\n", "	thread_count = min(thread_count, thread::hardware_concurrency());\n	if (load_target != 0) {\n"))
bad("min-always", (B, "		TaskMaster::set_thread_min_count(thread_min);\n", ""))
bad("min-max-swap", (B, "TaskMaster::set_thread_min_count(thread_min);", "TaskMaster::set_thread_min_count(thread_count);"))
bad("load-inside", (B, "	TaskMaster::set_loadavg_target(load_target);\n", "	TaskMaster::set_loadavg_target(thread_factor);\n"))
bad("verbose-range", (B, "				THROW_CHECK1(out_of_range, new_log_level, new_log_level <= 8);\n", ""))
bad("verbose-7", (B, "new_log_level <= 8", "new_log_level < 8"))
bad("verbose-lost", (B, "				bees_log_level = new_log_level;\n", ""))
bad("verbose-default", ("src/bees-trace.cc", "int bees_log_level = 8;", "int bees_log_level = 7;"))
bad("throttle-default", (B, "static double bees_throttle_factor = 0.0;", "static double bees_throttle_factor = 1.0;"))
bad("help-starts", (B, "				do_cmd_help(argv);\n				return EXIT_SUCCESS;\n		}\n", "				do_cmd_help(argv);\n				break;\n		}\n"))
bad("argc", (B, "	if (optind + 1 != argc) {", "	if (optind >= argc) {"))
bad("argc2", (B, "	if (optind + 1 != argc) {", "	if (optind + 1 > argc + 1) {"))
bad("mode-after", (B, "	// Set root scan mode\n	bc->roots()->set_scan_mode(root_scan_mode);\n", ""), (B, "	bc->start();\n", "	bc->start();\n	bc->roots()->set_scan_mode(root_scan_mode);\n"))
bad("mode-swap", (R, "case SCAN_MODE_LOCKSTEP: {", "case SCAN_MODE_INDEPENDENT: {"), (R, "		case SCAN_MODE_INDEPENDENT: {\n			m_scanner = make_shared<BeesScanModeIndependent>", "		case SCAN_MODE_LOCKSTEP: {\n			m_scanner = make_shared<BeesScanModeIndependent>"))
bad("mode-refuse", (R, "THROW_CHECK1(invalid_argument, mode, mode < SCAN_MODE_COUNT);", "THROW_CHECK1(invalid_argument, mode, mode < SCAN_MODE_EXTENT);"))
bad("enum-order", ("src/bees.h", "		SCAN_MODE_LOCKSTEP,\n		SCAN_MODE_INDEPENDENT,\n", "		SCAN_MODE_INDEPENDENT,\n		SCAN_MODE_LOCKSTEP,\n"))
bad("cap", (B, "min(60.0, bees_throttle_factor", "min(600.0, bees_throttle_factor"))
bad("nocap", (B, "min(60.0, bees_throttle_factor * avg_time - time_used)", "bees_throttle_factor * avg_time - time_used"))
bad("max", (B, "min(60.0, bees_throttle_factor", "max(60.0, bees_throttle_factor"))
bad("sign", (B, "bees_throttle_factor * avg_time - time_used)", "time_used - bees_throttle_factor * avg_time)"))
bad("nofactor", (B, "bees_throttle_factor * avg_time - time_used)", "avg_time - time_used)"))
bad("used", (B, "bees_throttle_factor * avg_time - time_used)", "bees_throttle_factor * avg_time)"))
bad("dedup-free", ("src/bees-context.cc", '			bees_throttle(dedup_timer.age(), "dedup");\n', ""))
bad("colon", (B, "		if (op->has_arg == required_argument) {\n			getopt_list", "		if (op->has_arg == no_argument) {\n			getopt_list"))
bad("colon2", (B, "		if (op->has_arg == required_argument) {\n			getopt_list += ':';\n		}\n", ""))
bad("root", (B, "	bc->set_root_path(root_path);\n", "	bc->set_root_path(\"/\");\n"))
bad("strip-unset", (B, "		crucible::set_relative_path(name_fd(bc->root_fd()));\n", ""))
bad("default-factor", ("src/bees.h", "BEES_DEFAULT_THREAD_FACTOR = 1.0", "BEES_DEFAULT_THREAD_FACTOR = 2.0"))
bad("usage", ("src/bees-usage.txt", "(0..4, default 4)", "(0..4, default 3)"))
bad("hc-plus", (B, "ceil(thread::hardware_concurrency() * thread_factor)", "ceil(thread::hardware_concurrency() + thread_factor)"))
bad("min-half", (B, "thread_min = stoul(optarg);", "thread_min = stoul(optarg) / 2;"))
bad("F-P", (B, "				use_relative_paths = true;\n				break;\n", "				use_relative_paths = true;\n"))

T = "lib/task.cc"
bad("level-le", ("src/bees.h", "if (lv < bees_log_level) {", "if (lv <= bees_log_level) {"))
bad("level-flip", ("src/bees.h", "if (lv < bees_log_level) {", "if (lv > bees_log_level) {"))
bad("level-eq", ("src/bees.h", "if (lv < bees_log_level) {", "if (lv != bees_log_level) {"))
bad("kept-max", (T, "		m_configured_thread_max = thread_max;\n", "		m_configured_thread_max = min(thread_max, size_t(16));\n"))
bad("kept-drop", (T, "		m_thread_min = thread_min;\n", "		m_thread_max = max(m_thread_max, thread_min);\n"))
bad("kept-load", (T, "		m_load_target = target;\n", "		m_load_target = target + 0.5;\n"))
bad("kept-send", (R, "	m_workaround_btrfs_send = do_avoid;\n", ""))
bad("kept-time", ("lib/chatter.cc", "		add_prefix_timestamp = prefix_timestamp;", "		add_prefix_timestamp = !prefix_timestamp;"))
bad("limit-start", (T, "while (m_threads.size() < m_thread_max && !m_paused) {", "while (m_threads.size() <= m_thread_max && !m_paused) {"))
bad("limit-start2", (T, "while (m_threads.size() < m_thread_max && !m_paused) {", "while (m_threads.size() < m_configured_thread_max && !m_paused) {"))
bad("limit-exit", (T, """			if (master_copy->m_thread_max < master_copy->m_threads.size()) {
				// We are one of too many threads, exit now
				break;
			}
""", ""))
bad("limit-over", (T, "max(m_thread_min, min(size_t(ceil(m_thread_target)), m_configured_thread_max))", "max(m_thread_min, size_t(ceil(m_thread_target * 2)))"))
bad("limit-under", (T, "max(m_thread_min, min(size_t(ceil(m_thread_target)), m_configured_thread_max))", "min(size_t(ceil(m_thread_target)), m_configured_thread_max)"))

# --- the same behaviour
quiet("kept-lock", (T, "		unique_lock<mutex> lock(m_mutex);\n		m_thread_min = thread_min;\n		lock.unlock();\n", "		{\n			lock_guard<mutex> lock(m_mutex);\n			m_thread_min = thread_min;\n		}\n"))
quiet("level-flip", ("src/bees.h", "if (lv < bees_log_level) {", "if (bees_log_level > lv) {"))
quiet("kept-if", (R, "	m_workaround_btrfs_send = do_avoid;\n	if (m_workaround_btrfs_send) {", "	m_workaround_btrfs_send = do_avoid;\n	if (do_avoid) {"))
quiet("limit-flip", (T, "if (master_copy->m_thread_max < master_copy->m_threads.size()) {", "const auto n_threads = master_copy->m_threads.size();\n			if (n_threads > master_copy->m_thread_max) {"))
quiet("limit-helper", (T, "				m_threads.insert(make_shared<TaskConsumer>(shared_from_this()));\n			} else if", "				const auto consumer = make_shared<TaskConsumer>(shared_from_this());\n				m_threads.insert(consumer);\n			} else if"))
quiet("limit-clamp", (T, "		const size_t rv = max(m_thread_min, min(size_t(ceil(m_thread_target)), m_configured_thread_max));\n\n		return rv;", "		const size_t want = min(size_t(ceil(m_thread_target)), m_configured_thread_max);\n		return want < m_thread_min ? m_thread_min : want;"))
quiet("limit-clamp2", (T, "		const size_t rv = max(m_thread_min, min(size_t(ceil(m_thread_target)), m_configured_thread_max));\n", "		size_t rv = size_t(ceil(m_thread_target));\n		if (rv > m_configured_thread_max) {\n			rv = m_configured_thread_max;\n		}\n		if (rv < m_thread_min) {\n			rv = m_thread_min;\n		}\n"))
quiet("limit-loop", (T, "		while (m_threads.size() < m_thread_max && !m_paused) {\n			m_threads", "		while (!m_paused) {\n			if (m_threads.size() >= m_thread_max) {\n				break;\n			}\n			m_threads"))

quiet("while", (B, """	while (true) {
		int option_index = 0;

		const auto c = getopt_long(argc, argv, getopt_list.c_str(), long_options, &option_index);
		if (-1 == c) {
			break;
		}
""", """	int option_index = 0;
	int c;
	while ((c = getopt_long(argc, argv, getopt_list.c_str(), long_options, &option_index)) != -1) {
"""))
quiet("ternary", (B, """	if (thread_count < 1) {
		if (thread_factor == 0) {
			thread_factor = BEES_DEFAULT_THREAD_FACTOR;
		}
		thread_count =""", """	if (thread_count == 0) {
		thread_factor = thread_factor == 0 ? BEES_DEFAULT_THREAD_FACTOR : thread_factor;
		thread_count ="""))
quiet("helper-threads", (B, "static\nint\nbees_main(", """static
unsigned
pick_threads(unsigned count, double factor)
{
	if (count >= 1) {
		return count;
	}
	if (factor == 0) {
		factor = BEES_DEFAULT_THREAD_FACTOR;
	}
	return max(1U, static_cast<unsigned>(ceil(thread::hardware_concurrency() * factor)));
}

static
int
bees_main("""), (B, """	if (thread_count < 1) {
		if (thread_factor == 0) {
			thread_factor = BEES_DEFAULT_THREAD_FACTOR;
		}
		thread_count = max(1U, static_cast<unsigned>(ceil(thread::hardware_concurrency() * thread_factor)));
	}
""", "	thread_count = pick_threads(thread_count, thread_factor);\n"))
quiet("if-chain", (B, """			case 'P':
				use_relative_paths = true;
				break;
""", """			case 'P':
			case 'p':
				use_relative_paths = (c == 'P');
				break;
"""), (B, """			case 'p':
				use_relative_paths = false;
				break;
""", ""))
quiet("string", (B, "load_target = stod(optarg);", "load_target = stod(string(optarg));"))
quiet("argc-eq", (B, "	if (optind + 1 != argc) {", "	if (argc - optind != 1) {"))
quiet("argc-two", (B, "	if (optind + 1 != argc) {", "	if (argc - optind < 1 || argc - optind > 1) {"))
quiet("argc-var", (B, "	if (optind + 1 != argc) {", "	const int paths = argc - optind;\n	if (paths != 1) {"))
quiet("struct", (B, """	double load_target = 0;
	bool workaround_btrfs_send = false;
""", """	struct {
		double load_target = 0;
		bool workaround_btrfs_send = false;
	} opts;
"""), (B, "				workaround_btrfs_send = true;\n", "				opts.workaround_btrfs_send = true;\n"), (B, "				load_target = stod(optarg);", "				opts.load_target = stod(optarg);"),
      (B, "	if (load_target != 0) {\n		BEESLOGNOTICE(\"setting load average target to \" << load_target);", "	if (opts.load_target != 0) {\n		BEESLOGNOTICE(\"setting load average target to \" << opts.load_target);"),
      (B, "TaskMaster::set_loadavg_target(load_target);", "TaskMaster::set_loadavg_target(opts.load_target);"), (B, "set_workaround_btrfs_send(workaround_btrfs_send)", "set_workaround_btrfs_send(opts.workaround_btrfs_send)"))
quiet("level", (B, """					int new_log_level = stoul(optarg);
					THROW_CHECK1(out_of_range, new_log_level, new_log_level <= 8);
					THROW_CHECK1(out_of_range, new_log_level, new_log_level >= 0);
					bees_log_level = new_log_level;
""", """					const int new_log_level = stoul(optarg);
					if (new_log_level < 0 || new_log_level > 8) {
						throw out_of_range("log level");
					}
					bees_log_level = new_log_level;
"""))
quiet("level-helper", (B, "static\nint\nbees_main(", """static
void
set_log_level(const char *arg)
{
	const int new_log_level = stoul(arg);
	THROW_CHECK1(out_of_range, new_log_level, new_log_level <= 8);
	THROW_CHECK1(out_of_range, new_log_level, new_log_level >= 0);
	bees_log_level = new_log_level;
	BEESLOGNOTICE("log level set to " << bees_log_level);
}

static
int
bees_main("""), (B, """				{
					int new_log_level = stoul(optarg);
					THROW_CHECK1(out_of_range, new_log_level, new_log_level <= 8);
					THROW_CHECK1(out_of_range, new_log_level, new_log_level >= 0);
					bees_log_level = new_log_level;
					BEESLOGNOTICE("log level set to " << bees_log_level);
				}
""", "				set_log_level(optarg);\n"))
quiet("sinks-order", (B, """	// Workaround for btrfs send
	bc->roots()->set_workaround_btrfs_send(workaround_btrfs_send);

	// Set root scan mode
	bc->roots()->set_scan_mode(root_scan_mode);
""", """	const auto roots = bc->roots();
	roots->set_scan_mode(root_scan_mode);
	if (workaround_btrfs_send) {
		roots->set_workaround_btrfs_send(true);
	}
"""))
quiet("cap-if", (B, "const auto sleep_time = min(60.0, bees_throttle_factor * avg_time - time_used);", "auto sleep_time = bees_throttle_factor * avg_time - time_used;\n	if (sleep_time > 60.0) {\n		sleep_time = 60.0;\n	}"))
quiet("cap-pos", (B, "const auto sleep_time = min(60.0, bees_throttle_factor * avg_time - time_used);", "const auto target_time = bees_throttle_factor * avg_time;\n	const auto sleep_time = min(target_time - time_used, 60.0);"))
quiet("mode-if", (R, """	switch (mode) {
		case SCAN_MODE_LOCKSTEP: {
			m_scanner = make_shared<BeesScanModeLockstep>(shared_from_this(), m_ctx);
			break;
		}
""", """	if (mode == SCAN_MODE_LOCKSTEP) {
		m_scanner = make_shared<BeesScanModeLockstep>(shared_from_this(), m_ctx);
	} else switch (mode) {
"""))
quiet("mode-local", (R, "			m_scanner = make_shared<BeesScanModeRecent>(shared_from_this(), m_ctx);\n", "			const auto scanner = make_shared<BeesScanModeRecent>(shared_from_this(), m_ctx);\n			m_scanner = scanner;\n"))
quiet("colon-cond", (B, "		if (op->has_arg == required_argument) {\n			getopt_list += ':';\n		}\n", "		if (op->has_arg != no_argument) {\n			getopt_list.push_back(':');\n		}\n"))
quiet("colon-for", (B, "	for (const struct option *op = long_options; op->val; ++op) {", "	const struct option *op = long_options;\n	for (; op->val != 0; op++) {"))
quiet("list-const", (B, "getopt_list.c_str(), long_options", "\"C:G:PTac:g:hm:ptv:\", long_options"))
quiet("time-direct", (B, "	Chatter::enable_timestamp(chatter_prefix_timestamp);\n", ""), (B, "				chatter_prefix_timestamp = false;\n", "				chatter_prefix_timestamp = false;\n				Chatter::enable_timestamp(false);\n"),
      (B, "				chatter_prefix_timestamp = true;\n", "				chatter_prefix_timestamp = true;\n				Chatter::enable_timestamp(true);\n"))
quiet("parse-fn", (B, "static\nint\nbees_main(", """static
double
parse_double(const char *s)
{
	return stod(s);
}

static
int
bees_main("""), (B, "thread_factor = stod(optarg);", "thread_factor = parse_double(optarg);"), (B, "load_target = stod(optarg);", "load_target = parse_double(optarg);"))
quiet("mode-fn", (B, "				root_scan_mode = static_cast<BeesRoots::ScanMode>(stoul(optarg));\n", "				{\n					const auto mode_number = stoul(optarg);\n					root_scan_mode = static_cast<BeesRoots::ScanMode>(mode_number);\n				}\n"))
quiet("factor-in-min", (B, "	if (load_target != 0) {\n", "	const bool dynamic = load_target != 0;\n	if (dynamic) {\n"))

# --- larger restructurings of the parser
quiet('parse-ref', ('src/bees.cc', 'static\nint\nbees_main(', 'struct BeesOptions {\n\tbool use_relative_paths = false;\n\tbool chatter_prefix_timestamp = true;\n\tdouble thread_factor = 0;\n\tunsigned thread_count = 0;\n\tunsigned thread_min = 0;\n\tdouble load_target = 0;\n\tbool workaround_btrfs_send = false;\n\tBeesRoots::ScanMode root_scan_mode = BeesRoots::SCAN_MODE_EXTENT;\n\n};\n\nstatic\nbool\nparse_options(int argc, char *argv[], BeesOptions &opts)\n{\n\t// Configure getopt_long\n\t// Options with no short form\n\tenum {\n\t\tBEES_OPT_THROTTLE_FACTOR = 256,\n\t};\n\tstatic const struct option long_options[] = {\n\t\t{ .name = "thread-factor",         .has_arg = required_argument, .val = \'C\' },\n\t\t{ .name = "throttle-factor",       .has_arg = required_argument, .val = BEES_OPT_THROTTLE_FACTOR },\n\t\t{ .name = "thread-min",            .has_arg = required_argument, .val = \'G\' },\n\t\t{ .name = "strip-paths",           .has_arg = no_argument,       .val = \'P\' },\n\t\t{ .name = "no-timestamps",         .has_arg = no_argument,       .val = \'T\' },\n\t\t{ .name = "workaround-btrfs-send", .has_arg = no_argument,       .val = \'a\' },\n\t\t{ .name = "thread-count",          .has_arg = required_argument, .val = \'c\' },\n\t\t{ .name = "loadavg-target",        .has_arg = required_argument, .val = \'g\' },\n\t\t{ .name = "help",                  .has_arg = no_argument,       .val = \'h\' },\n\t\t{ .name = "scan-mode",             .has_arg = required_argument, .val = \'m\' },\n\t\t{ .name = "absolute-paths",        .has_arg = no_argument,       .val = \'p\' },\n\t\t{ .name = "timestamps",            .has_arg = no_argument,       .val = \'t\' },\n\t\t{ .name = "verbose",               .has_arg = required_argument, .val = \'v\' },\n\t\t{ 0 },\n\t};\n\n\t// Build getopt_long\'s short option list from the long_options table.\n\t// While we\'re at it, make sure we didn\'t duplicate any options.\n\tstring getopt_list;\n\tmap<decltype(option::val), string> option_vals;\n\tfor (const struct option *op = long_options; op->val; ++op) {\n\t\tconst auto ins_rv = option_vals.insert(make_pair(op->val, op->name));\n\t\tTHROW_CHECK1(runtime_error, op->val, ins_rv.second);\n\t\tif ((op->val & 0xff) != op->val) {\n\t\t\tcontinue;\n\t\t}\n\t\tgetopt_list += op->val;\n\t\tif (op->has_arg == required_argument) {\n\t\t\tgetopt_list += \':\';\n\t\t}\n\t}\n\n\t// Parse options\n\twhile (true) {\n\t\tint option_index = 0;\n\n\t\tconst auto c = getopt_long(argc, argv, getopt_list.c_str(), long_options, &option_index);\n\t\tif (-1 == c) {\n\t\t\tbreak;\n\t\t}\n\n\t\t// getopt_long should have weeded out any invalid options,\n\t\t// so we can go ahead and throw here\n\t\tBEESLOGDEBUG("Parsing option \'" << option_vals.at(c) << "\'");\n\n\t\tswitch (c) {\n\n\t\t\tcase \'C\':\n\t\t\t\topts.thread_factor = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase BEES_OPT_THROTTLE_FACTOR:\n\t\t\t\tbees_throttle_factor = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'G\':\n\t\t\t\topts.thread_min = stoul(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'P\':\n\t\t\t\topts.use_relative_paths = true;\n\t\t\t\tbreak;\n\t\t\tcase \'T\':\n\t\t\t\topts.chatter_prefix_timestamp = false;\n\t\t\t\tbreak;\n\t\t\tcase \'a\':\n\t\t\t\topts.workaround_btrfs_send = true;\n\t\t\t\tbreak;\n\t\t\tcase \'c\':\n\t\t\t\topts.thread_count = stoul(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'g\':\n\t\t\t\topts.load_target = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'m\':\n\t\t\t\topts.root_scan_mode = static_cast<BeesRoots::ScanMode>(stoul(optarg));\n\t\t\t\tbreak;\n\t\t\tcase \'p\':\n\t\t\t\topts.use_relative_paths = false;\n\t\t\t\tbreak;\n\t\t\tcase \'t\':\n\t\t\t\topts.chatter_prefix_timestamp = true;\n\t\t\t\tbreak;\n\t\t\tcase \'v\':\n\t\t\t\t{\n\t\t\t\t\tint new_log_level = stoul(optarg);\n\t\t\t\t\tTHROW_CHECK1(out_of_range, new_log_level, new_log_level <= 8);\n\t\t\t\t\tTHROW_CHECK1(out_of_range, new_log_level, new_log_level >= 0);\n\t\t\t\t\tbees_log_level = new_log_level;\n\t\t\t\t\tBEESLOGNOTICE("log level set to " << bees_log_level);\n\t\t\t\t}\n\t\t\t\tbreak;\n\n\t\t\tcase \'h\':\n\t\t\tdefault:\n\t\t\t\tdo_cmd_help(argv);\n\t\t\t\treturn false;\n\t\t}\n\t}\n\n\treturn true;\n}\n\nstatic\nint\nbees_main('), ('src/bees.cc', '\t// Defaults\n\tbool use_relative_paths = false;\n\tbool chatter_prefix_timestamp = true;\n\tdouble thread_factor = 0;\n\tunsigned thread_count = 0;\n\tunsigned thread_min = 0;\n\tdouble load_target = 0;\n\tbool workaround_btrfs_send = false;\n\tBeesRoots::ScanMode root_scan_mode = BeesRoots::SCAN_MODE_EXTENT;\n\n\t// Configure getopt_long\n\t// Options with no short form\n\tenum {\n\t\tBEES_OPT_THROTTLE_FACTOR = 256,\n\t};\n\tstatic const struct option long_options[] = {\n\t\t{ .name = "thread-factor",         .has_arg = required_argument, .val = \'C\' },\n\t\t{ .name = "throttle-factor",       .has_arg = required_argument, .val = BEES_OPT_THROTTLE_FACTOR },\n\t\t{ .name = "thread-min",            .has_arg = required_argument, .val = \'G\' },\n\t\t{ .name = "strip-paths",           .has_arg = no_argument,       .val = \'P\' },\n\t\t{ .name = "no-timestamps",         .has_arg = no_argument,       .val = \'T\' },\n\t\t{ .name = "workaround-btrfs-send", .has_arg = no_argument,       .val = \'a\' },\n\t\t{ .name = "thread-count",          .has_arg = required_argument, .val = \'c\' },\n\t\t{ .name = "loadavg-target",        .has_arg = required_argument, .val = \'g\' },\n\t\t{ .name = "help",                  .has_arg = no_argument,       .val = \'h\' },\n\t\t{ .name = "scan-mode",             .has_arg = required_argument, .val = \'m\' },\n\t\t{ .name = "absolute-paths",        .has_arg = no_argument,       .val = \'p\' },\n\t\t{ .name = "timestamps",            .has_arg = no_argument,       .val = \'t\' },\n\t\t{ .name = "verbose",               .has_arg = required_argument, .val = \'v\' },\n\t\t{ 0 },\n\t};\n\n\t// Build getopt_long\'s short option list from the long_options table.\n\t// While we\'re at it, make sure we didn\'t duplicate any options.\n\tstring getopt_list;\n\tmap<decltype(option::val), string> option_vals;\n\tfor (const struct option *op = long_options; op->val; ++op) {\n\t\tconst auto ins_rv = option_vals.insert(make_pair(op->val, op->name));\n\t\tTHROW_CHECK1(runtime_error, op->val, ins_rv.second);\n\t\tif ((op->val & 0xff) != op->val) {\n\t\t\tcontinue;\n\t\t}\n\t\tgetopt_list += op->val;\n\t\tif (op->has_arg == required_argument) {\n\t\t\tgetopt_list += \':\';\n\t\t}\n\t}\n\n\t// Parse options\n\twhile (true) {\n\t\tint option_index = 0;\n\n\t\tconst auto c = getopt_long(argc, argv, getopt_list.c_str(), long_options, &option_index);\n\t\tif (-1 == c) {\n\t\t\tbreak;\n\t\t}\n\n\t\t// getopt_long should have weeded out any invalid options,\n\t\t// so we can go ahead and throw here\n\t\tBEESLOGDEBUG("Parsing option \'" << option_vals.at(c) << "\'");\n\n\t\tswitch (c) {\n\n\t\t\tcase \'C\':\n\t\t\t\tthread_factor = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase BEES_OPT_THROTTLE_FACTOR:\n\t\t\t\tbees_throttle_factor = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'G\':\n\t\t\t\tthread_min = stoul(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'P\':\n\t\t\t\tuse_relative_paths = true;\n\t\t\t\tbreak;\n\t\t\tcase \'T\':\n\t\t\t\tchatter_prefix_timestamp = false;\n\t\t\t\tbreak;\n\t\t\tcase \'a\':\n\t\t\t\tworkaround_btrfs_send = true;\n\t\t\t\tbreak;\n\t\t\tcase \'c\':\n\t\t\t\tthread_count = stoul(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'g\':\n\t\t\t\tload_target = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'m\':\n\t\t\t\troot_scan_mode = static_cast<BeesRoots::ScanMode>(stoul(optarg));\n\t\t\t\tbreak;\n\t\t\tcase \'p\':\n\t\t\t\tuse_relative_paths = false;\n\t\t\t\tbreak;\n\t\t\tcase \'t\':\n\t\t\t\tchatter_prefix_timestamp = true;\n\t\t\t\tbreak;\n\t\t\tcase \'v\':\n\t\t\t\t{\n\t\t\t\t\tint new_log_level = stoul(optarg);\n\t\t\t\t\tTHROW_CHECK1(out_of_range, new_log_level, new_log_level <= 8);\n\t\t\t\t\tTHROW_CHECK1(out_of_range, new_log_level, new_log_level >= 0);\n\t\t\t\t\tbees_log_level = new_log_level;\n\t\t\t\t\tBEESLOGNOTICE("log level set to " << bees_log_level);\n\t\t\t\t}\n\t\t\t\tbreak;\n\n\t\t\tcase \'h\':\n\t\t\tdefault:\n\t\t\t\tdo_cmd_help(argv);\n\t\t\t\treturn EXIT_SUCCESS;\n\t\t}\n\t}\n\n', '\tBeesOptions opts;\n\tif (!parse_options(argc, argv, opts)) {\n\t\treturn EXIT_SUCCESS;\n\t}\n\n'), ('src/bees.cc', '\tif (optind + 1 != argc) {\n\t\tBEESLOGERR("Exactly one filesystem path required");\n\t\treturn EXIT_FAILURE;\n\t}\n\n\tChatter::enable_timestamp(chatter_prefix_timestamp);\n\n\tif (!relative_path().empty()) {\n\t\tBEESLOGINFO("using relative path " << relative_path() << "\\n");\n\t}\n\n\tBEESLOGINFO("setting rlimit NOFILE to " << BEES_OPEN_FILE_LIMIT);\n\n\tstruct rlimit lim = {\n\t\t.rlim_cur = BEES_OPEN_FILE_LIMIT,\n\t\t.rlim_max = BEES_OPEN_FILE_LIMIT,\n\t};\n\tint rv = setrlimit(RLIMIT_NOFILE, &lim);\n\tif (rv) {\n\t\tBEESLOGINFO("setrlimit(RLIMIT_NOFILE, { " << lim.rlim_cur << " }): " << strerror(errno));\n\t};\n\n\t// Set up worker thread pool\n\tTHROW_CHECK1(out_of_range, thread_factor, thread_factor >= 0);\n\tif (thread_count < 1) {\n\t\tif (thread_factor == 0) {\n\t\t\tthread_factor = BEES_DEFAULT_THREAD_FACTOR;\n\t\t}\n\t\tthread_count = max(1U, static_cast<unsigned>(ceil(thread::hardware_concurrency() * thread_factor)));\n\t}\n\n\tif (load_target != 0) {\n\t\tBEESLOGNOTICE("setting load average target to " << load_target);\n\t\tBEESLOGNOTICE("setting worker thread pool minimum size to " << thread_min);\n\t\tTaskMaster::set_thread_min_count(thread_min);\n\t}\n\tTaskMaster::set_loadavg_target(load_target);\n\n\tBEESLOGNOTICE("setting worker thread pool maximum size to " << thread_count);\n\tTaskMaster::set_thread_count(thread_count);\n\n\tBEESLOGNOTICE("setting throttle factor to " << bees_throttle_factor);\n\n\t// Set root path\n\tstring root_path = argv[optind++];\n\tBEESLOGNOTICE("setting root path to \'" << root_path << "\'");\n\tbc->set_root_path(root_path);\n\n\t// Set path prefix\n\tif (use_relative_paths) {\n\t\tcrucible::set_relative_path(name_fd(bc->root_fd()));\n\t}\n\n\t// Workaround for btrfs send\n\tbc->roots()->set_workaround_btrfs_send(workaround_btrfs_send);\n\n\t// Set root scan mode\n\tbc->roots()->set_scan_mode(root_scan_mode);\n\n\t// Workaround for the logical-ino-vs-clone kernel bug\n\tMultiLocker::enable_locking(true);\n\n\t// Start crawlers\n\tbc->start();\n\n\t// Now we just wait forever\n\twait_for_signals();\n\n\t// Shut it down\n\tbc->stop();\n\n\t// That is all.\n\treturn EXIT_SUCCESS;\n}\n\n', '\tif (optind + 1 != argc) {\n\t\tBEESLOGERR("Exactly one filesystem path required");\n\t\treturn EXIT_FAILURE;\n\t}\n\n\tChatter::enable_timestamp(opts.chatter_prefix_timestamp);\n\n\tif (!relative_path().empty()) {\n\t\tBEESLOGINFO("using relative path " << relative_path() << "\\n");\n\t}\n\n\tBEESLOGINFO("setting rlimit NOFILE to " << BEES_OPEN_FILE_LIMIT);\n\n\tstruct rlimit lim = {\n\t\t.rlim_cur = BEES_OPEN_FILE_LIMIT,\n\t\t.rlim_max = BEES_OPEN_FILE_LIMIT,\n\t};\n\tint rv = setrlimit(RLIMIT_NOFILE, &lim);\n\tif (rv) {\n\t\tBEESLOGINFO("setrlimit(RLIMIT_NOFILE, { " << lim.rlim_cur << " }): " << strerror(errno));\n\t};\n\n\t// Set up worker thread pool\n\tTHROW_CHECK1(out_of_range, opts.thread_factor, opts.thread_factor >= 0);\n\tif (opts.thread_count < 1) {\n\t\tif (opts.thread_factor == 0) {\n\t\t\topts.thread_factor = BEES_DEFAULT_THREAD_FACTOR;\n\t\t}\n\t\topts.thread_count = max(1U, static_cast<unsigned>(ceil(thread::hardware_concurrency() * opts.thread_factor)));\n\t}\n\n\tif (opts.load_target != 0) {\n\t\tBEESLOGNOTICE("setting load average target to " << opts.load_target);\n\t\tBEESLOGNOTICE("setting worker thread pool minimum size to " << opts.thread_min);\n\t\tTaskMaster::set_thread_min_count(opts.thread_min);\n\t}\n\tTaskMaster::set_loadavg_target(opts.load_target);\n\n\tBEESLOGNOTICE("setting worker thread pool maximum size to " << opts.thread_count);\n\tTaskMaster::set_thread_count(opts.thread_count);\n\n\tBEESLOGNOTICE("setting throttle factor to " << bees_throttle_factor);\n\n\t// Set root path\n\tstring root_path = argv[optind++];\n\tBEESLOGNOTICE("setting root path to \'" << root_path << "\'");\n\tbc->set_root_path(root_path);\n\n\t// Set path prefix\n\tif (opts.use_relative_paths) {\n\t\tcrucible::set_relative_path(name_fd(bc->root_fd()));\n\t}\n\n\t// Workaround for btrfs send\n\tbc->roots()->set_workaround_btrfs_send(opts.workaround_btrfs_send);\n\n\t// Set root scan mode\n\tbc->roots()->set_scan_mode(opts.root_scan_mode);\n\n\t// Workaround for the logical-ino-vs-clone kernel bug\n\tMultiLocker::enable_locking(true);\n\n\t// Start crawlers\n\tbc->start();\n\n\t// Now we just wait forever\n\twait_for_signals();\n\n\t// Shut it down\n\tbc->stop();\n\n\t// That is all.\n\treturn EXIT_SUCCESS;\n}\n\n'))
quiet('table-global', ('src/bees.cc', 'static\nint\nbees_main(', '\t// Configure getopt_long\n\t// Options with no short form\n\tenum {\n\t\tBEES_OPT_THROTTLE_FACTOR = 256,\n\t};\n\tstatic const struct option long_options[] = {\n\t\t{ .name = "thread-factor",         .has_arg = required_argument, .val = \'C\' },\n\t\t{ .name = "throttle-factor",       .has_arg = required_argument, .val = BEES_OPT_THROTTLE_FACTOR },\n\t\t{ .name = "thread-min",            .has_arg = required_argument, .val = \'G\' },\n\t\t{ .name = "strip-paths",           .has_arg = no_argument,       .val = \'P\' },\n\t\t{ .name = "no-timestamps",         .has_arg = no_argument,       .val = \'T\' },\n\t\t{ .name = "workaround-btrfs-send", .has_arg = no_argument,       .val = \'a\' },\n\t\t{ .name = "thread-count",          .has_arg = required_argument, .val = \'c\' },\n\t\t{ .name = "loadavg-target",        .has_arg = required_argument, .val = \'g\' },\n\t\t{ .name = "help",                  .has_arg = no_argument,       .val = \'h\' },\n\t\t{ .name = "scan-mode",             .has_arg = required_argument, .val = \'m\' },\n\t\t{ .name = "absolute-paths",        .has_arg = no_argument,       .val = \'p\' },\n\t\t{ .name = "timestamps",            .has_arg = no_argument,       .val = \'t\' },\n\t\t{ .name = "verbose",               .has_arg = required_argument, .val = \'v\' },\n\t\t{ 0 },\n\t};\n\nstatic\nint\nbees_main('), ('src/bees.cc', '\t// Configure getopt_long\n\t// Options with no short form\n\tenum {\n\t\tBEES_OPT_THROTTLE_FACTOR = 256,\n\t};\n\tstatic const struct option long_options[] = {\n\t\t{ .name = "thread-factor",         .has_arg = required_argument, .val = \'C\' },\n\t\t{ .name = "throttle-factor",       .has_arg = required_argument, .val = BEES_OPT_THROTTLE_FACTOR },\n\t\t{ .name = "thread-min",            .has_arg = required_argument, .val = \'G\' },\n\t\t{ .name = "strip-paths",           .has_arg = no_argument,       .val = \'P\' },\n\t\t{ .name = "no-timestamps",         .has_arg = no_argument,       .val = \'T\' },\n\t\t{ .name = "workaround-btrfs-send", .has_arg = no_argument,       .val = \'a\' },\n\t\t{ .name = "thread-count",          .has_arg = required_argument, .val = \'c\' },\n\t\t{ .name = "loadavg-target",        .has_arg = required_argument, .val = \'g\' },\n\t\t{ .name = "help",                  .has_arg = no_argument,       .val = \'h\' },\n\t\t{ .name = "scan-mode",             .has_arg = required_argument, .val = \'m\' },\n\t\t{ .name = "absolute-paths",        .has_arg = no_argument,       .val = \'p\' },\n\t\t{ .name = "timestamps",            .has_arg = no_argument,       .val = \'t\' },\n\t\t{ .name = "verbose",               .has_arg = required_argument, .val = \'v\' },\n\t\t{ 0 },\n\t};\n\n\t// Build getopt_long\'s short option list from the long_options table.\n\t// While we\'re at it, make sure we didn\'t duplicate any options.\n\tstring getopt_list;\n\tmap<decltype(option::val), string> option_vals;\n\tfor (const struct option *op = long_options; op->val; ++op) {\n\t\tconst auto ins_rv = option_vals.insert(make_pair(op->val, op->name));\n\t\tTHROW_CHECK1(runtime_error, op->val, ins_rv.second);\n\t\tif ((op->val & 0xff) != op->val) {\n\t\t\tcontinue;\n\t\t}\n\t\tgetopt_list += op->val;\n\t\tif (op->has_arg == required_argument) {\n\t\t\tgetopt_list += \':\';\n\t\t}\n\t}\n\n', "\t// Build getopt_long's short option list from the long_options table.\n\t// While we're at it, make sure we didn't duplicate any options.\n\tstring getopt_list;\n\tmap<decltype(option::val), string> option_vals;\n\tfor (const struct option *op = long_options; op->val; ++op) {\n\t\tconst auto ins_rv = option_vals.insert(make_pair(op->val, op->name));\n\t\tTHROW_CHECK1(runtime_error, op->val, ins_rv.second);\n\t\tif ((op->val & 0xff) != op->val) {\n\t\t\tcontinue;\n\t\t}\n\t\tgetopt_list += op->val;\n\t\tif (op->has_arg == required_argument) {\n\t\t\tgetopt_list += ':';\n\t\t}\n\t}\n\n"))
quiet('list-helper', ('src/bees.cc', 'static\nint\nbees_main(', "static\nstring\nmake_getopt_list(const struct option *long_options, map<decltype(option::val), string> &option_vals)\n{\n\t// Build getopt_long's short option list from the long_options table.\n\t// While we're at it, make sure we didn't duplicate any options.\n\tstring getopt_list;\n\tfor (const struct option *op = long_options; op->val; ++op) {\n\t\tconst auto ins_rv = option_vals.insert(make_pair(op->val, op->name));\n\t\tTHROW_CHECK1(runtime_error, op->val, ins_rv.second);\n\t\tif ((op->val & 0xff) != op->val) {\n\t\t\tcontinue;\n\t\t}\n\t\tgetopt_list += op->val;\n\t\tif (op->has_arg == required_argument) {\n\t\t\tgetopt_list += ':';\n\t\t}\n\t}\n\n\treturn getopt_list;\n}\n\nstatic\nint\nbees_main("), ('src/bees.cc', "\t// Build getopt_long's short option list from the long_options table.\n\t// While we're at it, make sure we didn't duplicate any options.\n\tstring getopt_list;\n\tmap<decltype(option::val), string> option_vals;\n\tfor (const struct option *op = long_options; op->val; ++op) {\n\t\tconst auto ins_rv = option_vals.insert(make_pair(op->val, op->name));\n\t\tTHROW_CHECK1(runtime_error, op->val, ins_rv.second);\n\t\tif ((op->val & 0xff) != op->val) {\n\t\t\tcontinue;\n\t\t}\n\t\tgetopt_list += op->val;\n\t\tif (op->has_arg == required_argument) {\n\t\t\tgetopt_list += ':';\n\t\t}\n\t}\n\n", '\tmap<decltype(option::val), string> option_vals;\n\tconst string getopt_list = make_getopt_list(long_options, option_vals);\n'))
quiet('threads-helper', ('src/bees.cc', 'static\nint\nbees_main(', 'static\nvoid\nconfigure_threads(double thread_factor, unsigned thread_count, const unsigned thread_min, const double load_target)\n{\n\t// Set up worker thread pool\n\tTHROW_CHECK1(out_of_range, thread_factor, thread_factor >= 0);\n\tif (thread_count < 1) {\n\t\tif (thread_factor == 0) {\n\t\t\tthread_factor = BEES_DEFAULT_THREAD_FACTOR;\n\t\t}\n\t\tthread_count = max(1U, static_cast<unsigned>(ceil(thread::hardware_concurrency() * thread_factor)));\n\t}\n\n\tif (load_target != 0) {\n\t\tBEESLOGNOTICE("setting load average target to " << load_target);\n\t\tBEESLOGNOTICE("setting worker thread pool minimum size to " << thread_min);\n\t\tTaskMaster::set_thread_min_count(thread_min);\n\t}\n\tTaskMaster::set_loadavg_target(load_target);\n\n\tBEESLOGNOTICE("setting worker thread pool maximum size to " << thread_count);\n\tTaskMaster::set_thread_count(thread_count);\n\n}\n\nstatic\nint\nbees_main('), ('src/bees.cc', '\t// Set up worker thread pool\n\tTHROW_CHECK1(out_of_range, thread_factor, thread_factor >= 0);\n\tif (thread_count < 1) {\n\t\tif (thread_factor == 0) {\n\t\t\tthread_factor = BEES_DEFAULT_THREAD_FACTOR;\n\t\t}\n\t\tthread_count = max(1U, static_cast<unsigned>(ceil(thread::hardware_concurrency() * thread_factor)));\n\t}\n\n\tif (load_target != 0) {\n\t\tBEESLOGNOTICE("setting load average target to " << load_target);\n\t\tBEESLOGNOTICE("setting worker thread pool minimum size to " << thread_min);\n\t\tTaskMaster::set_thread_min_count(thread_min);\n\t}\n\tTaskMaster::set_loadavg_target(load_target);\n\n\tBEESLOGNOTICE("setting worker thread pool maximum size to " << thread_count);\n\tTaskMaster::set_thread_count(thread_count);\n\n', '\tconfigure_threads(thread_factor, thread_count, thread_min, load_target);\n'))
quiet('parse-value', ('src/bees.cc', 'static\nint\nbees_main(', 'struct BeesOptions {\n\tbool help = false;\n\tbool use_relative_paths = false;\n\tbool chatter_prefix_timestamp = true;\n\tdouble thread_factor = 0;\n\tunsigned thread_count = 0;\n\tunsigned thread_min = 0;\n\tdouble load_target = 0;\n\tbool workaround_btrfs_send = false;\n\tBeesRoots::ScanMode root_scan_mode = BeesRoots::SCAN_MODE_EXTENT;\n\n};\n\nstatic\nBeesOptions\nparse_options(int argc, char *argv[])\n{\n\tBeesOptions opts;\n\t// Configure getopt_long\n\t// Options with no short form\n\tenum {\n\t\tBEES_OPT_THROTTLE_FACTOR = 256,\n\t};\n\tstatic const struct option long_options[] = {\n\t\t{ .name = "thread-factor",         .has_arg = required_argument, .val = \'C\' },\n\t\t{ .name = "throttle-factor",       .has_arg = required_argument, .val = BEES_OPT_THROTTLE_FACTOR },\n\t\t{ .name = "thread-min",            .has_arg = required_argument, .val = \'G\' },\n\t\t{ .name = "strip-paths",           .has_arg = no_argument,       .val = \'P\' },\n\t\t{ .name = "no-timestamps",         .has_arg = no_argument,       .val = \'T\' },\n\t\t{ .name = "workaround-btrfs-send", .has_arg = no_argument,       .val = \'a\' },\n\t\t{ .name = "thread-count",          .has_arg = required_argument, .val = \'c\' },\n\t\t{ .name = "loadavg-target",        .has_arg = required_argument, .val = \'g\' },\n\t\t{ .name = "help",                  .has_arg = no_argument,       .val = \'h\' },\n\t\t{ .name = "scan-mode",             .has_arg = required_argument, .val = \'m\' },\n\t\t{ .name = "absolute-paths",        .has_arg = no_argument,       .val = \'p\' },\n\t\t{ .name = "timestamps",            .has_arg = no_argument,       .val = \'t\' },\n\t\t{ .name = "verbose",               .has_arg = required_argument, .val = \'v\' },\n\t\t{ 0 },\n\t};\n\n\t// Build getopt_long\'s short option list from the long_options table.\n\t// While we\'re at it, make sure we didn\'t duplicate any options.\n\tstring getopt_list;\n\tmap<decltype(option::val), string> option_vals;\n\tfor (const struct option *op = long_options; op->val; ++op) {\n\t\tconst auto ins_rv = option_vals.insert(make_pair(op->val, op->name));\n\t\tTHROW_CHECK1(runtime_error, op->val, ins_rv.second);\n\t\tif ((op->val & 0xff) != op->val) {\n\t\t\tcontinue;\n\t\t}\n\t\tgetopt_list += op->val;\n\t\tif (op->has_arg == required_argument) {\n\t\t\tgetopt_list += \':\';\n\t\t}\n\t}\n\n\t// Parse options\n\twhile (true) {\n\t\tint option_index = 0;\n\n\t\tconst auto c = getopt_long(argc, argv, getopt_list.c_str(), long_options, &option_index);\n\t\tif (-1 == c) {\n\t\t\tbreak;\n\t\t}\n\n\t\t// getopt_long should have weeded out any invalid options,\n\t\t// so we can go ahead and throw here\n\t\tBEESLOGDEBUG("Parsing option \'" << option_vals.at(c) << "\'");\n\n\t\tswitch (c) {\n\n\t\t\tcase \'C\':\n\t\t\t\topts.thread_factor = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase BEES_OPT_THROTTLE_FACTOR:\n\t\t\t\tbees_throttle_factor = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'G\':\n\t\t\t\topts.thread_min = stoul(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'P\':\n\t\t\t\topts.use_relative_paths = true;\n\t\t\t\tbreak;\n\t\t\tcase \'T\':\n\t\t\t\topts.chatter_prefix_timestamp = false;\n\t\t\t\tbreak;\n\t\t\tcase \'a\':\n\t\t\t\topts.workaround_btrfs_send = true;\n\t\t\t\tbreak;\n\t\t\tcase \'c\':\n\t\t\t\topts.thread_count = stoul(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'g\':\n\t\t\t\topts.load_target = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'m\':\n\t\t\t\topts.root_scan_mode = static_cast<BeesRoots::ScanMode>(stoul(optarg));\n\t\t\t\tbreak;\n\t\t\tcase \'p\':\n\t\t\t\topts.use_relative_paths = false;\n\t\t\t\tbreak;\n\t\t\tcase \'t\':\n\t\t\t\topts.chatter_prefix_timestamp = true;\n\t\t\t\tbreak;\n\t\t\tcase \'v\':\n\t\t\t\t{\n\t\t\t\t\tint new_log_level = stoul(optarg);\n\t\t\t\t\tTHROW_CHECK1(out_of_range, new_log_level, new_log_level <= 8);\n\t\t\t\t\tTHROW_CHECK1(out_of_range, new_log_level, new_log_level >= 0);\n\t\t\t\t\tbees_log_level = new_log_level;\n\t\t\t\t\tBEESLOGNOTICE("log level set to " << bees_log_level);\n\t\t\t\t}\n\t\t\t\tbreak;\n\n\t\t\tcase \'h\':\n\t\t\tdefault:\n\t\t\t\tdo_cmd_help(argv);\n\t\t\t\topts.help = true;\n\t\t\t\treturn opts;\n\t\t}\n\t}\n\n\treturn opts;\n}\n\nstatic\nint\nbees_main('), ('src/bees.cc', '\t// Defaults\n\tbool use_relative_paths = false;\n\tbool chatter_prefix_timestamp = true;\n\tdouble thread_factor = 0;\n\tunsigned thread_count = 0;\n\tunsigned thread_min = 0;\n\tdouble load_target = 0;\n\tbool workaround_btrfs_send = false;\n\tBeesRoots::ScanMode root_scan_mode = BeesRoots::SCAN_MODE_EXTENT;\n\n\t// Configure getopt_long\n\t// Options with no short form\n\tenum {\n\t\tBEES_OPT_THROTTLE_FACTOR = 256,\n\t};\n\tstatic const struct option long_options[] = {\n\t\t{ .name = "thread-factor",         .has_arg = required_argument, .val = \'C\' },\n\t\t{ .name = "throttle-factor",       .has_arg = required_argument, .val = BEES_OPT_THROTTLE_FACTOR },\n\t\t{ .name = "thread-min",            .has_arg = required_argument, .val = \'G\' },\n\t\t{ .name = "strip-paths",           .has_arg = no_argument,       .val = \'P\' },\n\t\t{ .name = "no-timestamps",         .has_arg = no_argument,       .val = \'T\' },\n\t\t{ .name = "workaround-btrfs-send", .has_arg = no_argument,       .val = \'a\' },\n\t\t{ .name = "thread-count",          .has_arg = required_argument, .val = \'c\' },\n\t\t{ .name = "loadavg-target",        .has_arg = required_argument, .val = \'g\' },\n\t\t{ .name = "help",                  .has_arg = no_argument,       .val = \'h\' },\n\t\t{ .name = "scan-mode",             .has_arg = required_argument, .val = \'m\' },\n\t\t{ .name = "absolute-paths",        .has_arg = no_argument,       .val = \'p\' },\n\t\t{ .name = "timestamps",            .has_arg = no_argument,       .val = \'t\' },\n\t\t{ .name = "verbose",               .has_arg = required_argument, .val = \'v\' },\n\t\t{ 0 },\n\t};\n\n\t// Build getopt_long\'s short option list from the long_options table.\n\t// While we\'re at it, make sure we didn\'t duplicate any options.\n\tstring getopt_list;\n\tmap<decltype(option::val), string> option_vals;\n\tfor (const struct option *op = long_options; op->val; ++op) {\n\t\tconst auto ins_rv = option_vals.insert(make_pair(op->val, op->name));\n\t\tTHROW_CHECK1(runtime_error, op->val, ins_rv.second);\n\t\tif ((op->val & 0xff) != op->val) {\n\t\t\tcontinue;\n\t\t}\n\t\tgetopt_list += op->val;\n\t\tif (op->has_arg == required_argument) {\n\t\t\tgetopt_list += \':\';\n\t\t}\n\t}\n\n\t// Parse options\n\twhile (true) {\n\t\tint option_index = 0;\n\n\t\tconst auto c = getopt_long(argc, argv, getopt_list.c_str(), long_options, &option_index);\n\t\tif (-1 == c) {\n\t\t\tbreak;\n\t\t}\n\n\t\t// getopt_long should have weeded out any invalid options,\n\t\t// so we can go ahead and throw here\n\t\tBEESLOGDEBUG("Parsing option \'" << option_vals.at(c) << "\'");\n\n\t\tswitch (c) {\n\n\t\t\tcase \'C\':\n\t\t\t\tthread_factor = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase BEES_OPT_THROTTLE_FACTOR:\n\t\t\t\tbees_throttle_factor = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'G\':\n\t\t\t\tthread_min = stoul(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'P\':\n\t\t\t\tuse_relative_paths = true;\n\t\t\t\tbreak;\n\t\t\tcase \'T\':\n\t\t\t\tchatter_prefix_timestamp = false;\n\t\t\t\tbreak;\n\t\t\tcase \'a\':\n\t\t\t\tworkaround_btrfs_send = true;\n\t\t\t\tbreak;\n\t\t\tcase \'c\':\n\t\t\t\tthread_count = stoul(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'g\':\n\t\t\t\tload_target = stod(optarg);\n\t\t\t\tbreak;\n\t\t\tcase \'m\':\n\t\t\t\troot_scan_mode = static_cast<BeesRoots::ScanMode>(stoul(optarg));\n\t\t\t\tbreak;\n\t\t\tcase \'p\':\n\t\t\t\tuse_relative_paths = false;\n\t\t\t\tbreak;\n\t\t\tcase \'t\':\n\t\t\t\tchatter_prefix_timestamp = true;\n\t\t\t\tbreak;\n\t\t\tcase \'v\':\n\t\t\t\t{\n\t\t\t\t\tint new_log_level = stoul(optarg);\n\t\t\t\t\tTHROW_CHECK1(out_of_range, new_log_level, new_log_level <= 8);\n\t\t\t\t\tTHROW_CHECK1(out_of_range, new_log_level, new_log_level >= 0);\n\t\t\t\t\tbees_log_level = new_log_level;\n\t\t\t\t\tBEESLOGNOTICE("log level set to " << bees_log_level);\n\t\t\t\t}\n\t\t\t\tbreak;\n\n\t\t\tcase \'h\':\n\t\t\tdefault:\n\t\t\t\tdo_cmd_help(argv);\n\t\t\t\treturn EXIT_SUCCESS;\n\t\t}\n\t}\n\n', '\tconst auto opts = parse_options(argc, argv);\n\tif (opts.help) {\n\t\treturn EXIT_SUCCESS;\n\t}\n\n'), ('src/bees.cc', '\tif (optind + 1 != argc) {\n\t\tBEESLOGERR("Exactly one filesystem path required");\n\t\treturn EXIT_FAILURE;\n\t}\n\n\tChatter::enable_timestamp(chatter_prefix_timestamp);\n\n\tif (!relative_path().empty()) {\n\t\tBEESLOGINFO("using relative path " << relative_path() << "\\n");\n\t}\n\n\tBEESLOGINFO("setting rlimit NOFILE to " << BEES_OPEN_FILE_LIMIT);\n\n\tstruct rlimit lim = {\n\t\t.rlim_cur = BEES_OPEN_FILE_LIMIT,\n\t\t.rlim_max = BEES_OPEN_FILE_LIMIT,\n\t};\n\tint rv = setrlimit(RLIMIT_NOFILE, &lim);\n\tif (rv) {\n\t\tBEESLOGINFO("setrlimit(RLIMIT_NOFILE, { " << lim.rlim_cur << " }): " << strerror(errno));\n\t};\n\n\t// Set up worker thread pool\n\tTHROW_CHECK1(out_of_range, thread_factor, thread_factor >= 0);\n\tif (thread_count < 1) {\n\t\tif (thread_factor == 0) {\n\t\t\tthread_factor = BEES_DEFAULT_THREAD_FACTOR;\n\t\t}\n\t\tthread_count = max(1U, static_cast<unsigned>(ceil(thread::hardware_concurrency() * thread_factor)));\n\t}\n\n\tif (load_target != 0) {\n\t\tBEESLOGNOTICE("setting load average target to " << load_target);\n\t\tBEESLOGNOTICE("setting worker thread pool minimum size to " << thread_min);\n\t\tTaskMaster::set_thread_min_count(thread_min);\n\t}\n\tTaskMaster::set_loadavg_target(load_target);\n\n\tBEESLOGNOTICE("setting worker thread pool maximum size to " << thread_count);\n\tTaskMaster::set_thread_count(thread_count);\n\n\tBEESLOGNOTICE("setting throttle factor to " << bees_throttle_factor);\n\n\t// Set root path\n\tstring root_path = argv[optind++];\n\tBEESLOGNOTICE("setting root path to \'" << root_path << "\'");\n\tbc->set_root_path(root_path);\n\n\t// Set path prefix\n\tif (use_relative_paths) {\n\t\tcrucible::set_relative_path(name_fd(bc->root_fd()));\n\t}\n\n\t// Workaround for btrfs send\n\tbc->roots()->set_workaround_btrfs_send(workaround_btrfs_send);\n\n\t// Set root scan mode\n\tbc->roots()->set_scan_mode(root_scan_mode);\n\n\t// Workaround for the logical-ino-vs-clone kernel bug\n\tMultiLocker::enable_locking(true);\n\n\t// Start crawlers\n\tbc->start();\n\n\t// Now we just wait forever\n\twait_for_signals();\n\n\t// Shut it down\n\tbc->stop();\n\n\t// That is all.\n\treturn EXIT_SUCCESS;\n}\n\n', '\tif (optind + 1 != argc) {\n\t\tBEESLOGERR("Exactly one filesystem path required");\n\t\treturn EXIT_FAILURE;\n\t}\n\n\tChatter::enable_timestamp(opts.chatter_prefix_timestamp);\n\n\tif (!relative_path().empty()) {\n\t\tBEESLOGINFO("using relative path " << relative_path() << "\\n");\n\t}\n\n\tBEESLOGINFO("setting rlimit NOFILE to " << BEES_OPEN_FILE_LIMIT);\n\n\tstruct rlimit lim = {\n\t\t.rlim_cur = BEES_OPEN_FILE_LIMIT,\n\t\t.rlim_max = BEES_OPEN_FILE_LIMIT,\n\t};\n\tint rv = setrlimit(RLIMIT_NOFILE, &lim);\n\tif (rv) {\n\t\tBEESLOGINFO("setrlimit(RLIMIT_NOFILE, { " << lim.rlim_cur << " }): " << strerror(errno));\n\t};\n\n\t// Set up worker thread pool\n\tTHROW_CHECK1(out_of_range, opts.thread_factor, opts.thread_factor >= 0);\n\tunsigned n = opts.thread_count;\n\tif (n < 1) {\n\t\tdouble f = opts.thread_factor;\n\t\tif (f == 0) {\n\t\t\tf = BEES_DEFAULT_THREAD_FACTOR;\n\t\t}\n\t\tn = max(1U, static_cast<unsigned>(ceil(thread::hardware_concurrency() * f)));\n\t}\n\n\tif (opts.load_target != 0) {\n\t\tBEESLOGNOTICE("setting load average target to " << opts.load_target);\n\t\tBEESLOGNOTICE("setting worker thread pool minimum size to " << opts.thread_min);\n\t\tTaskMaster::set_thread_min_count(opts.thread_min);\n\t}\n\tTaskMaster::set_loadavg_target(opts.load_target);\n\n\tBEESLOGNOTICE("setting worker thread pool maximum size to " << opts.thread_count);\n\tTaskMaster::set_thread_count(n);\n\n\tBEESLOGNOTICE("setting throttle factor to " << bees_throttle_factor);\n\n\t// Set root path\n\tstring root_path = argv[optind++];\n\tBEESLOGNOTICE("setting root path to \'" << root_path << "\'");\n\tbc->set_root_path(root_path);\n\n\t// Set path prefix\n\tif (opts.use_relative_paths) {\n\t\tcrucible::set_relative_path(name_fd(bc->root_fd()));\n\t}\n\n\t// Workaround for btrfs send\n\tbc->roots()->set_workaround_btrfs_send(opts.workaround_btrfs_send);\n\n\t// Set root scan mode\n\tbc->roots()->set_scan_mode(opts.root_scan_mode);\n\n\t// Workaround for the logical-ino-vs-clone kernel bug\n\tMultiLocker::enable_locking(true);\n\n\t// Start crawlers\n\tbc->start();\n\n\t// Now we just wait forever\n\twait_for_signals();\n\n\t// Shut it down\n\tbc->stop();\n\n\t// That is all.\n\treturn EXIT_SUCCESS;\n}\n\n'))
quiet('lambda', ('src/bees.cc', '\t\t\t\tthread_count = stoul(optarg);\n\t\t\t\tbreak;', '\t\t\t\t[&]() { thread_count = stoul(optarg); }();\n\t\t\t\tbreak;'))
