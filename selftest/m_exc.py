T = "lib/task.cc"
C = "src/bees-context.cc"
H = "src/bees-hash.cc"
R = "src/bees-roots.cc"
B = "src/bees.cc"
E = "lib/error.cc"
BT = "src/bees-thread.cc"
TR = "src/bees-trace.cc"


def e(name, *edits, **k):
    return dict(name="e-" + name, props=["C22"], edits=list(edits), **k)


CASES = [
    e("catch-narrow", (E, """			f();
			return 0;
		} catch (const exception &e) {""", """			f();
			return 0;
		} catch (const runtime_error &e) {""")),
    e("catch-system", (E, """			f();
			return 0;
		} catch (const exception &e) {""", """			f();
			return 0;
		} catch (const system_error &e) {""")),
    e("catch-rethrow", (E, """			explainer(analyze_exception(e));
			return 1;
""", """			explainer(analyze_exception(e));
			if (dynamic_cast<const logic_error *>(&e)) throw;
			return 1;
""")),
    e("throw-string", ("lib/process.cc", 'THROW_ERROR(invalid_argument, "Process not created");', 'throw string("Process not created");')),
    e("throw-int", ("lib/time.cc", 'THROW_ERRNO("nanosleep (" << secs << ") { tv_sec = " << req.tv_sec << ", tv_nsec = " << req.tv_nsec << " }");', "throw errno;")),
    e("bees-thread", (BT, "		catch_all([&]() {\n			func();\n		});\n", "		func();\n")),
    e("bees-thread-if", (BT, "		catch_all([&]() {\n			func();\n		});\n", "		if (m_name.empty()) {\n			catch_all(func);\n		} else {\n			func();\n		}\n")),
    e("bees-thread-explain", (BT, "		catch_all([&]() {\n			func();\n		});\n", "		catch_and_explain([&]() {\n			func();\n		});\n")),
    e("task-explain", (T, "		catch_all([&]() {\n			m_exec_fn();\n		});\n", "		catch_and_explain([&]() {\n			m_exec_fn();\n		});\n")),
    e("task-try", (T, "		catch_all([&]() {\n			m_exec_fn();\n		});\n", "		try {\n			m_exec_fn();\n		} catch (const runtime_error &e) {\n			default_catch_explainer(e.what());\n		}\n")),
    e("load", (T, """			catch_all([&]() {
				adjust_thread_count();
			});
""", "			adjust_thread_count();\n")),
    e("temp", (B, """	catch_all([&]() {
		m_ctx->blacklist_erase(BeesFileId(m_fd));
	});
""", "	m_ctx->blacklist_erase(BeesFileId(m_fd));\n")),
    e("tracer", (TR, """		try {
			m_func();
		} catch (exception &e) {""", """		try {
			m_func();
		} catch (bad_alloc &e) {"""), (TR, """		} catch (...) {""", """		} catch (bad_cast &) {""")),
    e("transid", (R, """		catch_all([&]() {
			BEESTRACE("calling transid_max_nocache");
			// Will update m_transid_re as side effect
			transid_max_nocache();
		});
""", """		BEESTRACE("calling transid_max_nocache");
		// Will update m_transid_re as side effect
		transid_max_nocache();
""")),
    e("checkin", (C, "		catch_all([&](){\n			btf->reset();\n		});\n", "		btf->reset();\n")),
    e("writeback", (R, """		catch_all([&]() {
			BEESNOTE("saving crawler state");
			state_save();
		});
""", """		BEESNOTE("saving crawler state");
		state_save();
""")),
    e("notes", (TR, """		catch_all([&]() {
			t.second->m_func(oss);
		}, [&](string what) {
			oss << " [" << what << "]";
		});
""", "		t.second->m_func(oss);\n")),
    e("dtor-throw", (B, "	// Looking up the file ID can fail, and must not throw out of a destructor\n", "	if (!m_fd) THROW_ERROR(runtime_error, \"no file\");\n")),
    e("q-try", (BT, "		catch_all([&]() {\n			func();\n		});\n", "		try {\n			func();\n		} catch (const exception &e) {\n			default_catch_explainer(e.what());\n		}\n"), expect="quiet"),
    e("q-direct", (BT, "		catch_all([&]() {\n			func();\n		});\n", "		catch_all(func);\n"), expect="quiet"),
    e("q-task-direct", (T, "		catch_all([&]() {\n			m_exec_fn();\n		});\n", "		catch_all(m_exec_fn);\n"), expect="quiet"),
    e("q-task-copy", (T, "		catch_all([&]() {\n			m_exec_fn();\n		});\n", "		const auto work = [&]() {\n			m_exec_fn();\n		};\n		catch_all(work);\n"), expect="quiet"),
    e("q-any", (E, """			f();
			return 0;
		} catch (const exception &e) {
			explainer(analyze_exception(e));
			return 1;
		}
""", """			f();
		} catch (const exception &e) {
			explainer(analyze_exception(e));
			return 1;
		} catch (...) {
			explainer("unknown exception");
			return 1;
		}
		return 0;
"""), expect="quiet"),
    e("q-transid-helper", (R, """		catch_all([&]() {
			BEESTRACE("calling transid_max_nocache");
			// Will update m_transid_re as side effect
			transid_max_nocache();
		});
""", """		const auto measure = [&]() {
			BEESTRACE("calling transid_max_nocache");
			// Will update m_transid_re as side effect
			transid_max_nocache();
		};
		catch_all(measure);
"""), expect="quiet"),
]
