C = "src/bees-context.cc"; R = "src/bees-roots.cc"; B = "src/bees.h"
CASES = [
 dict(name="w-openfile-rw", props=["C01","C02"], hit=["C01"], edits=[(B, "FLAGS_OPEN_COMMON | O_RDONLY;                ", "FLAGS_OPEN_COMMON | O_RDWR;   ")]),
 dict(name="w-defrag", props=["C01"], edits=[(C, "	BEESCOUNT(scan_rewrite);", "	ftruncate_or_die(bfr.fd(), bfr.file_size());\n	BEESCOUNT(scan_rewrite);")]),
 dict(name="w-clone", props=["C01"], edits=[(C, "	BEESCOUNT(scan_rewrite);", "	btrfs_clone_range(dup_brp.first.fd(), 0, 4096, bfr.fd(), 0);\n	BEESCOUNT(scan_rewrite);")]),
 dict(name="w-iflags", props=["C01"], edits=[(R, "		int attr = ioctl_iflags_get(rv);", "		int attr = ioctl_iflags_get(rv);\n		if (attr & FS_NOCOW_FL) { ioctl_iflags_set(rv, attr & ~FS_NOCOW_FL); attr = 0; }")]),
 dict(name="p-no-xdev", props=["C02"], edits=[(R, "RESOLVE_BENEATH | RESOLVE_NO_SYMLINKS | RESOLVE_NO_XDEV", "RESOLVE_BENEATH | RESOLVE_NO_SYMLINKS")]),
 dict(name="p-fallback-any", props=["C02"], edits=[(R, "rv == -1 && errno == ENOSYS", "rv == -1 && errno != ENOENT")]),
 dict(name="p-fallback-exdev", props=["C02"], edits=[(R, "rv == -1 && errno == ENOSYS", "rv == -1 && (errno == ENOSYS || errno == EXDEV)")]),
 dict(name="p-nofollow", props=["C02"], edits=[(B, "O_NOFOLLOW | O_NONBLOCK", "O_NONBLOCK")]),
 dict(name="p-direct-openat", props=["C02"], edits=[(R, "rv = bees_openat(root_fd, fp_cstr, FLAGS_OPEN_FILE);", "rv = openat(root_fd, fp_cstr, FLAGS_OPEN_FILE);")]),
 dict(name="p-latch-false", props=["C02"], edits=[(R, "		if (rv == -1 && errno == ENOSYS) {", "		if (rv == -1 && errno == EINVAL) { can_openat2 = false; }\n		if (rv == -1 && errno == ENOSYS) {")]),
 dict(name="i-no-root", props=["C03"], edits=[(R, "if (file_root != root) {", "if (file_root != root && file_root < 256) {")]),
 dict(name="i-break-to-return", props=["C03"], edits=[(R, "			rv = Fd();\n			BEESCOUNT(open_wrong_dev);\n			break;", "			BEESCOUNT(open_wrong_dev);\n			return rv;")]),
 dict(name="i-nocow", props=["C03"], edits=[(R, "if (attr & FS_NOCOW_FL) {", "if (attr & FS_COMPR_FL) {")]),
 dict(name="i-rootcheck", props=["C03"], edits=[(R, "	THROW_CHECK2(runtime_error, new_root_id, rootid, new_root_id == rootid);", "	THROW_CHECK2(runtime_error, new_root_id, rootid, new_root_id);")]),
 dict(name="i-fid", props=["C03"], edits=[("src/bees-types.cc", "THROW_CHECK2(invalid_argument, fd_fid, m_fid, fd_fid == m_fid);", "if (fd_fid != m_fid) { BEESLOGDEBUG(\"mismatch\"); }")]),
 dict(name="i-eq", props=["C03"], edits=[("src/bees-types.cc", "return m_root == that.m_root && m_ino == that.m_ino;", "return m_ino == that.m_ino;")]),
 # behaviour preserving
 dict(name="q-openat2-helper", props=["C01","C02","C03"], expect="quiet", edits=[(R, """		open_how how {
			.flags = flags,
			.resolve = RESOLVE_BENEATH | RESOLVE_NO_SYMLINKS | RESOLVE_NO_XDEV,
		};
		const auto rv = openat2(parent_fd, pathname, &how, sizeof(open_how));
		if (rv == -1 && errno == ENOSYS) {
			BEESLOGWARN("openat2 returns ENOSYS, falling back to openat");
			can_openat2 = false;
		} else {
			return Fd(rv);
		}
	}
""", """		open_how how {};
		how.flags = flags;
		how.resolve = RESOLVE_BENEATH | RESOLVE_NO_SYMLINKS | RESOLVE_NO_XDEV;
		const auto rv = openat2(parent_fd, pathname, &how, sizeof(how));
		const bool unsupported = rv == -1 && errno == ENOSYS;
		if (!unsupported) {
			return Fd(rv);
		}
		BEESLOGWARN("openat2 returns ENOSYS, falling back to openat");
		can_openat2 = false;
	}
""")]),
 dict(name="q-verify-helper", props=["C01","C02","C03"], expect="quiet", edits=[(R, """		// Correct inode?
		Stat file_stat(rv);
		if (file_stat.st_ino != ino) {
			BEESLOGWARN("Opening " << name_fd(root_fd) << "/" << file_path << " found wrong inode " << file_stat.st_ino << " instead of " << ino);
			rv = Fd();
			BEESCOUNT(open_wrong_ino);
			break;
		}
""", """		// Correct inode?
		Stat file_stat(rv);
		if (!same_inode(file_stat, ino)) {
			BEESLOGWARN("Opening " << name_fd(root_fd) << "/" << file_path << " found wrong inode " << file_stat.st_ino << " instead of " << ino);
			rv = Fd();
			BEESCOUNT(open_wrong_ino);
			break;
		}
"""), (R, "Fd\nBeesRoots::open_root_ino_nocache", "static bool same_inode(const Stat &st, uint64_t want) {\n	return st.st_ino == want;\n}\n\nFd\nBeesRoots::open_root_ino_nocache")]),
 dict(name="q-nested-checks", props=["C03"], expect="quiet", edits=[(R, """		int attr = ioctl_iflags_get(rv);
		if (attr & FS_NOCOW_FL) {
			BEESLOGINFO("Opening " << name_fd(rv) << " found FS_NOCOW_FL flag in " << to_hex(attr));
			rv = Fd();
			BEESCOUNT(open_wrong_flags);
			break;
		}

		BEESCOUNT(open_hit);
		return rv;
""", """		const int attr = ioctl_iflags_get(rv);
		const bool nocow = (attr & FS_NOCOW_FL) != 0;
		if (!nocow) {
			BEESCOUNT(open_hit);
			return rv;
		}
		BEESLOGINFO("Opening " << name_fd(rv) << " found FS_NOCOW_FL flag in " << to_hex(attr));
		rv = Fd();
		BEESCOUNT(open_wrong_flags);
		break;
""")]),
]
