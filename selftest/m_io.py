FD = "lib/fd.cc"
FS = "lib/fs.cc"
B = "src/bees.cc"
H = "src/bees-hash.cc"
R = "src/bees-roots.cc"
C = "src/bees-context.cc"
ER = "include/crucible/error.h"
RDLOOP = """		char *read_p = static_cast<char *>(buf);
		while (size) {
			int rv = read(fd, read_p, size);
"""
RDSTEP = """			read_p += rv;
			size_read += rv;
			size -= rv;
"""
CASES = [
 dict(name="d13", props=["C16"], edits=[(FD, "			read_p += rv;\n", "")]),
 dict(name="d15", props=["C16"], edits=[(FS, "(errno != EOVERFLOW || buf_size >= 65536)", "errno != EOVERFLOW"), (FS, "while (rv != 0 || buf_size < 65536);", "while (buf_size < 65536);")]),
 dict(name="pwrite-short", props=["C16"], edits=[(FD, "		if (rv != static_cast<ssize_t>(size)) {\n			THROW_ERROR(runtime_error, \"pwrite: only", "		if (rv == 0) {\n			THROW_ERROR(runtime_error, \"pwrite: only")]),
 dict(name="pwrite-gt", props=["C16"], edits=[(FD, "		if (rv != static_cast<ssize_t>(size)) {\n			THROW_ERROR(runtime_error, \"pwrite: only", "		if (rv > static_cast<ssize_t>(size)) {\n			THROW_ERROR(runtime_error, \"pwrite: only")]),
 dict(name="pread-eof", props=["C16"], edits=[(FD, "				if (rv != static_cast<ssize_t>(size)) {\n					THROW_ERROR(runtime_error, \"pread:", "				if (rv == 0) break;\n				if (rv != static_cast<ssize_t>(size)) {\n					THROW_ERROR(runtime_error, \"pread:")]),
 dict(name="pread-cont", props=["C16"], edits=[(FD, "				if (rv != static_cast<ssize_t>(size)) {\n					THROW_ERROR(runtime_error, \"pread: \" << size << \" bytes at fd \" << name_fd(fd) << \" offset \" << offset << \" returned \" << rv);\n				}\n				break;\n", "				if (rv == 0) THROW_ERROR(runtime_error, \"pread: eof\");\n				size -= rv;\n				buf = static_cast<char *>(buf) + rv;\n")]),
 dict(name="pread-errno", props=["C16"], edits=[(FD, "					THROW_ERRNO(\"pread: \" << size << \" bytes\");\n", "					if (errno != EIO) THROW_ERRNO(\"pread: \" << size << \" bytes\");\n					break;\n")]),
 dict(name="read-die-short", props=["C16"], edits=[(FD, "		if (size_read != size) {\n			THROW_ERROR(runtime_error, \"read:", "		if (!size_read) {\n			THROW_ERROR(runtime_error, \"read:")]),
 dict(name="write-die-short", props=["C16"], edits=[(FD, "		if (size_written != size) {", "		if (size_written > size) {")]),
 dict(name="read-count", props=["C16"], edits=[(FD, RDSTEP, "			read_p += rv;\n			size -= rv;\n			size_read = size;\n")]),
 dict(name="read-string", props=["C16"], edits=[(FD, "		rv.resize(size_read);\n", "")]),
 dict(name="rename-eintr", props=["C16"], edits=[(FD, "		if (::renameat(fromfd, frompath.c_str(), tofd, topath.c_str())) {", "		if (::renameat(fromfd, frompath.c_str(), tofd, topath.c_str()) > 0) {")]),
 dict(name="ftruncate-ignored", props=["C16"], edits=[(FD, "		if (::ftruncate(fd, size)) {\n			THROW_ERRNO(", "		if (::ftruncate(fd, size) && errno != ENOSPC) {\n			THROW_ERRNO(")]),
 dict(name="search-any", props=["C16"], edits=[(FS, "			if (rv != 0 && errno == ENOENT) {", "			if (rv != 0 && (errno == ENOENT || errno == EIO)) {")]),
 dict(name="search-noclear", props=["C16"], edits=[(FS, "				ioctl_ptr->key.nr_items = 0;\n", "")]),
 dict(name="search-do", props=["C16"], edits=[(FS, "		if (!do_ioctl_nothrow(fd)) {\n			THROW_ERRNO(\"BTRFS_IOC_TREE_SEARCH_V2:", "		if (!do_ioctl_nothrow(fd) && errno != EPERM) {\n			THROW_ERRNO(\"BTRFS_IOC_TREE_SEARCH_V2:")]),
 dict(name="bili-stale", props=["C16"], edits=[(FS, "		m_iors.clear();\n\n		static", "		static")]),
 dict(name="bili-v1", props=["C16"], edits=[(FS, "					if (ioctl(fd, BTRFS_IOC_LOGICAL_INO, p)) {\n						// both V1 and V2 failed, doesn't tell us which one to choose\n						return false;\n					}\n", "					ioctl(fd, BTRFS_IOC_LOGICAL_INO, p);\n")]),
 dict(name="same-eperm", props=["C16"], edits=[(ER, "		if (rv == -1) {", "		if (rv < -1) {")]),
 dict(name="die-nonzero", props=["C16"], edits=[(ER, "		if (rv != 0) {", "		if (rv > 0) {")]),
 dict(name="fsync-ignored", props=["C16"], edits=[(B, "	DIE_IF_NON_ZERO(fsync(fd));", "	fsync(fd);")]),
 dict(name="home-fd", props=["C16"], edits=[(C, "	if (!m_home_fd) {\n		THROW_ERRNO(\"openat: \" << name_fd(root_fd()) << \" / \" << base_dir);\n	}\n", "")]),
 dict(name="q-offset", props=["C16"], expect="quiet", edits=[(FD, RDLOOP, "		while (size_read < size) {\n			const auto rv = read(fd, static_cast<char *>(buf) + size_read, size - size_read);\n"), (FD, RDSTEP, "			size_read += rv;\n"), (FD, "			if (rv > static_cast<ssize_t>(size)) {\n				THROW_ERROR(runtime_error, \"read: somehow read more bytes (\" << rv << \") than requested (\" << size << \")\");\n			}\n", "")]),
 dict(name="q-assign", props=["C16"], expect="quiet", edits=[(FD, RDLOOP, "		for (char *read_p = static_cast<char *>(buf); size != 0; ) {\n			const ssize_t rv = read(fd, read_p, size);\n"), (FD, RDSTEP, "			size_read = size_read + rv;\n			size = size - rv;\n			read_p = read_p + rv;\n")]),
 dict(name="q-helper", props=["C16"], expect="quiet", edits=[(FD, "	void\n	pwrite_or_die(int fd, const void *buf, size_t size, off_t offset)\n	{", "	static\n	void\n	check_all(const char *what, ssize_t rv, size_t size)\n	{\n		if (rv < 0) {\n			THROW_ERRNO(what);\n		}\n		if (static_cast<size_t>(rv) != size) {\n			THROW_ERROR(runtime_error, what << \" short\");\n		}\n	}\n\n	void\n	pwrite_or_die(int fd, const void *buf, size_t size, off_t offset)\n	{"),
    (FD, "		int rv = ::pwrite(fd, buf, size, offset);\n		if (rv < 0) {\n			THROW_ERRNO(\"pwrite: could not write \" << size << \" bytes at fd \" << name_fd(fd) << \" offset \" << offset);\n		}\n		if (rv != static_cast<ssize_t>(size)) {\n			THROW_ERROR(runtime_error, \"pwrite: only \" << rv << \" of \" << size << \" bytes written at fd \" << name_fd(fd) << \" offset \" << offset);\n		}\n", "		const auto rv = ::pwrite(fd, buf, size, offset);\n		check_all(\"pwrite\", rv, size);\n")]),
 dict(name="q-loop", props=["C16"], expect="quiet", edits=[(FD, "				if (rv != static_cast<ssize_t>(size)) {\n					THROW_ERROR(runtime_error, \"pread: \" << size << \" bytes at fd \" << name_fd(fd) << \" offset \" << offset << \" returned \" << rv);\n				}\n				break;\n", "				if (rv == 0) THROW_ERROR(runtime_error, \"pread: eof\");\n				size -= rv;\n				offset += rv;\n				buf = static_cast<char *>(buf) + rv;\n")]),
 dict(name="q-ok", props=["C16"], expect="quiet", edits=[(FS, "		return 0 == ioctl(fd, BTRFS_IOC_FS_INFO, p);\n", "		const int rc = ioctl(fd, BTRFS_IOC_FS_INFO, p);\n		const bool ok = rc == 0;\n		if (!ok) {\n			return false;\n		}\n		return true;\n"),
    (FD, "		if (::renameat(fromfd, frompath.c_str(), tofd, topath.c_str())) {", "		const auto rc = ::renameat(fromfd, frompath.c_str(), tofd, topath.c_str());\n		if (rc < 0) {")]),
 dict(name="q-search", props=["C16"], expect="quiet", edits=[(FS, "			if (rv != 0 && errno == ENOENT) {", "			const bool failed = rv != 0;\n			if (failed && errno == ENOENT) {"), (FS, "			if (rv != 0 && (errno", "			if (failed && (errno"),
    (FS, "			if (rv == 0 && nr_items", "			if (!failed && nr_items")]),
]
CASES = [c for c in CASES if c]
