T = "lib/task.cc"
C = "src/bees-context.cc"
Y = "src/bees-types.cc"
R = "src/bees-roots.cc"
HB = "src/bees.h"
FS = "include/crucible/fs.h"


def e(name, *edits, **k):
    return dict(name="or-" + name, props=["C23"], edits=list(edits), **k)


SEEN = "	return tie(bsr1.bytenr, bsr1.offset, bsr1.length) < tie(bsr2.bytenr, bsr2.offset, bsr2.length);\n"
FID = "	return tie(m_ino, m_root) < tie(that.m_ino, that.m_root);\n"
REFS = "		return tie(a.m_inum, a.m_root, a.m_offset) < tie(b.m_inum, b.m_root, b.m_offset);\n"
RECENT = "			return tie(that.min_transid, that.max_transid) < tie(min_transid, max_transid);\n"
DED = "		return b.second.size() < a.second.size();\n"
HDR = "		return tie(objectid, type, offset, len, transid) < tie(that.objectid, that.type, that.offset, that.len, that.transid);\n"
CELL = "{ return tie(e_hash, e_addr) < tie(e.e_hash, e.e_addr); }"
FR = "	return make_tuple(fid(), m_begin, m_end) < make_tuple(that.fid(), that.m_begin, that.m_end);\n"

CASES = [
    e("seen-no-offset", (C, SEEN, "	return tie(bsr1.bytenr, bsr1.length) < tie(bsr2.bytenr, bsr2.length);\n")),
    e("seen-crossed", (C, SEEN, "	return tie(bsr1.bytenr, bsr1.offset, bsr1.length) < tie(bsr2.bytenr, bsr1.offset, bsr2.length);\n")),
    e("seen-le", (C, SEEN, SEEN.replace(") < tie", ") <= tie"))),
    e("fid-or", (Y, FID, "	return m_ino < that.m_ino || m_root < that.m_root;\n")),
    e("fid-ino-only", (Y, FID, "	return m_ino < that.m_ino;\n")),
    e("fid-eq-or", (Y, "	return m_root == that.m_root && m_ino == that.m_ino;\n", "	return m_ino == that.m_ino;\n")),
    e("fid-ne-and", (Y, "	return m_root != that.m_root || m_ino != that.m_ino;\n", "	return m_root != that.m_root && m_ino != that.m_ino;\n")),
    e("refs-tri", (R, REFS, "		if (a.m_inum < b.m_inum) return -1;\n		if (a.m_inum > b.m_inum) return 1;\n		return 0;\n")),
    e("refs-diff", (R, REFS, "		return int(a.m_inum - b.m_inum) < 0;\n")),
    e("refs-root-first", (R, REFS, "		return tie(a.m_root, a.m_inum, a.m_offset) < tie(b.m_root, b.m_inum, b.m_offset);\n")),
    e("refs-mixed", (R, REFS, "		if (a.m_inum < b.m_inum) return true;\n		if (a.m_root < b.m_root) return true;\n		return a.m_offset < b.m_offset;\n")),
    e("recent-up", (R, RECENT, "			return tie(min_transid, max_transid) < tie(that.min_transid, that.max_transid);\n")),
    e("recent-max-only", (R, RECENT, "			return that.max_transid < max_transid;\n")),
    e("dedupe-short-first", (C, DED, "		return a.second.size() < b.second.size();\n")),
    e("dedupe-ge", (C, DED, "		return b.second.size() <= a.second.size();\n")),
    e("hdr-no-type", (FS, HDR, "		return tie(objectid, offset, len, transid) < tie(that.objectid, that.offset, that.len, that.transid);\n")),
    e("hdr-no-offset", (FS, HDR, "		return tie(objectid, type, len, transid) < tie(that.objectid, that.type, that.len, that.transid);\n")),
    e("cell-hash-only", (HB, CELL, "{ return e_hash < e.e_hash; }")),
    e("range-no-end", (Y, FR, "	return make_tuple(fid(), m_begin) < make_tuple(that.fid(), that.m_begin);\n")),
    e("range-eq-end", (Y, "	if (m_begin != that.m_begin || m_end != that.m_end) {\n		return false;", "	if (m_begin != that.m_begin) {\n		return false;")),
    e("task-order", (T, "		return id() < that.id();\n", "		return id() <= that.id();\n")),
    e("task-young-first", (T, "					return a->m_id < b->m_id;\n", "					return a->m_id > b->m_id;\n")),
    e("addr-mixed", (Y, "		return (m_addr & ~c_offset_mask) < (that.m_addr & ~c_offset_mask);\n", "		return (m_addr & ~c_offset_mask) < that.m_addr;\n")),
    # behaviour kept
    e("q-seen-if", (C, SEEN, """	if (bsr1.bytenr != bsr2.bytenr) {
		return bsr1.bytenr < bsr2.bytenr;
	}
	if (bsr1.offset != bsr2.offset) {
		return bsr1.offset < bsr2.offset;
	}
	return bsr1.length < bsr2.length;
"""), expect="quiet"),
    e("q-seen-tuple", (C, SEEN, """	const auto a = make_tuple(bsr1.bytenr, bsr1.offset, bsr1.length);
	const auto b = make_tuple(bsr2.bytenr, bsr2.offset, bsr2.length);
	return b > a;
"""), expect="quiet"),
    e("q-fid-expr", (Y, FID, "	return m_ino < that.m_ino || (m_ino == that.m_ino && m_root < that.m_root);\n"), expect="quiet"),
    e("q-fid-tern", (Y, FID, "	return m_ino == that.m_ino ? m_root < that.m_root : m_ino < that.m_ino;\n"), expect="quiet"),
    e("q-fid-root-first", (Y, FID, "	return tie(m_root, m_ino) < tie(that.m_root, that.m_ino);\n"), expect="quiet"),
    e("q-fid-getters", (Y, FID, "	return tie(m_ino, m_root) < make_tuple(that.ino(), that.root());\n"), expect="quiet"),
    e("q-fid-ne", (Y, "	return m_root != that.m_root || m_ino != that.m_ino;\n", "	return !(*this == that);\n"), expect="quiet"),
    e("q-fid-eq-tie", (Y, "	return m_root == that.m_root && m_ino == that.m_ino;\n", "	return tie(m_ino, m_root) == tie(that.m_ino, that.m_root);\n"), expect="quiet"),
    e("q-refs-if", (R, REFS, """		if (a.m_inum < b.m_inum) return true;
		if (a.m_inum > b.m_inum) return false;
		if (a.m_root < b.m_root) return true;
		if (a.m_root > b.m_root) return false;
		return a.m_offset < b.m_offset;
"""), expect="quiet"),
    e("q-refs-var", (R, REFS, """		bool rv = a.m_offset < b.m_offset;
		if (a.m_root != b.m_root) rv = a.m_root < b.m_root;
		if (a.m_inum != b.m_inum) rv = a.m_inum < b.m_inum;
		return rv;
"""), expect="quiet"),
    e("q-refs-named", (R, "	refs_list->sort([](const ExtentRef &a, const ExtentRef &b) {", "	const auto by_inode = [](const ExtentRef &a, const ExtentRef &b) {"), (R, REFS + "	});\n", REFS + "	};\n	refs_list->sort(by_inode);\n"), expect="quiet"),
    e("q-refs-key", (R, "	refs_list->sort([](const ExtentRef &a, const ExtentRef &b) {\n", "	const auto key = [](const ExtentRef &r) { return make_tuple(r.m_inum, r.m_root, r.m_offset); };\n	refs_list->sort([&](const ExtentRef &a, const ExtentRef &b) {\n"), (R, REFS, "		return key(a) < key(b);\n"), expect="quiet"),
    e("q-recent-if", (R, RECENT, "			return min_transid == that.min_transid ? max_transid > that.max_transid : min_transid > that.min_transid;\n"), expect="quiet"),
    e("q-dedupe-vars", (C, DED, "		const auto as = a.second.size();\n		const auto bs = b.second.size();\n		return as > bs;\n"), expect="quiet"),
    e("q-dedupe-ties", (C, DED, "		return tie(b.first, a.second) < tie(a.first, b.second) ? b.second.size() < a.second.size() : a.second.size() > b.second.size();\n"), expect="quiet"),
    e("q-cell-std", (HB, CELL, "{ return e_hash < e.e_hash || (!(e.e_hash < e_hash) && e_addr < e.e_addr); }"), expect="quiet"),
    e("q-hdr-short", (FS, HDR, "		if (objectid != that.objectid) return objectid < that.objectid;\n		return tie(type, offset, len, transid) < tie(that.type, that.offset, that.len, that.transid);\n"), expect="quiet"),
    e("q-task-cmp", (T, "		return id() < that.id();\n", "		const auto a = id();\n		const auto b = that.id();\n		return b > a;\n"), expect="quiet"),
]
