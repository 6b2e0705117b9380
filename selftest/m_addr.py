"""C27: block addresses"""
T = "src/bees-types.cc"
H = "src/bees.h"
CASES = []


def bad(name, *edits):
    CASES.append(dict(name="a-" + name, props=["C27"], edits=list(edits)))


def quiet(name, *edits):
    CASES.append(dict(name="a-q-" + name, props=["C27"], edits=list(edits), expect="quiet"))


# --- violations: layout
bad("toxic-bit", (H, "c_toxic_mask = 1 << 9;", "c_toxic_mask = 1 << 5;"))
bad("eof-bit", (H, "c_eof_mask = 1 << 10;", "c_eof_mask = 1 << 11;"))
bad("comp-bit", (H, "c_compressed_mask = 1 << 11;", "c_compressed_mask = 1 << 12;"))
bad("all-lacks", (H, "c_all_mask = c_compressed_mask | c_eof_mask | c_offset_mask | c_toxic_mask;", "c_all_mask = c_compressed_mask | c_eof_mask | c_offset_mask;"))
bad("offset-mask", (H, "c_offset_mask = (c_offset_max - 1) | (c_offset_max);", "c_offset_mask = c_offset_max - 1;"))
bad("offset-min", (H, "c_offset_min = 1;", "c_offset_min = 0;"))
# --- decode
bad("dec-compressed", (H, "bool is_compressed() const { return m_addr >= MagicValue::LAST && (m_addr & c_compressed_mask); }", "bool is_compressed() const { return m_addr >= MagicValue::LAST && (m_addr & c_offset_mask); }"))
bad("dec-toxic-magic", (H, "bool is_toxic() const { return m_addr >= MagicValue::LAST && (m_addr & c_toxic_mask); }", "bool is_toxic() const { return m_addr & c_all_mask; }"))
bad("dec-magic", (H, "return m_addr < MagicValue::LAST;", "return m_addr <= MagicValue::HOLE;"))
bad("dec-offset", (H, "(m_addr & c_compressed_mask) && (m_addr & c_offset_mask); }", "(m_addr & (c_compressed_mask | c_offset_mask)); }"))
bad("dec-eof", (H, "(m_addr & c_eof_mask); }", "(m_addr & c_toxic_mask); }"))
bad("dec-phys", (T, "		return m_addr & ~c_all_mask;\n", "		return m_addr & ~c_offset_mask;\n"))
bad("dec-phys-magic", (T, "	if (is_magic()) {\n		return 0;\n	} else {\n		return m_addr & ~c_all_mask;\n	}\n", "	return is_magic() ? m_addr : m_addr & ~c_all_mask;\n"))
bad("dec-off-base", (T, "return ((m_addr & c_offset_mask) - 1) * BLOCK_SIZE_CLONE;", "return (m_addr & c_offset_mask) * BLOCK_SIZE_CLONE;"))
bad("dec-off-guard", (T, "	THROW_CHECK1(invalid_argument, *this, has_compressed_offset());\n", ""))
bad("toxic-guard", (T, "	THROW_CHECK1(invalid_argument, *this, !is_magic());\n", ""))
bad("toxic-clears", (T, "	m_addr |= c_toxic_mask;\n", "	m_addr = (m_addr & ~c_all_mask) | c_toxic_mask;\n"))
# --- special
bad("sp-unwritten", (T, "static const unsigned ignore_flags = FIEMAP_EXTENT_LAST | FIEMAP_EXTENT_SHARED;", "static const unsigned ignore_flags = FIEMAP_EXTENT_LAST | FIEMAP_EXTENT_SHARED | FIEMAP_EXTENT_UNWRITTEN;"))
bad("sp-tail", (T, "FIEMAP_EXTENT_NOT_ALIGNED | FIEMAP_EXTENT_DATA_INLINE;", "FIEMAP_EXTENT_NOT_ALIGNED | FIEMAP_EXTENT_DATA_INLINE | FIEMAP_EXTENT_SHARED;"))
bad("sp-inline", (T, "static const unsigned ignore_flags = FIEMAP_EXTENT_LAST | FIEMAP_EXTENT_SHARED;", "static const unsigned ignore_flags = FIEMAP_EXTENT_LAST | FIEMAP_EXTENT_SHARED | FIEMAP_EXTENT_DATA_INLINE;"), (T, "unusable_flags = FIEMAP_EXTENT_NOT_ALIGNED | FIEMAP_EXTENT_DATA_INLINE;", "unusable_flags = FIEMAP_EXTENT_NOT_ALIGNED;"))
bad("sp-delalloc", (T, "delalloc_flags = FIEMAP_EXTENT_UNKNOWN | FIEMAP_EXTENT_DELALLOC;", "delalloc_flags = FIEMAP_EXTENT_DELALLOC;"))
bad("sp-hole", (T, "		m_addr = HOLE;\n", "		m_addr = UNUSABLE;\n"))
bad("sp-unrec", (T, "		m_addr = UNUSABLE;\n		// maybe we throw here?\n		BEESCOUNT(addr_unrecognized);\n		return true;\n", "		BEESCOUNT(addr_unrecognized);\n"))
bad("sp-order", (T, "	if (flags & unusable_flags) {\n		// we know these, but can't touch them\n", "	if ((flags & unusable_flags) && !(flags & delalloc_flags)) {\n		// we know these, but can't touch them\n"))
bad("sp-retval", (T, "		BEESCOUNT(addr_unusable);\n		m_addr = UNUSABLE;\n		return true;\n", "		BEESCOUNT(addr_unusable);\n		m_addr = UNUSABLE;\n		return false;\n"))
# --- encode
bad("en-magic", (T, "	if (magic_check(e.flags())) {\n		BEESCOUNT(addr_magic);\n		return;\n	}\n", "	magic_check(e.flags());\n"))
bad("en-plain-offset", (T, "new_addr = e.physical() + (offset - e.begin());", "new_addr = e.physical() + (offset - e.begin()) + e.offset();"))
bad("en-comp-offset", (T, "int extent_offset = offset - e.begin() + e.offset();", "int extent_offset = offset - e.begin();"))
bad("en-offset-zero", (T, "(extent_offset / BLOCK_SIZE_CLONE) + 1;", "extent_offset / BLOCK_SIZE_CLONE;"), (T, "	THROW_CHECK1(invalid_argument, offset_bits, offset_bits >= c_offset_min && offset_bits <= c_offset_max);\n", ""))
bad("en-nomark", (T, "new_addr = e.physical() | c_compressed_mask | offset_bits;", "new_addr = e.physical() | offset_bits;"))
bad("en-nooff", (T, "new_addr = e.physical() | c_compressed_mask | offset_bits;", "new_addr = e.physical() | c_compressed_mask;"))
bad("en-inverted", (T, "if (e.flags() & FIEMAP_EXTENT_ENCODED) {", "if (!(e.flags() & FIEMAP_EXTENT_ENCODED)) {"))
bad("en-flag", (T, "if (e.flags() & FIEMAP_EXTENT_ENCODED) {", "if (e.flags() & FIEMAP_EXTENT_DATA_ENCRYPTED) {"))
bad("en-eof", (T, "if ((e.flags() & FIEMAP_EXTENT_LAST) && (e.end()", "if ((e.end()"))
bad("en-range", (T, "	THROW_CHECK1(invalid_argument, extent_offset, extent_offset >= 0 && extent_offset < BLOCK_SIZE_MAX_COMPRESSED_EXTENT);\n", ""), (T, "	THROW_CHECK1(invalid_argument, offset_bits, offset_bits >= c_offset_min && offset_bits <= c_offset_max);\n		THROW_CHECK1(invalid_argument, offset_bits, (offset_bits & ~c_offset_mask) == 0);\n", ""))
bad("en-comp-phys", (T, "new_addr = e.physical() | c_compressed_mask | offset_bits;", "new_addr = (e.physical() + (offset - e.begin())) | c_compressed_mask | offset_bits;"))

# --- edits that keep the behaviour
quiet("helper-dec", (H, "	bool is_compressed() const { return m_addr >= MagicValue::LAST && (m_addr & c_compressed_mask); }\n", "	bool has_bits(Type mask) const { return m_addr >= MagicValue::LAST && (m_addr & mask); }\n	bool is_compressed() const { return has_bits(c_compressed_mask); }\n"),
      (H, "bool is_toxic() const { return m_addr >= MagicValue::LAST && (m_addr & c_toxic_mask); }", "bool is_toxic() const { return has_bits(c_toxic_mask); }"))
quiet("dec-not-magic", (H, "bool is_compressed() const { return m_addr >= MagicValue::LAST && (m_addr & c_compressed_mask); }", "bool is_compressed() const { return !is_magic() && (m_addr & c_compressed_mask) != 0; }"),
      (H, "(m_addr & c_compressed_mask) && (m_addr & c_offset_mask); }", "is_compressed() && (m_addr & c_offset_mask); }"))
quiet("dec-if", (H, "bool is_toxic() const { return m_addr >= MagicValue::LAST && (m_addr & c_toxic_mask); }", "bool is_toxic() const { if (is_magic()) return false; const Type bits = m_addr & c_toxic_mask; return bits == c_toxic_mask; }"))
quiet("phys-cond", (T, "	if (is_magic()) {\n		return 0;\n	} else {\n		return m_addr & ~c_all_mask;\n	}\n", "	return is_magic() ? 0 : (m_addr & ~c_all_mask);\n"))
quiet("phys-local", (T, "	if (is_magic()) {\n		return 0;\n	} else {\n		return m_addr & ~c_all_mask;\n	}\n", "	Type rv = 0;\n	if (!is_magic()) {\n		rv = m_addr;\n		rv &= ~c_all_mask;\n	}\n	return rv;\n"))
quiet("off-local", (T, "	return ((m_addr & c_offset_mask) - 1) * BLOCK_SIZE_CLONE;\n", "	const auto blocks = (m_addr & c_offset_mask) - c_offset_min;\n	return blocks * BLOCK_SIZE_CLONE;\n"))
quiet("toxic-or", (T, "	m_addr |= c_toxic_mask;\n", "	m_addr = m_addr | c_toxic_mask;\n"))
quiet("sp-helper", (H, "	bool magic_check(uint64_t flags);\n", "	bool magic_check(uint64_t flags);\n	bool set_magic(Type v) { m_addr = v; return true; }\n"), (T, "		m_addr = HOLE;\n		BEESCOUNT(addr_hole);\n		return true;\n", "		BEESCOUNT(addr_hole);\n		return set_magic(HOLE);\n"),
      (T, "		BEESCOUNT(addr_delalloc);\n		m_addr = DELALLOC;\n		return true;\n", "		BEESCOUNT(addr_delalloc);\n		set_magic(DELALLOC);\n		return true;\n"))
quiet("sp-else", (T, "	if (flags & delalloc_flags) {\n		// delayed allocation, try again with force\n		BEESCOUNT(addr_delalloc);\n		m_addr = DELALLOC;\n		return true;\n	}\n\n	return false;\n", "	if (!(flags & delalloc_flags)) {\n		return false;\n	}\n	BEESCOUNT(addr_delalloc);\n	m_addr = DELALLOC;\n	return true;\n"))
quiet("sp-value", (H, "	bool magic_check(uint64_t flags);\n", "	bool magic_check(uint64_t flags);\n	static Type magic_of(uint64_t flags);\n"),
      (T, "	if (flags & unusable_flags) {\n		// we know these, but can't touch them\n		BEESCOUNT(addr_unusable);\n		m_addr = UNUSABLE;\n		return true;\n	}\n\n	if (flags & delalloc_flags) {\n		// delayed allocation, try again with force\n		BEESCOUNT(addr_delalloc);\n		m_addr = DELALLOC;\n		return true;\n	}\n\n	return false;\n}\n",
       "	const auto v = magic_of(flags);\n	if (v == ZERO) return false;\n	m_addr = v;\n	return true;\n}\n\nBeesAddress::Type\nBeesAddress::magic_of(uint64_t flags)\n{\n	if (flags & (FIEMAP_EXTENT_NOT_ALIGNED | FIEMAP_EXTENT_DATA_INLINE)) {\n		BEESCOUNT(addr_unusable);\n		return UNUSABLE;\n	}\n	if (flags & (FIEMAP_EXTENT_UNKNOWN | FIEMAP_EXTENT_DELALLOC)) {\n		BEESCOUNT(addr_delalloc);\n		return DELALLOC;\n	}\n	return ZERO;\n}\n"))
quiet("sp-locals", (T, "	if (flags & ~recognized_flags) {\n", "	const bool unknown_flags = (flags & ~recognized_flags) != 0;\n	if (unknown_flags) {\n"))
quiet("sp-notstatic", (T, "	static const unsigned recognized_flags = compressed", "	const unsigned recognized_flags = compressed"), (T, "	static const unsigned unusable_flags =", "	constexpr unsigned unusable_flags ="))
quiet("en-flags-local", (T, "	Type new_addr = 0;\n\n	THROW", "	Type new_addr = 0;\n	const auto flags = e.flags();\n\n	THROW"), (T, "	if (magic_check(e.flags())) {", "	if (magic_check(flags)) {"), (T, "	if (e.flags() & FIEMAP_EXTENT_ENCODED) {", "	if (flags & FIEMAP_EXTENT_ENCODED) {"), (T, "	if ((e.flags() & FIEMAP_EXTENT_LAST) &&", "	if ((flags & FIEMAP_EXTENT_LAST) &&"))
quiet("en-bools", (T, "	if (e.flags() & FIEMAP_EXTENT_ENCODED) {", "	const bool encoded = e.flags() & FIEMAP_EXTENT_ENCODED;\n	if (encoded) {"), (T, "	if ((e.flags() & FIEMAP_EXTENT_LAST) &&", "	const bool last = (e.flags() & FIEMAP_EXTENT_LAST) != 0;\n	if (last &&"))
quiet("en-swap", (T, "	if (e.flags() & FIEMAP_EXTENT_ENCODED) {\n		THROW", "	if (!(e.flags() & FIEMAP_EXTENT_ENCODED)) {\n		new_addr = e.physical() + (offset - e.begin());\n		BEESCOUNT(addr_uncompressed);\n	} else {\n		THROW"), (T, "	} else {\n		new_addr = e.physical() + (offset - e.begin());\n		BEESCOUNT(addr_uncompressed);\n	}\n\n	if ((e.flags", "	}\n\n	if ((e.flags"))
quiet("en-direct", (T, "		new_addr = e.physical() + (offset - e.begin());\n", "		new_addr = e.physical();\n		new_addr += offset;\n		new_addr -= e.begin();\n"))
quiet("en-steps", (T, "		new_addr = e.physical() | c_compressed_mask | offset_bits;\n", "		new_addr = e.physical();\n		new_addr |= c_compressed_mask;\n		new_addr |= offset_bits;\n"))
quiet("en-helper-off", (T, "BeesAddress::BeesAddress(const Extent &e, off_t offset) :\n", "static\nint\nextent_block_offset(const Extent &e, off_t offset)\n{\n	return offset - e.begin() + e.offset();\n}\n\nBeesAddress::BeesAddress(const Extent &e, off_t offset) :\n"), (T, "int extent_offset = offset - e.begin() + e.offset();", "int extent_offset = extent_block_offset(e, offset);"))
quiet("en-helper-plain", (T, "BeesAddress::BeesAddress(const Extent &e, off_t offset) :\n", "static\nBeesAddress::Type\nplain_address(const Extent &e, off_t offset)\n{\n	BEESCOUNT(addr_uncompressed);\n	const auto distance = offset - e.begin();\n	return e.physical() + distance;\n}\n\nBeesAddress::BeesAddress(const Extent &e, off_t offset) :\n"), (T, "		new_addr = e.physical() + (offset - e.begin());\n		BEESCOUNT(addr_uncompressed);\n", "		new_addr = plain_address(e, offset);\n"))
quiet("en-helper-comp", (T, "BeesAddress::BeesAddress(const Extent &e, off_t offset) :\n", "static\nunsigned\nget_offset_bits(const Extent &e, off_t offset)\n{\n	THROW_CHECK1(invalid_argument, e, (e.offset() & BLOCK_MASK_CLONE) == 0);\n	THROW_CHECK1(invalid_argument, e, e.offset() >= 0 && e.offset() < BLOCK_SIZE_MAX_COMPRESSED_EXTENT);\n	int extent_offset = offset - e.begin() + e.offset();\n	THROW_CHECK1(invalid_argument, extent_offset, extent_offset >= 0 && extent_offset < BLOCK_SIZE_MAX_COMPRESSED_EXTENT);\n	return (extent_offset / BLOCK_SIZE_CLONE) + 1;\n}\n\nBeesAddress::BeesAddress(const Extent &e, off_t offset) :\n"),
      (T, "		unsigned offset_bits = (extent_offset / BLOCK_SIZE_CLONE) + 1;\n", "		unsigned offset_bits = get_offset_bits(e, offset);\n"))
quiet("en-helper-all", (H, "	bool magic_check(uint64_t flags);\n", "	bool magic_check(uint64_t flags);\n	void set_from_extent(const Extent &e, off_t offset);\n"), (T, "	m_addr(ZERO)\n{\n	BEESTRACE(\"BeesAddress \" << e", "	m_addr(ZERO)\n{\n	set_from_extent(e, offset);\n}\n\nvoid\nBeesAddress::set_from_extent(const Extent &e, off_t offset)\n{\n	BEESTRACE(\"BeesAddress \" << e"))
quiet("en-eof-nested", (T, "	if ((e.flags() & FIEMAP_EXTENT_LAST) && (e.end()", "	const bool is_last = e.flags() & FIEMAP_EXTENT_LAST;\n	const bool odd_end = (e.end() & BLOCK_MASK_CLONE) != 0;\n	if (is_last && odd_end && (e.end()"))
quiet("en-cond", (T, "		new_addr |= c_eof_mask;\n		BEESCOUNT(addr_eof_e);\n	}\n\n	m_addr = new_addr;\n", "		BEESCOUNT(addr_eof_e);\n		m_addr = new_addr | c_eof_mask;\n	} else {\n		m_addr = new_addr;\n	}\n"))
quiet("en-helper-magic", (T, "	if (magic_check(e.flags())) {\n		BEESCOUNT(addr_magic);\n		return;\n	}\n", "	const bool magic = magic_check(e.flags());\n	if (magic) {\n		BEESCOUNT(addr_magic);\n		return;\n	}\n"))
quiet("masks", (H, "c_offset_mask = (c_offset_max - 1) | (c_offset_max);", "c_offset_mask = 0x3f;"), (H, "c_toxic_mask = 1 << 9;", "c_toxic_mask = 0x200;"))
