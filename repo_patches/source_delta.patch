From 86fdbe586d0cd09a296ebf78f219cd4c3763b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 01/22] fix: do not lose hash table updates made while their
 extent is being written

flush_dirty_extent copies the extent, drops the extent lock for the write,
and used to mark the extent clean after taking the lock again.  A cell that
was changed during the write set m_dirty, and that flag was then cleared
without the new cell having been written.  Mark the extent clean before
the lock is released, and dirty again if the write did not succeed.
---
 src/bees-hash.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 7581fe1..8f7692e 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -119,6 +119,10 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// Copy the extent because we might be stuck writing for a while
 		ByteVector extent_copy(dirty_extent, dirty_extent_end);
 
+		// Mark extent clean while we still hold the lock, so that any
+		// update that arrives during the write makes it dirty again
+		m_extent_metadata.at(extent_index).m_dirty = false;
+
 		// Release the lock
 		lock.unlock();
 
@@ -130,13 +134,17 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// const size_t dirty_extent_size   = dirty_extent_end - dirty_extent;
 		// bees_unreadahead(m_fd, dirty_extent_offset, dirty_extent_size);
 
-		// Mark extent clean if write was successful
-		lock.lock();
-		m_extent_metadata.at(extent_index).m_dirty = false;
-
 		wrote_extent = true;
 	});
 
+	// Mark extent dirty again if write was not successful
+	if (!wrote_extent) {
+		if (!lock.owns_lock()) {
+			lock.lock();
+		}
+		m_extent_metadata.at(extent_index).m_dirty = true;
+	}
+
 	return wrote_extent;
 }
 
-- 
2.43.0


From 3c0165b79ee75012cd9bb0f6cacb3249457823a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 02/22] fix: scan a file extent ref again when its extent was
 busy

BeesFileCrawl::scan_one_ref advances m_offset past the ref before calling
scan_forward.  When scan_forward asks for the scan to be repeated because
another task holds the extent's lock, the task ran again with the next ref,
and the busy ref was never scanned.  Move m_offset back to the ref instead.
---
 src/bees-roots.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index b3025d0..de84e59 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1735,6 +1735,8 @@ BeesFileCrawl::scan_one_ref()
 						m_hold = new_holder;
 					} else {
 						BEESCOUNT(crawl_again);
+						// Scan this ref again when the extent is available
+						m_offset = bti.offset();
 					}
 				}
 			} else {
-- 
2.43.0


From a8dffc13160778240ffecb70ba91fcedf4c0c05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 03/22] fix: hold the crawl position at the inode being scanned

crawl_one_inode held the crawl's end position while the inode's scan task was
pending.  When the inode was fetched by peek_front, that position is already
the following inode, so the saved position could be past an inode whose scan
had not started, and a restart skipped it.  Hold the position of the inode.
---
 src/bees-roots.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index de84e59..45e3cca 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -205,11 +205,12 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 		// the correct inode (exact-match search).
 		auto bfc_state = this_state;
 		bfc_state.m_objectid = inode;
+		bfc_state.m_offset = this_range.begin();
 		const auto bfc = make_shared<BeesFileCrawl>((BeesFileCrawl) {
 			.m_ctx = m_ctx,
 			.m_crawl = this_crawl,
 			.m_roots = m_roots,
-			.m_hold = this_crawl->hold_state(this_state),
+			.m_hold = this_crawl->hold_state(bfc_state),
 			.m_state = bfc_state,
 			.m_offset = this_range.begin(),
 		});
-- 
2.43.0


From 8e0c6b8358be75840ac43508cadc2de63597ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 04/22] fix: mark the crawl state dirty when a scan position is
 held

Extent scans move their position only with hold_state, which did not mark the
crawl state dirty.  Between the start of a scan cycle and its end, state_save
found nothing to save, and all progress was lost on a restart.
---
 src/bees-roots.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 45e3cca..93504ec 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -2543,7 +2543,9 @@ BeesCrawl::get_state_end() const
 ProgressTracker<BeesCrawlState>::ProgressHolder
 BeesCrawl::hold_state(const BeesCrawlState &bcs)
 {
-	return m_state.hold(bcs);
+	const auto rv = m_state.hold(bcs);
+	m_ctx->roots()->crawl_state_set_dirty();
+	return rv;
 }
 
 void
-- 
2.43.0


From 4299c86d55433820100b28e45eb51820715840e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 05/22] fix: hold the crawl position at an item until it is
 popped

---
 src/bees-roots.cc | 9 +++++++++
 src/bees.h        | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 93504ec..53b64f2 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -174,6 +174,8 @@ BeesScanModeSubvol::get_crawl_map()
 bool
 BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 {
+	// Don't let the saved position move past this inode until the scan task has its own hold
+	const auto pop_hold = this_crawl->hold_state(this_crawl->get_state_begin());
 	const auto this_state = this_crawl->get_state_end();
 	BEESNOTE("Crawling inode " << this_state);
 	BEESTRACE("Crawling inode " << this_state);
@@ -2405,6 +2407,8 @@ BeesCrawl::fetch_extents()
 {
 	BEESTRACE("fetch_extents " << get_state_end());
 	BEESNOTE("fetch_extents " << get_state_end());
+	// The previous item has been popped, its scan has its own hold now
+	m_next_hold.reset();
 	// insert_root will undefer us.  Until then, nothing.
 	if (m_deferred) {
 		return false;
@@ -2475,6 +2479,11 @@ BeesCrawl::fetch_extents()
 		// Try to restart immediately if more transids are available.
 		return restart_crawl_unlocked();
 	}
+	// Hold the position of this item until it is popped
+	auto item_state = old_state;
+	item_state.m_objectid = m_next_extent_data.objectid();
+	item_state.m_offset = 0;
+	m_next_hold = hold_state(item_state);
 	auto new_state = old_state;
 	new_state.m_objectid = max(m_next_extent_data.objectid() + m_btof.scale_size(), m_next_extent_data.objectid());
 	new_state.m_offset = 0;
diff --git a/src/bees.h b/src/bees.h
index 7c0cfca..673abb3 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -529,6 +529,8 @@ class BeesCrawl {
 
 	mutex					m_state_mutex;
 	ProgressTracker<BeesCrawlState>		m_state;
+	// Keeps the saved position at m_next_extent_data until it is popped
+	ProgressTracker<BeesCrawlState>::ProgressHolder	m_next_hold;
 
 	BtrfsTreeObjectFetcher			m_btof;
 
-- 
2.43.0


From 6ac6b843109bf3d0c35a3cfbf7679c0542353818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 06/22] fix: continue a short read where it stopped

read_partial_or_die retried a short read with the remaining size, but at the
start of the buffer, so the second part of the data replaced the first.
---
 lib/fd.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/fd.cc b/lib/fd.cc
index dbbfb48..531051d 100644
--- a/lib/fd.cc
+++ b/lib/fd.cc
@@ -376,8 +376,9 @@ namespace crucible {
 			THROW_ERROR(runtime_error, "read: trying to read on a closed file descriptor");
 		}
 		size_read = 0;
+		char *read_p = static_cast<char *>(buf);
 		while (size) {
-			int rv = read(fd, buf, size);
+			int rv = read(fd, read_p, size);
 			if (rv < 0) {
 				if (errno == EINTR) {
 					CHATTER_TRACE("resuming after EINTR");
@@ -389,6 +390,7 @@ namespace crucible {
 				THROW_ERROR(runtime_error, "read: somehow read more bytes (" << rv << ") than requested (" << size << ")");
 			}
 			if (rv == 0) break;
+			read_p += rv;
 			size_read += rv;
 			size -= rv;
 			// CHATTER("read " << rv << " bytes from fd " << fd);
-- 
2.43.0


From 3385acf3bf67896e63af7ac52550e298ac1ecfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 07/22] fix: do not parse a tree search result the kernel did
 not fill in

When TREE_SEARCH_V2 fails with EOVERFLOW at the last buffer size, the number
of items is still the number requested and the buffer has no items.  Retry up
to the largest possible item size, and report the failure after that.
---
 lib/fs.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/fs.cc b/lib/fs.cc
index 356d803..d92a04d 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -771,6 +771,7 @@ namespace crucible {
 		size_t buf_size = max(m_buf_size, sizeof(btrfs_ioctl_search_args_v2) + sizeof(btrfs_ioctl_search_header));
 		ByteVector ioctl_arg;
 		btrfs_ioctl_search_args_v2 *ioctl_ptr;
+		int rv;
 		do {
 			// ioctl buffer size does not include search key header or buffer size
 			ioctl_arg = ByteVector(buf_size + sizeof(btrfs_ioctl_search_args_v2));
@@ -781,14 +782,16 @@ namespace crucible {
 				(*s_debug_ostream) << "bisk " << (ioctl_ptr->key) << "\n";
 			}
 			// Don't bother supporting V1.  Kernels that old have other problems.
-			int rv = ioctl(fd, BTRFS_IOC_TREE_SEARCH_V2, ioctl_arg.data());
+			rv = ioctl(fd, BTRFS_IOC_TREE_SEARCH_V2, ioctl_arg.data());
 			++s_calls;
 			if (rv != 0 && errno == ENOENT) {
 				// If we are searching a tree that is deleted or no longer exists, just return an empty list
 				ioctl_ptr->key.nr_items = 0;
 				break;
 			}
-			if (rv != 0 && errno != EOVERFLOW) {
+			// EOVERFLOW means the kernel has not filled in the results, so keep trying with
+			// larger buffers until there is space for the largest possible btrfs item
+			if (rv != 0 && (errno != EOVERFLOW || buf_size >= 65536)) {
 				return false;
 			}
 			if (rv == 0 && nr_items <= ioctl_ptr->key.nr_items) {
@@ -813,7 +816,7 @@ namespace crucible {
 			if (ioctl_ptr->key.nr_items == 0) {
 				++s_loops_empty;
 			}
-		} while (buf_size < 65536);
+		} while (rv != 0 || buf_size < 65536);
 
 		// ioctl changes nr_items, this has to be copied back
 		static_cast<btrfs_ioctl_search_key&>(*this) = ioctl_ptr->key;
-- 
2.43.0


From 605948ea3b1d247032e31907fe9974fb6d5d7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 08/22] fix: subtract from the copied stats map, not the live
 one

BeesStats::operator- copies the other map under its lock, then iterated over
the original without the lock.
---
 src/bees.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees.cc b/src/bees.cc
index 39f57ea..7e9f1f0 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -162,7 +162,7 @@ BeesStats::operator-(const BeesStats &that) const
 	that_copy.m_stats_map = that.m_stats_map;
 	that_lock.unlock();
 
-	for (auto i : that.m_stats_map) {
+	for (auto i : that_copy.m_stats_map) {
 		if (i.second != 0) {
 			this_copy.at(i.first) -= i.second;
 		}
-- 
2.43.0


From 80b9c9eb975c6391608d5667a24d0864dcce2e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 09/22] fix: make flags that are read without a lock atomic

Stop flags, BeesCrawl's deferred and finished state, the task master's
cancelled flag and a few function-local static variables are written by one
thread and read by others without a common lock.
---
 lib/fs.cc           |  3 ++-
 lib/task.cc         |  2 +-
 src/bees-context.cc |  2 +-
 src/bees-roots.cc   |  4 ++--
 src/bees.h          | 13 +++++++------
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/fs.cc b/lib/fs.cc
index d92a04d..ade1b53 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -10,6 +10,7 @@
 // FS_IOC_FIEMAP
 #include <linux/fs.h>
 
+#include <atomic>
 #include <cassert>
 #include <cstddef>
 #include <iostream>
@@ -343,7 +344,7 @@ namespace crucible {
 
 		m_iors.clear();
 
-		static unsigned long bili_version = 0;
+		static atomic<unsigned long> bili_version { 0 };
 
 		if (get_flags() == 0) {
 			// Could use either V1 or V2
diff --git a/lib/task.cc b/lib/task.cc
index 2507285..a06d807 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -177,7 +177,7 @@ namespace crucible {
 		double					m_prev_loadavg;
 		size_t					m_configured_thread_max;
 		double					m_thread_target;
-		bool					m_cancelled = false;
+		atomic<bool>				m_cancelled { false };
 		bool					m_paused = false;
 		TaskMaster::LoadStats			m_load_stats;
 
diff --git a/src/bees-context.cc b/src/bees-context.cc
index e351ed0..24e6247 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -1057,7 +1057,7 @@ BeesContext::resolve_addr_uncached(BeesAddress addr)
 	// Count how many times this happens so we can figure out how
 	// important this case is
 	static const size_t max_logical_ino_v1_refs = 2730; // (65536 - header_len) / (sizeof(uint64_t) * 3)
-	static size_t most_refs_ever = max_logical_ino_v1_refs;
+	static atomic<size_t> most_refs_ever { max_logical_ino_v1_refs };
 	if (rv_count > most_refs_ever) {
 		BEESLOGINFO("addr " << addr << " refs " << rv_count << " beats previous record " << most_refs_ever);
 		most_refs_ever = rv_count;
diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 53b64f2..0a070d7 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -701,7 +701,7 @@ static
 bool
 should_throttle()
 {
-	static bool s_throttled = false;
+	static atomic<bool> s_throttled { false };
 	// If there's too many entries in the queue, stop adding new ones until workers catch up
 	// If there's not too many entries in the queue, restart the scan task
 	const auto instance_count = Task::instance_count();
@@ -2021,7 +2021,7 @@ bees_openat(int const parent_fd, const char *const pathname, uint64_t const flag
 	THROW_CHECK1(invalid_argument, flags, (flags & O_CREAT) == 0);
 
 	// Try openat2 if the kernel has it
-	static bool can_openat2 = true;
+	static atomic<bool> can_openat2 { true };
 	if (can_openat2) {
 		open_how how {
 			.flags = flags,
diff --git a/src/bees.h b/src/bees.h
index 673abb3..5dca986 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -15,6 +15,7 @@
 #include "crucible/time.h"
 #include "crucible/task.h"
 
+#include <atomic>
 #include <functional>
 #include <list>
 #include <mutex>
@@ -464,7 +465,7 @@ private:
 	BeesStringFile		m_stats_file;
 
 	// Prefetch readahead hint
-	bool			m_prefetch_running = false;
+	atomic<bool>		m_prefetch_running { false };
 
 	// Mutex/condvar for the writeback thread
 	mutex			m_dirty_mutex;
@@ -474,7 +475,7 @@ private:
 	// Mutex/condvar to stop
 	mutex			m_stop_mutex;
 	condition_variable	m_stop_condvar;
-	bool			m_stop_requested = false;
+	atomic<bool>		m_stop_requested { false };
 
 	// Per-extent structures
 	struct ExtentMetaData {
@@ -524,8 +525,8 @@ class BeesCrawl {
 
 	mutex					m_mutex;
 	BtrfsTreeItem				m_next_extent_data;
-	bool					m_deferred = false;
-	bool					m_finished = false;
+	atomic<bool>				m_deferred { false };
+	atomic<bool>				m_finished { false };
 
 	mutex					m_state_mutex;
 	ProgressTracker<BeesCrawlState>		m_state;
@@ -577,7 +578,7 @@ class BeesRoots : public enable_shared_from_this<BeesRoots> {
 
 	mutex					m_stop_mutex;
 	condition_variable			m_stop_condvar;
-	bool					m_stop_requested = false;
+	atomic<bool>				m_stop_requested { false };
 
 	CrawlMap insert_new_crawl();
 	Fd open_root_nocache(uint64_t root);
@@ -763,7 +764,7 @@ class BeesContext : public enable_shared_from_this<BeesContext> {
 	mutable mutex					m_stop_mutex;
 	condition_variable				m_stop_condvar;
 	bool						m_stop_requested = false;
-	bool						m_stop_status = false;
+	atomic<bool>					m_stop_status { false };
 
 	shared_ptr<BeesThread>				m_progress_thread;
 	shared_ptr<BeesThread>				m_status_thread;
-- 
2.43.0


From 1b1762ec1fffcd5f09962338258941cd16d5ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 10/22] fix: take the lock in all ByteVector and RateLimiter
 accessors

size(), empty(), the slice constructor and RateLimiter::sleep_time read fields
that other threads may be changing under the object's mutex.
---
 lib/bytevector.cc | 3 +++
 lib/time.cc       | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index df2b430..82a1dc5 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -26,12 +26,14 @@ namespace crucible {
 	size_t
 	ByteVector::size() const
 	{
+		unique_lock<mutex> lock(m_mutex);
 		return m_size;
 	}
 
 	bool
 	ByteVector::empty() const
 	{
+		unique_lock<mutex> lock(m_mutex);
 		return !m_ptr || !m_size;
 	}
 
@@ -74,6 +76,7 @@ namespace crucible {
 
 	ByteVector::ByteVector(const ByteVector &that, size_t start, size_t length)
 	{
+		unique_lock<mutex> lock(that.m_mutex);
 		THROW_CHECK0(out_of_range, that.m_ptr);
 		THROW_CHECK2(out_of_range, start, that.m_size, start <= that.m_size);
 		THROW_CHECK2(out_of_range, start + length, that.m_size + length, start + length <= that.m_size + length);
diff --git a/lib/time.cc b/lib/time.cc
index 4f991e5..d3b1d81 100644
--- a/lib/time.cc
+++ b/lib/time.cc
@@ -123,9 +123,9 @@ namespace crucible {
 	double
 	RateLimiter::sleep_time(double cost)
 	{
-		THROW_CHECK1(invalid_argument, m_rate, m_rate > 0);
 		borrow(cost);
 		unique_lock<mutex> lock(m_mutex);
+		THROW_CHECK1(invalid_argument, m_rate, m_rate > 0);
 		update_tokens();
 		if (m_tokens >= 0) {
 			return 0;
-- 
2.43.0


From 53a55938c18b3e4e218d418ffec1ed23da3f7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 11/22] fix: check the length of a ByteVector slice

The check compared start + length with size + length, so a slice could extend
past the end of the vector.
---
 lib/bytevector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index 82a1dc5..6fe3077 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -79,7 +79,7 @@ namespace crucible {
 		unique_lock<mutex> lock(that.m_mutex);
 		THROW_CHECK0(out_of_range, that.m_ptr);
 		THROW_CHECK2(out_of_range, start, that.m_size, start <= that.m_size);
-		THROW_CHECK2(out_of_range, start + length, that.m_size + length, start + length <= that.m_size + length);
+		THROW_CHECK2(out_of_range, length, that.m_size - start, length <= that.m_size - start);
 		m_ptr = Pointer(that.m_ptr, that.m_ptr.get() + start);
 		m_size = length;
 	}
-- 
2.43.0


From 461f9ef8fe22c07e35e006655b137d45934d25d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 12/22] fix: initialize the CRC table once

Several threads could see the initialized flag, or start filling the table,
while another one was still working on it.
---
 lib/crc64.cc | 47 +++++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/lib/crc64.cc b/lib/crc64.cc
index 7eb5445..26961d7 100644
--- a/lib/crc64.cc
+++ b/lib/crc64.cc
@@ -32,43 +32,42 @@
 
 namespace crucible {
 
-	static bool init = false;
 	static uint64_t CRCTable[8][256];
 
-	static void init_crc64_table()
+	static bool init_crc64_table()
 	{
-		if (!init) {
-			uint64_t crc;
-
-			// Generate CRCs for all single byte sequences
-			for (int n = 0; n < 256; n++) {
-				uint64_t part = n;
-				for (int j = 0; j < 8; j++) {
-					if (part & 1) {
-						part = (part >> 1) ^ POLY64REV;
-					} else {
-						part >>= 1;
-					}
+		uint64_t crc;
+
+		// Generate CRCs for all single byte sequences
+		for (int n = 0; n < 256; n++) {
+			uint64_t part = n;
+			for (int j = 0; j < 8; j++) {
+				if (part & 1) {
+					part = (part >> 1) ^ POLY64REV;
+				} else {
+					part >>= 1;
 				}
-				CRCTable[0][n] = part;
 			}
+			CRCTable[0][n] = part;
+		}
 
-			// Generate nested CRC table for slice-by-8 lookup
-			for (int n = 0; n < 256; n++) {
-				crc = CRCTable[0][n];
-				for (int k = 1; k < 8; k++) {
-					crc = CRCTable[0][crc & 0xff] ^ (crc >> 8);
-					CRCTable[k][n] = crc;
-				}
+		// Generate nested CRC table for slice-by-8 lookup
+		for (int n = 0; n < 256; n++) {
+			crc = CRCTable[0][n];
+			for (int k = 1; k < 8; k++) {
+				crc = CRCTable[0][crc & 0xff] ^ (crc >> 8);
+				CRCTable[k][n] = crc;
 			}
-			init = true;
 		}
+		return true;
 	}
 
 	uint64_t
 	Digest::CRC::crc64(const void *p, size_t len)
 	{
-		init_crc64_table();
+		// Initialized exactly once, even if several threads get here first
+		static const bool init = init_crc64_table();
+		(void)init;
 		const unsigned char *next = static_cast<const unsigned char *>(p);
 		uint64_t crc = 0;
 
-- 
2.43.0


From efdbef61d4adb89becb1e80a9e6631c19e4876c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 13/22] fix: initialize bees_fsync's and BEESLOGONCE's static
 flags safely

These functions run in several threads.
---
 src/bees.cc | 12 +++++-------
 src/bees.h  |  5 ++---
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/bees.cc b/src/bees.cc
index 7e9f1f0..022761b 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -441,10 +441,8 @@ bees_fsync(int const fd)
 		return;
 	}
 
-	static bool did_uname = false;
-	static bool do_fsync = false;
-
-	if (!did_uname) {
+	// Initialized exactly once, even if several threads get here first
+	static const bool do_fsync = []() {
 		Uname uname;
 		const string version(uname.release);
 		static const regex version_re(R"/(^(\d+)\.(\d+)\.)/", regex::optimize | regex::ECMAScript);
@@ -456,15 +454,15 @@ bees_fsync(int const fd)
 			const auto minor = stoul(m[2]);
 			if (tie(major, minor) > tie(min_major, min_minor)) {
 				BEESLOGONCE("Using fsync on btrfs because kernel version is " << major << "." << minor);
-				do_fsync = true;
+				return true;
 			} else {
 				BEESLOGONCE("Not using fsync on btrfs because kernel version is " << major << "." << minor);
 			}
 		} else {
 			BEESLOGONCE("Not using fsync on btrfs because can't parse kernel version '" << version << "'");
 		}
-		did_uname = true;
-	}
+		return false;
+	}();
 
 	if (do_fsync) {
 		BEESNOTE("fsync btrfs " << name_fd(fd));
diff --git a/src/bees.h b/src/bees.h
index 5dca986..5d4aa9c 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -141,9 +141,8 @@ extern int bees_trace_level;
 #define BEESLOGDEBUG(x)  BEESLOG(LOG_DEBUG, x)
 
 #define BEESLOGONCE(__x) do { \
-        static bool already_logged = false; \
-        if (!already_logged) { \
-                already_logged = true; \
+        static atomic<bool> already_logged { false }; \
+        if (!already_logged.exchange(true)) { \
                 BEESLOGNOTICE(__x); \
         } \
 } while (false)
-- 
2.43.0


From e1ceb3ae162dc4381b0aa60ea086f5ed5568dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 14/22] fix: do not hold a task's lock while queueing it

After TaskMaster::cancel(), run() and idle() called TaskState::clear() on a task
whose mutex they already held, and the two mutexes were taken in both orders.
---
 lib/task.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/task.cc b/lib/task.cc
index a06d807..c0a2050 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -271,7 +271,6 @@ namespace crucible {
 	TaskState::~TaskState()
 	{
 		--s_instance_count;
-		unique_lock<mutex> lock(m_mutex);
 		// If any dependent Tasks were appended since the last exec, run them now
 		TaskState::rescue_queue(m_post_exec_queue, m_sort_queue);
 		// No need to clear m_sort_queue here, it won't exist soon
@@ -385,20 +384,29 @@ namespace crucible {
 		swap(this_task, tl_current_task);
 		m_is_running = false;
 
+		bool run_idle = false;
 		if (m_run_again) {
 			m_run_again = false;
 			if (m_idle) {
 				// All the way back to the end of the line
-				TaskMasterState::push_back_idle(shared_from_this());
+				run_idle = true;
 			} else {
 				// Insert after any dependents waiting for this Task
 				m_post_exec_queue.push_back(shared_from_this());
 			}
 		}
 
-		// Splice task post_exec queue at front of local queue
-		TaskState::rescue_queue(m_post_exec_queue, m_sort_queue);
+		TaskQueue post_exec_queue;
+		swap(post_exec_queue, m_post_exec_queue);
+		const bool sort_queue = m_sort_queue;
 		m_sort_queue = false;
+		lock.unlock();
+
+		// Splice task post_exec queue at front of local queue
+		TaskState::rescue_queue(post_exec_queue, sort_queue);
+		if (run_idle) {
+			TaskMasterState::push_back_idle(shared_from_this());
+		}
 	}
 
 	string
@@ -426,6 +434,7 @@ namespace crucible {
 		if (m_is_running) {
 			m_run_again = true;
 		} else {
+			lock.unlock();
 			TaskMasterState::push_back(shared_from_this());
 		}
 	}
@@ -442,6 +451,7 @@ namespace crucible {
 		if (m_is_running) {
 			m_run_again = true;
 		} else {
+			lock.unlock();
 			TaskMasterState::push_back_idle(shared_from_this());
 		}
 	}
@@ -481,6 +491,7 @@ namespace crucible {
 		THROW_CHECK0(runtime_error, task);
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
+			lock.unlock();
 			task->clear();
 			return;
 		}
@@ -495,6 +506,7 @@ namespace crucible {
 		THROW_CHECK0(runtime_error, task);
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
+			lock.unlock();
 			task->clear();
 			return;
 		}
@@ -511,6 +523,7 @@ namespace crucible {
 		}
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
+			lock.unlock();
 			TaskState::clear_queue(queue);
 			return;
 		}
-- 
2.43.0


From 348cbbdc521cee989b976f9e39b1b482ce0668d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 15/22] fix: do not miss a stop request before a rate limited
 wait

---
 src/bees-hash.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 8f7692e..569a947 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -172,7 +172,9 @@ BeesHashTable::flush_dirty_extents(bool slowly)
 				BEESNOTE("flush rate limited after extent #" << extent_index << " of " << m_extents << " extents");
 				chrono::duration<double> sleep_time(m_flush_rate_limit.sleep_time(BLOCK_SIZE_HASHTAB_EXTENT));
 				unique_lock<mutex> lock(m_stop_mutex);
-				m_stop_condvar.wait_for(lock, sleep_time);
+				if (!m_stop_requested) {
+					m_stop_condvar.wait_for(lock, sleep_time);
+				}
 			}
 		}
 	}
-- 
2.43.0


From 9119227e37ada064bb0643c88fe43915de9e54a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:39 +0000
Subject: [PATCH 16/22] fix: start replacement workers after a task consumer
 thread exits

A consumer thread that leaves because TaskMaster was paused, or because
there are too many threads, remains in m_threads while it rescues its
local queue.  If TaskMaster is unpaused or the thread limit is raised in
that window, start_threads_nolock() counts the departing threads as
workers and starts too few, so the configured worker count is not
reached (possibly no worker at all) until the next Task is queued.
---
 lib/task.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/task.cc b/lib/task.cc
index c0a2050..060e8fa 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -952,6 +952,13 @@ namespace crucible {
 		// Fun fact:  shared_from_this() isn't usable until the constructor returns...
 		master_copy->m_threads.erase(shared_from_this());
 		master_copy->m_condvar.notify_all();
+
+		// We were still counted as a worker while we rescued the queue.
+		// If TaskMaster was unpaused or expanded during that time, it
+		// did not start our replacement, so do that now.
+		catch_all([&]() {
+			master_copy->start_threads_nolock();
+		});
 	}
 
 	TaskConsumer::TaskConsumer(const shared_ptr<TaskMasterState> &tms) :
-- 
2.43.0


From 80591ee7a33fe07659050c461a25d65b3372e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 17/22] fix: do not terminate when the load average cannot be
 read

An exception from getloadavg1() left the load tracking thread and
terminated the process.
---
 lib/task.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/task.cc b/lib/task.cc
index 060e8fa..7dff703 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -749,7 +749,9 @@ namespace crucible {
 	{
 		pthread_setname("load_tracker");
 		while (!m_cancelled) {
-			adjust_thread_count();
+			catch_all([&]() {
+				adjust_thread_count();
+			});
 			nanosleep(5.0);
 		}
 	}
-- 
2.43.0


From c040de0d9c69d9c23df7641dac132a1f70f685ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 18/22] fix: do not throw from the BeesTempFile destructor

BeesFileId(m_fd) throws when fstat or the inode lookup ioctl fails, and
an exception that leaves a destructor terminates the process.
---
 src/bees.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bees.cc b/src/bees.cc
index 022761b..159e0ec 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -543,11 +543,17 @@ BeesTempFile::~BeesTempFile()
 {
 	BEESLOGDEBUG("destroying temporary file " << this << " in " << m_ctx->root_path() << " fd " << name_fd(m_fd));
 
+	// Looking up the file ID can fail, and must not throw out of a destructor
+
 	// Remove this file from open_root_ino lookup table
-	m_roots->erase_tmpfile(m_fd);
+	catch_all([&]() {
+		m_roots->erase_tmpfile(m_fd);
+	});
 
 	// Remove from blacklist
-	m_ctx->blacklist_erase(BeesFileId(m_fd));
+	catch_all([&]() {
+		m_ctx->blacklist_erase(BeesFileId(m_fd));
+	});
 }
 
 BeesTempFile::BeesTempFile(shared_ptr<BeesContext> ctx) :
-- 
2.43.0


From 4ab251fa6d461bec81f5c3288e6bb3c200a499be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:51 +0000
Subject: [PATCH 19/22] fix: an exception in a status note must not end the
 status threads

BeesNote functions print objects of other threads, e.g. a BeesFileRange
whose operator<< calls fstat.  If that throws, the exception left
get_status() and ended the status and progress threads.
---
 src/bees-trace.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bees-trace.cc b/src/bees-trace.cc
index f5633e6..413b5a0 100644
--- a/src/bees-trace.cc
+++ b/src/bees-trace.cc
@@ -151,7 +151,12 @@ BeesNote::get_status()
 		if (t.second->m_timer.age() > BEES_TOO_LONG) {
 			oss << "[" << t.second->m_timer << "s] ";
 		}
-		t.second->m_func(oss);
+		// Notes print objects of other threads, which can fail.  Don't let that kill the status thread.
+		catch_all([&]() {
+			t.second->m_func(oss);
+		}, [&](string what) {
+			oss << " [" << what << "]";
+		});
 		rv[t.first] = oss.str();
 	}
 	return rv;
-- 
2.43.0


From 618b60864fcbc04b99309293db95d706712b4322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:36 +0000
Subject: [PATCH 20/22] fix: sort extent references with an ordering

The comparison function passed to list::sort returned -1, 0 or 1.  Converted
to bool, both -1 and 1 mean 'comes before', so any two different references
each came before the other and the list was left in no particular order.
Compare tuples instead.
---
 src/bees-roots.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 0a070d7..30c417c 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -865,15 +865,9 @@ BeesScanModeExtent::SizeTier::create_extent_map(const uint64_t bytenr, const Pro
 	// Sort list in sane read/search order
 	refs_list->sort([](const ExtentRef &a, const ExtentRef &b) {
 		// Sort by inode first to avoid thrashing inode locks
-		if (a.m_inum < b.m_inum) return -1;
-		if (a.m_inum > b.m_inum) return 1;
 		// Do all the reflinks on one subvol at a time so that we don't have a lot of open trees
-		if (a.m_root < b.m_root) return -1;
-		if (a.m_root > b.m_root) return 1;
 		// Logically sequential read order because that's what both scan_one_extent and btrfs are optimized for
-		if (a.m_offset < b.m_offset) return -1;
-		if (a.m_offset > b.m_offset) return 1;
-		return 0;
+		return tie(a.m_inum, a.m_root, a.m_offset) < tie(b.m_inum, b.m_root, b.m_offset);
 	});
 
 	// Create task to scan all refs to this extent
-- 
2.43.0


From fd1a917c374ec371c8c27bcc4350c6608851045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:24 +0000
Subject: [PATCH 21/22] fix: restore the signal mask before shutdown so a
 second SIGTERM ends bees at once

wait_for_signals blocked the (empty) original set instead of restoring it,
so SIGTERM and SIGINT stayed blocked during shutdown.
---
 src/bees.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees.cc b/src/bees.cc
index 159e0ec..3f4e14c 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -749,7 +749,7 @@ wait_for_signals()
 				case SIGTERM:
 				case SIGINT:
 				default:
-					DIE_IF_NON_ZERO(sigprocmask(SIG_BLOCK, &old_sigset, &new_sigset));
+					DIE_IF_NON_ZERO(sigprocmask(SIG_SETMASK, &old_sigset, nullptr));
 					BEESLOGDEBUG("Signal catcher exiting");
 					return;
 			}
-- 
2.43.0


From 89fda9d8bb6fcffe79ca0afd571f71ea7a587839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:57 +0000
Subject: [PATCH 22/22] fix: usage text: the default throttle factor is 0

---
 src/bees-usage.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-usage.txt b/src/bees-usage.txt
index 705e4aa..1167e21 100644
--- a/src/bees-usage.txt
+++ b/src/bees-usage.txt
@@ -13,7 +13,7 @@ Load management options:
     -C, --thread-factor   Worker thread factor (default 1)
     -G, --thread-min      Minimum worker thread count (default 0)
     -g, --loadavg-target  Target load average for worker threads (default none)
-        --throttle-factor Idle time between operations (default 1.0)
+        --throttle-factor Idle time between operations (default 0)
 
 Filesystem tree traversal options:
     -m, --scan-mode       Scanning mode (0..4, default 4)
-- 
2.43.0

