From d0e858959fe2001cf62294465728b2302f1f8fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 001/109] fix: memory_file: keep reads inside the file and zero
 the gap when writing past its end

---
 include/stdex/stream.hpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 60a0cdb..8597df4 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3555,7 +3555,7 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = time_point::now();
 #endif
-				size_t available = m_size - m_offset;
+				size_t available = m_offset < m_size ? m_size - m_offset : 0;
 				if (length <= available) {
 					memcpy(data, &m_data[m_offset], length);
 					m_offset += length;
@@ -3671,6 +3671,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return 0;
 				}
+				clear_gap();
 				memcpy(&m_data[m_offset], data, length);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3693,6 +3694,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return;
 				}
+				clear_gap();
 				memset(&m_data[m_offset], byte, amount);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3728,6 +3730,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				clear_gap();
 				(*reinterpret_cast<T*>(&m_data[m_offset])) = HE2LE(data);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3771,6 +3774,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				clear_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data, size_chars);
@@ -3816,6 +3820,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				clear_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data.data(), size_chars);
@@ -3846,6 +3851,7 @@ namespace stdex
 					reserve(dst_size);
 					if (!ok()) _Unlikely_
 						return 0;
+					clear_gap();
 					while (to_write) {
 						num_read = stream.read(&m_data[dst_offset], to_write);
 						/*dst_size =*/ dst_offset += num_read;
@@ -3864,8 +3870,13 @@ namespace stdex
 						block_size = std::min(to_write, default_block_size);
 						dst_size = stdex::add(dst_size, block_size);
 						reserve(dst_size);
-						if (!ok()) _Unlikely_
+						if (!ok()) _Unlikely_ {
+							if (!num_copied)
+								return 0;
 							break;
+						}
+						if (!num_copied)
+							clear_gap();
 						num_read = stream.read(&m_data[dst_offset], block_size);
 						dst_size = dst_offset += num_read;
 						num_copied += num_read;
@@ -3928,8 +3939,11 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
-				m_size = m_offset;
 				reserve(m_offset);
+				if (!ok()) _Unlikely_
+					return;
+				clear_gap();
+				m_size = m_offset;
 			}
 
 #if SET_FILE_OP_TIMES
@@ -4065,6 +4079,17 @@ namespace stdex
 			template<class T, class TR = std::char_traits<T>, class AX = std::allocator<T>>
 			memory_file& operator <<(_In_ const std::basic_string<T, TR, AX>& data) { return write_str(data); }
 
+		protected:
+			///
+			/// Zeroes the gap between the end of file and the file pointer, when file pointer is past the end of file.
+			/// Space up to the file pointer must be reserved already.
+			///
+			void clear_gap() noexcept
+			{
+				if (m_offset > m_size)
+					memset(&m_data[m_size], 0, m_offset - m_size);
+			}
+
 		protected:
 			uint8_t* m_data; ///< file data
 			bool m_manage; ///< may reallocate m_data?
-- 
2.43.0


From 3e27b2988b1bb2b797310d13073e3aa25480a86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 002/109] fix: basic_file::read_remainder: don't underflow past
 the end of file

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8597df4..a12ef0e 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -816,7 +816,9 @@ namespace stdex
 		public:
 			virtual std::vector<uint8_t> read_remainder(_In_ size_t max_length = SIZE_MAX)
 			{
-				size_t length = std::min<size_t>(max_length, static_cast<size_t>(size() - tell()));
+				fpos_t offset = tell();
+				fsize_t end = size();
+				size_t length = offset < end ? static_cast<size_t>(std::min<fsize_t>(max_length, end - offset)) : 0;
 				std::vector<uint8_t> result;
 				try { result.resize(length); }
 				catch (const std::bad_alloc&) {
-- 
2.43.0


From 2172f40da56db780a29d6cd86315ae51fd3816e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 003/109] fix: memory_file::save: report failed truncation and
 state of the save

---
 include/stdex/stream.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index a12ef0e..bdfd179 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3526,6 +3526,11 @@ namespace stdex
 					return;
 				}
 				f.truncate();
+				if (!f.ok()) {
+					m_state = state_t::fail;
+					return;
+				}
+				m_state = state_t::ok;
 #if SET_FILE_OP_TIMES
 				f.set_ctime(m_ctime);
 				f.set_atime(m_atime);
-- 
2.43.0


From 4b345f4cc99c976670d5413e33c1c24092ec5577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 004/109] fix: file::lock: report failure to lock

---
 include/stdex/stream.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index bdfd179..bc1daf5 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2883,7 +2883,6 @@ namespace stdex
 						throw std::invalid_argument("file section length too big");
 					m_state = lseek64(m_h, static_cast<off64_t>(offset), SEEK_SET) >= 0 && lockf64(m_h, F_LOCK, static_cast<off64_t>(length)) >= 0 ? state_t::ok : state_t::fail;
 					lseek64(m_h, orig, SEEK_SET);
-					m_state = state_t::ok;
 					return;
 				}
 #endif
-- 
2.43.0


From efbaf1d0a02be564f4d67ba43d8c4fd4640e7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 005/109] fix: file::set_atime, set_mtime: pass seconds and
 nanoseconds to futimens

---
 include/stdex/stream.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index bc1daf5..03cad29 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2976,6 +2976,16 @@ namespace stdex
 				ft.dwHighDateTime = static_cast<DWORD>((t >> 32) & 0xffffffff);
 				ft.dwLowDateTime = static_cast<DWORD>(t & 0xffffffff);
 			}
+#else
+			static struct timespec tp2ts(_In_ time_point tp)
+			{
+				auto t = tp.time_since_epoch();
+				auto s = std::chrono::floor<std::chrono::seconds>(t);
+				struct timespec ts;
+				ts.tv_sec = s.count();
+				ts.tv_nsec = std::chrono::duration_cast<std::chrono::nanoseconds>(t - s).count();
+				return ts;
+			}
 #endif
 
 			virtual time_point ctime() const
@@ -3042,7 +3052,7 @@ namespace stdex
 				throw std::system_error(GetLastError(), std::system_category(), "SetFileTime failed");
 #else
 				struct timespec ts[2] = {
-					{ date.time_since_epoch().count(), 0 },
+					tp2ts(date),
 					{ 0, UTIME_OMIT },
 				};
 				if (futimens(m_h, ts) >= 0)
@@ -3062,7 +3072,7 @@ namespace stdex
 #else
 				struct timespec ts[2] = {
 					{ 0, UTIME_OMIT },
-					{ date.time_since_epoch().count(), 0 },
+					tp2ts(date),
 				};
 				if (futimens(m_h, ts) >= 0)
 					return;
-- 
2.43.0


From 5e02b37d8c4e32abb5f8743a44cd41533c3687b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 006/109] fix: basic::operator>> for vector and set: return the
 stream

---
 include/stdex/stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 03cad29..d578025 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -707,6 +707,7 @@ namespace stdex
 						return *this;
 					data.push_back(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
@@ -736,6 +737,7 @@ namespace stdex
 						return *this;
 					data.insert(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
-- 
2.43.0


From 2e49fbe19edba604b579219af5c42e52a22b08a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 007/109] fix: basic::read_array: don't count partially read
 element

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index d578025..7ee43fa 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -381,7 +381,7 @@ namespace stdex
 					if (!to_read)
 						return count;
 					if (!ok()) _Unlikely_
-						return count - to_read / size;
+						return count - (to_read + size - 1) / size;
 					reinterpret_cast<uint8_t*&>(array) += num_read;
 				}
 			}
-- 
2.43.0


From 86ad53f367ae069ee7e8a1af23e221b2f8caab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 008/109] fix: basic::write_stream: stop at and report failed
 write

---
 include/stdex/stream.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 7ee43fa..abc9103 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -564,9 +564,13 @@ namespace stdex
 				m_state = state_t::ok;
 				while (to_write) {
 					size_t num_read = stream.read(data.get(), static_cast<size_t>(std::min<fsize_t>(default_block_size, to_write)));
-					size_t num_written = write(data.get(), num_read);
-					num_copied += num_written;
-					to_write -= num_written;
+					if (num_read) {
+						size_t num_written = write(data.get(), num_read);
+						num_copied += num_written;
+						to_write -= num_written;
+						if (!ok() || num_written < num_read)
+							break;
+					}
 					if (stream.m_state == state_t::eof) {
 						// EOF is not an error.
 						m_state = state_t::ok;
-- 
2.43.0


From 01716d3de09c1dcd182eaaeb1347ee35c646e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 009/109] fix: ring::back: return {nullptr, 0} after quit()
 also when there is space left

---
 include/stdex/ring.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/stdex/ring.hpp b/include/stdex/ring.hpp
index d596437..8475afe 100644
--- a/include/stdex/ring.hpp
+++ b/include/stdex/ring.hpp
@@ -43,11 +43,9 @@ namespace stdex
 		std::tuple<T*, size_t> back()
 		{
 			std::unique_lock<std::mutex> lk(m_mutex);
-			if (!space()) {
-				m_head_moved.wait(lk, [&]{return m_quit || space();});
-				if (m_quit) _Unlikely_
-					return { nullptr, 0 };
-			}
+			m_head_moved.wait(lk, [&]{return m_quit || space();});
+			if (m_quit) _Unlikely_
+				return { nullptr, 0 };
 			size_t tail = wrap(m_head + m_size);
 			return { &m_data[tail], m_head <= tail ? N_cap - tail : m_head - tail };
 		}
-- 
2.43.0


From 321a5bc81eaa45f329288cda31edac86c7980cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 010/109] fix: async_writer: don't lose or hide undelivered
 data on flush and close

---
 include/stdex/ring.hpp   |  5 ++++-
 include/stdex/stream.hpp | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/stdex/ring.hpp b/include/stdex/ring.hpp
index 8475afe..0dbc3e1 100644
--- a/include/stdex/ring.hpp
+++ b/include/stdex/ring.hpp
@@ -120,10 +120,13 @@ namespace stdex
 		///
 		/// Waits until the ring is flush
 		///
-		void sync()
+		/// \return true if ring is flush; false if quit() has been called with data remaining in the ring.
+		///
+		bool sync()
 		{
 			std::unique_lock<std::mutex> lk(m_mutex);
 			m_head_moved.wait(lk, [&]{return m_quit || empty();});
+			return empty();
 		}
 
 	protected:
diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index abc9103..b17edff 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1363,10 +1363,20 @@ namespace stdex
 				}
 			}
 
+			virtual void close()
+			{
+				bool flushed = m_ring.sync();
+				converter::close();
+				if (!flushed) _Unlikely_
+					m_state = state_t::fail;
+			}
+
 			virtual void flush()
 			{
-				m_ring.sync();
+				bool flushed = m_ring.sync();
 				converter::flush();
+				if (!flushed) _Unlikely_
+					m_state = state_t::fail;
 			}
 
 		protected:
@@ -1378,8 +1388,9 @@ namespace stdex
 					if (!ptr)
 						break;
 					num_read = m_source->write(ptr, num_read);
+					bool ok = m_source->ok(); // Once popped, flush() or close() might use the source.
 					m_ring.pop(num_read);
-					if (!m_source->ok()) {
+					if (!ok) {
 						m_ring.quit();
 						break;
 					}
-- 
2.43.0


From 0a1000898c7c5d5eec73dd1b1e7c599bdcec059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 011/109] fix: aggregate_progress: forward combined range and
 value in order

---
 include/stdex/progress.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stdex/progress.hpp b/include/stdex/progress.hpp
index 6245c04..19954ce 100644
--- a/include/stdex/progress.hpp
+++ b/include/stdex/progress.hpp
@@ -9,6 +9,7 @@
 #include "interval.hpp"
 #include <atomic>
 #include <chrono>
+#include <mutex>
 #include <shared_mutex>
 #include <vector>
 
@@ -416,12 +417,13 @@ namespace stdex
 			///
 			virtual void set_range(_In_ T start, _In_ T end)
 			{
+				// Hosts must see combined ranges in the order they were combined.
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				T
 					combined_start = m_host.m_start += start - m_start,
 					combined_end = m_host.m_end += end - m_end;
 				m_start = start;
 				m_end = end;
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->set_range(combined_start, combined_end);
 			}
@@ -433,9 +435,10 @@ namespace stdex
 			///
 			virtual void set(_In_ T value)
 			{
+				// Hosts must see combined values in the order they were combined.
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				T combined_value = m_host.m_value += value - m_value;
 				m_value = value;
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->set(combined_value);
 			}
-- 
2.43.0


From 6b51a74a83d3f7236d985e5bd19ed375b293c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 012/109] fix: basic::skip: report end of stream as state
 regardless of the amount

---
 include/stdex/stream.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index b17edff..593174d 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -147,11 +147,12 @@ namespace stdex
 			///
 			virtual void skip(_In_ fsize_t amount)
 			{
+				uint8_t byte;
 				if (amount == 1)
-					read_byte();
+					read_array(&byte, sizeof(byte), 1);
 				else if (amount < iterate_count) {
 					for (size_t i = 0; i < static_cast<size_t>(amount); i++) {
-						read_byte();
+						read_array(&byte, sizeof(byte), 1);
 						if (!ok()) _Unlikely_
 							break;
 					}
-- 
2.43.0


From 13c6a3626570433f91fce28129144a3a8758d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 013/109] fix: window::write: don't count data past the limit
 when source accepts less

---
 include/stdex/stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 593174d..5a96f81 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1692,9 +1692,10 @@ namespace stdex
 					m_state = state_t::ok;
 				}
 				else {
-					num_skipped += length - static_cast<size_t>(write_limit);
 					num_written = converter::write(data, static_cast<size_t>(write_limit));
 					write_limit -= num_written;
+					if (!write_limit)
+						num_skipped += length - num_written;
 				}
 				return num_skipped + num_written;
 			}
-- 
2.43.0


From f3c3a05eac84cacc6f64464b5f1bde73e1bf7b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 014/109] fix: buffer: deliver all data or report failure on
 flush

---
 include/stdex/stream.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 5a96f81..1ee34eb 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1528,18 +1528,15 @@ namespace stdex
 		protected:
 			void flush_write()
 			{
-				size_t buffer_size = m_write_buffer.tail - m_write_buffer.head;
-				if (buffer_size) {
-					m_write_buffer.head += m_source->write(m_write_buffer.data + m_write_buffer.head, buffer_size);
-					if (m_write_buffer.head == m_write_buffer.tail) {
-						m_write_buffer.head = 0;
-						m_write_buffer.tail = 0;
-					}
-					else {
-						m_state = m_source->state();
+				while (m_write_buffer.head < m_write_buffer.tail) {
+					size_t num_written = m_source->write(m_write_buffer.data + m_write_buffer.head, m_write_buffer.tail - m_write_buffer.head);
+					m_write_buffer.head += num_written;
+					if (m_write_buffer.head < m_write_buffer.tail && (!num_written || !m_source->ok())) _Unlikely_ {
+						m_state = m_source->ok() ? state_t::fail : m_source->state();
 						return;
 					}
 				}
+				m_write_buffer.head = m_write_buffer.tail = 0;
 				m_state = state_t::ok;
 			}
 
-- 
2.43.0


From 1ec1d45bccd8f8aa40a7f826f8f79258b0573bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 015/109] fix: fifo: deallocate nodes the way they were
 allocated

---
 include/stdex/stream.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 1ee34eb..b440d20 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4153,7 +4153,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4182,7 +4182,7 @@ namespace stdex
 					to_read -= remaining;
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4191,15 +4191,15 @@ namespace stdex
 			{
 				stdex_assert(data || !length);
 				try {
-					std::unique_ptr<node_t> n(reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]));
+					auto n = reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]);
 					n->next = nullptr;
 					n->size = length;
 					memcpy(n->data, data, length);
 					m_size += length;
 					if (m_head)
-						m_tail = m_tail->next = n.release();
+						m_tail = m_tail->next = n;
 					else
-						m_head = m_tail = n.release();
+						m_head = m_tail = n;
 					m_state = state_t::ok;
 					return length;
 				}
@@ -4215,7 +4215,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 				m_state = state_t::ok;
 			}
-- 
2.43.0


From ac8ed38061ba9ac51c6bda59daeee177e2b2daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 016/109] fix: diag_file: fail lock, unlock and truncate with
 no files

---
 include/stdex/stream.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index b440d20..8845a3f 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4349,8 +4349,10 @@ namespace stdex
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->lock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4362,8 +4364,10 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->unlock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4387,8 +4391,10 @@ namespace stdex
 
 			virtual void truncate()
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->truncate();
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
-- 
2.43.0


From 80f62050f13465a0642f8528b9ef2ee76760b7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 017/109] fix: file_window: make positions relative to the
 window

---
 include/stdex/stream.hpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8845a3f..d33c8d7 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1758,27 +1758,46 @@ namespace stdex
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
 			{
-				m_offset = m_source.seek(offset, how);
+				switch (how) {
+				case seek_t::beg:
+					offset += static_cast<foff_t>(m_region.start);
+					break;
+				case seek_t::cur:
+					offset += static_cast<foff_t>(m_offset);
+					break;
+				case seek_t::end:
+					offset += static_cast<foff_t>(m_region.end);
+					break;
+				default:
+					throw std::invalid_argument("unknown seek origin");
+				}
+				if (offset < static_cast<foff_t>(m_region.start)) _Unlikely_
+					throw std::invalid_argument("negative file offset");
+				fpos_t result = m_source.seek(offset, seek_t::beg);
 				m_state = m_source.state();
-				return ok() ? m_offset - m_region.start : fpos_max;
+				if (!ok()) _Unlikely_
+					return fpos_max;
+				m_offset = result;
+				return m_offset - m_region.start;
 			}
 
 			virtual void skip(_In_ fsize_t amount)
 			{
 				m_source.skip(amount);
 				m_state = m_source.state();
+				if (ok())
+					m_offset += amount;
 			}
 
 			virtual fpos_t tell() const
 			{
-				fpos_t offset = m_source.tell();
-				return m_region.contains(offset) ? offset - m_region.start : fpos_max;
+				return m_offset >= m_region.start ? m_offset - m_region.start : fpos_max;
 			}
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
@@ -1787,8 +1806,8 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
-- 
2.43.0


From dd7c1c83409da01c896dc1ddfa68ae7fdcef25ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 018/109] fix: cache::write: zero the gap when writing past the
 end of cached data

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index d33c8d7..8962fe6 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1981,6 +1981,10 @@ namespace stdex
 						fpos_t end_max = m_cache.region.start + m_cache.capacity;
 						if (m_cache.region.start <= m_offset && m_offset < end_max) {
 							size_t remaining_cache = static_cast<size_t>(end_max - m_offset);
+							if (m_cache.region.end < m_offset) {
+								// Writing past the end of cached data. Gap reads as zeros.
+								memset(m_cache.data + static_cast<size_t>(m_cache.region.end - m_cache.region.start), 0, static_cast<size_t>(m_offset - m_cache.region.end));
+							}
 							if (to_write <= remaining_cache) {
 								memcpy(m_cache.data + static_cast<size_t>(m_offset - m_cache.region.start), data, to_write);
 								m_offset += to_write;
-- 
2.43.0


From 39271569ff8cfec25f6dd20e50c3cacdb9928c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 019/109] fix: cache::write: don't keep cached block that gets
 overwritten in the source

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8962fe6..e412b0f 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2000,7 +2000,7 @@ namespace stdex
 							m_cache.status = cache_t::cache_t::status_t::dirty;
 							m_cache.region.end = end_max;
 						}
-						flush_cache();
+						invalidate_cache();
 						if (!ok()) _Unlikely_
 							return length - to_write;
 					}
-- 
2.43.0


From 903a3738ecbc6415d68187e5b898d142c7fc81ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 020/109] fix: cache: report failures of the source

---
 include/stdex/stream.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index e412b0f..8400111 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2009,6 +2009,7 @@ namespace stdex
 						if (m_offset / m_cache.capacity < end_max / m_cache.capacity) {
 							// Write spans multiple cache blocks. Bypass cache to the last block.
 							m_source->seekbeg(m_offset);
+							m_state = m_source->state();
 							if (!ok()) _Unlikely_
 								return length - to_write;
 							size_t num_written = m_source->write(data, to_write - static_cast<size_t>(end_max % m_cache.capacity));
@@ -2044,6 +2045,7 @@ namespace stdex
 				if (!ok()) _Unlikely_
 					return;
 				m_source->flush();
+				m_state = m_source->state();
 			}
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
@@ -2195,20 +2197,28 @@ namespace stdex
 				start -= start % m_cache.capacity; // Align to cache block size.
 				m_source->seekbeg(m_cache.region.start = start);
 				if (m_source->ok()) {
-					m_cache.region.end = start + m_source->read(m_cache.data, m_cache.capacity);
-					m_cache.status = cache_t::cache_t::status_t::loaded;
-					m_state = state_t::ok; // Regardless the read failure, we still might have cached some data.
+					m_cache.region.end = start + m_source->read_array(m_cache.data, sizeof(uint8_t), m_cache.capacity);
+					if (m_source->state() != state_t::fail) {
+						m_cache.status = cache_t::cache_t::status_t::loaded;
+						m_state = state_t::ok;
+						return;
+					}
 				}
-				else
-					m_state = state_t::fail;
+				// What is past the data read is not known to be the end of file.
+				m_cache.status = cache_t::cache_t::status_t::empty;
+				m_state = state_t::fail;
 			}
 
 			void write_cache()
 			{
 				stdex_assert(m_cache.status == cache_t::cache_t::status_t::dirty);
 				m_source->seekbeg(m_cache.region.start);
-				m_source->write(m_cache.data, static_cast<size_t>(m_cache.region.size()));
 				m_state = m_source->state();
+				if (!ok()) _Unlikely_
+					return;
+				size_t size = static_cast<size_t>(m_cache.region.size());
+				size_t num_written = m_source->write(m_cache.data, size);
+				m_state = num_written == size || !m_source->ok() ? m_source->state() : state_t::fail;
 			}
 
 			basic_file* m_source;
-- 
2.43.0


From 8c9ee21c88b844a474bbf720a37d97c23f2f6f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 021/109] fix: cache::truncate: don't drop cached data when
 truncation of the source fails

---
 include/stdex/stream.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8400111..68e7dce 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2104,6 +2104,13 @@ namespace stdex
 				m_atime = m_mtime = time_point::now();
 #endif
 				m_source->seekbeg(m_offset);
+				m_state = m_source->state();
+				if (!ok()) _Unlikely_
+					return;
+				m_source->truncate();
+				m_state = m_source->state();
+				if (!ok()) _Unlikely_
+					return;
 				if (m_cache.region.end <= m_offset) {
 					// Truncation does not affect cache.
 				}
@@ -2115,8 +2122,6 @@ namespace stdex
 					// Truncation invalidates cache.
 					m_cache.status = cache_t::cache_t::status_t::empty;
 				}
-				m_source->truncate();
-				m_state = m_source->state();
 			}
 
 			virtual time_point ctime() const
-- 
2.43.0


From 9e93c5801a3d4ffa959232a8163f475c839f3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 022/109] fix: cache::size: ignore empty block loaded past the
 end of file

---
 include/stdex/stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 68e7dce..032811e 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2093,7 +2093,8 @@ namespace stdex
 
 			virtual fsize_t size() const
 			{
-				return m_cache.status != cache_t::cache_t::status_t::empty ?
+				// Block loaded past the end of file is empty and must not extend the file size.
+				return m_cache.status != cache_t::cache_t::status_t::empty && !m_cache.region.empty() ?
 					std::max(m_source->size(), m_cache.region.end) :
 					m_source->size();
 			}
-- 
2.43.0


From f17e321aeaff8b913fcdc71043516228bd41e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 023/109] fix: cache::read: null read at the end of file is ok

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 032811e..d0569c6 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1963,7 +1963,7 @@ namespace stdex
 						return length - to_read;
 					}
 					if (m_cache.region.end <= m_offset) _Unlikely_ {
-						m_state = to_read < length ? state_t::ok : state_t::eof;
+						m_state = to_read < length || !length ? state_t::ok : state_t::eof;
 						return length - to_read;
 					}
 				}
-- 
2.43.0


From 19803c6a81518e4eaa2c657e898cb951545deef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 024/109] fix: base64_reader::read: count the bytes of the
 final block

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 28c1108..836d48d 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -420,9 +420,9 @@ namespace stdex
 				if (m_temp_len < 3 && to_read >= 3) {
 					// If Base64 indicates end of data, truncate read to hint the client, end of Base64 data has been reached.
 					memcpy(data, m_temp + m_temp_off, m_temp_len);
+					to_read -= m_temp_len;
 					m_temp_off = 0;
 					m_temp_len = 0;
-					to_read -= m_temp_len;
 					m_state = stdex::stream::state_t::ok;
 					return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.
 				}
-- 
2.43.0


From f7f415cf1af6b40fd420b7ae092472a1236a08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 025/109] fix: base64_writer::write: return number of bytes
 written on failure

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 836d48d..ef3a313 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -205,7 +205,7 @@ namespace stdex
 					encode();
 					if (!m_source->ok()) _Unlikely_ {
 						m_state = m_source->state();
-						return length - i;
+						return i;
 					}
 					m_num = 0;
 				}
-- 
2.43.0


From d67b8fcdec704ad983a1b6e7a1aaa8399b97243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 026/109] fix: block_hash: count bits of blocks 4 GiB and
 longer

---
 include/stdex/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/hash.hpp b/include/stdex/hash.hpp
index 4947ec0..7380a3c 100644
--- a/include/stdex/hash.hpp
+++ b/include/stdex/hash.hpp
@@ -89,7 +89,7 @@ namespace stdex
 			// Update number of m_counter[1].
 			if ((m_counter[0] += (static_cast<uint32_t>(length) << 3)) < (static_cast<uint32_t>(length) << 3))
 				m_counter[1]++;
-			m_counter[1] += static_cast<uint32_t>(length) >> 29;
+			m_counter[1] += static_cast<uint32_t>(length >> 29);
 
 			// Transform as many times as possible.
 			size_t i, remainder = 64 - j;
-- 
2.43.0


From 24f948bbaad68cdd57614dda9c6a4e1af7647378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 027/109] fix: zlib_reader::read: stop at the end of deflate
 stream

---
 include/stdex/zlib.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 1d2ad70..ad4c728 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -157,7 +157,13 @@ namespace stdex
 							return 0;
 						}
 					}
-					throw_on_zlib_error(inflate(&m_zlib, Z_NO_FLUSH));
+					int result = inflate(&m_zlib, Z_NO_FLUSH);
+					throw_on_zlib_error(result);
+					if (result == Z_STREAM_END) {
+						num_read += num_deflated - m_zlib.avail_out;
+						m_state = num_read ? stdex::stream::state_t::ok : stdex::stream::state_t::eof;
+						return num_read;
+					}
 				} while (m_zlib.avail_out);
 				num_read += num_deflated;
 				reinterpret_cast<Bytef*&>(data) += num_deflated;
-- 
2.43.0


From dbc36c7ff893f23ec21f783ff1321cc32b7759fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 028/109] fix: zlib_reader::read: report streams requiring a
 dictionary

---
 include/stdex/zlib.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index ad4c728..5488b62 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -30,7 +30,7 @@ namespace stdex
 	/// \cond internal
 	inline void throw_on_zlib_error(int result)
 	{
-		if (result >= 0)
+		if (result >= 0 && result != Z_NEED_DICT)
 			return;
 		switch (result) {
 		case Z_ERRNO: throw std::system_error(errno, std::system_category(), "zlib failed with errno");
@@ -39,6 +39,7 @@ namespace stdex
 		case Z_MEM_ERROR: throw std::bad_alloc();
 		case Z_BUF_ERROR: throw std::runtime_error("zlib buffer error");
 		case Z_VERSION_ERROR: throw std::runtime_error("zlib version error");
+		case Z_NEED_DICT: throw std::runtime_error("zlib dictionary required");
 		default: throw std::runtime_error("zlib unknown error");
 		}
 	}
-- 
2.43.0


From c295fecd6fca9b490a9bce820e70484118ef3079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 029/109] fix: idrec: don't wrap around padded record size

---
 include/stdex/idrec.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 6856f7d..e26aa8c 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -86,8 +86,7 @@ namespace stdex {
 			if (!stream.good()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
-			stream.ignore(size);
+			stream.ignore(static_cast<std::streamsize>(size) + padding<T_size, N_align>(size));
 			if (!stream.good()) _Unlikely_ return false;
 
 			return true;
@@ -111,8 +110,7 @@ namespace stdex {
 			if (!stream.ok()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
-			stream.skip(size);
+			stream.skip(static_cast<stdex::stream::fsize_t>(size) + padding<T_size, N_align>(size));
 			if (!stream.ok()) _Unlikely_ return false;
 
 			return true;
@@ -492,8 +490,7 @@ namespace stdex {
 				stream >> r.data; // TODO: operator >> should not read past the record data! Make a size limited stream and read from it instead.
 				if (!stream.good()) _Unlikely_ return stream;
 
-				size += padding<T_size, N_align>(size);
-				stream.seekg(start + size);
+				stream.seekg(start + static_cast<std::streamoff>(size) + padding<T_size, N_align>(size));
 
 				return stream;
 			}
@@ -523,8 +520,7 @@ namespace stdex {
 					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
 				}
 
-				size += padding<T_size, N_align>(size);
-				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size));
+				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size) + padding<T_size, N_align>(size));
 
 				return stream;
 			}
-- 
2.43.0


From aa045d49fcd3528f6d05195d39c893740817342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 030/109] fix: wav::read_cues: stop when there are no more
 chunks

---
 include/stdex/wav.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 5bc8f9d..5c8963c 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -515,11 +515,14 @@ namespace stdex
 
 			stdex::stream::fpos_t start = dat.tell();
 			while (dat.tell() < block_end) {
-				if (stdex::idrec::record<cue_vector, id_t, cue_vector_record::id(), length_t, align>::find(dat, block_end)) {
+				if (!stdex::idrec::record<cue_vector, id_t, cue_vector_record::id(), length_t, align>::find(dat, block_end))
+					break;
+				{
 					length_t size;
 					dat >> size;
 					if (!dat.ok()) _Unlikely_ return false;
-					stdex::stream::file_window _dat(dat, dat.tell(), size);
+					stdex::stream::fpos_t data_start = dat.tell();
+					stdex::stream::file_window _dat(dat, data_start, size);
 					uint32_t num_cues;
 					_dat >> num_cues;
 					if (!_dat.ok()) _Unlikely_ return false;
@@ -536,6 +539,7 @@ namespace stdex
 					cues.resize(i);
 					if (!ordered)
 						std::sort(cues.begin(), cues.end(), cue_less);
+					dat.seekbeg(data_start + size + stdex::idrec::padding<length_t, align>(size));
 				}
 			}
 
@@ -543,7 +547,9 @@ namespace stdex
 			dat.seekbeg(start);
 			while (dat.tell() < block_end) {
 				stdex::stream::fpos_t found_block_end;
-				if (find_first<list>(dat, *(const id_t*)"adtl", block_end, &found_block_end)) {
+				if (!find_first<list>(dat, *(const id_t*)"adtl", block_end, &found_block_end))
+					break;
+				{
 					while (dat.tell() < found_block_end) {
 						id_t id;
 						dat >> id;
-- 
2.43.0


From 106f5a443186c4a6c5f57b786be25def4891d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 031/109] fix: wav::remove_cues: remove cues and keep the rest

---
 include/stdex/wav.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 5c8963c..644d30f 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -12,6 +12,7 @@
 #include <stdint.h>
 #include <algorithm>
 #include <cstdlib>
+#include <iterator>
 #include <string>
 #include <vector>
 
@@ -615,22 +616,18 @@ namespace stdex
 				id_t id;
 				input >> id;
 				if (!input.ok()) break;
-				for (size_t i = 0; i < _countof(removable); i++)
-					if (id == removable[i])
-						goto remove;
-				if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
-					return false;
-				continue;
+				if (std::find(std::begin(removable), std::end(removable), id) != std::end(removable)) {
+					if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
+						return false;
+					continue;
+				}
 
-			remove:
 				length_t size;
 				input >> size;
 				if (!input.ok()) _Unlikely_ return false;
 				auto start = stdex::idrec::open<id_t, length_t>(output, id);
-				id_t id2 = id;
-				stdex::strupr(reinterpret_cast<char*>(&id2), sizeof(id_t) / sizeof(char));
-				if (id != id2 || id == *reinterpret_cast<const id_t*>("ICRD")) {
-					// ID is not all uppercase (or is an exception). Element is trivial and may be copied.
+				if (id != header::record::id() && id != list::record::id()) {
+					// Element is trivial and may be copied.
 					if (!output.ok()) _Unlikely_ return false;
 					output.write_stream(input, size);
 					if (!input.ok()) _Unlikely_ return false;
@@ -640,7 +637,7 @@ namespace stdex
 						input.seekcur(size);
 				}
 				else {
-					// ID is all uppercase. Needs recursive treatment.
+					// Element contains other elements. Needs recursive treatment.
 					id_t id3;
 					input >> id3;
 					if (!input.ok()) _Unlikely_ return false;
-- 
2.43.0


From 70bbf955112924f3d4047e8f31be34b212787e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 032/109] fix: vector_queue::push_front: wrap around with any
 capacity

---
 include/stdex/vector_queue.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 007dc29..345a7ff 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -316,11 +316,12 @@ namespace stdex
 		///
 		size_type push_front(_In_ const value_type &v)
 		{
-			m_head = abs(-1);
+			size_type pos = abs(m_size_max - 1);
+			m_data[pos] = v;
+			m_head = pos;
 			if (m_count < m_size_max)
 				m_count++;
-			m_data[m_head] = v;
-			return m_head;
+			return pos;
 		}
 
 		///
@@ -332,11 +333,12 @@ namespace stdex
 		///
 		size_type push_front(_Inout_ value_type&&v)
 		{
-			m_head = abs(-1);
+			size_type pos = abs(m_size_max - 1);
+			m_data[pos] = std::move(v);
+			m_head = pos;
 			if (m_count < m_size_max)
 				m_count++;
-			m_data[m_head] = std::move(v);
-			return m_head;
+			return pos;
 		}
 
 		///
-- 
2.43.0


From f69d49736b85d305c1d08d25db3f188c8503a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 033/109] fix: vector_queue: don't store elements with zero
 capacity

---
 include/stdex/vector_queue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 345a7ff..4ea029a 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -269,7 +269,7 @@ namespace stdex
 				m_count++;
 				return pos;
 			} else {
-				size_type pos = m_head;
+				size_type pos = abs(0);
 				m_data[pos] = v;
 				m_head = abs(1);
 				return pos;
@@ -291,7 +291,7 @@ namespace stdex
 				m_count++;
 				return pos;
 			} else {
-				size_type pos = m_head;
+				size_type pos = abs(0);
 				m_data[pos] = std::move(v);
 				m_head = abs(1);
 				return pos;
@@ -407,6 +407,7 @@ namespace stdex
 		///
 		size_type abs(_In_ size_type pos) const
 		{
+			if (!m_size_max) throw std::invalid_argument("Zero capacity");
 			return (m_head + pos) % m_size_max;
 		}
 
-- 
2.43.0


From c153e924958895c7151f4ba4ab1ea0065d0db6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 034/109] fix: vector_queue: don't leak elements on move
 assignment

---
 include/stdex/vector_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 4ea029a..f479650 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -137,6 +137,7 @@ namespace stdex
 		vector_queue<value_type>& operator=(_Inout_ vector_queue<value_type> &&other)
 		{
 			if (this != std::addressof(other)) {
+				if (m_data) delete [] m_data;
 				m_data     = std::move(other.m_data    );
 				m_head     = std::move(other.m_head    );
 				m_count    = std::move(other.m_count   );
-- 
2.43.0


From ceb7a8d8f8c978f135378fe1d574c79acf8f0b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 035/109] fix: vector_queue: survive failure to copy an element

---
 include/stdex/vector_queue.hpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index f479650..ffff3ad 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -6,6 +6,7 @@
 #pragma once
 
 #include "compat.hpp"
+#include <memory>
 #include <stdexcept>
 #include <utility>
 
@@ -67,16 +68,12 @@ namespace stdex
 		/// \param[in] other  Queue to copy from
 		///
 		vector_queue(_In_ const vector_queue<value_type> &other) :
-			m_data(new value_type[other.m_size_max]),
+			m_data(NULL),
 			m_head(other.m_head),
 			m_count(other.m_count),
 			m_size_max(other.m_size_max)
 		{
-			// Copy elements.
-			for (size_type i = 0; i < m_count; i++) {
-				size_type i_l = abs(i);
-				m_data[i_l] =  other.m_data[i_l];
-			}
+			m_data = copy_data(other);
 		}
 
 		///
@@ -113,17 +110,12 @@ namespace stdex
 		vector_queue<value_type>& operator=(_In_ const vector_queue<value_type> &other)
 		{
 			if (this != std::addressof(other)) {
+				pointer data = copy_data(other);
+				if (m_data) delete [] m_data;
+				m_data     = data;
 				m_head     = other.m_head;
 				m_count    = other.m_count;
 				m_size_max = other.m_size_max;
-
-				// Copy elements.
-				if (m_data) delete [] m_data;
-				m_data = new value_type[other.m_size_max];
-				for (size_type i = 0; i < m_count; i++) {
-					size_type i_l = abs(i);
-					m_data[i_l] =  other.m_data[i_l];
-				}
 			}
 
 			return *this;
@@ -413,6 +405,19 @@ namespace stdex
 		}
 
 	protected:
+		///
+		/// Allocates new data container and copies elements to it.
+		///
+		static pointer copy_data(_In_ const vector_queue<value_type> &other)
+		{
+			std::unique_ptr<value_type[]> data(new value_type[other.m_size_max]);
+			for (size_type i = 0; i < other.m_count; i++) {
+				size_type i_l = other.abs(i);
+				data[i_l] = other.m_data[i_l];
+			}
+			return data.release();
+		}
+
 		value_type *m_data;     ///< Underlying data container
 		size_type m_head;       ///< Index of the first element
 		size_type m_count;      ///< Number of elements
-- 
2.43.0


From 0ec775f9649a6d4a1be5a404819e22f8812bf4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 036/109] fix: islbreak: recognize line break at the very end

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index ac00a05..ab1756b 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -131,7 +131,7 @@ namespace stdex
 		stdex_assert(chr || !count);
 		if (count >= 2 && ((chr[0] == '\r' && chr[1] == '\n') || (chr[0] == '\n' && chr[1] == '\r')))
 			return 2;
-		if (count > 1 && (chr[0] == '\n' || chr[0] == '\r'))
+		if (count >= 1 && (chr[0] == '\n' || chr[0] == '\r'))
 			return 1;
 		return 0;
 	}
-- 
2.43.0


From 8479039fe1ab34ee4db96d1850a11c89855e6286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 037/109] fix: toupper: convert to upper-case

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index ab1756b..4be52fd 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -302,7 +302,7 @@ namespace stdex
 	template <class T>
 	T toupper(_In_ T chr)
 	{
-		return islower(chr) ? chr | ~0x20 : chr;
+		return islower(chr) ? chr & ~0x20 : chr;
 	}
 
 	///
-- 
2.43.0


From bb17143fb38c631c2b3ee1dd81dbf411ec30e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 038/109] fix: glyphrlen: don't count the code unit before the
 last UTF-32 glyph

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 4be52fd..dc96401 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -274,7 +274,7 @@ namespace stdex
 		stdex_assert(count && str && str[count - 1]);
 		for (size_t i = count; i--;) {
 			if (!iscombining(str[i]))
-				return count - (i == 0 ? i : i - 1);
+				return count - i;
 		}
 		return count;
 	}
-- 
2.43.0


From 6bdf4562dbb945e3fa1949a050c5668cd37f2eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 039/109] fix: strnicmp: return result of array comparison

---
 include/stdex/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index dc96401..5f8133c 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1307,7 +1307,7 @@ namespace stdex
 		_In_ const T1 (&str1)[N1],
 		_In_ const T2 (&str2)[N2])
 	{
-		strnicmp(str1, N1, str2, N2);
+		return strnicmp(str1, N1, str2, N2);
 	}
 
 	///
@@ -1325,7 +1325,7 @@ namespace stdex
 		_In_ const T2 (&str2)[N2],
 		_In_ const std::locale& locale)
 	{
-		strnicmp(str1, N1, str2, N2, locale);
+		return strnicmp(str1, N1, str2, N2, locale);
 	}
 
 	///
-- 
2.43.0


From bafa72accddd6bdf07aa00f3d68876fcab2ef062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 040/109] fix: strncoll: stop at zero terminators

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 5f8133c..93d0c35 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1369,7 +1369,7 @@ namespace stdex
 		stdex_assert(str1 || !count1);
 		stdex_assert(str2 || !count2);
 		auto& collate = std::use_facet<std::collate<T>>(locale);
-		return collate.compare(str1, str1 + count1, str2, str2 + count2);
+		return collate.compare(str1, str1 + strnlen(str1, count1), str2, str2 + strnlen(str2, count2));
 	}
 
 	///
-- 
2.43.0


From fdbdc123f5e395ffd454ff888a0cf9526c8faef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 041/109] fix: strndup: zero-terminate the duplicate

---
 include/stdex/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 93d0c35..36a9bce 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1870,8 +1870,9 @@ namespace stdex
 		_In_reads_or_z_opt_(count) const T* str,
 		_In_ size_t count)
 	{
-		T* dst = new T[count];
-		strncpy(dst, count, str, SIZE_MAX);
+		count = strnlen(str, count);
+		T* dst = new T[count + 1];
+		strncpy(dst, count + 1, str, count);
 		return dst;
 	}
 
-- 
2.43.0


From ca61e4404c25644144f4e1a5d96778d29dc88c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 042/109] fix: strncat: keep the destination zero-terminated

---
 include/stdex/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 36a9bce..a2ef10f 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1796,8 +1796,10 @@ namespace stdex
 		stdex_assert(dst || !count);
 		stdex_assert(src || !count);
 		for (size_t i = 0, j = stdex::strlen<T1>(dst); ; ++i, ++j) {
-			if (i >= count)
+			if (i >= count) {
+				dst[j] = 0;
 				return j;
+			}
 			if ((dst[j] = static_cast<T1>(src[i])) == 0)
 				return j;
 		}
-- 
2.43.0


From 849b64450c4534bb64b89594247a95d46d432e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 043/109] fix: strtoint: saturate positive numbers exceeding
 signed range

---
 include/stdex/string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index a2ef10f..6d0b12b 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2080,7 +2080,7 @@ namespace stdex
 		switch (sizeof(T_bin)) {
 		case 1:
 			value = (T_bin)strtoint<T, uint8_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80)) {
+			if (value & 0x80) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2090,7 +2090,7 @@ namespace stdex
 
 		case 2:
 			value = (T_bin)strtoint<T, uint16_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000)) {
+			if (value & 0x8000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2100,7 +2100,7 @@ namespace stdex
 
 		case 4:
 			value = (T_bin)strtoint<T, uint32_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80000000)) {
+			if (value & 0x80000000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2110,7 +2110,7 @@ namespace stdex
 
 		case 8:
 			value = (T_bin)strtoint<T, uint64_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000000000000000)) {
+			if (value & 0x8000000000000000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
-- 
2.43.0


From 94522b16152c75d3953c67219975cc1f3bf5c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 044/109] fix: strtouint: negate negative numbers

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 6d0b12b..63282c7 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2171,7 +2171,7 @@ namespace stdex
 
 		return (flags & 0x02) ?
 			(flags & 0x01) ? (T_bin)0 : (T_bin)-1 :
-			(flags & 0x01) ? ~value : value;
+			(flags & 0x01) ? -value : value;
 	}
 
 	///
-- 
2.43.0


From 3b0f3acd910b5e83f473a1b9151032969147484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 045/109] fix: vappendf: format strings of any length

---
 include/stdex/string.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 63282c7..14bbf51 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2674,8 +2674,9 @@ namespace stdex
 		T buf[1024 / sizeof(T)];
 
 		// Try with stack buffer first.
+		errno = 0;
 		int count = vsnprintf(buf, _countof(buf), format, locale, arg);
-		if (0 <= count && static_cast<size_t>(count) <= _countof(buf)) {
+		if (0 <= count && static_cast<size_t>(count) < _countof(buf)) {
 			// Copy from stack.
 			str.append(buf, static_cast<size_t>(count));
 			return static_cast<size_t>(count);
@@ -2699,12 +2700,13 @@ namespace stdex
 #else
 		size_t offset = str.size();
 		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
-			switch (errno) {
+			switch (count < 0 ? errno : EOVERFLOW) {
 			case EOVERFLOW:
 				// Allocate on heap and retry.
 				str.resize(offset + capacity);
+				errno = 0;
 				count = vsnprintf(&str[offset], capacity, format, locale, arg);
-				if (0 <= count && static_cast<size_t>(count) <= capacity) {
+				if (0 <= count && static_cast<size_t>(count) < capacity) {
 					str.resize(offset + static_cast<size_t>(count));
 					return static_cast<size_t>(count);
 				}
-- 
2.43.0


From b430e6996847c76eabd22af76db5ace1e213c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 046/109] fix: strcatftime: don't loop indefinitely on empty
 result

---
 include/stdex/string.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 14bbf51..e9ee16f 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2838,20 +2838,24 @@ namespace stdex
 	{
 		T buf[1024 / sizeof(T)];
 
+		// strftime returns 0 when buffer is too small, but also on empty result. Make result non-empty.
+		std::basic_string<T> format_sp(format);
+		format_sp += static_cast<T>(' ');
+
 		// Try with stack buffer first.
-		size_t count = strftime(buf, _countof(buf), format, time, locale);
+		size_t count = strftime(buf, _countof(buf), format_sp.c_str(), time, locale);
 		if (count) {
 			// Copy from stack.
-			str.append(buf, count);
+			str.append(buf, count - 1);
 			return;
 		}
 		size_t offset = str.size();
 		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
 			// Allocate on heap and retry.
 			str.resize(offset + capacity);
-			count = strftime(&str[offset], capacity + 1, format, time, locale);
+			count = strftime(&str[offset], capacity + 1, format_sp.c_str(), time, locale);
 			if (count) {
-				str.resize(offset + count);
+				str.resize(offset + count - 1);
 				return;
 			}
 		}
-- 
2.43.0


From 7219b0c73121b9f3bed4345480ddb239c55ace50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 047/109] fix: vappendf: retry when wide string misses space
 for terminator only

---
 include/stdex/string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index e9ee16f..8808b14 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2701,6 +2701,7 @@ namespace stdex
 		size_t offset = str.size();
 		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
 			switch (count < 0 ? errno : EOVERFLOW) {
+			case 0: // glibc leaves errno unset when exactly the zero terminator didn't fit.
 			case EOVERFLOW:
 				// Allocate on heap and retry.
 				str.resize(offset + capacity);
-- 
2.43.0


From 4f44b15b85ef0f121bd22cf152772bb3a3d8426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 048/109] fix: str2sgmlcat: check space left for numeric
 entities

---
 include/stdex/sgml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 0618c26..3da5c1a 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -744,7 +744,7 @@ namespace stdex
 						char tmp[3 + 8 + 1 + 1];
 						int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(src[i++]));
 						stdex_assert(m >= 0);
-						if (static_cast<size_t>(m) >= count_dst)
+						if (j + static_cast<size_t>(m) >= count_dst)
 							throw buffer_overrun;
 						memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 						j += static_cast<size_t>(m);
@@ -772,7 +772,7 @@ namespace stdex
 							char tmp[3 + 8 + 1 + 1];
 							int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(wstr_to_utf32(src, i, end)));
 							stdex_assert(m >= 0);
-							if (static_cast<size_t>(m) >= count_dst)
+							if (j + static_cast<size_t>(m) >= count_dst)
 								throw buffer_overrun;
 							memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 							j += static_cast<size_t>(m);
-- 
2.43.0


From 62bacadff715b2aa59dbccf246bef1028dfcebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:36 +0000
Subject: [PATCH 049/109] fix: sgml2uni: don't decode malformed numeric
 entities

---
 include/stdex/sgml.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 3da5c1a..368acef 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -49,9 +49,26 @@ namespace stdex
 			return nullptr;
 		}
 
-		buf[0] = entity[1] == 'x' || entity[1] == 'X' ?
-			static_cast<utf32_t>(strtou32(&entity[2], count - 2, nullptr, 16)) :
-			static_cast<utf32_t>(strtou32(&entity[1], count - 1, nullptr, 10));
+		const bool is_hex = entity[1] == 'x' || entity[1] == 'X';
+		const uint32_t radix = is_hex ? 16 : 10;
+		uint32_t chr = 0;
+		for (size_t i = is_hex ? 2 : 1; i < count; ++i) {
+			uint32_t digit;
+			if ('0' <= entity[i] && entity[i] <= '9')
+				digit = static_cast<uint32_t>(entity[i] - '0');
+			else if (is_hex && 'A' <= entity[i] && entity[i] <= 'F')
+				digit = static_cast<uint32_t>(entity[i] - 'A' + 10);
+			else if (is_hex && 'a' <= entity[i] && entity[i] <= 'f')
+				digit = static_cast<uint32_t>(entity[i] - 'a' + 10);
+			else
+				return nullptr; // Not a numeric character reference.
+			chr = chr * radix + digit;
+			if (chr > 0x10ffff)
+				return nullptr; // Not a Unicode character.
+		}
+		if (!chr)
+			return nullptr;
+		buf[0] = static_cast<utf32_t>(chr);
 		buf[1] = 0;
 		return buf;
 	}
-- 
2.43.0


From 5e0d52130c34d4b43af35be51790ced0ad692395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:02 +0000
Subject: [PATCH 050/109] fix: sgml: don't encode characters as entities of
 other characters

---
 include/stdex/sgml_unicode.hpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/include/stdex/sgml_unicode.hpp b/include/stdex/sgml_unicode.hpp
index 03d214c..1771fc9 100644
--- a/include/stdex/sgml_unicode.hpp
+++ b/include/stdex/sgml_unicode.hpp
@@ -1967,7 +1967,6 @@ namespace stdex
 		0x3f3,
 		0x3dc,
 		0x3c4,
-		0x3ce,
 		0x3f8,
 		0x3c7,
 		0x3c5,
@@ -1997,7 +1996,6 @@ namespace stdex
 		0x488,
 		0x47b,
 		0x463,
-		0x46e,
 		0x48b,
 		0x466,
 		0x464,
@@ -2037,7 +2035,6 @@ namespace stdex
 		0x53a,
 		0x525,
 		0x4fe,
-		0x512,
 		0x541,
 		0x503,
 		0x4ff,
@@ -2047,7 +2044,6 @@ namespace stdex
 		0x570,
 		0x568,
 		0x54f,
-		0x557,
 		0x571,
 		0x552,
 		0x550,
@@ -2083,7 +2079,6 @@ namespace stdex
 		0x5bb,
 		0x5d0,
 		0x5c7,
-		0x5cc,
 		0x5d7,
 		0x5d5,
 		0x5c8,
@@ -2344,7 +2339,6 @@ namespace stdex
 		0x508,
 		0x50b,
 		0x509,
-		0x1fc,
 		0x290,
 		0x27f,
 		0x271,
@@ -3089,7 +3083,6 @@ namespace stdex
 		0x2a5,
 		0x3fd,
 		0x3e5,
-		0x3e4,
 		0x517,
 		0x318,
 		0x31b,
-- 
2.43.0


From 69c1589d7d09bfb66ca3c5918ce4cdb6d594ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:46 +0000
Subject: [PATCH 051/109] fix: html::url_unescape: don't read beyond the limit

---
 include/stdex/html.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 5657416..8d6aa54 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -250,10 +250,12 @@ namespace stdex
 					i++;
 
 					char chr;
+					if (i >= num_chars) { dst += '%'; continue; }
 					if ('0' <= src[i] && src[i] <= '9') chr = static_cast<char>((src[i++] - '0') << 4);
 					else if ('A' <= src[i] && src[i] <= 'F') chr = static_cast<char>((src[i++] - 'A' + 10) << 4);
 					else if ('a' <= src[i] && src[i] <= 'f') chr = static_cast<char>((src[i++] - 'a' + 10) << 4);
 					else { dst += '%'; continue; }
+					if (i >= num_chars) { dst += '%'; dst += src[i - 1]; continue; }
 					if ('0' <= src[i] && src[i] <= '9') chr |= static_cast<char>((src[i++] - '0'));
 					else if ('A' <= src[i] && src[i] <= 'F') chr |= static_cast<char>((src[i++] - 'A' + 10));
 					else if ('a' <= src[i] && src[i] <= 'f') chr |= static_cast<char>((src[i++] - 'a' + 10));
-- 
2.43.0


From e7e91d4afd50b786e37f76c8802753b44291b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:46 +0000
Subject: [PATCH 052/109] fix: html::css_unescape: stop at lone backslash at
 the end

---
 include/stdex/html.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 8d6aa54..aa61b4e 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -395,7 +395,7 @@ namespace stdex
 			for (size_t i = 0; i < num_chars && src[i];) {
 				if (src[i] != '\\')
 					dst += src[i++];
-				else if (i + 1 < num_chars) {
+				else if (i + 1 < num_chars && src[i + 1]) {
 					i++;
 
 					switch (src[i]) {
@@ -446,6 +446,8 @@ namespace stdex
 					default: dst += src[i++];
 					}
 				}
+				else
+					dst += src[i++]; // `\` at the end of the string
 			}
 		}
 
-- 
2.43.0


From 8900d3d4d8e2df6ebdfc50b64f6a7f9953a1278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 053/109] fix: parser::basic_monetary_numeral: don't require
 sign parsers

---
 include/stdex/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 03e6f13..cb4b57f 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2263,17 +2263,17 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
 
-				if (positive_sign->match(text, this->interval.end, end, flags)) {
+				if (positive_sign && positive_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = positive_sign->interval.end;
 					if (negative_sign) negative_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (negative_sign->match(text, this->interval.end, end, flags)) {
+				else if (negative_sign && negative_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = negative_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (special_sign->match(text, this->interval.end, end, flags)) {
+				else if (special_sign && special_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = special_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (negative_sign) negative_sign->invalidate();
-- 
2.43.0


From 72d6da8d1d354ccf272d5916465fe7558c8cbb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 054/109] fix: parser::basic_ipv4_address: convert value to
 network byte order

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index cb4b57f..37a3160 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2442,7 +2442,7 @@ namespace stdex
 				if (i < 4)
 					goto error;
 
-				HE2BE(reinterpret_cast<uint32_t&>(value.s_addr));
+				value.s_addr = HE2BE(static_cast<uint32_t>(value.s_addr));
 				this->interval.start = start;
 				return true;
 
-- 
2.43.0


From 932e177f2163f26c1c13410d149e89b2b29579f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 055/109] fix: parser::basic_ipv6_address: convert value to
 network byte order

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 37a3160..6f18bda 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2706,7 +2706,7 @@ namespace stdex
 						goto error;
 					}
 					components[i].end = this->interval.end;
-					HE2BE(reinterpret_cast<uint16_t&>(this->value.s6_words[i]));
+					this->value.s6_words[i] = HE2BE(static_cast<uint16_t>(this->value.s6_words[i]));
 				}
 
 				if (compaction_i != SIZE_MAX) {
-- 
2.43.0


From 58786ec08b0237ea377c5d6fc8bba6036e211c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 056/109] fix: parser::basic_string: don't read text starting
 beyond the end

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 6f18bda..d116522 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -832,7 +832,7 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				size_t
 					m = m_str.size(),
-					n = std::min<size_t>(end - start, m);
+					n = start < end ? std::min<size_t>(end - start, m) : 0;
 				bool r = ((flags & match_case_insensitive) ?
 					stdex::strnicmp(text + start, n, m_str.data(), m, this->m_locale) :
 					stdex::strncmp(text + start, n, m_str.data(), m)) == 0;
-- 
2.43.0


From 055522c50cc7ece1bca099449dc5576e1c474ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 057/109] fix: parser::basic_parser::next_sgml_cp: don't return
 pointer to a local buffer

---
 include/stdex/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index d116522..e45836a 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -146,6 +146,12 @@ namespace stdex
 							auto entity_w = utf32_to_wstr(sgml2uni(text + start + 1, n, buf32), buf);
 							if (entity_w) {
 								chr_end++;
+								if (static_cast<const void*>(entity_w) == buf32) {
+									// buf32 is about to go out of scope.
+									buf[0] = static_cast<T_out>(buf32[0]);
+									buf[1] = 0;
+									return buf;
+								}
 								return entity_w;
 							}
 							// Unknown entity.
-- 
2.43.0


From 966410337058d713f8e6864480c75681da6f1465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 058/109] fix: parser::basic_ipv6_address: store component
 values

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index e45836a..d49dabc 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2712,7 +2712,7 @@ namespace stdex
 						goto error;
 					}
 					components[i].end = this->interval.end;
-					this->value.s6_words[i] = HE2BE(static_cast<uint16_t>(this->value.s6_words[i]));
+					this->value.s6_words[i] = HE2BE(static_cast<uint16_t>(x));
 				}
 
 				if (compaction_i != SIZE_MAX) {
-- 
2.43.0


From 780e880093f27b57bb60da59fb1e10b2cc54ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 059/109] fix: parser::basic_ipv6_address: don't include
 trailing separator

---
 include/stdex/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index d49dabc..df861d3 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2647,6 +2647,7 @@ namespace stdex
 				size_t i, compaction_i = SIZE_MAX, compaction_start = start;
 				for (i = 0; i < 8; i++) {
 					bool is_empty = true;
+					const size_t component_end = this->interval.end;
 
 					if (m_separator->match(text, this->interval.end, end, flags)) {
 						// : found
@@ -2661,6 +2662,7 @@ namespace stdex
 							}
 							else {
 								// More than one zero compaction
+								this->interval.end = component_end;
 								break;
 							}
 						}
@@ -2707,6 +2709,10 @@ namespace stdex
 					if (is_empty) {
 						if (compaction_i != SIZE_MAX) {
 							// Zero compaction active: no sweat.
+							if (compaction_i != i) {
+								// The separator is not followed by a component.
+								this->interval.end = component_end;
+							}
 							break;
 						}
 						goto error;
-- 
2.43.0


From fbb42164e44ae53cf62b399ae942513714e6d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 060/109] fix: parser::basic_creditor_reference: make room for
 references of 21 letters

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index df861d3..9f14b27 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5013,7 +5013,7 @@ namespace stdex
 					this->reference[--j] = '0';
 
 				// Normalize creditor reference.
-				T normalized[47];
+				T normalized[49];
 				available = 0;
 				for (size_t i = 0; ; ++i) {
 					if (!this->reference[i]) {
-- 
2.43.0


From 9430a17f5593d591a6a02a61f089cb176b6100d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 061/109] fix: parser::basic_phone_number: don't require
 parenthesis parsers

---
 include/stdex/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 9f14b27..9a139e7 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4535,8 +4535,8 @@ namespace stdex
 
 				this->interval.end = start;
 				value.clear();
-				m_lparenthesis->invalidate();
-				m_rparenthesis->invalidate();
+				if (m_lparenthesis) m_lparenthesis->invalidate();
+				if (m_rparenthesis) m_rparenthesis->invalidate();
 
 				if (m_plus_sign && m_plus_sign->match(text, this->interval.end, end, flags)) {
 					value.append(text + m_plus_sign->interval.start, text + m_plus_sign->interval.end);
-- 
2.43.0


From d713962ea4b465a72904b9e05b58216aa9eeace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 062/109] fix: parser::basic_url: match ftp:// username without
 password

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 9a139e7..92e63a0 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3558,7 +3558,7 @@ namespace stdex
 							// Username and password
 							this->interval.end = m_at->interval.end;
 						}
-						else if (m_at->match(text, this->interval.end, end, flags)) {
+						else if (m_at->match(text, username->interval.end, end, flags)) {
 							// Username only
 							this->interval.end = m_at->interval.end;
 							password->invalidate();
-- 
2.43.0


From a6a8debf3a8ac4262700b2f26f816a07e7746ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 063/109] fix: parser::basic_emoticon: report the mouth that
 was found

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 92e63a0..abeb68d 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3948,6 +3948,7 @@ namespace stdex
 						for (this->interval.end = mouth->interval.end; mouth->match(text, this->interval.end, end, flags) && mouth->hit_offset == hit_offset; this->interval.end = mouth->interval.end);
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
+						mouth->hit_offset = hit_offset;
 						this->interval.start = start;
 						return true;
 					}
@@ -3960,6 +3961,7 @@ namespace stdex
 						if (nose) nose->invalidate();
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
+						mouth->hit_offset = hit_offset;
 						this->interval.start = start;
 						return true;
 					}
-- 
2.43.0


From 03d520b09c6725fc812e1e312111302fbd074d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 064/109] fix: parser::basic_si_reference: check control digit
 of the third part

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index abeb68d..57c2a9d 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5480,7 +5480,7 @@ namespace stdex
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
 				if (control == 10)
 					control = 0;
-				return control == part2[num_part3 - 1] - '0';
+				return control == part3[num_part3 - 1] - '0';
 			}
 
 			std::shared_ptr<basic_parser<T>> m_space;
-- 
2.43.0


From 2b65bae3554ce341074ed0588e2a38ebbc00f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:14 +0000
Subject: [PATCH 065/109] fix: parser::basic_si_reference: control digit of
 remainder 0 is 0 in all models

---
 include/stdex/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 57c2a9d..ae890a7 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5457,7 +5457,7 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
 				return control == part2[num_part2 - 1] - '0';
 			}
@@ -5478,7 +5478,7 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
 				return control == part3[num_part3 - 1] - '0';
 			}
-- 
2.43.0


From 15a1e680ec0d93fe9656c411b96cb01fc975cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 066/109] fix: parser::http_text_char: accept non-ASCII
 characters where char is signed

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index ae890a7..9ed3d97 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5670,7 +5670,7 @@ namespace stdex
 					this->interval.end = m_space.interval.end;
 					return true;
 				}
-				else if (this->interval.end < end && text[this->interval.end] && text[this->interval.end] >= 0x20) {
+				else if (this->interval.end < end && text[this->interval.end] && static_cast<unsigned char>(text[this->interval.end]) >= 0x20) {
 					this->interval.start = start;
 					this->interval.end++;
 					return true;
-- 
2.43.0


From af351757137404fb447c221494daa5013fa2050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 067/109] fix: parser::http_parameter: require '=' and skip the
 spaces after it

---
 include/stdex/parser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 9ed3d97..0f41e53 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5878,8 +5878,9 @@ namespace stdex
 				if (this->interval.end < end && text[this->interval.end] == '=')
 					this->interval.end++;
 				else
-					while (m_space.match(text, this->interval.end, end, flags))
-						this->interval.end = m_space.interval.end;
+					goto error;
+				while (m_space.match(text, this->interval.end, end, flags))
+					this->interval.end = m_space.interval.end;
 				if (value.match(text, this->interval.end, end, flags))
 					this->interval.end = value.interval.end;
 				else
-- 
2.43.0


From 58492ef285b487ee95147b98ca3e8e7be94b9b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 068/109] fix: parser::http_url_path: don't match past the end
 of text

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 0f41e53..67196c1 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6188,7 +6188,7 @@ namespace stdex
 				this->interval.end = start;
 				segments.clear();
 				stdex_assert(text || this->interval.end >= end);
-				if (this->interval.end < end && text[this->interval.end] != '/')
+				if (this->interval.end >= end || text[this->interval.end] != '/')
 					goto error;
 				this->interval.end++;
 				s.match(text, this->interval.end, end, flags);
-- 
2.43.0


From 037822d73c4c952dcb80a95c13ae12634d03f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 069/109] fix: parser::http_url_parameter: don't read past the
 end of text

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 67196c1..5ca9a62 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6263,7 +6263,7 @@ namespace stdex
 					name.end = this->interval.end;
 				else
 					goto error;
-				if (text[this->interval.end] == '=') {
+				if (this->interval.end < end && text[this->interval.end] == '=') {
 					this->interval.end++;
 					value.start = this->interval.end;
 					for (;;) {
-- 
2.43.0


From 9dfb21790ab927dd48771d83a8a0718e5b46f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 070/109] fix: parser::http_weighted_value: forget the factor
 of the previous match

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 5ca9a62..315f3cb 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6579,6 +6579,7 @@ namespace stdex
 			{
 				stdex_assert(text || start >= end);
 				size_t konec_vrednosti;
+				factor.invalidate();
 				this->interval.end = start;
 				if (asterisk.match(text, this->interval.end, end, flags)) {
 					this->interval.end = konec_vrednosti = asterisk.interval.end;
-- 
2.43.0


From 1a71032d1e82814748296eab594bd2afa510c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 071/109] fix: parser::http_agent: forget the version of the
 previous match

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 315f3cb..c485b79 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6781,6 +6781,8 @@ namespace stdex
 			{
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
+				version.start = 1;
+				version.end = 0;
 				type.start = this->interval.end;
 				for (;;) {
 					if (this->interval.end < end && text[this->interval.end]) {
-- 
2.43.0


From d5532e688876821acb0a2fb130d45c62ab8ea2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 072/109] fix: parser::http_value_collection: skip empty
 elements of the list

---
 include/stdex/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index c485b79..b44ea24 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7182,9 +7182,9 @@ namespace stdex
 			{
 				while (start < end) {
 					while (start < end && text[start] && stdex::isspace(text[start])) start++;
-					if (start < end && text[start] == ',') {
+					while (start < end && text[start] == ',') {
 						start++;
-						while (start < end&& text[start] && stdex::isspace(text[start])) start++;
+						while (start < end && text[start] && stdex::isspace(text[start])) start++;
 					}
 					KEY el;
 					if (el.match(text, start, end, flags)) {
-- 
2.43.0


From 6586b30ffc3a1f40fd843447de026cf3dd9ef634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:14 +0000
Subject: [PATCH 073/109] fix: parser::basic_html_tag: don't loop forever on
 "/>" in end tags and declarations

---
 include/stdex/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index b44ea24..6b9e2f2 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -8223,7 +8223,9 @@ namespace stdex
 
 						// Attributes follow...
 						html_attribute* a = nullptr;
-						if (this->m_ident.match(text, this->interval.end, end, flags)) {
+						if (this->m_ident.match(text, this->interval.end, end, flags) &&
+							(!this->m_ident.interval.empty() || text[this->interval.end] == '='))
+						{
 							this->attributes.push_back(std::move(html_attribute{ this->m_ident.interval }));
 							a = &this->attributes.back();
 							stdex_assert(a);
-- 
2.43.0


From 1e1d36ce545f92fe19878013b986217b7f3bda6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:14 +0000
Subject: [PATCH 074/109] fix: parser::basic_css_string, basic_css_uri,
 basic_css_import: an escaped backslash doesn't escape the quote

---
 include/stdex/parser.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 6b9e2f2..77ea45b 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7541,9 +7541,9 @@ namespace stdex
 						}
 						if (this->interval.end + 1 < end &&
 							text[this->interval.end] == '\\' &&
-							(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+							(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\'' || text[this->interval.end + 1] == '\\'))
 						{
-							// Escaped quote
+							// Escaped quote or backslash
 							this->interval.end = this->interval.end + 2;
 						}
 						else
@@ -7620,9 +7620,9 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\'' || text[this->interval.end + 1] == '\\'))
 							{
-								// Escaped quote
+								// Escaped quote or backslash
 								this->interval.end = this->interval.end + 2;
 							}
 							else
@@ -7734,9 +7734,9 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\'' || text[this->interval.end + 1] == '\\'))
 							{
-								// Escaped quote
+								// Escaped quote or backslash
 								this->interval.end = this->interval.end + 2;
 							}
 							else
-- 
2.43.0


From 8fa5205ae23fecf7846694b755003a3ab287ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 075/109] fix: parser::http_weight: don't overflow on many
 digits

---
 include/stdex/parser.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 77ea45b..6078c67 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6487,7 +6487,7 @@ namespace stdex
 				for (;;) {
 					if (this->interval.end < end && text[this->interval.end]) {
 						if ('0' <= text[this->interval.end] && text[this->interval.end] <= '9') {
-							celi_del = celi_del * 10 + static_cast<size_t>(text[this->interval.end] - '0');
+							celi_del = celi_del <= (SIZE_MAX - 9) / 10 ? celi_del * 10 + static_cast<size_t>(text[this->interval.end] - '0') : SIZE_MAX;
 							this->interval.end++;
 						}
 						else if (text[this->interval.end] == '.') {
@@ -6495,8 +6495,10 @@ namespace stdex
 							for (;;) {
 								if (this->interval.end < end && text[this->interval.end]) {
 									if ('0' <= text[this->interval.end] && text[this->interval.end] <= '9') {
-										decimalni_del = decimalni_del * 10 + static_cast<size_t>(text[this->interval.end] - '0');
-										decimalni_del_n *= 10;
+										if (decimalni_del_n <= SIZE_MAX / 10) {
+											decimalni_del = decimalni_del * 10 + static_cast<size_t>(text[this->interval.end] - '0');
+											decimalni_del_n *= 10;
+										}
 										this->interval.end++;
 									}
 									else
-- 
2.43.0


From ed8310dc1c078468f4bcb6ccd39f496368a0e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 076/109] fix: html document: keep text before a conditional
 section

---
 include/stdex/html.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index aa61b4e..e1df876 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1710,6 +1710,8 @@ namespace stdex
 						else
 							m_num_valid_conditions++;
 
+						if (m_num_parsed < i)
+							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
 						i = m_num_parsed = m_condition_start.interval.end;
 						continue;
 					}
-- 
2.43.0


From 16df123e06b4f40b56d5d43f9f6d80d5ae374b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 077/109] fix: html document: don't count CDATA and RCDATA as
 open conditions

---
 include/stdex/html.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index e1df876..f7118a5 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1703,8 +1703,6 @@ namespace stdex
 							m_is_cdata = true;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "RCDATA", SIZE_MAX) == 0)
 							m_is_rcdata = true;
-						if (m_num_invalid_conditions)
-							m_num_invalid_conditions++;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "IGNORE", SIZE_MAX) == 0)
 							m_num_invalid_conditions++;
 						else
-- 
2.43.0


From a5bfcde669d2f32b90be846e80c985661f7926ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 078/109] fix: html document: keep start and end of CDATA and
 RCDATA sections

---
 include/stdex/html.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index f7118a5..b339887 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1670,7 +1670,7 @@ namespace stdex
 						if (m_condition_end.match(source, i, num_chars)) {
 							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(
 								m_is_cdata ? stdex::parser::html_sequence_t::CDATA : stdex::parser::html_sequence_t::PCDATA,
-								m_num_parsed, i,
+								m_num_parsed, m_condition_end.interval.end,
 								active_element()))));
 							m_is_cdata = m_is_rcdata = false;
 							i = m_num_parsed = m_condition_end.interval.end;
@@ -1710,7 +1710,13 @@ namespace stdex
 
 						if (m_num_parsed < i)
 							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
-						i = m_num_parsed = m_condition_start.interval.end;
+						if (m_is_cdata || m_is_rcdata) {
+							// The section is a part of the document together with its start and end.
+							m_num_parsed = i;
+							i = m_condition_start.interval.end;
+						}
+						else
+							i = m_num_parsed = m_condition_start.interval.end;
 						continue;
 					}
 
-- 
2.43.0


From 377fda9a7fdd62910cf194fb906055d55109f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 079/109] fix: html document: ignore nested conditional
 sections of ignored ones

---
 include/stdex/html.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index b339887..5c27495 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1685,6 +1685,11 @@ namespace stdex
 							i = m_num_parsed = m_condition_end.interval.end;
 							continue;
 						}
+						if (m_condition_start.match(source, i, num_chars)) {
+							m_num_invalid_conditions++;
+							i = m_num_parsed = m_condition_start.interval.end;
+							continue;
+						}
 						goto next_char;
 					}
 
-- 
2.43.0


From c13fb5256bad3bd6e058aa898cdc21b019c3074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 080/109] fix: html document: parse elements that were not
 ended

---
 include/stdex/html.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 5c27495..0a4b897 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2551,24 +2551,27 @@ namespace stdex
 								s_el_start->code == element_t::style)
 							{
 								// Non-localizable
-								auto s_end = s_el_start->end;
-								stdex_assert(s_end);
+								// When not ended, the content extends to the end of the parent.
+								auto limit = m_offset;
+								while (limit != end && limit->get() != s_el_start->end)
+									++limit;
+								const size_t content_end = limit != m_document.m_sequences.end() ? (*limit)->interval.start : m_document.source().size();
 
-								if (s->interval.end < s_end->interval.start) {
+								if (s->interval.end < content_end) {
 									if (s_el_start->code != element_t::style) {
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
 										rel.to += append_token(std::move(std::unique_ptr<text_token<T, TR, AX>>(
 											new text_token<T, TR, AX>(
 												token_t::complete,
-												m_source + s->interval.end, s_end->interval.start - s->interval.end,
+												m_source + s->interval.end, content_end - s->interval.end,
 												0,
-												m_offset->get()))),
+												m_offset != limit ? m_offset->get() : nullptr))),
 											token->text);
 									}
 									else {
 										// Partially parse CSS. It may contain URLs we need to make absolute.
-										auto t = parse_css(s->interval.end, s_end->interval.start);
+										auto t = parse_css(s->interval.end, content_end, m_offset != limit ? m_offset->get() : nullptr);
 										stdex_assert(t);
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
@@ -2576,8 +2579,7 @@ namespace stdex
 									}
 									token->text_type |= has_tokens;
 								}
-								while (m_offset != end && m_offset->get() != s_end)
-									++m_offset;
+								m_offset = limit;
 							}
 							else if (element_traits::is_group(s_el_start->code)) {
 								auto limit = m_offset;
@@ -2628,7 +2630,7 @@ namespace stdex
 			///
 			/// Parses CSS
 			///
-			text_token<T, TR, AX>* parse_css(size_t start, size_t end)
+			text_token<T, TR, AX>* parse_css(size_t start, size_t end, _In_opt_ stdex::html::sequence* sequence)
 			{
 				stdex::interval<size_t> section, content;
 				std::unique_ptr<text_token<T, TR, AX>> token(
@@ -2636,7 +2638,7 @@ namespace stdex
 						token_t::complete,
 						nullptr, 0,
 						0,
-						m_offset->get()));
+						sequence));
 
 				for (;;) {
 					if (m_css_comment.match(m_source, start, end)) {
@@ -2659,7 +2661,7 @@ namespace stdex
 							new url_token<T, TR, AX>(
 								nullptr, 0,
 								token_url_t::css,
-								m_offset->get()));
+								sequence));
 						css_unescape(t_url->url, m_source + content.start, content.size());
 						token->text.append(m_source + start, content.start - start);
 						append_token(std::move(t_url), token->text);
-- 
2.43.0


From 86a6847a74d06cb021a23f0bfe149853fcbefee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 081/109] fix: html document: don't mistake decoded characters
 for token tags

---
 include/stdex/html.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 0a4b897..30a453f 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2453,6 +2453,16 @@ namespace stdex
 			///
 			/// \returns Token representing sequences parsed
 			///
+			///
+			/// Replaces token_tag_start and token_tag_end characters that entities decoded to, as they would be mistaken for token tags
+			///
+			static void replace_token_tags(_Inout_ std::basic_string<T, TR, AX>& text, _In_ size_t from = 0)
+			{
+				for (size_t i = from; i < text.size(); ++i)
+					if (text[i] == static_cast<T>(token_tag_start) || text[i] == static_cast<T>(token_tag_end))
+						text[i] = sizeof(T) > 1 ? static_cast<T>(0xfffd) : static_cast<T>('?');
+			}
+
 			text_token<T, TR, AX>* parse(_In_ const sequence_store::const_iterator& end, _In_ uint32_t text_type = 0)
 			{
 				stdex::mapping<size_t> rel;
@@ -2480,6 +2490,7 @@ namespace stdex
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
 						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, rel, &token->mapping);
+						replace_token_tags(token->text, rel.to);
 						rel.to = token->text.size();
 						if (!(token->text_type & has_text) &&
 							!stdex::isblank(m_source + s->interval.start, s->interval.size()))
@@ -2526,6 +2537,7 @@ namespace stdex
 									stdex::mapping<size_t> rel_value(a.value.start, 0);
 									t_value->mapping.push_back(rel_value);
 									stdex::sgml2strcat(t_value->text, m_source + a.value.start, a.value.size(), 0, rel_value, &t_value->mapping);
+									replace_token_tags(t_value->text);
 									append_token(std::move(t_value), t->text);
 									t->text_type |= has_tokens;
 									offset = a.value.end;
-- 
2.43.0


From ee364ef1708e0c46d7edafed4ae4c6c25530c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 082/109] fix: html document: don't take international
 characters for ASCII letters in element names

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 30a453f..e34a623 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1481,7 +1481,7 @@ namespace stdex
 							break;
 						}
 
-						auto chr = static_cast<char>(stdex::tolower(name[i2++]));
+						auto chr = stdex::tolower(name[i2++]);
 						if (mapping[m].name[i1] > chr) {
 							r = 1;
 							break;
-- 
2.43.0


From 20ef665959ceed6ed9c9008e1cd91738d435eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 083/109] fix: html document: merge tokens that are not there
 yet

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index e34a623..6204728 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2379,7 +2379,7 @@ namespace stdex
 			{
 				for (auto i2 = b.begin(); i2 != b.end(); ++i2) {
 					auto t2 = *i2;
-					for (auto i1 = a.begin(); i1 != a.end(); ++i1) {
+					for (auto i1 = a.begin(); ; ++i1) {
 						if (i1 == a.end()) {
 							a.push_back(t2);
 							break;
-- 
2.43.0


From 9353b5b0f1bf621ab2fb1543bb4b9b310e80ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 084/109] fix: parser::basic_html_declaration_condition_start:
 stop at the end of the tag

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 6078c67..62d7b62 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -8329,6 +8329,8 @@ namespace stdex
 							this->interval.end++;
 							return true;
 						}
+						if (text[this->interval.end] == '>')
+							break; // <![if ...]> is a declaration
 						if (ctype.is(ctype.space, text[this->interval.end]))
 							this->interval.end++;
 						else
-- 
2.43.0


From c4511afe47a912c5bae55d643bb640bb40722b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 085/109] fix: html document: escape quotes in rebuilt
 attribute values

---
 include/stdex/html.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 6204728..2da351a 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2088,6 +2088,7 @@ namespace stdex
 			has_text = 1 << 1,   ///< Token text contains text
 			is_title = 1 << 2,   ///< Token text contains title text
 			is_bullet = 1 << 3,  ///< Token text contains bullet text
+			is_attribute = 1 << 4, ///< Token text contains element attribute value
 		};
 
 		///
@@ -2267,7 +2268,10 @@ namespace stdex
 							}
 						}
 						else if (t->text_type & has_text) {
-							escape_min(source, root[i]);
+							if (t->text_type & is_attribute)
+								escape(source, &root[i], 1);
+							else
+								escape_min(source, root[i]);
 							i++;
 						}
 						else
@@ -2276,7 +2280,10 @@ namespace stdex
 				}
 				else if (t->text_type & has_text) {
 					// Token contains no references to other tokens. But, it does contain text that requires escaping.
-					escape_min(source, t->text.data(), t->text.size());
+					if (t->text_type & is_attribute)
+						escape(source, t->text.data(), t->text.size());
+					else
+						escape_min(source, t->text.data(), t->text.size());
 				}
 				else
 					source += t->text;
@@ -2532,7 +2539,7 @@ namespace stdex
 									std::unique_ptr<text_token<T, TR, AX>> t_value(new text_token<T, TR, AX>(
 										token_t::complete,
 										nullptr, 0,
-										has_text | is_title,
+										has_text | is_title | is_attribute,
 										s.get()));
 									stdex::mapping<size_t> rel_value(a.value.start, 0);
 									t_value->mapping.push_back(rel_value);
-- 
2.43.0


From aa9d3b1945f94191733e57ed8f169eec2794f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 086/109] fix: html document: entity values don't include
 quotes

---
 include/stdex/html.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 2da351a..a885f4a 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1847,7 +1847,13 @@ namespace stdex
 								{
 									std::unique_ptr<entity<T, TR, AX>> e(new entity<T, TR, AX>());
 									e->name = m_tag.attributes[2].name;
-									e->value = std::move(replace_entities(source + m_tag.attributes[3].name.start, m_tag.attributes[3].name.size()));
+									auto value = m_tag.attributes[3].name;
+									if (value.size() >= 2 && (source[value.start] == '"' || source[value.start] == '\'') && source[value.end - 1] == source[value.start]) {
+										// Value is without quotes.
+										value.start++;
+										value.end--;
+									}
+									e->value = std::move(replace_entities(source + value.start, value.size()));
 									m_entities.push_back(std::move(e));
 								}
 
-- 
2.43.0


From a58fa178c88e96c3b300e394a86f07c268905069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 087/109] fix: html document: don't end unknown elements with
 tags of other names

---
 include/stdex/html.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index a885f4a..f8a84af 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1823,8 +1823,8 @@ namespace stdex
 							for (size_t j = m_element_stack.size(); j--; ) {
 								auto starting_tag = m_element_stack[j];
 								stdex_assert(starting_tag && starting_tag->type == stdex::parser::html_sequence_t::element_start);
-								if (starting_tag->code == e->code ||
-									(starting_tag->code == element_t::unknown && e->code == element_t::unknown && stdex::strnicmp(source + starting_tag->name.start, starting_tag->name.size(), source + e->name.start, e->name.size()) == 0))
+								if (starting_tag->code == e->code &&
+									(e->code != element_t::unknown || stdex::strnicmp(source + starting_tag->name.start, starting_tag->name.size(), source + e->name.start, e->name.size()) == 0))
 								{
 									e->start = starting_tag;
 									e->parent = starting_tag->parent;
-- 
2.43.0


From d39c400c07d4a82fc18d0550a1a02029e4d485db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 088/109] fix: html document: map text that follows other text
 to where it is

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index f8a84af..ce7b628 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2502,7 +2502,7 @@ namespace stdex
 					if (s->type == stdex::parser::html_sequence_t::text) {
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
-						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, rel, &token->mapping);
+						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, stdex::mapping<size_t>(rel.from, 0), &token->mapping);
 						replace_token_tags(token->text, rel.to);
 						rel.to = token->text.size();
 						if (!(token->text_type & has_text) &&
-- 
2.43.0


From 1ad8f7a376c95ee45a8fdc2175e0a390bc8ed7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:00 +0000
Subject: [PATCH 089/109] fix: buffer: deliver what is buffered on close

---
 include/stdex/stream.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index d0569c6..58d4e7e 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1518,6 +1518,17 @@ namespace stdex
 				}
 			}
 
+			virtual void close()
+			{
+				flush_write();
+				bool flushed = ok();
+				converter::close();
+				if (!flushed) _Unlikely_
+					m_state = state_t::fail;
+				m_read_buffer.head = m_read_buffer.tail = 0;
+				m_write_buffer.head = m_write_buffer.tail = 0;
+			}
+
 			virtual void flush()
 			{
 				flush_write();
-- 
2.43.0


From 2de3c9bbc33244c75b51483d12aeba57f06a46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 090/109] fix: charset_encoder: write the end of UTF-7 text,
 and start each text afresh

---
 include/stdex/unicode.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/stdex/unicode.hpp b/include/stdex/unicode.hpp
index 404e2d3..952f49e 100644
--- a/include/stdex/unicode.hpp
+++ b/include/stdex/unicode.hpp
@@ -302,14 +302,21 @@ namespace stdex
 			dst.reserve(dst.size() + count_src);
 			T_to buf[1024 / sizeof(T_to)];
 			size_t src_size = stdex::mul(sizeof(T_from), count_src);
-			for (;;) {
+			for (bool finish = false;;) {
 				T_to* output = &buf[0];
 				size_t output_size = sizeof(buf);
 				errno = 0;
-				iconv(m_handle, const_cast<char**>(reinterpret_cast<const char**>(&src)), &src_size, reinterpret_cast<char**>(&output), &output_size);
+				if (!finish)
+					iconv(m_handle, const_cast<char**>(reinterpret_cast<const char**>(&src)), &src_size, reinterpret_cast<char**>(&output), &output_size);
+				else // Stateful encodings (UTF-7) still hold the end of the text.
+					iconv(m_handle, NULL, NULL, reinterpret_cast<char**>(&output), &output_size);
 				dst.append(buf, reinterpret_cast<T_to*>(reinterpret_cast<char*>(buf) + sizeof(buf) - output_size));
-				if (!errno)
-					break;
+				if (!errno) {
+					if (finish)
+						break;
+					finish = true;
+					continue;
+				}
 				if (errno == E2BIG)
 					continue;
 				throw std::system_error(errno, std::system_category(), "iconv failed");
-- 
2.43.0


From 3ed962827cd948123113f8329846c517783de4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 091/109] fix: chrono: aosn_timestamp::from_system takes
 nanoseconds for what they are

---
 include/stdex/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 77c0681..0c35d24 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -299,7 +299,7 @@ namespace stdex {
 			///
 			static time_point from_system(_In_ const struct timespec& t) noexcept
 			{
-				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000)));
+				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000000)));
 			}
 #endif
 
-- 
2.43.0


From 2606a5d438152cf9b433f42046fcf51d6dac577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 092/109] fix: chrono: aosn_timestamp::to_system tells the day
 of the year

---
 include/stdex/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 0c35d24..cdbb1f2 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -316,7 +316,7 @@ namespace stdex {
 				date.tm_mon = month - 1;
 				date.tm_year = year - 1900;
 				date.tm_wday = (static_cast<int>(aosn_date::day_of_week(to_date(tp))) + 1) % 7;
-				date.tm_yday = 0;
+				date.tm_yday = static_cast<int>((to_date(tp) - aosn_date::from_dmy(1, 1, year)).count());
 				date.tm_isdst = 0;
 			}
 
-- 
2.43.0


From a8579496833cc051f415c1131636b6ef90723675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:30 +0000
Subject: [PATCH 093/109] fix: chrono: aosn_timestamp::to_str frees long texts
 the way they were allocated

---
 include/stdex/chrono.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index cdbb1f2..fdd557b 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -431,7 +431,7 @@ namespace stdex {
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
-					std::unique_ptr<char> buf(new char[num_chars]);
+					std::unique_ptr<char[]> buf(new char[num_chars]);
 #if _WIN32
 					n = _strftime_l(buf.get(), num_chars, format, &date, locale);
 #else
@@ -464,7 +464,7 @@ namespace stdex {
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
-					std::unique_ptr<wchar_t> buf(new wchar_t[num_chars]);
+					std::unique_ptr<wchar_t[]> buf(new wchar_t[num_chars]);
 #if _WIN32
 					n = _wcsftime_l(buf.get(), num_chars, format, &date, locale);
 #else
-- 
2.43.0


From ed3b59770c0f0533985393c153264e755f21e0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:06 +0000
Subject: [PATCH 094/109] fix: chrono: aosn_timestamp::to_str returns empty
 texts instead of looking for room for them

---
 include/stdex/chrono.hpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index fdd557b..27c91f6 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -14,6 +14,7 @@
 #include <ctime>
 #include <memory>
 #include <stdexcept>
+#include <string>
 
 namespace stdex {
 	namespace chrono
@@ -418,27 +419,31 @@ namespace stdex {
 				struct tm date;
 				to_system(tp, date);
 				std::basic_string<char, TR, AX> str;
+				// strftime() returns 0 when the buffer is too small, but for empty texts (e.g. %p in some locales) too.
+				// Make sure there is always something to return.
+				std::basic_string<char> fmt(format);
+				fmt += static_cast<char>(' ');
 				char stack_buffer[1024 / sizeof(char)];
 				size_t n;
 #if _WIN32
-				n = _strftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = _strftime_l(stack_buffer, _countof(stack_buffer), fmt.c_str(), &date, locale);
 #else
-				n = strftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = strftime_l(stack_buffer, _countof(stack_buffer), fmt.c_str(), &date, locale);
 #endif
 				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
+					str.assign(stack_buffer, stack_buffer + n - 1);
 					return str;
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
 					std::unique_ptr<char[]> buf(new char[num_chars]);
 #if _WIN32
-					n = _strftime_l(buf.get(), num_chars, format, &date, locale);
+					n = _strftime_l(buf.get(), num_chars, fmt.c_str(), &date, locale);
 #else
-					n = strftime_l(buf.get(), num_chars, format, &date, locale);
+					n = strftime_l(buf.get(), num_chars, fmt.c_str(), &date, locale);
 #endif
 					if (n) {
-						str.assign(buf.get(), buf.get() + n);
+						str.assign(buf.get(), buf.get() + n - 1);
 						return str;
 					}
 					num_chars = stdex::mul(num_chars, 2);
@@ -451,27 +456,31 @@ namespace stdex {
 				struct tm date;
 				to_system(tp, date);
 				std::basic_string<wchar_t, TR, AX> str;
+				// strftime() returns 0 when the buffer is too small, but for empty texts (e.g. %p in some locales) too.
+				// Make sure there is always something to return.
+				std::basic_string<wchar_t> fmt(format);
+				fmt += static_cast<wchar_t>(' ');
 				wchar_t stack_buffer[1024 / sizeof(wchar_t)];
 				size_t n;
 #if _WIN32
-				n = _wcsftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = _wcsftime_l(stack_buffer, _countof(stack_buffer), fmt.c_str(), &date, locale);
 #else
-				n = wcsftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = wcsftime_l(stack_buffer, _countof(stack_buffer), fmt.c_str(), &date, locale);
 #endif
 				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
+					str.assign(stack_buffer, stack_buffer + n - 1);
 					return str;
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
 					std::unique_ptr<wchar_t[]> buf(new wchar_t[num_chars]);
 #if _WIN32
-					n = _wcsftime_l(buf.get(), num_chars, format, &date, locale);
+					n = _wcsftime_l(buf.get(), num_chars, fmt.c_str(), &date, locale);
 #else
-					n = wcsftime_l(buf.get(), num_chars, format, &date, locale);
+					n = wcsftime_l(buf.get(), num_chars, fmt.c_str(), &date, locale);
 #endif
 					if (n) {
-						str.assign(buf.get(), buf.get() + n);
+						str.assign(buf.get(), buf.get() + n - 1);
 						return str;
 					}
 					num_chars = stdex::mul(num_chars, 2);
-- 
2.43.0


From 482a9b7da8de4d9f343c167c45707abd6926731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:17 +0000
Subject: [PATCH 095/109] fix: uuidtostr: print the UUID and not what comes
 before it in wide texts

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 7a81877..2f2f9ca 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -69,7 +69,7 @@ namespace stdex
 			static_cast<unsigned int>(id.Data4[0]), static_cast<unsigned int>(id.Data4[1]),
 			static_cast<unsigned int>(id.Data4[2]), static_cast<unsigned int>(id.Data4[3]), static_cast<unsigned int>(id.Data4[4]), static_cast<unsigned int>(id.Data4[5]), static_cast<unsigned int>(id.Data4[6]), static_cast<unsigned int>(id.Data4[7]));
 #else
-		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}", NULL,
+		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}",
 			*reinterpret_cast<const uint32_t*>(&id[0]),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[4])),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[6])),
-- 
2.43.0


From 83ff4b4c0c60e9cc9010f925d255eee0f57c5e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:42 +0000
Subject: [PATCH 096/109] fix: strtouuid: want the last dash, and don't read
 past the end for it

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 2f2f9ca..1f4d384 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -146,7 +146,7 @@ namespace stdex
 #endif
 		i += j;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
-		if (i >= count && str[i] != '-') return false;
+		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-- 
2.43.0


From b246dd73da0051c1657a05cea877f26a641fe0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:06 +0000
Subject: [PATCH 097/109] fix: minisign::parse_minisig: take the signature when
 no line break follows it

---
 include/stdex/minisign.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/minisign.hpp b/include/stdex/minisign.hpp
index 987535e..4ebc544 100644
--- a/include/stdex/minisign.hpp
+++ b/include/stdex/minisign.hpp
@@ -106,7 +106,7 @@ namespace stdex
 			std::string line;
 			for (;;) {
 				minisig.readln(line);
-				if (!minisig.ok())
+				if (!minisig.ok() && (minisig.state() != stdex::stream::state_t::eof || line.empty()))
 					break;
 				if (line.empty() ||
 					untrusted_comment.match(line.data(), 0, line.size()))
-- 
2.43.0


From 2e7252741d6e3690e15d22e9fd87990af71d7432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:03 +0000
Subject: [PATCH 098/109] fix: basic_sys_object: don't keep a closed handle
 when duplicating the other fails

---
 include/stdex/system.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/stdex/system.hpp b/include/stdex/system.hpp
index 737a8fc..f6c1e3a 100644
--- a/include/stdex/system.hpp
+++ b/include/stdex/system.hpp
@@ -148,9 +148,8 @@ namespace stdex
 		basic_sys_object& operator =(_In_ const basic_sys_object<T, TR>& other)
 		{
 			if (this != std::addressof(other)) {
-				if (m_h != TR::invalid_handle)
-					TR::close(m_h);
-				m_h = other.m_h != TR::invalid_handle ? TR::duplicate(other.m_h) : TR::invalid_handle;
+				basic_sys_object<T, TR> tmp(other);
+				std::swap(m_h, tmp.m_h);
 			}
 			return *this;
 		}
-- 
2.43.0


From dc96bb449d1382ed42b9e7e04a08dfa4e83ea147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:32 +0000
Subject: [PATCH 099/109] fix: scoped_executor: keep the action for the end of
 the scope

---
 include/stdex/scoped_executor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/scoped_executor.hpp b/include/stdex/scoped_executor.hpp
index 7819367..9e4b0b0 100644
--- a/include/stdex/scoped_executor.hpp
+++ b/include/stdex/scoped_executor.hpp
@@ -18,7 +18,7 @@ namespace stdex
 	template <typename F_init, typename F_done>
 	class scoped_executor
 	{
-		F_done&& m_done;
+		F_done m_done;
 
 	public:
 		///
-- 
2.43.0


From 8ba7adf5abb4044ec20f0ef12797d664f5efa897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:13 +0000
Subject: [PATCH 100/109] fix: memory: don't let compilers drop sanitizing

---
 include/stdex/memory.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/stdex/memory.hpp b/include/stdex/memory.hpp
index 97c6f05..c977a60 100644
--- a/include/stdex/memory.hpp
+++ b/include/stdex/memory.hpp
@@ -6,6 +6,7 @@
 #pragma once
 
 #include "compat.hpp"
+#include <string.h>
 #include <memory>
 
 #if defined(__GNUC__)
@@ -56,6 +57,19 @@ namespace stdex
 		return std::shared_ptr<T>(p, no_delete<T>{});
 	}
 
+	/// \cond internal
+	inline void sanitize(_Out_writes_bytes_(size) void* data, _In_ size_t size)
+	{
+#ifdef _WIN32
+		SecureZeroMemory(data, size);
+#else
+		memset(data, 0, size);
+		// The memory is about to be released. Make the compiler believe it is going to be read.
+		__asm__ __volatile__("" : : "r"(data) : "memory");
+#endif
+	}
+	/// \endcond
+
 	// sanitizing_allocator::destroy() member generates p parameter not used warning for primitive datatypes T.
 	#pragma warning(push)
 	#pragma warning(disable: 4100)
@@ -104,11 +118,7 @@ namespace stdex
 		///
 		void deallocate(_In_ T* const p, _In_ const std::size_t n)
 		{
-#ifdef _WIN32
-			SecureZeroMemory(p, sizeof(T) * n);
-#else
-			memset(p, 0, sizeof(T) * n);
-#endif
+			sanitize(p, sizeof(T) * n);
 			std::allocator<T>::deallocate(p, n);
 		}
 	};
@@ -129,11 +139,7 @@ namespace stdex
 
 		~sanitizing_blob()
 		{
-#ifdef _WIN32
-			SecureZeroMemory(m_data, N);
-#else
-			memset(m_data, 0, N);
-#endif
+			sanitize(m_data, N);
 		}
 
 	public:
-- 
2.43.0


From f16e6c81256d45e14bca26f550ba5c782cdb9ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 101/109] fix: math: rol rotates by any amount

---
 include/stdex/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/math.hpp b/include/stdex/math.hpp
index d513322..ff9449b 100644
--- a/include/stdex/math.hpp
+++ b/include/stdex/math.hpp
@@ -80,7 +80,7 @@ namespace stdex
 #ifdef _WIN32
 		return _rotl(value, bits);
 #else
-		return (value << bits) | (value >> (32 - bits));
+		return (value << (bits & 31)) | (value >> (-bits & 31));
 #endif
 	}
 
-- 
2.43.0


From 5c2de323500d70aec05114e9f8dcdda541539b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 102/109] fix: math: muldiv doesn't overflow in 64 bits when
 the result doesn't

---
 include/stdex/math.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/stdex/math.hpp b/include/stdex/math.hpp
index ff9449b..a147311 100644
--- a/include/stdex/math.hpp
+++ b/include/stdex/math.hpp
@@ -123,7 +123,12 @@ namespace stdex
 	///
 	inline constexpr int64_t muldiv(int64_t n, int64_t k, int64_t q)
 	{
+#ifdef __SIZEOF_INT128__
+		__extension__ typedef __int128 int128_t;
+		return static_cast<int64_t>(static_cast<int128_t>(n) * k / q);
+#else
 		return n * k / q;
+#endif
 	}
 
 	///
@@ -137,6 +142,11 @@ namespace stdex
 	///
 	inline constexpr uint64_t muldiv(uint64_t n, uint64_t k, uint64_t q)
 	{
+#ifdef __SIZEOF_INT128__
+		__extension__ typedef unsigned __int128 uint128_t;
+		return static_cast<uint64_t>(static_cast<uint128_t>(n) * k / q);
+#else
 		return n * k / q;
+#endif
 	}
 }
-- 
2.43.0


From d7ed0aea176a8a961a0fe1e13123e1b276cff370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:50 +0000
Subject: [PATCH 103/109] fix: stream: build with SET_FILE_OP_TIMES again, and
 save memory files in it

---
 include/stdex/stream.hpp | 42 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 58d4e7e..2fd4844 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1919,7 +1919,7 @@ namespace stdex
 			{
 				stdex_assert(data || !length);
 #if SET_FILE_OP_TIMES
-				m_atime = time_point::now();
+				m_atime = clock::now();
 #endif
 				for (size_t to_read = length;;) {
 					if (m_cache.status != cache_t::cache_t::status_t::empty) {
@@ -1985,7 +1985,7 @@ namespace stdex
 			{
 				stdex_assert(data || !length);
 #if SET_FILE_OP_TIMES
-				m_atime = m_mtime = time_point::now();
+				m_atime = m_mtime = clock::now();
 #endif
 				for (size_t to_write = length;;) {
 					if (m_cache.status != cache_t::cache_t::status_t::empty) {
@@ -2113,7 +2113,7 @@ namespace stdex
 			virtual void truncate()
 			{
 #if SET_FILE_OP_TIMES
-				m_atime = m_mtime = time_point::now();
+				m_atime = m_mtime = clock::now();
 #endif
 				m_source->seekbeg(m_offset);
 				m_state = m_source->state();
@@ -3304,7 +3304,7 @@ namespace stdex
 				m_manage(true)
 			{
 #if SET_FILE_OP_TIMES
-				m_ctime = m_atime = m_mtime = time_point::now();
+				m_ctime = m_atime = m_mtime = clock::now();
 #endif
 			}
 
@@ -3327,7 +3327,7 @@ namespace stdex
 					throw std::bad_alloc();
 				}
 #if SET_FILE_OP_TIMES
-				m_ctime = m_atime = m_mtime = time_point::now();
+				m_ctime = m_atime = m_mtime = clock::now();
 #endif
 			}
 
@@ -3351,7 +3351,7 @@ namespace stdex
 				stdex_assert(data || !size);
 				stdex_assert(reserved >= size);
 #if SET_FILE_OP_TIMES
-				m_ctime = m_atime = m_mtime = time_point::now();
+				m_ctime = m_atime = m_mtime = clock::now();
 #endif
 			}
 
@@ -3467,7 +3467,7 @@ namespace stdex
 				other.m_reserved = 0;
 				other.m_manage = true;
 #if SET_FILE_OP_TIMES
-				other.m_ctime = other.m_atime = other.m_mtime = time_point::now();
+				other.m_ctime = other.m_atime = other.m_mtime = clock::now();
 #endif
 			}
 
@@ -3496,7 +3496,7 @@ namespace stdex
 					m_ctime = other.m_ctime;
 					m_atime = other.m_atime;
 					m_mtime = other.m_mtime;
-					other.m_ctime = other.m_atime = other.m_mtime = time_point::now();
+					other.m_ctime = other.m_atime = other.m_mtime = clock::now();
 #endif
 				}
 				return *this;
@@ -3607,7 +3607,9 @@ namespace stdex
 				}
 				m_state = state_t::ok;
 #if SET_FILE_OP_TIMES
+#ifdef _WIN32
 				f.set_ctime(m_ctime);
+#endif
 				f.set_atime(m_atime);
 				f.set_mtime(m_mtime);
 #endif
@@ -3635,7 +3637,7 @@ namespace stdex
 			{
 				stdex_assert(data || !length);
 #if SET_FILE_OP_TIMES
-				m_atime = time_point::now();
+				m_atime = clock::now();
 #endif
 				size_t available = m_offset < m_size ? m_size - m_offset : 0;
 				if (length <= available) {
@@ -3672,7 +3674,7 @@ namespace stdex
 			memory_file& read_data(_Out_ T& data)
 			{
 #if SET_FILE_OP_TIMES
-				m_atime = time_point::now();
+				m_atime = clock::now();
 #endif
 				if (CHECK_STREAM_STATE && !ok()) _Unlikely_ {
 					data = 0;
@@ -3712,7 +3714,7 @@ namespace stdex
 			memory_file& read_str(_Inout_ std::basic_string<T, TR, AX>&data)
 			{
 #if SET_FILE_OP_TIMES
-				m_atime = time_point::now();
+				m_atime = clock::now();
 #endif
 				if (CHECK_STREAM_STATE && !ok()) _Unlikely_ {
 					data.clear();
@@ -3745,7 +3747,7 @@ namespace stdex
 			{
 				stdex_assert(data || !length);
 #if SET_FILE_OP_TIMES
-				m_atime = m_mtime = time_point::now();
+				m_atime = m_mtime = clock::now();
 #endif
 				size_t end_offset = m_offset + length;
 				if (end_offset > m_reserved) {
@@ -3768,7 +3770,7 @@ namespace stdex
 			void write_byte(_In_ uint8_t byte, _In_ size_t amount = 1)
 			{
 #if SET_FILE_OP_TIMES
-				m_atime = m_mtime = time_point::now();
+				m_atime = m_mtime = clock::now();
 #endif
 				size_t end_offset = m_offset + amount;
 				if (end_offset > m_reserved) {
@@ -3802,7 +3804,7 @@ namespace stdex
 			memory_file& write_data(const T data)
 			{
 #if SET_FILE_OP_TIMES
-				m_atime = m_mtime = time_point::now();
+				m_atime = m_mtime = clock::now();
 #endif
 				if (CHECK_STREAM_STATE && !ok()) _Unlikely_
 					return *this;
@@ -3841,7 +3843,7 @@ namespace stdex
 			memory_file& write_str(_In_z_ const T * data)
 			{
 #if SET_FILE_OP_TIMES
-				m_atime = m_mtime = time_point::now();
+				m_atime = m_mtime = clock::now();
 #endif
 				if (CHECK_STREAM_STATE && !ok()) _Unlikely_
 					return *this;
@@ -3887,7 +3889,7 @@ namespace stdex
 			memory_file& write_str(_In_ const std::basic_string<T, TR, AX>& data)
 			{
 #if SET_FILE_OP_TIMES
-				m_atime = m_mtime = time_point::now();
+				m_atime = m_mtime = clock::now();
 #endif
 				if (CHECK_STREAM_STATE && !ok()) _Unlikely_
 					return *this;
@@ -3923,7 +3925,7 @@ namespace stdex
 			size_t write_stream(_Inout_ basic & stream, _In_ size_t amount = SIZE_MAX)
 			{
 #if SET_FILE_OP_TIMES
-				m_atime = m_mtime = time_point::now();
+				m_atime = m_mtime = clock::now();
 #endif
 				size_t num_read, dst_offset = m_offset, dst_size = m_offset;
 				size_t num_copied = 0, to_write = amount;
@@ -4019,7 +4021,7 @@ namespace stdex
 			virtual void truncate()
 			{
 #if SET_FILE_OP_TIMES
-				m_atime = m_mtime = time_point::now();
+				m_atime = m_mtime = clock::now();
 #endif
 				reserve(m_offset);
 				if (!ok()) _Unlikely_
@@ -4072,7 +4074,7 @@ namespace stdex
 			void set(_In_ fpos_t offset, _In_ const T data)
 			{
 #if SET_FILE_OP_TIMES
-				m_atime = m_mtime = time_point::now();
+				m_atime = m_mtime = clock::now();
 #endif
 				stdex_assert(offset + sizeof(T) < m_size);
 				(*reinterpret_cast<T*>(&m_data[offset])) = HE2LE(data);
@@ -4108,7 +4110,7 @@ namespace stdex
 				stdex_assert(offset + sizeof(T) < m_size);
 				data = LE2HE(*(T*)(&m_data[offset]));
 #if SET_FILE_OP_TIMES
-				m_atime = time_point::now();
+				m_atime = clock::now();
 #endif
 			}
 
-- 
2.43.0


From 8bb96b4926e3d3a558b10c1029d0e9f4116930d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:25 +0000
Subject: [PATCH 104/109] fix: stream: keep memory_file usable when copying to
 it runs out of memory

---
 include/stdex/stream.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 2fd4844..b6910a0 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3420,14 +3420,15 @@ namespace stdex
 			memory_file& operator=(_In_ const memory_file& other)
 			{
 				if (this != std::addressof(other)) {
-					*static_cast<basic_file*>(this) = other;
-					if (m_manage && m_data)
-						free(m_data);
-					m_data = reinterpret_cast<uint8_t*>(malloc(other.m_size));
-					if (!m_data) {
+					auto data = reinterpret_cast<uint8_t*>(malloc(other.m_size));
+					if (!data) {
 						m_state = state_t::fail;
 						throw std::bad_alloc();
 					}
+					*static_cast<basic_file*>(this) = other;
+					if (m_manage && m_data)
+						free(m_data);
+					m_data = data;
 					memcpy(m_data, other.m_data, other.m_size);
 					m_offset = other.m_offset;
 					m_size = other.m_size;
-- 
2.43.0


From 97b111f0b8addaac9b8cd25a4837945cd38005c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:35 +0000
Subject: [PATCH 105/109] fix: stream: don't set times of the file to the
 minimum when a flushed or closed cache goes

---
 include/stdex/stream.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index b6910a0..637014f 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1880,8 +1880,10 @@ namespace stdex
 						throw std::system_error(sys_error(), std::system_category(), "failed to flush cache"); // Data loss occurred
 					m_source->seekbeg(m_offset);
 #if SET_FILE_OP_TIMES
-					m_source->set_atime(m_atime);
-					m_source->set_mtime(m_mtime);
+					if (m_atime != time_point::min())
+						m_source->set_atime(m_atime);
+					if (m_mtime != time_point::min())
+						m_source->set_mtime(m_mtime);
 #endif
 					m_source = nullptr;
 				}
@@ -1908,8 +1910,10 @@ namespace stdex
 						throw std::system_error(sys_error(), std::system_category(), "failed to flush cache"); // Data loss occurred
 					m_source->seekbeg(m_offset);
 #if SET_FILE_OP_TIMES
-					m_source->set_atime(m_atime);
-					m_source->set_mtime(m_mtime);
+					if (m_atime != time_point::min())
+						m_source->set_atime(m_atime);
+					if (m_mtime != time_point::min())
+						m_source->set_mtime(m_mtime);
 #endif
 				}
 			}
@@ -2045,6 +2049,9 @@ namespace stdex
 					throw std::system_error(sys_error(), std::system_category(), "failed to flush cache"); // Data loss occurred
 				m_source->close();
 				m_state = m_source->state();
+#if SET_FILE_OP_TIMES
+				m_atime = m_mtime = time_point::min();
+#endif
 			}
 
 			virtual void flush()
-- 
2.43.0


From 998a90a4c4886df2cbc7d6e72fa6b533d9dad078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:54 +0000
Subject: [PATCH 106/109] fix: stream: a defined CHECK_STREAM_STATE isn't
 defined again

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 637014f..fc6d995 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -49,7 +49,7 @@
 #if !defined(CHECK_STREAM_STATE) && defined(RDAT_NE_PREVERJAJ_STANJA_VER)
 #define CHECK_STREAM_STATE 0
 #pragma message("RDAT_NE_PREVERJAJ_EOF_VER is deprecated. Use CHECK_STREAM_STATE=0 instead.")
-#else
+#elif !defined(CHECK_STREAM_STATE)
 #define CHECK_STREAM_STATE 1
 #endif
 
-- 
2.43.0


From a601a1980ed06aa8b64ddadaaa3c21dc54a1c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:01 +0000
Subject: [PATCH 107/109] fix: memory_file: don't assert against set and get of
 the last bytes

---
 include/stdex/stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index fc6d995..a477ebc 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4084,7 +4084,7 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = clock::now();
 #endif
-				stdex_assert(offset + sizeof(T) < m_size);
+				stdex_assert(offset + sizeof(T) <= m_size);
 				(*reinterpret_cast<T*>(&m_data[offset])) = HE2LE(data);
 			}
 
@@ -4115,7 +4115,7 @@ namespace stdex
 			template <class T>
 			void get(_In_ fpos_t offset, _Out_ T & data)
 			{
-				stdex_assert(offset + sizeof(T) < m_size);
+				stdex_assert(offset + sizeof(T) <= m_size);
 				data = LE2HE(*(T*)(&m_data[offset]));
 #if SET_FILE_OP_TIMES
 				m_atime = clock::now();
-- 
2.43.0


From f1f01d0c3e021fa312915bf6806154076c15a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:25 +0000
Subject: [PATCH 108/109] fix: sgml2uni: don't assert against an empty entity
 in the text

---
 include/stdex/sgml.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 368acef..2a3a48b 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -25,7 +25,10 @@ namespace stdex
 	template <class T>
 	const utf32_t* sgml2uni(_In_reads_or_z_(count) const T* entity, _In_ size_t count, utf32_t buf[2])
 	{
-		stdex_assert(entity && count);
+		stdex_assert(entity || !count);
+
+		if (!count)
+			return nullptr; // Nothing is no entity.
 
 		if (count < 2 || entity[0] != '#') {
 			for (size_t i = 0, j = _countof(sgml_unicode); i < j; ) {
-- 
2.43.0


From 3eb4bf6961c762c8b73e6c798cbe550b1f80c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:55 +0000
Subject: [PATCH 109/109] fix: debug: print the time a benchmark took outside
 Windows, too

---
 include/stdex/debug.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/debug.hpp b/include/stdex/debug.hpp
index 85863c4..42b2b38 100644
--- a/include/stdex/debug.hpp
+++ b/include/stdex/debug.hpp
@@ -7,6 +7,7 @@
 
 #include "compat.hpp"
 #include "string.hpp"
+#include <inttypes.h>
 #include <stdarg.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -140,7 +141,7 @@ namespace stdex
 		~benchmark()
 		{
 			auto duration(std::chrono::high_resolution_clock::now() - m_start);
-			stdex::diag::printf("%s took %I64i ns\n", m_task_name, static_cast<int64_t>(duration.count()));
+			stdex::diag::printf("%s took %" PRIi64 " ns\n", m_task_name, static_cast<int64_t>(duration.count()));
 		}
 
 	protected:
-- 
2.43.0

