import sys
"""Applies behaviour-preserving rewrites to a copy of the repository (argument); all checks must stay quiet on it:
STDEX_REPO=COPY python3 check.py ID."""
R=sys.argv[1]+'/include/stdex/'
def rep(f,old,new,nth=None):
    p=R+f; s=open(p,newline='').read(); crlf='\r\n' in s
    if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
    k=s.count(old)
    if k==0 or (k>1 and nth is None): print('!!',f,k,repr(old[:60])); return
    parts=s.split(old); n=nth or 0
    s=old.join(parts[:n+1])+new+old.join(parts[n+1:]); open(p,'w',newline='').write(s)
# ring
rep('ring.hpp','#include "compat.hpp"','#include "compat.hpp"\n#include <algorithm>')
rep('ring.hpp','''			m_head_moved.wait(lk, [&]{return m_quit || space();});
			if (m_quit) _Unlikely_
				return { nullptr, 0 };
			size_t tail = wrap(m_head + m_size);
			return { &m_data[tail], m_head <= tail ? N_cap - tail : m_head - tail };''','''			while (!m_quit && m_size == N_cap)
				m_head_moved.wait(lk);
			if (m_quit) _Unlikely_
				return std::tuple<T*, size_t>(nullptr, 0);
			size_t tail = tail_index();
			size_t limit = tail < m_head ? m_head : N_cap;
			return std::tuple<T*, size_t>(m_data + tail, limit - tail);''')
rep('ring.hpp','''			if (empty()) {
				m_tail_moved.wait(lk, [&]{return m_quit || !empty();});
				if (m_quit && empty()) _Unlikely_
					return { nullptr, 0 };
			}
			size_t tail = wrap(m_head + m_size);
			return { &m_data[m_head], m_head < tail ? m_size : N_cap - m_head };''','''			m_tail_moved.wait(lk, [&]{return m_quit || !empty();});
			if (empty()) _Unlikely_
				return { nullptr, 0 };
			return { &m_data[m_head], std::min<size_t>(m_size, N_cap - m_head) };''')
rep('ring.hpp','''			m_head_moved.notify_one();
			m_tail_moved.notify_one();''','''			m_tail_moved.notify_all();
			m_head_moved.notify_all();''')
rep('ring.hpp','''		size_t space() const
''','''		size_t tail_index() const
		{
			return wrap(m_head + m_size);
		}

		size_t space() const
''')
rep('ring.hpp','''				m_head = wrap(m_head + size);
				m_size -= size;''','''				m_size -= size;
				m_head += size;
				if (m_head >= N_cap) m_head -= N_cap;''')
# spinlock
rep('spinlock.hpp','''			return
				!m_lock.load(std::memory_order_relaxed) &&
				!m_lock.exchange(true, std::memory_order_acquire);''','''			bool expected = false;
			return m_lock.compare_exchange_strong(expected, true, std::memory_order_acquire, std::memory_order_relaxed);''')
rep('spinlock.hpp','''			for (;;) {
				// Optimistically assume the lock is free on the first try
				if (!m_lock.exchange(true, std::memory_order_acquire))
					return;
''','''			while (m_lock.exchange(true, std::memory_order_acquire)) {
''')
# pool
rep('pool.hpp','''				while (!ne.second.list.empty())
					ne.second.list.pop_front();''','''				ne.second.list.clear();''')
rep('pool.hpp','''			if (!ne.list.empty()) {
				auto r = std::move(ne.list.front());
				ne.list.pop_front();
				return r;
			}
			return T();''','''			if (ne.list.empty())
				return T();
			T r(std::move(ne.list.front()));
			ne.list.pop_front();
			return r;''')
# watchdog
rep('watchdog.hpp','''					phase = m_phase;
					if (m_cv.wait_for(lk, m_timeout, [&] {return m_quit || phase != m_phase; })) {
						if (m_quit)
							break;
						// reset() called in time.
						continue;
					}''','''					phase = m_phase;
					bool in_time = m_cv.wait_for(lk, m_timeout, [this, phase] { return phase != m_phase || m_quit; });
					if (m_quit)
						return;
					if (in_time)
						continue; // reset() called in time.''')
# async
rep('stream.hpp','''					if (to_read < num_read)
						num_read = to_read;
					memcpy(data, ptr, num_read);
					m_ring.pop(num_read);''','''					num_read = std::min(num_read, to_read);
					memcpy(data, ptr, num_read);
					m_ring.pop(num_read);''')
rep('stream.hpp','''				for (;;) {
					uint8_t* ptr; size_t num_write;
					std::tie(ptr, num_write) = m_ring.back();
					if (!ptr) _Unlikely_
						break;
					num_write = m_source->read(ptr, num_write);
					m_ring.push(num_write);
					if (!m_source->ok()) {
						m_ring.quit();
						break;
					}
				}''','''				do {
					auto [ptr, num_write] = m_ring.back();
					if (!ptr) _Unlikely_
						return;
					m_ring.push(m_source->read(ptr, num_write));
				} while (m_source->ok());
				m_ring.quit();''')
# replicator
rep('stream.hpp','''				for (auto w = m_workers.begin(), w_end = m_workers.end(); w != w_end; ++w) {
					auto _w = w->get();
					{
						const std::lock_guard<std::mutex> lk(_w->mutex);
						_w->op = op;
					}
					_w->cv.notify_one();
				}
				m_state = state_t::ok;''','''				for (auto& _w : m_workers) {
					const std::lock_guard<std::mutex> lk(_w->mutex);
					_w->op = op;
					_w->cv.notify_all();
				}
				m_state = state_t::ok;''')
# buffer
rep('stream.hpp','if (to_read > m_read_buffer.capacity) {','if (to_read >= m_read_buffer.capacity) {')
rep('stream.hpp','''					if (available_buffer) {
						memcpy(m_write_buffer.data + m_write_buffer.tail, data, available_buffer);
						reinterpret_cast<const uint8_t*&>(data) += available_buffer;
						to_write -= available_buffer;
						m_write_buffer.tail += available_buffer;
					}
					size_t buffer_size''','''					memcpy(m_write_buffer.data + m_write_buffer.tail, data, available_buffer);
					reinterpret_cast<const uint8_t*&>(data) += available_buffer;
					m_write_buffer.tail += available_buffer;
					to_write -= available_buffer;
					size_t buffer_size''')
rep('stream.hpp','data(buffer_size ? new uint8_t[buffer_size] : nullptr)','data(new uint8_t[buffer_size])')
# limiter
rep('stream.hpp','''				size_t num_read;
				if (read_limit == fsize_max)
					num_read = converter::read(data, length);
				else if (length <= read_limit) {
					num_read = converter::read(data, length);
					read_limit -= num_read;
				}
				else if (length && !read_limit) {
					num_read = 0;
					m_state = state_t::eof;
				}
				else {
					num_read = converter::read(data, static_cast<size_t>(read_limit));
					read_limit -= num_read;
				}
				return num_read;''','''				if (read_limit == fsize_max)
					return converter::read(data, length);
				if (length && !read_limit) {
					m_state = state_t::eof;
					return 0;
				}
				const size_t num_read = converter::read(data, static_cast<size_t>(std::min<fsize_t>(length, read_limit)));
				read_limit -= num_read;
				return num_read;''',0)
# file_window
rep('stream.hpp','''				if (m_region.contains(m_offset)) {
					size_t num_written = m_source.write(''','''				if (m_region.start <= m_offset && m_offset < m_region.end) {
					size_t num_written = m_source.write(''')
# cache
rep('stream.hpp','''				if (m_cache.status != cache_t::cache_t::status_t::dirty)
					m_state = state_t::ok;
				else if (!m_cache.region.empty()) {
					write_cache();
					if (ok())
						m_cache.status = cache_t::cache_t::status_t::loaded;
				}
				else {
					m_state = state_t::ok;
					m_cache.status = cache_t::cache_t::status_t::loaded;
				}''','''				m_state = state_t::ok;
				if (m_cache.status != cache_t::cache_t::status_t::dirty)
					return;
				if (!m_cache.region.empty())
					write_cache();
				if (ok())
					m_cache.status = cache_t::cache_t::status_t::loaded;''')
rep('stream.hpp','''				if (m_cache.status == cache_t::cache_t::status_t::dirty && !m_cache.region.empty()) {
					write_cache();
					if (!ok()) _Unlikely_
						return;
				} else
					m_state = state_t::ok;
				m_cache.status = cache_t::cache_t::status_t::empty;''','''				flush_cache();
				if (ok()) _Likely_
					m_cache.status = cache_t::cache_t::status_t::empty;''')
rep('stream.hpp','''				offset = static_cast<foff_t>(m_offset) + offset;
					break;
				case seek_t::end: {''','''				offset += static_cast<foff_t>(m_offset);
					break;
				case seek_t::end: {''') if 0 else None
rep('stream.hpp','''						m_source->seekbeg(m_offset);
							m_state = m_source->state();
							if (!ok()) _Unlikely_
								return length - to_write;
							size_t num_written = m_source->write(data, to_write - static_cast<size_t>(end_max % m_cache.capacity));''','''						m_source->seekbeg(m_offset);
							m_state = m_source->state();
							if (!ok()) _Unlikely_
								return length - to_write;
							size_t whole_blocks = to_write - static_cast<size_t>(end_max % m_cache.capacity);
							size_t num_written = m_source->write(data, whole_blocks);''')
# memory_file
rep('stream.hpp','size_t reserved = tight ? required : ((required + required / 4 + (default_block_size - 1)) / default_block_size) * default_block_size;','size_t reserved = required;\n				if (!tight)\n					reserved = (required + required / 2 + (default_block_size - 1)) & ~static_cast<size_t>(default_block_size - 1);')
rep('stream.hpp','''				size_t available = m_offset < m_size ? m_size - m_offset : 0;
				if (length <= available) {
					memcpy(data, &m_data[m_offset], length);
					m_offset += length;
					m_state = state_t::ok;
					return length;
				}
				if (length && !available) {
					m_state = state_t::eof;
					return 0;
				}
				memcpy(data, &m_data[m_offset], available);
				m_offset += available;
				m_state = state_t::ok;
				return available;''','''				size_t available = m_offset < m_size ? m_size - m_offset : 0;
				size_t num_read = std::min(length, available);
				if (num_read) {
					memcpy(data, m_data + m_offset, num_read);
					m_offset += num_read;
				}
				m_state = num_read || !length ? state_t::ok : state_t::eof;
				return num_read;''')
rep('stream.hpp','''					data = LE2HE(*reinterpret_cast<T*>(&m_data[m_offset]));
					m_offset = end_offset;''','''					T tmp;
					memcpy(&tmp, m_data + m_offset, sizeof(T));
					data = LE2HE(tmp);
					m_offset = end_offset;''')
rep('stream.hpp','''				(*reinterpret_cast<T*>(&m_data[m_offset])) = HE2LE(data);''','''				const T tmp = HE2LE(data);
				memcpy(m_data + m_offset, &tmp, sizeof(T));''')
# fifo
rep('stream.hpp','''				while (m_head) {
					auto p = m_head;
					m_head = p->next;
					delete[] reinterpret_cast<uint8_t*>(p);
				}
				m_state = state_t::ok;''','''				for (node_t* next; m_head; m_head = next) {
					next = m_head->next;
					delete[] reinterpret_cast<uint8_t*>(m_head);
				}
				m_tail = nullptr;
				m_state = state_t::ok;''')
rep('stream.hpp','''				try {
					auto n = reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]);
''','''				if (!length) {
					m_state = state_t::ok;
					return 0;
				}
				try {
					auto n = reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]);
''')
# base copy
rep('stream.hpp','''				return write(array, mul(size, count)) / size;''','''				size_t num_written = write(array, mul(size, count));
				return num_written / size;''')
# base64/hex
rep('base64.hpp','''				if (m_num >= 3) {
					encode(out);
					m_num = 0;
				}

				if (i >= size)
					break;

				m_buf[m_num++] = reinterpret_cast<const uint8_t*>(data)[i];''','''				if (m_num == 3) {
					encode(out, 3);
					m_num = 0;
				}
				if (i == size)
					break;
				m_buf[m_num] = static_cast<const uint8_t*>(data)[i];
				++m_num;''',0)
rep('hex.hpp','''				out += x_h < 10 ? '0' + x_h : 'A' - 10 + x_h;
				out += x_l < 10 ? '0' + x_l : 'A' - 10 + x_l;''','''				static const char digits[] = "0123456789ABCDEF";
				out.push_back(digits[x_h]);
				out.push_back(digits[x_l]);''')
rep('hex.hpp','''			return (size + 1)/2;''','''			return (num + size)/2;''')
# string
rep('string.hpp','''			if (value < max_ui_pre1 || // Multiplication nor addition will not overflow.
				(value == max_ui_pre1 && digit <= max_ui_pre2)) // Small digits will not overflow.
				value = value * (T_bin)radix + digit;
			else {
				// Overflow!
				flags |= 0x02;
			}''','''			if (value > max_ui_pre1 || (value == max_ui_pre1 && digit > max_ui_pre2))
				flags |= 0x02; // Overflow!
			else
				value = static_cast<T_bin>(value * (T_bin)radix + digit);''')
# html
rep('html.hpp','''				case '\\\\': dst += "\\\\\\\\"; break;
				case '\\n': dst += "\\\\n"; break;
				case '\\r': dst += "\\\\r"; break;
				case '\\t': dst += "\\\\t"; break;''','''				case '\\\\': dst.append("\\\\\\\\", 2); break;
				case '\\t': dst.append("\\\\t", 2); break;
				case '\\r': dst.append("\\\\r", 2); break;
				case '\\n': dst.append("\\\\n", 2); break;''')
# permutation, iterations
rep('parser.hpp','''				for (size_t i = 0; ; i++) {
					if ((!m_greedy && i >= m_min_iterations) || i >= m_max_iterations)
						return true;
					if (!m_el->match(text, this->interval.end, end, flags)) {
						if (i >= m_min_iterations)
							return true;
						break;
					}
					if (m_el->interval.end == this->interval.end) {''','''				size_t i = 0;
				const size_t enough = m_greedy ? m_max_iterations : std::min(m_min_iterations, m_max_iterations);
				for (; i < enough; i++) {
					if (!m_el->match(text, this->interval.end, end, flags))
						break;
					if (m_el->interval.end == this->interval.end) {''')
rep('parser.hpp','''					this->interval.end = m_el->interval.end;
				}
				this->interval.invalidate();
				return false;
			}

			std::shared_ptr<basic_parser<T>> m_el; ///< repeating element''','''					this->interval.end = m_el->interval.end;
				}
				if (i >= enough || i >= m_min_iterations)
					return true;
				this->interval.invalidate();
				return false;
			}

			std::shared_ptr<basic_parser<T>> m_el; ///< repeating element''')
# mapping
rep('mapping.hpp','''		for (size_t l = 0, r = mapping.size();;) {
			if (l < r) {
				auto m = (l + r) / 2;
				const auto& el = mapping[m];
				if (to < el.to) r = m;
				else if (el.to < to) l = m + 1;
				else return el.from;
			}
			else if (l) {
				const auto& el = mapping[l - 1];
				return el.from + (to - el.to);
			}
			else {
				const auto& el = mapping[0];
				return std::min<T>(to, el.from);
			}
		}''','''		auto it = std::upper_bound(mapping.begin(), mapping.end(), to, [](const T& x, const stdex::mapping<T>& el) { return x < el.to; });
		if (it == mapping.begin())
			return std::min<T>(to, mapping.front().from);
		--it;
		return it->from + (to - it->to);''',0)
# vector_queue
rep('vector_queue.hpp','''				size_type pos = abs(m_count);
				m_data[pos] = v;
				m_count++;
				return pos;
			} else {
				size_type pos = abs(0);
				m_data[pos] = v;
				m_head = abs(1);
				return pos;
			}''','''				const size_type pos = abs(m_count);
				m_data[pos] = v;
				++m_count;
				return pos;
			}
			const size_type pos = abs(0);
			m_data[pos] = v;
			m_head = abs(1);
			return pos;''')
# endian
rep('endian.hpp','return __builtin_bswap16(value);','return static_cast<uint16_t>((value << 8) | (value >> 8));')
# math
rep('math.hpp','''		if (!__builtin_mul_overflow(a, b, &result))
			return result;''','''		if (a == 0 || b <= SIZE_MAX / a) {
			result = a * b;
			return result;
		}''')
# progress
rep('progress.hpp','''				T
					combined_start = m_host.m_start += start - m_start,
					combined_end = m_host.m_end += end - m_end;
				m_start = start;
				m_end = end;''','''				T
					combined_end = m_host.m_end += end - m_end,
					combined_start = m_host.m_start += start - m_start;
				m_end = end;
				m_start = start;''')
# zlib
rep('zlib.hpp','''							if (num_read) {
								m_state = stdex::stream::state_t::ok;
								return num_read;
							}
							m_state = m_source->state();
							return 0;''','''							m_state = num_read ? stdex::stream::state_t::ok : m_source->state();
							return num_read;''')
# sgml
rep('sgml.hpp','''			if (str[i] == ';')
				return str + i;
			if (!str[i] || str[i] == '&' || isspace(str[i]))
				break;''','''			const T chr = str[i];
			if (!chr || chr == '&' || isspace(chr))
				return nullptr;
			if (chr == ';')
				return &str[i];''')
# ipv6
rep('parser.hpp','''					for (; j > compaction_i;) {
						this->value.s6_words[--j] = 0;
						components[j].start =
							components[j].end = compaction_start;
					}''','''					while (j != compaction_i) {
						--j;
						components[j].start = components[j].end = compaction_start;
						this->value.s6_words[j] = 0;
					}''')

# ---- second batch
rep('idrec.hpp','''				if (_id == id) {
					// The record was found.
					return true;
				} else
					ignore<T_size, N_align>(stream);
			}
			return false;''','''				// The record was found?
				if (_id == id)
					return true;
				ignore<T_size, N_align>(stream);
			}
			return false;''',0)
rep('idrec.hpp','''			return (N_align - (size % N_align)) % N_align;''','''			T_size over = size % N_align;
			return over ? N_align - over : 0;''')
rep('idrec.hpp','''			if (remainder) {
				// Append padding.
				static const char padding[N_align] = {};
				stream.write_array(padding, sizeof(char), remainder);
				end += remainder;
			}''','''			// Append padding.
			for (T_size i = 0; i < remainder && stream.ok(); ++i)
				stream << static_cast<char>(0);
			end += remainder;''')
rep('wav.hpp','''			if (dat.ok())
				dat.write_array(data.data(), sizeof(cue), num_cues);
			return dat;''','''			for (size_t i = 0; i < num_cues && dat.ok(); ++i)
				dat.write_array(&data[i], sizeof(cue), 1);
			return dat;''')
rep('wav.hpp','''			uint32_t num_cues;
			dat >> num_cues;
			if (!dat.ok()) _Unlikely_ goto error1;
			data.resize(num_cues);
			data.resize(dat.read_array(data.data(), sizeof(cue), num_cues));
			return dat;

		error1:
			data.clear();
			return dat;''','''			data.clear();
			uint32_t num_cues;
			dat >> num_cues;
			if (!dat.ok()) _Unlikely_
				return dat;
			data.resize(num_cues);
			size_t num_read = dat.read_array(data.data(), sizeof(cue), num_cues);
			data.resize(num_read);
			return dat;''')
rep('unicode.hpp','T_to buf[1024 / sizeof(T_to)];','T_to buf[256 / sizeof(T_to)];')
rep('unicode.hpp','			dst.reserve(dst.size() + count_src);\n			T_to buf','			T_to buf')
rep('hash.hpp','''			for (size_t i = 0; i < length; i++)
				m_value = crc32_table[(m_value ^ reinterpret_cast<const uint8_t*>(data)[i]) & 0xff] ^ (m_value >> 8);''','''			uint32_t value = m_value;
			for (auto p = reinterpret_cast<const uint8_t*>(data), p_end = p + length; p != p_end; ++p)
				value = (value >> 8) ^ crc32_table[static_cast<uint8_t>(value) ^ *p];
			m_value = value;''')
rep('hash.hpp','''			size_t num_read = stdex::stream::converter::read(data, length);
			m_hash.hash(data, num_read);
			return num_read;''','''			const size_t num_read = stdex::stream::converter::read(data, length);
			if (num_read)
				m_hash.hash(data, num_read);
			return num_read;''')
rep('sgml.hpp','snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(wstr_to_utf32(src, i, end)));','snprintf(tmp, _countof(tmp), "&#%u;", static_cast<unsigned int>(wstr_to_utf32(src, i, end)));',0)
rep('sgml.hpp','snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(wstr_to_utf32(src, i, end)));','snprintf(tmp, _countof(tmp), "&#%u;", static_cast<unsigned int>(wstr_to_utf32(src, i, end)));')
rep('html.hpp','''							for (size_t j = m_element_stack.size(); j--; ) {
								auto starting_tag = m_element_stack[j];
								stdex_assert(starting_tag && starting_tag->type == stdex::parser::html_sequence_t::element_start);
								if (element_traits::may_contain(starting_tag->code, e->code)) {
									e->parent = starting_tag;
									break;
								}
								e->parent = starting_tag->parent;
								starting_tag->end = e.get();
								m_element_stack.resize(j);
							}''','''							while (!m_element_stack.empty()) {
								auto starting_tag = m_element_stack.back();
								if (element_traits::may_contain(starting_tag->code, e->code))
									break;
								starting_tag->end = e.get();
								m_element_stack.pop_back();
							}
							e->parent = active_element();''')
rep('stream.hpp','''				for (;;) {
					constexpr uint32_t buf_chars = 0x400;
					T buf[buf_chars];''','''				for (;;) {
					constexpr uint32_t buf_chars = 0x40;
					T buf[buf_chars];''')
rep('stream.hpp','''				bool initial = true;
				T chr = static_cast<T>(0), previous = static_cast<T>(0);
				do {
					read_array(&chr, sizeof(T), 1);
					if (!initial && !(previous == static_cast<T>('\\r') && chr == static_cast<T>('\\n')))
						str += previous;
					else
						initial = false;
					previous = chr;
				} while (ok() && chr != static_cast<T>('\\n'));
				return str.size();''','''				const size_t start = str.size();
				for (;;) {
					T chr;
					if (read_array(&chr, sizeof(T), 1) != 1 || !ok())
						break;
					if (chr == static_cast<T>('\\n')) {
						if (str.size() > start && str.back() == static_cast<T>('\\r'))
							str.pop_back();
						break;
					}
					str += chr;
				}
				return str.size();''')
rep('stream.hpp','''				for (auto& el : data)
					*this << el;
				return *this;''','''				for (auto el = data.cbegin(), el_end = data.cend(); el != el_end && ok(); ++el)
					*this << *el;
				return *this;''',0)
rep('spinlock.hpp','''			m_lock.store(false, std::memory_order_release);''','''			m_lock.exchange(false, std::memory_order_acq_rel);''')
rep('progress.hpp','''			return
				(m_host && m_host->cancel()) ||
				m_deadline < std::chrono::high_resolution_clock::now();''','''			if (m_host && m_host->cancel())
				return true;
			auto now = std::chrono::high_resolution_clock::now();
			return now > m_deadline;''')
rep('chrono.hpp',"""				return static_cast<uint8_t>(from_dmy(day, month, year).time_since_epoch().count() % 7);""","""				return day_of_week(from_dmy(day, month, year));""")
