// Dates and timestamps driver.
#include "common.hpp"
#include <time.h>
#include <stdex/chrono.hpp>
using vf::ints; using vf::event; using D = stdex::chrono::aosn_date; using S = stdex::chrono::aosn_timestamp;
static D::time_point day(long long n) { return D::time_point(D::duration((D::rep)n)); }
static S::time_point stamp(long long n, long long ms) { return S::time_point(S::duration((S::rep)n * 86400000 + ms)); }
static ints split(S::time_point t) { auto c = t.time_since_epoch().count(); auto q = c / 86400000, r = c % 86400000; if (r < 0) { r += 86400000; --q; } return { (long long)q, (long long)r }; }
static ints tsplit(std::time_t c) { auto q = c / 86400, r = c % 86400; if (r < 0) { r += 86400; --q; } return { (long long)q, (long long)r }; }
template <class T> static void put(ints& r, const std::basic_string<T>& s) { for (auto c : s) r.push_back(sizeof(T) == 1 ? (long long)(uint8_t)c : (long long)c); }
static void scenario(const vf::scenario_t& s)
{
	for (auto& o : s.ops) {
		auto& a = o.a; auto& op = o.name; ints r;
		if (op == "dmy") r = { D::from_dmy((uint8_t)a[0], (uint8_t)a[1], (int32_t)a[2]).time_since_epoch().count() };
		else if (op == "tod") {
			uint8_t d = 99, m = 99; int32_t y = 99; auto k = a[1];
			D::to_dmy(day(a[0]), k & 1 ? &d : nullptr, k & 2 ? &m : nullptr, k & 4 ? &y : nullptr);
			r = { k & 1 ? d : -1, k & 2 ? m : -1, k & 4 ? y : -1 };
		}
		else if (op == "dow") r = { D::day_of_week(day(a[0])) };
		else if (op == "dow3") r = { D::day_of_week((uint8_t)a[0], (uint8_t)a[1], (int32_t)a[2]) };
		else if (op == "ftime") {
			std::time_t t = (std::time_t)a[0] * 86400 + a[1]; struct timespec ts = {}; ts.tv_sec = t; ts.tv_nsec = 999999999;
			auto x = D::from_time_t(t).time_since_epoch().count(), y = D::from_system(ts).time_since_epoch().count(); r = { x }; if (x != y) r.push_back(y);
		}
		else if (op == "ttime") r = tsplit(D::to_time_t(day(a[0])));
		else if (op == "year") for (int m = 1; m < 13; ++m) {
			auto n = D::from_dmy(1, (uint8_t)m, (int32_t)a[0]).time_since_epoch().count(), k = D::from_dmy(1, (uint8_t)(m % 12 + 1), (int32_t)a[0] + (m == 12)).time_since_epoch().count();
			uint8_t d; D::to_dmy(day(k - 1), &d, nullptr, nullptr); r.push_back(n); r.push_back(d);
		}
		else if (op == "month") {
			auto n = D::from_dmy(1, (uint8_t)a[1], (int32_t)a[0]).time_since_epoch().count(); uint8_t d, m; int32_t y;
			for (int i = 0; i < 32; ++i) { D::to_dmy(day(n + i), &d, &m, &y); if (m != a[1]) break; r.insert(r.end(), { d, m, y }); if (D::from_dmy(d, m, y) != day(n + i)) r.push_back(-7); }
		}
		else if (op == "stamp") r = split(S::from_dmy((uint8_t)a[0], (uint8_t)a[1], (int32_t)a[2], (uint8_t)a[3], (uint8_t)a[4], (uint8_t)a[5], (uint16_t)a[6]));
		else if (op == "fields") {
			uint8_t d = 99, m = 99, h = 99, n = 99, c = 99; int32_t y = 99; uint16_t ms = 9999; auto k = a[2];
			S::to_dmy(stamp(a[0], a[1]), k & 1 ? &d : nullptr, k & 2 ? &m : nullptr, k & 4 ? &y : nullptr, k & 8 ? &h : nullptr, k & 16 ? &n : nullptr, k & 32 ? &c : nullptr, k & 64 ? &ms : nullptr);
			r = { d, m, y, h, n, c, ms }; for (int i = 0; i < 7; ++i) if (!(k >> i & 1)) r[i] = -1;
		}
		else if (op == "sftime") r = split(S::from_time_t((std::time_t)a[0] * 86400 + a[1]));
		else if (op == "sfspec") { struct timespec ts = {}; ts.tv_sec = (std::time_t)a[0] * 86400 + a[1]; ts.tv_nsec = (long)a[2]; r = split(S::from_system(ts)); }
		else if (op == "sttime") r = tsplit(S::to_time_t(stamp(a[0], a[1])));
		else if (op == "todate") r = { S::to_date(stamp(a[0], a[1])).time_since_epoch().count() };
		else if (op == "fromdate") r = split(S::from_date(day(a[0])));
		else if (op == "tm") { struct tm t; memset(&t, 0x55, sizeof t); S::to_system(stamp(a[0], a[1]), t); r = { t.tm_sec, t.tm_min, t.tm_hour, t.tm_mday, t.tm_mon, t.tm_year, t.tm_wday, t.tm_yday, t.tm_isdst }; }
		else if (op == "text" || op == "longtext") {
			size_t from = op == "text" ? 3 : 4; std::string f(a.begin() + from, a.end()), g; for (long long i = from == 4 ? a[3] : 1; i; --i) g += f;
			if (a[0]) put(r, S::to_str(stamp(a[1], a[2]), std::wstring(g.begin(), g.end()).c_str(), stdex::locale_C)); else put(r, S::to_str(stamp(a[1], a[2]), g.c_str(), stdex::locale_C));
		}
		else if (op == "rfc822") put(r, S::to_rfc822(stamp(a[0], a[1])));
		else if (op == "now") {
			std::time_t t = time(nullptr); auto d = D::to_time_t(D::now()), n = S::to_time_t(S::now()); std::time_t u = time(nullptr);
			r = { d % 86400 == 0 && t / 86400 * 86400 <= d && d <= u, t - 1 <= n && n <= u };
		}
		event(op.c_str(), a, r);
	}
}
int main(int argc, char** argv) { struct rlimit l = { 1u << 30, 1u << 30 }; (void)l; return vf::run(argc, argv, scenario, 10); }
