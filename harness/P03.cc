// P03: lines of text: what a line is, what is skipped behind it, and where the stream stands afterwards.
#include "zk.hh"
#include <vector>
#include <zenkit/Misc.hh>
#include <zenkit/Stream.hh>
using namespace zenkit;

namespace {
	bool among(uint8_t c, const char* set) {
		bool r = false;
		for (; *set; ++set) r |= c == (uint8_t) *set;
		return r;
	}
	constexpr const char* WS = " \t\r\n\v\f";

	// the documented meaning: the text up to NUL, CR, LF or the end; behind CR or LF the ignored characters are skipped
	void check_line(size_t n, const char* ignore, int mode) {
		uint8_t b[16];
		zk_any_bytes(b, n, "b");
		auto r = Read::from((std::byte*) b, n);
		std::string got = mode == 2 ? r->read_line_then_ignore(ignore) : r->read_line(mode == 1);
		size_t len = 0;
		while (len < n && b[len] != 0 && b[len] != '\r' && b[len] != '\n') ++len;
		zk_assert(got.size() == len, "a line ends at the first NUL, CR, LF or at the end");
		bool eq = true;
		for (size_t i = 0; i < len; ++i) eq &= (uint8_t) got[i] == b[i];
		zk_assert(eq, "the line holds the bytes in front of its end");
		size_t pos = len;
		if (pos < n) {
			++pos;
			if (b[pos - 1] != 0) {
				while (pos < n && among(b[pos], ignore)) ++pos;
				// a NUL that is the very last byte counts as part of the line break
				if (*ignore && pos + 1 == n && b[pos] == 0) ++pos;
			}
		}
		zk_assert(r->tell() == pos, "behind a line only the ignored characters are skipped");
		zk_assert(r->eof() == (pos == n), "end of file after a line");
		zk_cover("end");
	}
	void check_written(size_t n) {
		std::string s(n, 'x');
		for (size_t i = 0; i < n; ++i)
			if (n < 300 || i % 97 == 0 || i + 3 > n) s[i] = (char) zk_any_char("\r\n", "text");
		std::vector<std::byte> buf;
		auto w = Write::to(&buf);
		w->write_line(s);
		w->write_string0(s);
		w->write_uint(0x01020304);
		zk_assert(buf.size() == 2 * n + 6, "size of a line and a terminated string");
		auto r = Read::from(&buf);
		auto a = r->read_line(false);
		zk_assert(a.size() == n && a == s, "a line written is read back");
		auto b = r->read_line(false);
		zk_assert(b.size() == n && b == s, "a terminated string written is read back");
		zk_assert(r->read_uint() == 0x01020304, "what follows a terminated string is not touched");
		zk_cover("end");
	}
}
HARNESS(line_plain) { check_line(zk_choice(ZK_Q(6, 8), "n"), "", 0); }
HARNESS(line_skipws) { check_line(zk_choice(ZK_Q(6, 7), "n"), WS, 1); }
HARNESS(line_ignore_lf) { check_line(zk_choice(ZK_Q(6, 7), "n"), "\n", 2); }
HARNESS(line_ignore_two) { check_line(zk_choice(ZK_Q(6, 7), "n"), "\r\n", 2); }
HARNESS(line_ignore_none) { check_line(zk_choice(ZK_Q(6, 7), "n"), "", 2); }
HARNESS(written_short) { check_written(zk_choice(8, "n")); }
HARNESS(written_255) { check_written(255); }
HARNESS(written_256) { check_written(256); }
HARNESS(written_1024) { check_written(1024); }
HARNESS(written_70000) { check_written(ZK_Q(5000, 70000)); }

// whitespace of any amount behind a line
HARNESS(skip_long) {
	size_t n = 300;
	std::vector<uint8_t> b(n + 2, ' ');
	b[0] = '\n';
	for (size_t i = 1; i <= n; ++i) {
		static const char ws[] = " \t\r\n\v\f";
		b[i] = (uint8_t) ws[i % 6];
	}
	b[n + 1] = zk_any_char(" \t\r\n\v\f", "next");
	auto r = Read::from((std::byte*) b.data(), b.size());
	zk_assert(r->read_line(true).empty(), "empty line");
	zk_assert(r->tell() == n + 1, "all whitespace behind a line is skipped");
	zk_assert((uint8_t) r->read_char() == b[n + 1], "the next character is kept");
	zk_cover("end");
}

// names are compared without regard to the case of ASCII letters
namespace {
	uint8_t low(uint8_t c) { return c >= 'A' && c <= 'Z' ? (uint8_t) (c + 32) : c; }
}
HARNESS(iequals_any) {
	size_t n = zk_choice(5, "n"), m = zk_choice(5, "m");
	std::string a(n, 0), b(m, 0);
	for (auto& c : a) c = (char) (zk_any_u8("a") & 0x7f);
	for (auto& c : b) c = (char) (zk_any_u8("b") & 0x7f);
	bool want = n == m;
	for (size_t i = 0; want && i < n; ++i) want = low((uint8_t) a[i]) == low((uint8_t) b[i]);
	zk_assert(iequals(a, b) == want, "iequals ignores case and nothing else");
	zk_cover("end");
}
HARNESS(icompare_any) {
	size_t n = zk_choice(4, "n"), m = zk_choice(4, "m");
	std::string a(n, 0), b(m, 0);
	for (auto& c : a) c = (char) (zk_any_u8("a") & 0x7f);
	for (auto& c : b) c = (char) (zk_any_u8("b") & 0x7f);
	bool want = n < m;
	for (size_t i = 0; i < n && i < m; ++i) {
		auto x = low((uint8_t) a[i]), y = low((uint8_t) b[i]);
		if (x != y) {
			want = x < y;
			break;
		}
	}
	zk_assert(icompare(a, b) == want, "icompare is the lexicographic order of the lower-case texts");
	zk_cover("end");
}
