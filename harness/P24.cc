// P24: streams over files (C files, C++ streams, mapped files) behave like streams over memory.
#include "zk.hh"
#include <cstdio>
#include <sstream>
#include <zenkit/Mmap.hh>
#include <zenkit/Stream.hh>
#include <vector>
using namespace zenkit;
namespace {
	enum Kind { CFILE, CXX, PATH };
	struct Source {
		FILE* f = nullptr;
		std::istringstream* s = nullptr;
		std::unique_ptr<Read> r;
		Source(Kind k, std::string const& data) {
			if (k == CFILE) {
				f = tmpfile();
				fwrite(data.data(), 1, data.size(), f);
				rewind(f);
				r = Read::from(f);
			} else if (k == CXX) {
				s = new std::istringstream(data); // (leaked: its destructor is not under test)
				r = Read::from(s);
			} else {
				r = Read::from(std::filesystem::path(zk_host_file(data.data(), data.size())));
			}
		}
		~Source() {
			r.reset();
			if (f) fclose(f);
		}
	};
	std::string any_data(size_t n) {
		std::string d(n, 'x');
		for (auto& c : d) c = (char) zk_any_u8("data");
		return d;
	}
	void stands(Read& r, std::string const& d, size_t pos) {
		zk_assert(r.tell() == pos, "stream.position");
		zk_assert(r.eof() == (pos == d.size()), "stream.end");
		zk_assert(r.tell() == pos, "stream.position.after.asking");
	}
	void step(Read& r, std::string const& d, size_t& pos) {
		auto n = d.size();
		auto what = zk_choice(4, "operation");
		if (what == 0) {
			char b[10];
			memset(b, '?', sizeof b);
			auto len = zk_choice((uint32_t) n + 3, "length");
			auto got = r.read(b, len);
			auto want = len < n - pos ? len : n - pos;
			zk_assert(got == want, "read.count");
			for (size_t i = 0; i < sizeof b; ++i) zk_assert(b[i] == (i < want ? d[pos + i] : '?'), "read.bytes");
			pos += want;
		} else {
			auto to = zk_choice((uint32_t) n + 1, "target");
			if (what == 1) r.seek((ssize_t) to, Whence::BEG);
			if (what == 2) r.seek((ssize_t) to - (ssize_t) pos, Whence::CUR);
			if (what == 3) r.seek((ssize_t) to - (ssize_t) n, Whence::END);
			pos = to;
		}
	}
	void reading(Kind k, uint32_t steps) {
		auto d = any_data(zk_choice(4, "size"));
		{
			Source s(k, d);
			size_t pos = 0;
			stands(*s.r, d, pos);
			for (uint32_t i = 0; i < steps; ++i) {
				step(*s.r, d, pos);
				if (zk_choice(2, "look")) stands(*s.r, d, pos);
			}
			stands(*s.r, d, pos);
		}
		zk_assert(zk_host_open() == 0, "files.released");
		zk_cover("end");
	}
	// values cut off by the end, lines without their end, and everything works afterwards
	void typed(Kind k) {
		auto n = zk_choice(6, "size");
		std::string d(n, 'x');
		for (auto& c : d) c = (char) zk_any_char("\r\n", "data");
		auto v = Read::from(reinterpret_cast<std::byte const*>(d.data()), d.size());
		Source s(k, d);
		auto what = zk_choice(4, "operation");
		if (what == 0) zk_assert(s.r->read_uint() == v->read_uint(), "value.cut.off");
		if (what == 1) zk_assert(s.r->read_line(false) == v->read_line(false), "line.without.end");
		if (what == 2) zk_assert(s.r->read_line(true) == v->read_line(true), "line.without.end");
		if (what == 3) {
			auto a = s.r->read_string(4), b = v->read_string(4);
			zk_assert(a == b, "text.cut.off");
		}
		stands(*s.r, d, v->tell());
		s.r->seek(0, Whence::BEG);
		stands(*s.r, d, 0);
		if (n) zk_assert(s.r->read_ubyte() == (uint8_t) d[0], "value.after.the.end");
		zk_cover("end");
	}
	void lines(Kind k) {
		static char const* const T[] = {"a\nb\n", "a\r\nb", "\n", "", "a\n\n b", "ab\n \t"};
		std::string d = T[zk_choice(6, "text")];
		auto v = Read::from(reinterpret_cast<std::byte const*>(d.data()), d.size());
		Source s(k, d);
		auto skip = zk_choice(2, "skip") == 1;
		for (int i = 0; i < 6 && !v->eof(); ++i) {
			zk_assert(!s.r->eof(), "lines.end");
			zk_assert(s.r->read_line(skip) == v->read_line(skip), "lines.text");
			zk_assert(s.r->tell() == v->tell(), "lines.position");
		}
		zk_assert(s.r->eof(), "lines.end");
		zk_cover("end");
	}
	void writing(Kind k, uint32_t steps) {
		std::string want;
		size_t pos = 0;
		FILE* f = k == CFILE ? tmpfile() : nullptr;
		std::ostringstream* o = k == CXX ? new std::ostringstream : nullptr;
		{
			auto w = f ? Write::to(f) : Write::to(o);
			for (uint32_t i = 0; i < steps; ++i) {
				auto what = zk_choice(4, "operation");
				if (what == 0) {
					auto d = any_data(zk_choice(3, "length"));
					zk_assert(w->write(d.data(), d.size()) == d.size(), "write.count");
					if (want.size() < pos + d.size()) want.resize(pos + d.size());
					for (size_t j = 0; j < d.size(); ++j) want[pos + j] = d[j];
					pos += d.size();
				} else {
					auto to = zk_choice((uint32_t) want.size() + 1, "target");
					if (what == 1) w->seek((ssize_t) to, Whence::BEG);
					if (what == 2) w->seek((ssize_t) to - (ssize_t) pos, Whence::CUR);
					if (what == 3) w->seek((ssize_t) to - (ssize_t) want.size(), Whence::END);
					pos = to;
				}
				zk_assert(w->tell() == pos, "write.position");
			}
		}
		if (f) {
			std::string got(want.size() + 1, '?');
			rewind(f);
			zk_assert(fread(got.data(), 1, got.size(), f) == want.size(), "written.size");
			for (size_t i = 0; i < want.size(); ++i) zk_assert(got[i] == want[i], "written.bytes");
			fclose(f);
		} else {
			auto got = o->str();
			zk_assert(got.size() == want.size(), "written.size");
			for (size_t i = 0; i < want.size() && i < got.size(); ++i) zk_assert(got[i] == want[i], "written.bytes");
		}
		zk_cover("end");
	}
}
HARNESS(read_file) { reading(CFILE, 2); }
HARNESS(read_stream) { reading(CXX, 2); }
HARNESS(read_mapped) { reading(PATH, 2); }
HARNESS(typed_file) { typed(CFILE); }
HARNESS(typed_stream) { typed(CXX); }
HARNESS(typed_mapped) { typed(PATH); }
HARNESS(lines_file) { lines(CFILE); }
HARNESS(lines_stream) { lines(CXX); }
HARNESS(lines_mapped) { lines(PATH); }
HARNESS(write_file) { writing(CFILE, 3); }
HARNESS(write_stream) { writing(CXX, 3); }

// positions beyond 16 and 32 bits
HARNESS(far_file_read) {
	Source s(CFILE, "abc");
	auto off = zk_any_u64("offset"), more = zk_any_u64("more");
	zk_assume(off <= 1ull << 40 && more <= 1ull << 40);
	s.r->seek((ssize_t) off, Whence::BEG);
	zk_assert(s.r->tell() == off, "far.position");
	s.r->seek((ssize_t) more, Whence::CUR);
	zk_assert(s.r->tell() == off + more, "far.position");
	s.r->seek(-(ssize_t) more, Whence::CUR);
	zk_assert(s.r->tell() == off, "far.position");
	s.r->seek((ssize_t) more, Whence::END);
	zk_assert(s.r->tell() == more + 3, "far.position");
	s.r->seek(1, Whence::BEG);
	zk_assert(s.r->read_char() == 'b', "far.back");
	zk_cover("end");
}
HARNESS(far_file_write) {
	auto* f = tmpfile();
	{
		auto w = Write::to(f);
		w->write("abc", 3);
		auto off = zk_any_u64("offset"), more = zk_any_u64("more");
		zk_assume(off <= 1ull << 40 && more <= 1ull << 40);
		w->seek((ssize_t) off, Whence::BEG);
		zk_assert(w->tell() == off, "far.position");
		w->seek((ssize_t) more, Whence::CUR);
		zk_assert(w->tell() == off + more, "far.position");
		w->seek((ssize_t) more, Whence::END);
		zk_assert(w->tell() == more + 3, "far.position");
	}
	fclose(f);
	zk_cover("end");
}
HARNESS(far_stream_read) {
	static size_t const places[] = {255, 256, 65535, 65536, 69998};
	std::string d(70000, 'a');
	for (auto p : places) d[p] = (char) zk_any_u8("data");
	Source s(zk_choice(2, "kind") ? CXX : PATH, d);
	auto p = places[zk_choice(5, "place")];
	auto how = zk_choice(4, "how");
	if (how == 0) s.r->seek((ssize_t) p, Whence::BEG);
	if (how == 1) s.r->seek((ssize_t) p, Whence::CUR);
	if (how == 2) s.r->seek((ssize_t) p - (ssize_t) d.size(), Whence::END);
	if (how == 3) {
		std::string b(p, 'b');
		zk_assert(s.r->read(b.data(), p) == p && b[0] == 'a' && b[p - 1] == d[p - 1], "far.read");
	}
	zk_assert(s.r->tell() == p && !s.r->eof(), "far.position");
	zk_assert(s.r->read_char() == d[p], "far.bytes");
	s.r->seek(0, Whence::END);
	zk_assert(s.r->tell() == 70000 && s.r->eof(), "far.position");
	zk_cover("end");
}
HARNESS(far_stream_write) {
	std::string d(70000, 'a');
	auto* o = new std::ostringstream;
	auto w = Write::to(o);
	d[65535] = (char) zk_any_u8("data"), d[65536] = (char) zk_any_u8("data");
	zk_assert(w->write(d.data(), d.size()) == d.size() && w->tell() == 70000, "far.position");
	w->seek(-70000 + 65537, Whence::CUR);
	zk_assert(w->tell() == 65537, "far.position");
	w->write("bc", 2);
	w->seek(-1, Whence::END);
	zk_assert(w->tell() == 69999, "far.position");
	w->write("z", 1);
	auto got = o->str();
	zk_assert(got.size() == d.size(), "written.size");
	zk_assert(got[65535] == d[65535] && got[65536] == d[65536] && got[65537] == 'b' && got[65538] == 'c' && got[65539] == 'a' && got[69998] == 'a' && got[69999] == 'z', "written.bytes");
	zk_cover("end");
}

// what can not be mapped is refused, and nothing stays open
HARNESS(mapped_refused) {
	auto k = zk_choice(2, "path");
	bool refused = false;
	try {
		auto r = Read::from(std::filesystem::path(k ? std::string(zk_host_dir()) : std::string(zk_host_dir()) + "/none"));
		(void) r->read_ubyte();
	} catch (std::exception&) {
		refused = true;
	}
	zk_assert(refused, "mapping.refused");
	zk_assert(zk_host_open() == 0, "files.released");
	zk_cover("end");
}
// a mapping moves with its owner and is released once, by the last one
HARNESS(mapping_moves) {
	auto d = any_data(zk_choice(4, "size"));
	{
		Mmap a {std::filesystem::path(zk_host_file(d.data(), d.size()))};
		zk_assert(a.size() == d.size(), "mapping.size");
		{
			Mmap b {std::move(a)};
			zk_assert(b.size() == d.size() && a.size() == 0, "mapping.moved");
			for (size_t i = 0; i < d.size(); ++i) zk_assert((char) b.data()[i] == d[i], "mapping.bytes");
		}
		zk_assert(zk_host_open() == 0, "mapping.released");
	}
	zk_assert(zk_host_open() == 0, "mapping.released");
	zk_cover("end");
}
