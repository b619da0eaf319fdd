// P13: textures: header, palette and mipmaps survive saving, and pixel formats are converted channel by channel.
#include "tex.hh"
namespace {
	void check_tex(Texture const& x, Tex const& t) {
		zk_assert(x.format() == t.f, "format");
		zk_assert(x.width() == t.w && x.height() == t.h, "size");
		zk_assert(x.ref_width() == t.rw && x.ref_height() == t.rh, "reference size");
		zk_assert(x.average_color() == t.avg, "average color");
		zk_assert(x.mipmaps() == t.n, "number of mipmaps");
		if (t.f == TF::P8)
			for (int i = 0; i < 256; ++i) {
				auto& p = x.palette()[i];
				zk_assert(p.r == t.pal[i].r && p.g == t.pal[i].g && p.b == t.pal[i].b && p.a == t.pal[i].a, "palette entry");
			}
		for (uint32_t i = 0; i < t.n; ++i) {
			zk_assert(x.mipmap_width(i) == dim(t.w, i) && x.mipmap_height(i) == dim(t.h, i), "size of a mipmap");
			auto& d = x.data(i);
			zk_assert(d.size() == t.maps[i].size(), "bytes of a mipmap");
			if (d.size() != t.maps[i].size()) return;
			bool eq = true;
			for (size_t k = 0; k < d.size(); ++k) eq &= d[k] == t.maps[i][k];
			zk_assert(eq, "content of a mipmap");
		}
	}
	// the pixels of one level as red, green, blue, alpha
	bool near(int x, int want) { return x - want <= 1 && want - x <= 1; }
	void check_rgba(std::vector<uint8_t> const& c, std::vector<uint8_t> const& raw, TF f, uint32_t w, uint32_t h, Px const* pal) {
		zk_assert(c.size() == (size_t) w * h * 4, "four bytes per pixel");
		if (c.size() != (size_t) w * h * 4) return;
		if (!pixel_bytes(f)) {
			std::vector<uint8_t> want(c.size());
			squish::DecompressImage(want.data(), (int) w, (int) h, raw.data(), dxt(f));
			bool eq = true;
			for (size_t i = 0; i < c.size(); ++i) eq &= c[i] == want[i];
			zk_assert(eq, "decompressed blocks");
			return;
		}
		for (size_t i = 0; i < (size_t) w * h; ++i) {
			auto *p = &c[i * 4], *q = &raw[i * (size_t) pixel_bytes(f)];
			if (f == TF::P8) {
				auto& e = pal[*q];
				zk_assert(p[0] == e.r && p[1] == e.g && p[2] == e.b && p[3] == e.a, "color from the palette");
			} else if (pixel_bytes(f) == 2) {
				unsigned v = q[0] | (unsigned) q[1] << 8;
				if (f == TF::R5G6B5) {
					// full range: 0 is 0, the largest value is 255, everything between in proportion
					int r = (int) (v >> 11), g = (int) (v >> 5 & 63), b = (int) (v & 31);
					zk_assert(near(p[0], r * 255 / 31) && near(p[1], g * 255 / 63) && near(p[2], b * 255 / 31) && p[3] == 255, "color of a 5-6-5 pixel");
					zk_assert((r != 0 || p[0] == 0) && (r != 31 || p[0] == 255), "black and white of red");
					zk_assert((g != 0 || p[1] == 0) && (g != 63 || p[1] == 255), "black and white of green");
					zk_assert((b != 0 || p[2] == 0) && (b != 31 || p[2] == 255), "black and white of blue");
				} else {
					zk_assert(p[3] == (v >> 12) * 17 && p[0] == (v >> 8 & 15) * 17 && p[1] == (v >> 4 & 15) * 17 && p[2] == (v & 15) * 17, "color of a 4-4-4-4 pixel");
				}
			} else {
				int r, g, b, a;
				order(f, r, g, b, a);
				zk_assert(p[0] == q[r] && p[1] == q[g] && p[2] == q[b], "color of a pixel");
				zk_assert(p[3] == (a < 0 ? 255 : q[a]), "opacity of a pixel");
			}
		}
	}
	void load_save(TF f, uint32_t w, uint32_t h, uint32_t n) {
		auto t = any_tex(f, w, h, n);
		std::vector<std::byte> buf;
		write_tex(buf, t);
		auto size = buf.size();
		buf.push_back(std::byte {77});
		auto r = Read::from(&buf);
		Texture x;
		x.load(r.get());
		zk_assert(r->tell() == size, "reader stands right behind the texture");
		check_tex(x, t);
		std::vector<std::byte> again;
		auto o = Write::to(&again);
		x.save(o.get());
		zk_assert(again.size() == size, "as many bytes are saved as were loaded");
		bool eq = again.size() == size;
		for (size_t i = 0; i < size && eq; ++i) eq &= again[i] == buf[i];
		zk_assert(eq, "the bytes saved are those that were loaded");
		zk_cover("end");
	}
	void decode(TF f, uint32_t w, uint32_t h, uint32_t n, bool all) {
		auto t = any_tex(f, w, h, n);
		std::vector<std::byte> buf;
		write_tex(buf, t);
		auto r = Read::from(&buf);
		Texture x;
		x.load(r.get());
		for (uint32_t i = 0; i < n; ++i) {
			if (!all && i + 1 < n) continue;
			check_rgba(x.as_rgba8(i), t.maps[i], f, dim(w, i), dim(h, i), t.pal);
		}
		zk_cover("end");
	}
	// the builder converts what it is given; a format with all channels loses nothing
	void build(TF from, TF into, uint32_t w, uint32_t h, uint32_t n) {
		TextureBuilder tb {w, h};
		std::vector<std::vector<uint8_t>> maps;
		for (uint32_t i = 0; i < n; ++i) {
			maps.push_back(any_map(map_bytes(from, w, h, i), i));
			tb.add_mipmap(maps.back(), from);
		}
		auto x = tb.build(into);
		zk_assert(x.format() == into && x.width() == w && x.height() == h && x.mipmaps() == n, "built texture");
		zk_assert(x.ref_width() == w && x.ref_height() == h, "reference size of a built texture");
		for (uint32_t i = 0; i < n; ++i) {
			auto lw = dim(w, i), lh = dim(h, i);
			auto& d = x.data(i);
			zk_assert(d.size() == map_bytes(into, w, h, i), "bytes of a built mipmap");
			if (d.size() != map_bytes(into, w, h, i)) return;
			if (from == into) {
				bool eq = true;
				for (size_t k = 0; k < d.size(); ++k) eq &= d[k] == maps[i][k];
				zk_assert(eq, "content of a built mipmap");
				continue;
			}
			// what the source's pixels are
			std::vector<Px> px((size_t) lw * lh);
			std::vector<uint8_t> flat(px.size() * 4);
			if (!pixel_bytes(from)) squish::DecompressImage(flat.data(), (int) lw, (int) lh, maps[i].data(), dxt(from));
			for (size_t k = 0; k < px.size(); ++k) {
				auto* q = &maps[i][pixel_bytes(from) ? k * (size_t) pixel_bytes(from) : 0];
				if (!pixel_bytes(from)) px[k] = {flat[4 * k], flat[4 * k + 1], flat[4 * k + 2], flat[4 * k + 3]};
				else if (from == TF::A4R4G4B4) px[k] = {(uint8_t) ((q[1] & 15) * 17), (uint8_t) ((q[0] >> 4) * 17), (uint8_t) ((q[0] & 15) * 17), (uint8_t) ((q[1] >> 4) * 17)};
				else {
					int r, g, b, a;
					order(from, r, g, b, a);
					px[k] = {q[r], q[g], q[b], a < 0 ? (uint8_t) 255 : q[a]};
				}
				flat[4 * k] = px[k].r, flat[4 * k + 1] = px[k].g, flat[4 * k + 2] = px[k].b, flat[4 * k + 3] = px[k].a;
			}
			if (!pixel_bytes(into)) {
				std::vector<uint8_t> want(d.size());
				squish::CompressImage(flat.data(), (int) lw, (int) lh, want.data(), dxt(into));
				bool eq = true;
				for (size_t k = 0; k < d.size(); ++k) eq &= d[k] == want[k];
				zk_assert(eq, "compressed blocks");
				continue;
			}
			for (size_t k = 0; k < px.size(); ++k) {
				auto* q = &d[k * (size_t) pixel_bytes(into)];
				if (into == TF::R5G6B5) {
					unsigned v = q[0] | (unsigned) q[1] << 8;
					int r = (int) (v >> 11), g = (int) (v >> 5 & 63), b = (int) (v & 31);
					// a neighbouring representable value, extremes exactly
					auto ok = [](int lo, int top, uint8_t x) {
						int e = lo * 255 - x * top;
						return e > -255 && e < 255 && (x != 0 || lo == 0) && (x != 255 || lo == top);
					};
					zk_assert(ok(r, 31, px[k].r) && ok(g, 63, px[k].g) && ok(b, 31, px[k].b), "color reduced to 5-6-5");
				} else {
					int r, g, b, a;
					order(into, r, g, b, a);
					zk_assert(q[r] == px[k].r && q[g] == px[k].g && q[b] == px[k].b, "converted color");
					zk_assert(a < 0 || q[a] == px[k].a, "converted opacity");
				}
			}
		}
		zk_cover("end");
	}
	constexpr TF LOADABLE[] = {TF::B8G8R8A8, TF::R8G8B8A8, TF::A8B8G8R8, TF::A8R8G8B8, TF::B8G8R8, TF::R8G8B8, TF::A4R4G4B4, TF::A1R5G5B5, TF::R5G6B5, TF::P8, TF::DXT1, TF::DXT2, TF::DXT3, TF::DXT4, TF::DXT5};
	constexpr TF DECODABLE[] = {TF::B8G8R8A8, TF::R8G8B8A8, TF::A8B8G8R8, TF::A8R8G8B8, TF::B8G8R8, TF::R8G8B8, TF::A4R4G4B4, TF::DXT1, TF::DXT3, TF::DXT5, TF::P8};
	constexpr TF SOURCES[] = {TF::B8G8R8A8, TF::R8G8B8A8, TF::A8B8G8R8, TF::A8R8G8B8, TF::B8G8R8, TF::R8G8B8, TF::A4R4G4B4, TF::DXT1, TF::DXT3, TF::DXT5};
	constexpr TF TARGETS[] = {TF::B8G8R8A8, TF::R8G8B8A8, TF::A8B8G8R8, TF::A8R8G8B8, TF::B8G8R8, TF::R8G8B8, TF::R5G6B5, TF::DXT1, TF::DXT3, TF::DXT5};
}
HARNESS(file_one) { load_save(LOADABLE[zk_choice(15, "format")], 4, 4, 1); }
HARNESS(file_levels) { load_save(LOADABLE[zk_choice(15, "format")], 8, 4, 4); }
HARNESS(file_tall) { load_save(LOADABLE[zk_choice(15, "format")], 1, 8, 2); }
HARNESS(file_large) { load_save(zk_choice(2, "format") ? TF::DXT1 : TF::R8G8B8, 64, 32, 3); }
HARNESS(file_many_levels) { load_save(zk_choice(2, "format") ? TF::DXT1 : TF::R5G6B5, 2048, 1, 12); }
HARNESS(file_no_mipmaps) {
	// a stored count of zero means that there is just the image itself
	auto t = any_tex(TF::R8G8B8A8, 2, 2, 1);
	std::vector<std::byte> buf;
	write_tex(buf, t);
	auto w = Write::to(&buf);
	w->seek(20, Whence::BEG);
	w->write_uint(0);
	auto r = Read::from(&buf);
	Texture x;
	x.load(r.get());
	check_tex(x, t);
	zk_cover("end");
}
HARNESS(file_foreign) {
	// other signatures and versions are refused
	auto t = any_tex(TF::R8G8B8A8, 1, 1, 1);
	std::vector<std::byte> buf;
	write_tex(buf, t);
	auto at = zk_choice(8, "at");
	auto b = zk_any_u8("byte");
	zk_assume(std::byte {b} != buf[at]);
	buf[at] = std::byte {b};
	auto r = Read::from(&buf);
	Texture x;
	bool refused = false;
	try {
		x.load(r.get());
	} catch (ParserError const&) {
		refused = true;
	}
	zk_assert(refused, "a file of another kind is refused");
	zk_cover("end");
}
HARNESS(decode_small) { decode(DECODABLE[zk_choice(10, "format")], 4, 2, 1, true); }
HARNESS(decode_levels) { decode(DECODABLE[zk_choice(10, "format")], 8, 4, 4, true); }
HARNESS(decode_palette) { decode(TF::P8, 1, 2, 3, true); }
HARNESS(decode_565) {
	zk_opt("fp_exact");
	decode(TF::R5G6B5, 1, 1, 1, true);
}
HARNESS(decode_565_many) {
	// every channel value once
	for (unsigned g = 0; g < 64; ++g) {
		std::vector<std::byte> buf;
		Tex t {TF::R5G6B5, 1, 1, 1, 1, 0, 1, {}, {{(uint8_t) ((g << 5 | g / 2)), (uint8_t) ((g << 5 | (g / 2) << 11 | g / 2) >> 8)}}};
		write_tex(buf, t);
		auto r = Read::from(&buf);
		Texture x;
		x.load(r.get());
		check_rgba(x.as_rgba8(0), t.maps[0], TF::R5G6B5, 1, 1, t.pal);
	}
	zk_cover("end");
}
HARNESS(build_pairs) {
	auto from = SOURCES[zk_choice(10, "from")], into = TARGETS[zk_choice(10, "into")];
	zk_assume(into != TF::R5G6B5);
	build(from, into, 4, 2, 1);
}
HARNESS(build_levels) { build(SOURCES[zk_choice(10, "from")], zk_choice(2, "into") ? TF::R8G8B8A8 : TF::DXT1, 8, 2, 4); }
HARNESS(build_blocks) { build(zk_choice(2, "from") ? TF::R8G8B8A8 : TF::B8G8R8, TARGETS[7 + zk_choice(3, "into")], 8, 8, 2); }
HARNESS(build_identity) {
	auto f = LOADABLE[zk_choice(9, "format")];
	build(f, f, 4, 2, 3);
}
HARNESS(build_565_values) {
	// every value of every channel
	for (int i = 0; i < 256; ++i) {
		TextureBuilder tb {1, 1};
		uint8_t px[4] = {(uint8_t) i, (uint8_t) (255 - i), (uint8_t) (i * 3), 9};
		tb.add_mipmap({px[0], px[1], px[2], px[3]}, TF::R8G8B8A8);
		auto x = tb.build(TF::R5G6B5);
		auto& d = x.data(0);
		zk_assert(d.size() == 2, "bytes of a 5-6-5 pixel");
		unsigned v = d[0] | (unsigned) d[1] << 8;
		int c[3] = {(int) (v >> 11), (int) (v >> 5 & 63), (int) (v & 31)};
		for (int k = 0; k < 3; ++k) {
			int top = k == 1 ? 63 : 31, e = c[k] * 255 - px[k] * top;
			zk_assert(e > -255 && e < 255, "channel reduced to the nearest smaller or larger value");
			zk_assert((px[k] != 0 || c[k] == 0) && (px[k] != 255 || c[k] == top), "extremes stay extremes");
		}
	}
	zk_cover("end");
}
HARNESS(build_565_back) {
	// 5-6-5 colors survive the way through 8 bits per channel
	for (unsigned g = 0; g < 64; ++g) {
		unsigned v = g << 5 | g / 2 | (31 - g / 2) << 11;
		TextureBuilder tb {1, 1};
		tb.add_mipmap({(uint8_t) v, (uint8_t) (v >> 8)}, TF::R5G6B5);
		auto x = tb.build(TF::R8G8B8A8);
		TextureBuilder tc {1, 1};
		tc.add_mipmap(x.data(0), TF::R8G8B8A8);
		auto y = tc.build(TF::R5G6B5);
		zk_assert(y.data(0).size() == 2 && (y.data(0)[0] | (unsigned) y.data(0)[1] << 8) == v, "color before and after");
	}
	zk_cover("end");
}
HARNESS(build_refused) {
	// a mipmap of the wrong size is refused, and so is building color-indexed textures
	auto f = LOADABLE[zk_choice(15, "format")];
	auto have = zk_choice(3, "size");
	auto want = map_bytes(f, 4, 4, 0);
	TextureBuilder tb {4, 4};
	bool refused = false;
	try {
		tb.add_mipmap(std::vector<uint8_t>(want + have - 1), f);
	} catch (InvalidMipmapSize const&) {
		refused = true;
	}
	zk_assert(refused == (have != 1), "exactly mipmaps of the wrong size are refused");
	refused = false;
	try {
		(void) tb.build(TF::P8);
	} catch (UnsupportedFormatError const&) {
		refused = true;
	}
	zk_assert(refused, "color-indexed textures cannot be built");
	zk_cover("end");
}
