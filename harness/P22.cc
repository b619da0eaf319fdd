// P22: a texture exported as DDS: the header describes the pixels as the library itself decodes them, and palette and
// levels follow, largest first.
#include "tex.hh"
#include <zenkit/addon/texcvt.hh>
namespace {
	uint32_t u32(std::vector<std::byte> const& d, size_t at) {
		return (uint32_t) d[at] | (uint32_t) d[at + 1] << 8 | (uint32_t) d[at + 2] << 16 | (uint32_t) d[at + 3] << 24;
	}
	bool zero(std::vector<std::byte> const& d, size_t from, size_t to) {
		for (; from < to; from += 4)
			if (u32(d, from)) return false;
		return true;
	}
	Texture loaded(Tex const& t) {
		std::vector<std::byte> buf;
		write_tex(buf, t);
		auto r = Read::from(&buf);
		Texture x;
		x.load(r.get());
		return x;
	}
	// a channel of a pixel, taken out by its mask and scaled to 8 bits; -1 if the mask is empty
	int channel(uint32_t px, uint32_t mask) {
		if (!mask) return -1;
		while (!(mask & 1)) mask >>= 1, px >>= 1;
		return (int) ((px & mask) * 255 / mask);
	}
	bool near1(int x, int y) { return x - y <= 1 && y - x <= 1; }

	void dds(TF f, uint32_t w, uint32_t h, uint32_t n) {
		auto t = any_tex(f, w, h, n);
		auto x = loaded(t);
		auto d = to_dds(x);
		size_t size = 128 + (f == TF::P8 ? 1024 : 0);
		for (auto& m : t.maps) size += m.size();
		zk_assert(d.size() == size, "dds.size");
		if (d.size() != size) return;

		zk_assert(u32(d, 0) == 0x20534444 && u32(d, 4) == 124, "dds.signature");
		auto flags = u32(d, 8);
		bool block = !pixel_bytes(f);
		uint32_t want = 0x1007u | (block ? 0x80000u : 0x8u);
		if (n > 1) want |= 0x20000;
		zk_assert(flags == want, "dds.flags");
		zk_assert(u32(d, 12) == h && u32(d, 16) == w, "dds.dimensions");
		zk_assert(u32(d, 20) == (block ? (uint32_t) map_bytes(f, w, h, 0) : w * (uint32_t) pixel_bytes(f)), "dds.pitch");
		zk_assert(u32(d, 24) == 0, "dds.depth");
		zk_assert(u32(d, 28) == n || (n == 1 && u32(d, 28) == 0), "dds.levels");
		zk_assert(zero(d, 32, 76) && zero(d, 112, 128), "dds.reserved");
		zk_assert(u32(d, 76) == 32, "dds.pixel-format-size");
		zk_assert(u32(d, 108) == (n > 1 ? 0x401008u : 0x1000u), "dds.caps");
		auto pf = u32(d, 80), code = u32(d, 84), bits = u32(d, 88);
		auto rm = u32(d, 92), gm = u32(d, 96), bm = u32(d, 100), am = u32(d, 104);
		if (block) {
			zk_assert(pf == 4, "dds.pixel-format");
			zk_assert(code == (0x30545844u | ((uint32_t) f - (uint32_t) TF::DXT1 + 1) << 24), "dds.compression");
		} else if (f == TF::P8) {
			zk_assert(pf == 0x20 && bits == 8, "dds.pixel-format");
		} else {
			bool alpha = pixel_bytes(f) == 4 || f == TF::A4R4G4B4 || f == TF::A1R5G5B5;
			zk_assert(pf == (alpha ? 0x41u : 0x40u), "dds.pixel-format");
			zk_assert(bits == (uint32_t) pixel_bytes(f) * 8, "dds.pixel-bits");
			zk_assert(alpha ? am != 0 : am == 0, "dds.alpha-mask");
			zk_assert(!(rm & gm) && !(rm & bm) && !(gm & bm) && !((rm | gm | bm) & am), "dds.masks-disjoint");
			if (f == TF::A1R5G5B5) zk_assert(rm == 0x7C00 && gm == 0x3E0 && bm == 0x1F && am == 0x8000, "dds.masks");
		}

		size_t at = 128;
		if (f == TF::P8) {
			for (size_t i = 0; i < 256; ++i, at += 4) {
				zk_assert(u32(d, at) == ((uint32_t) t.pal[i].r | (uint32_t) t.pal[i].g << 8 | (uint32_t) t.pal[i].b << 16 | (uint32_t) t.pal[i].a << 24), "dds.palette");
			}
		}
		for (uint32_t l = 0; l < n; ++l) {
			bool eq = true;
			for (size_t i = 0; i < t.maps[l].size(); ++i) eq &= (uint8_t) d[at + i] == t.maps[l][i];
			zk_assert(eq, "dds.level");
			// read by the masks of the header, every pixel has the color the library decodes
			if (!block && f != TF::P8 && f != TF::A1R5G5B5) {
				auto rgba = x.as_rgba8(l);
				size_t pb = (size_t) pixel_bytes(f), k = t.maps[l].size() / pb;
				for (size_t i = 0; i < k; ++i) {
					uint32_t px = 0;
					for (size_t b = 0; b < pb; ++b) px |= (uint32_t) (uint8_t) d[at + i * pb + b] << (8 * b);
					zk_assert(near1(channel(px, rm), rgba[i * 4]), "dds.red");
					zk_assert(near1(channel(px, gm), rgba[i * 4 + 1]), "dds.green");
					zk_assert(near1(channel(px, bm), rgba[i * 4 + 2]), "dds.blue");
					if (am) zk_assert(channel(px, am) == rgba[i * 4 + 3], "dds.alpha");
				}
			}
			at += t.maps[l].size();
		}
		zk_cover("end");
	}
}
HARNESS(dds_32) { dds((TF) zk_choice(4, "format"), 2, 2, 1 + zk_choice(2, "levels")); }
HARNESS(dds_24) { dds((TF) (4 + zk_choice(2, "format")), 2, 2, 1 + zk_choice(2, "levels")); }
HARNESS(dds_16) { dds((TF) (6 + zk_choice(3, "format")), 2, 2, 1 + zk_choice(2, "levels")); }
HARNESS(dds_palette) { dds(TF::P8, 2, 2, 1 + zk_choice(2, "levels")); }
HARNESS(dds_blocks) { dds((TF) (10 + zk_choice(5, "format")), 8, 4, 1 + zk_choice(3, "levels")); }
HARNESS(dds_shapes) {
	auto w = 1u << zk_choice(4, "width"), h = 1u << zk_choice(4, "height");
	auto m = w > h ? w : h;
	uint32_t n = 1;
	while (m >>= 1) ++n;
	static TF const F[] = {TF::R8G8B8A8, TF::R8G8B8, TF::R5G6B5, TF::DXT1, TF::DXT5};
	dds(F[zk_choice(5, "format")], w, h, n);
}
