// Texture files as documented, and the contract of the block compression library (it touches exactly the memory its
// documentation names and returns recognisable bytes).
#pragma once
#include "mesh.hh"
#include <squish.h>
#include <zenkit/Error.hh>
#include <zenkit/Texture.hh>

static int block_bytes(int w, int h, int flags) { return ((w + 3) / 4) * ((h + 3) / 4) * (flags & squish::kDxt1 ? 8 : 16); }
static uint8_t mix(uint8_t b, int i, int flags) { return (uint8_t) (b ^ (uint8_t) (i * 5 + flags)); }
namespace squish {
	int GetStorageRequirements(int w, int h, int flags) { return block_bytes(w, h, flags); }
	void DecompressImage(u8* rgba, int w, int h, void const* blocks, int flags) {
		auto* b = static_cast<uint8_t const*>(blocks);
		auto n = block_bytes(w, h, flags);
		for (int i = 0; i < w * h * 4; ++i) rgba[i] = mix(b[i % n], i, flags);
		uint8_t last = 0;
		for (int i = 0; i < n; ++i) last = (uint8_t) (last + b[i]);
		if (w * h) rgba[0] = (uint8_t) (rgba[0] + last);
	}
	void DecompressImage(u8* rgba, int w, int h, int pitch, void const* blocks, int flags) {
		zk_assert(pitch == w * 4, "rows of the image are dense");
		DecompressImage(rgba, w, h, blocks, flags);
	}
	void CompressImage(u8 const* rgba, int w, int h, void* blocks, int flags, float*) {
		auto* b = static_cast<uint8_t*>(blocks);
		auto n = block_bytes(w, h, flags);
		uint8_t sum = 0;
		for (int i = 0; i < w * h * 4; ++i) sum = (uint8_t) (sum + rgba[i]);
		for (int i = 0; i < n; ++i) b[i] = mix(rgba[i % (w * h * 4)], i, flags);
		if (n) b[0] = (uint8_t) (b[0] + sum);
	}
	void CompressImage(u8 const* rgba, int w, int h, int pitch, void* blocks, int flags, float* m) {
		zk_assert(pitch == w * 4, "rows of the image are dense");
		CompressImage(rgba, w, h, blocks, flags, m);
	}
}
namespace {
	using TF = TextureFormat;
	struct Px {
		uint8_t r, g, b, a;
	};
	uint32_t dim(uint32_t n, uint32_t level) { return n >> level ? n >> level : 1; }
	int pixel_bytes(TF f) {
		switch (f) {
		case TF::B8G8R8A8:
		case TF::R8G8B8A8:
		case TF::A8B8G8R8:
		case TF::A8R8G8B8:
			return 4;
		case TF::B8G8R8:
		case TF::R8G8B8:
			return 3;
		case TF::A4R4G4B4:
		case TF::A1R5G5B5:
		case TF::R5G6B5:
			return 2;
		case TF::P8:
			return 1;
		default:
			return 0;
		}
	}
	int dxt(TF f) { return f == TF::DXT1 ? squish::kDxt1 : f == TF::DXT3 ? squish::kDxt3 : squish::kDxt5; }
	size_t map_bytes(TF f, uint32_t w, uint32_t h, uint32_t level) {
		uint32_t x = dim(w, level), y = dim(h, level);
		if (auto p = pixel_bytes(f)) return (size_t) x * y * (size_t) p;
		return (size_t) ((x + 3) / 4) * ((y + 3) / 4) * (f == TF::DXT1 ? 8 : 16);
	}
	// the positions of the four channels in formats with one byte per channel
	void order(TF f, int& r, int& g, int& b, int& a) {
		switch (f) {
		case TF::B8G8R8A8:
			b = 0, g = 1, r = 2, a = 3;
			break;
		case TF::R8G8B8A8:
			r = 0, g = 1, b = 2, a = 3;
			break;
		case TF::A8B8G8R8:
			a = 0, b = 1, g = 2, r = 3;
			break;
		case TF::A8R8G8B8:
			a = 0, r = 1, g = 2, b = 3;
			break;
		case TF::B8G8R8:
			b = 0, g = 1, r = 2, a = -1;
			break;
		default:
			r = 0, g = 1, b = 2, a = -1;
		}
	}
	std::vector<uint8_t> any_map(size_t n, uint32_t level) {
		std::vector<uint8_t> m(n);
		for (size_t i = 0; i < n; ++i) m[i] = n <= 64 || i < 4 || i + 5 > n ? zk_any_u8("pixel byte") : (uint8_t) (i * 37 + level);
		return m;
	}

	struct Tex {
		TF f;
		uint32_t w, h, rw, rh, avg, n;
		Px pal[256];
		std::vector<std::vector<uint8_t>> maps; // by level
	};
	Tex any_tex(TF f, uint32_t w, uint32_t h, uint32_t n) {
		Tex t {f, w, h, zk_any_u32("reference width"), zk_any_u32("reference height"), zk_any_u32("average color"), n, {}, {}};
		if (f == TF::P8)
			for (auto& p : t.pal) p = {zk_any_u8("r"), zk_any_u8("g"), zk_any_u8("b"), zk_any_u8("a")};
		for (uint32_t i = 0; i < n; ++i) t.maps.push_back(any_map(map_bytes(f, w, h, i), i));
		return t;
	}
	void write_tex(std::vector<std::byte>& buf, Tex const& t) {
		auto w = Write::to(&buf);
		w->write_string("ZTEX");
		for (auto v : {0u, (uint32_t) t.f, t.w, t.h, t.n, t.rw, t.rh, t.avg}) w->write_uint(v);
		if (t.f == TF::P8)
			for (auto& p : t.pal) {
				w->write_ubyte(p.b);
				w->write_ubyte(p.g);
				w->write_ubyte(p.r);
				w->write_ubyte(p.a);
			}
		for (uint32_t i = t.n; i-- > 0;) w->write(t.maps[i].data(), t.maps[i].size());
	}
}
