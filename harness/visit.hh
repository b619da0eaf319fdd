// Field-wise filling and comparison of structures: fill() gives a field an arbitrary value, check() compares the loaded
// field with the saved one.
#pragma once
#include "arch.hh"
#include <optional>
#include <type_traits>

struct Visit {
	Fmt fmt;
	GameVersion ver;
	bool save;
	bool filling = true;
	int strlen_ = 3;
	uint64_t enum_limit = 0;

	[[nodiscard]] bool g2() const { return ver == GameVersion::GOTHIC_2; }

	void f(bool& a, bool& b, const char* l) {
		if (filling) a = zk_any_bool(l);
		else zk_assert(a == b, l);
	}
	template <typename T>
	    requires(std::is_integral_v<T> && !std::is_same_v<T, bool>)
	void f(T& a, T& b, const char* l) {
		if (filling) {
			if constexpr (sizeof(T) == 1) a = (T) zk_any_u8(l);
			else if constexpr (sizeof(T) == 2) a = (T) zk_any_u16(l);
			else if constexpr (sizeof(T) == 4) a = (T) zk_any_u32(l);
			else a = (T) zk_any_u64(l);
		} else zk_assert(a == b, l);
	}
	template <typename T>
	    requires(std::is_enum_v<T>)
	void f(T& a, T& b, const char* l) {
		using U = std::underlying_type_t<T>;
		if (filling) a = static_cast<T>((U) (sizeof(U) == 1 ? zk_any_u8(l) : fmt.en(l)));
		else zk_assert((uint32_t) a == (uint32_t) b, l);
	}
	// enumeration or bit field restricted to [0, n)
	template <typename T>
	void lim(T& a, T& b, uint32_t n, const char* l) {
		if (filling) a = static_cast<T>(zk_range(n, l));
		else zk_assert((uint32_t) a == (uint32_t) b, l);
	}
	void f(float& a, float& b, const char* l) {
		if (filling) a = fmt.any(l);
		else zk_assert(same(fmt.fl(a), b), l);
	}
	// float stored bit-exactly in every format (inside raw blocks)
	void raw(float& a, float& b, const char* l) {
		if (filling) a = zk_any_f32(l);
		else zk_assert(same(a, b), l);
	}
	void raw(Vec3& a, Vec3& b, const char* l) {
		raw(a.x, b.x, l);
		raw(a.y, b.y, l);
		raw(a.z, b.z, l);
	}
	void f(Vec3& a, Vec3& b, const char* l) {
		f(a.x, b.x, l);
		f(a.y, b.y, l);
		f(a.z, b.z, l);
	}
	void f(Vec2& a, Vec2& b, const char* l) {
		f(a.x, b.x, l);
		f(a.y, b.y, l);
	}
	void raw(Vec2& a, Vec2& b, const char* l) {
		raw(a.x, b.x, l);
		raw(a.y, b.y, l);
	}
	void f(Mat3& a, Mat3& b, const char* l) {
		if (filling) a = any_mat3(l);
		else zk_assert(same(a, b), l);
	}
	void f(Mat4& a, Mat4& b, const char* l) {
		if (filling) {
			for (int i = 0; i < 4; ++i)
				for (int j = 0; j < 4; ++j) a[i][j] = zk_any_f32(l);
		} else zk_assert(same(a, b), l);
	}
	void f(Color& a, Color& b, const char* l) {
		if (filling) a = any_color(l);
		else zk_assert(same(a, b), l);
	}
	void f(AxisAlignedBoundingBox& a, AxisAlignedBoundingBox& b, const char* l) {
		f(a.min, b.min, l);
		f(a.max, b.max, l);
	}
	void raw(AxisAlignedBoundingBox& a, AxisAlignedBoundingBox& b, const char* l) {
		raw(a.min, b.min, l);
		raw(a.max, b.max, l);
	}
	void str(std::string& a, std::string& b, size_t n, const char* l, const char* excl = "\r\n") {
		if (filling) a = zk_str(n, l, excl);
		else {
			zk_assert(a.size() == b.size(), l);
			bool eq = true;
			for (size_t i = 0; i < a.size(); ++i) eq &= a[i] == b[i];
			zk_assert(eq, l);
		}
	}
	void f(std::string& a, std::string& b, const char* l) { str(a, b, (size_t) strlen_, l); }
	template <typename T, size_t N>
	void f(T (&a)[N], T (&b)[N], const char* l) {
		for (size_t i = 0; i < N; ++i) f(a[i], b[i], l);
	}
	template <typename T>
	void f(std::vector<T>& a, std::vector<T>& b, size_t n, const char* l) {
		if (filling) a.resize(n);
		else {
			zk_assert(a.size() == b.size(), l);
			if (a.size() != b.size()) return;
		}
		std::vector<T> dummy(filling ? n : 0);
		for (size_t i = 0; i < n; ++i) f(a[i], filling ? dummy[i] : b[i], l);
	}
};
