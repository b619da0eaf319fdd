// P23: the known script classes: every member a script declares is bound to the field of the same name.
#include "dat.hh"
#include <cstddef>
#include <zenkit/addon/daedalus.hh>
#undef var
#undef string
#undef func
#undef FLAG
namespace {
	struct M {
		char const* name;
		T type;
		uint16_t count;
		size_t at;
		bool opt;
	};
	template <typename F> T type_of() {
		using E = std::remove_extent_t<F>;
		if constexpr (std::is_same_v<E, std::string>) return T::STRING;
		else if constexpr (std::is_same_v<E, float>) return T::FLOAT;
		else {
			static_assert(sizeof(E) == 4 && (std::is_same_v<E, int32_t> || std::is_enum_v<E>));
			return T::INT;
		}
	}
	template <typename F> uint16_t count_of() {
		if constexpr (std::is_array_v<F>) return (uint16_t) std::extent_v<F>;
		else return 1;
	}
	std::string text(size_t i) { return {(char) ('a' + i / 20), (char) ('a' + i % 20)}; }
	template <typename K> void check_class(char const* name, std::vector<M> const& ms, bool full) {
		bool base_members = false;
		for (auto& m : ms) base_members |= !m.opt;
		auto left_out = [&](size_t i) { return ms[i].opt && !full && (base_members || i % 2); };
		Dat d;
		d.code.op(Op::RSR).op(Op::RSR);
		Sym c {name, T::CLASS};
		c.count = 0;
		auto cls = d.add(c);
		std::vector<uint32_t> at(ms.size());
		for (size_t i = 0; i < ms.size(); ++i) {
			if (left_out(i)) continue;
			Sym s {std::string(name) + "." + ms[i].name, ms[i].type, MEMBER, ms[i].count, 0};
			s.parent = (int32_t) cls;
			at[i] = d.add(s);
			d.syms[cls].count++;
		}
		auto inst = d.var("INST", T::INSTANCE, 1, CONST);
		d.syms[inst].parent = (int32_t) cls;
		auto& v = vm_for(d);
		register_all_script_classes(v);
		auto p = v.allocate_instance<K>(v.at(inst));
		auto* fields = reinterpret_cast<std::byte*>(p.get());
		// write everything the script can name ...
		std::vector<uint32_t> first(ms.size()), last(ms.size());
		for (size_t i = 0; i < ms.size(); ++i) {
			auto& m = ms[i];
			if (left_out(i)) continue;
			auto n = (uint16_t) (m.count - 1);
			auto* s = v.at(at[i]);
			if (m.type == T::STRING) {
				s->set_string(text(i), 0, p.get());
				if (n) s->set_string(text(i) + ".", n, p.get());
				continue;
			}
			first[i] = zk_any_u32("value"), last[i] = zk_any_u32("last value");
			if (m.type == T::INT) {
				s->set_int((int32_t) first[i], 0, p.get());
				if (n) s->set_int((int32_t) last[i], n, p.get());
			} else {
				s->set_float(zk_f32(first[i]), 0, p.get());
				if (n) s->set_float(zk_f32(last[i]), n, p.get());
			}
		}
		// ... and find it in the field of that name, still there after all the others were written
		for (size_t i = 0; i < ms.size(); ++i) {
			auto& m = ms[i];
			if (left_out(i)) continue;
			auto n = (size_t) (m.count - 1);
			if (m.type == T::STRING) {
				auto* f = reinterpret_cast<std::string*>(fields + m.at);
				zk_assert(f[0] == text(i), "member.text");
				if (n) zk_assert(f[n] == text(i) + ".", "member.last.text");
				zk_assert(v.at(at[i])->get_string(0, p.get()) == f[0], "member.text.read");
			} else {
				auto* f = reinterpret_cast<uint32_t*>(fields + m.at);
				zk_assert(f[0] == first[i], "member.value");
				if (n) zk_assert(f[n] == last[i], "member.last.value");
			}
		}
		zk_cover("end");
	}
	bool any_full() { return zk_choice(2, "members of later games") == 1; }
}
#define CLASS(C, N)                                                                                                    \
	HARNESS(class_##C) {                                                                                               \
		using K = C;                                                                                                   \
		char const* name = N;                                                                                          \
		static M const ms[] = {
#define MEM(m, f) {#m, type_of<decltype(K::f)>(), count_of<decltype(K::f)>(), offsetof(K, f), false},
#define OPT(m, f) {#m, type_of<decltype(K::f)>(), count_of<decltype(K::f)>(), offsetof(K, f), true},
#define CLASS_END                                                                                                      \
	}                                                                                                                  \
	;                                                                                                                  \
	check_class<K>(name, {std::begin(ms), std::end(ms)}, any_full());                                                  \
	}
#include "classes.inc"

// a script without any of the classes is left alone
HARNESS(no_classes) {
	Dat d;
	d.code.op(Op::RSR);
	auto g = d.var("C_NPC.ID", T::INT);
	auto h = d.var("C_SVMX", T::INT);
	auto s = d.script();
	register_all_script_classes(s);
	auto x = zk_any_i32("value");
	s.find_symbol_by_index(g)->set_int(x);
	s.find_symbol_by_index(h)->set_int(~x);
	zk_assert(s.find_symbol_by_index(g)->get_int() == x && s.find_symbol_by_index(h)->get_int() == ~x, "globals.untouched");
	zk_cover("end");
}
// the choices of a dialogue: the newest first, removed by position
HARNESS(choices) {
	IInfo i {};
	auto n = zk_choice(4, "choices");
	int32_t f[4];
	for (uint32_t k = 0; k < n; ++k) {
		f[k] = zk_any_i32("function");
		IInfoChoice c {};
		c.text = std::string(1, (char) ('a' + k));
		c.function = f[k];
		i.add_choice(c);
	}
	zk_assert(i.choices.size() == n, "choices.count");
	if (n) {
		auto r = zk_choice(n, "removed");
		i.remove_choice(r);
		zk_assert(i.choices.size() == n - 1, "choices.removed");
		for (uint32_t k = 0; k + 1 < n; ++k) {
			auto at = n - 1 - (k < r ? k : k + 1);
			zk_assert(i.choices[k].function == f[at] && i.choices[k].text[0] == (char) ('a' + at), "choices.order");
		}
	}
	zk_cover("end");
}
