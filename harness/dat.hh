// Compiled scripts (DAT): a description of a symbol table and code, its documented file layout, and a machine over it.
#pragma once
#include "zk.hh"
#include <zenkit/DaedalusScript.hh>
#include <zenkit/DaedalusVm.hh>
#include <zenkit/Stream.hh>
#include <vector>
using namespace zenkit;
using T = DaedalusDataType;
using Op = DaedalusOpcode;
enum : uint32_t { CONST = 1, RET = 2, MEMBER = 4, EXTERN = 8, MERGED = 16 };
struct Sym {
	std::string name;
	T type = T::VOID;
	uint32_t flags = 0, count = 1, vary = 0;
	std::vector<int32_t> ints {};
	std::vector<float> floats {};
	std::vector<std::string> strings {};
	int32_t address = -1, parent = -1;
	uint32_t file = 1, line = 2, lines = 3, chr = 4, chars = 5, high = 0; // high: the reserved bits of the properties
	bool named = true;
};
struct Code {
	std::vector<std::byte> b;
	uint32_t here() const { return (uint32_t) b.size(); }
	Code& u8(uint8_t v) { b.push_back(std::byte {v}); return *this; }
	Code& u32(uint32_t v) {
		for (int i = 0; i < 4; ++i) u8((uint8_t) (v >> 8 * i));
		return *this;
	}
	Code& op(Op o) { return u8((uint8_t) o); }
	Code& op(Op o, uint32_t v) { return u8((uint8_t) o).u32(v); }
	Code& op(Op o, uint32_t v, uint8_t i) { return u8((uint8_t) o).u32(v).u8(i); }
	Code& str(std::string const& s) {
		for (char c : s) u8((uint8_t) c);
		return u8('\n');
	}
};
struct Dat {
	std::vector<Sym> syms;
	Code code;
	uint32_t add(Sym s) { syms.push_back(std::move(s)); return (uint32_t) syms.size() - 1; }
	uint32_t var(char const* n, T t, uint32_t count = 1, uint32_t flags = 0) {
		Sym s {n, t, flags, count};
		if (t == T::INT) s.ints.resize(count);
		if (t == T::FLOAT) s.floats.resize(count);
		if (t == T::STRING) s.strings.resize(count);
		if (t == T::FUNCTION || t == T::INSTANCE) s.address = 0;
		return add(std::move(s));
	}
	uint32_t func(char const* n, uint32_t params, T ret = T::VOID, uint32_t flags = CONST, int32_t address = 0) {
		Sym s {n, T::FUNCTION, flags | (ret == T::VOID ? 0u : RET), params, (uint32_t) ret};
		s.address = address;
		return add(std::move(s));
	}
	std::vector<std::byte> bytes() const {
		Code w;
		w.u8(50).u32((uint32_t) syms.size());
		for (size_t i = 0; i < syms.size(); ++i) w.u32((uint32_t) (syms.size() - 1 - i));
		for (auto& s : syms) {
			w.u32(s.named);
			if (s.named) w.str(s.name);
			w.u32(s.vary).u32(s.count | (uint32_t) s.type << 12 | s.flags << 16 | s.high << 22);
			w.u32(s.file).u32(s.line).u32(s.lines).u32(s.chr).u32(s.chars);
			if (!(s.flags & MEMBER)) {
				if (s.type == T::INT) for (auto v : s.ints) w.u32((uint32_t) v);
				if (s.type == T::FLOAT) for (auto v : s.floats) w.u32(zk_bits(v));
				if (s.type == T::STRING) for (auto& v : s.strings) w.str(v);
				if (s.type == T::CLASS || s.type == T::INSTANCE || s.type == T::FUNCTION || s.type == T::PROTOTYPE) w.u32((uint32_t) s.address);
			}
			w.u32((uint32_t) s.parent);
		}
		w.u32(code.here());
		for (auto x : code.b) w.b.push_back(x);
		return std::move(w.b);
	}
	DaedalusScript script() const {
		auto b = bytes();
		auto r = Read::from(&b);
		DaedalusScript s;
		s.load(r.get());
		zk_assert(r->eof(), "script.consumed");
		return s;
	}
};
struct Vm : DaedalusVm {
	using DaedalusVm::DaedalusVm;
	using DaedalusVm::exec;
	using DaedalusVm::jump;
	DaedalusSymbol* at(uint32_t i) { return find_symbol_by_index(i); }
	DaedalusSymbol* by(char const* n) { return find_symbol_by_name(n); }
	bool empty() {
		try {
			(void) top_is_reference();
			return false;
		} catch (DaedalusVmException&) {
			return true;
		}
	}
	uint32_t depth() {
		uint32_t n = 0;
		while (!empty()) { drop(); ++n; }
		return n;
	}
	void drop() {
		if (top_is_reference()) (void) pop_reference();
		else try { (void) pop_int(); } catch (DaedalusVmException&) {}
	}
};
// the machine is never destroyed: its stack of 2048 entries is not what is being checked
static Vm& vm_for(Dat const& d, uint8_t flags = 0) {
	return *new Vm(d.script(), flags);
}
// what a step ended with
enum Out { RAN, RETURNED, DIVZERO, FAILED, CONSTANT, TYPE, INDEX, NOCONTEXT, CONTEXT, UNBOUND, OTHER };
static Out outcome(Vm& v, bool handler = true) {
	// an error handler that passes errors on keeps the stack trace out of the proof
	if (handler) v.register_exception_handler([](DaedalusVm&, DaedalusScriptError const&, DaedalusInstruction const&) { return DaedalusVmExceptionStrategy::FAIL; });
	try {
		return v.exec() ? RAN : RETURNED;
	} catch (DaedalusIllegalConstAccess&) {
		return CONSTANT;
	} catch (DaedalusIllegalTypeAccess&) {
		return TYPE;
	} catch (DaedalusIllegalIndexAccess&) {
		return INDEX;
	} catch (DaedalusNoContextError&) {
		return NOCONTEXT;
	} catch (DaedalusIllegalContextType&) {
		return CONTEXT;
	} catch (DaedalusUnboundMemberAccess&) {
		return UNBOUND;
	} catch (DaedalusVmException&) {
		return FAILED;
	} catch (std::exception&) {
		return OTHER;
	}
}
