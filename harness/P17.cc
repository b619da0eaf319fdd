// Compiled scripts: the symbol table and the code come out of a file as they were put in.
#include "dat.hh"
static void check_symbol(DaedalusSymbol const& s, Sym const& w, uint32_t index) {
	zk_assert(s.index() == index, "symbol.index");
	zk_assert(s.name() == (w.named ? w.name : std::string {}), "symbol.name");
	zk_assert(!s.is_generated(), "symbol.generated");
	zk_assert(s.type() == w.type, "symbol.type");
	zk_assert(s.count() == w.count, "symbol.count");
	zk_assert(s.is_const() == !!(w.flags & CONST) && s.has_return() == !!(w.flags & RET) && s.is_member() == !!(w.flags & MEMBER) &&
	              s.is_external() == !!(w.flags & EXTERN) && s.is_merged() == !!(w.flags & MERGED),
	          "symbol.flags");
	zk_assert(!s.has_access_trap() && !s.has_local_variables_enabled(), "symbol.run-time.flags");
	zk_assert(s.file_index() == (w.file & 0x7FFFF), "symbol.file");
	zk_assert(s.line_start() == (w.line & 0x7FFFF), "symbol.line");
	zk_assert(s.line_count() == (w.lines & 0x7FFFF), "symbol.lines");
	zk_assert(s.char_start() == (w.chr & 0xFFFFFF), "symbol.char");
	zk_assert(s.char_count() == (w.chars & 0xFFFFFF), "symbol.chars");
	zk_assert(s.parent() == (uint32_t) w.parent, "symbol.parent");
	bool member = w.flags & MEMBER;
	if (member) zk_assert(s.offset_as_member() == w.vary, "symbol.member.offset");
	else if (w.type == T::CLASS) zk_assert(s.class_size() == w.vary, "symbol.class.size");
	else if (w.type == T::FUNCTION) zk_assert(s.rtype() == (T) w.vary, "symbol.return.type");
	if (member) return;
	if (w.type == T::INSTANCE || w.type == T::FUNCTION || w.type == T::PROTOTYPE) zk_assert(s.address() == (uint32_t) w.address, "symbol.address");
	if (w.type == T::INT) for (size_t i = 0; i < w.ints.size(); ++i) zk_assert(s.get_int((uint16_t) i) == w.ints[i], "symbol.int");
	if (w.type == T::FLOAT) for (size_t i = 0; i < w.floats.size(); ++i) zk_assert(zk_bits(s.get_float((uint16_t) i)) == zk_bits(w.floats[i]), "symbol.float");
	if (w.type == T::STRING) for (size_t i = 0; i < w.strings.size(); ++i) zk_assert(s.get_string((uint16_t) i) == w.strings[i], "symbol.string");
}
static Sym any_symbol(T t, uint32_t count) {
	Sym s {zk_str(3, "name", "\r\n\xFF"), t};
	s.flags = zk_range(32, "flags");
	s.high = zk_range(1024, "reserved");
	s.flags = s.flags & ~MEMBER;
	if (zk_choice(2, "member")) s.flags |= MEMBER;
	s.count = count;
	s.vary = zk_any_u32("vary");
	s.file = zk_any_u32("file"), s.line = zk_any_u32("line"), s.lines = zk_any_u32("lines"), s.chr = zk_any_u32("char"), s.chars = zk_any_u32("chars");
	s.parent = zk_any_i32("parent");
	s.address = zk_any_i32("address");
	for (uint32_t i = 0; i < count; ++i) {
		if (t == T::INT) s.ints.push_back(zk_any_i32("int"));
		if (t == T::FLOAT) s.floats.push_back(zk_any_f32("float"));
		if (t == T::STRING) s.strings.push_back(zk_str(i % 3, "string", "\r\n\\"));
	}
	return s;
}
static void symbols(T t, uint32_t count) {
	zk_opt("hash_len");
	Dat d;
	d.add(any_symbol(t, count));
	d.var("TAIL", T::INT);
	d.syms.back().ints = {zk_any_i32("tail")};
	d.code.op(Op::RSR);
	auto s = d.script();
	zk_assert(s.symbols().size() == 2, "symbols");
	for (uint32_t i = 0; i < 2; ++i) check_symbol(s.symbols()[i], d.syms[i], i);
	zk_assert(s.size() == 1 && s.instruction_at(0).op == Op::RSR, "code");
	zk_cover("end");
}
HARNESS(sym_void) { symbols(T::VOID, 1); }
HARNESS(sym_int) { symbols(T::INT, zk_choice(4, "count")); }
HARNESS(sym_float) { symbols(T::FLOAT, zk_choice(4, "count")); }
HARNESS(sym_string) { symbols(T::STRING, zk_choice(4, "count")); }
HARNESS(sym_class) { symbols(T::CLASS, 2); }
HARNESS(sym_function) { symbols(T::FUNCTION, 0); }
HARNESS(sym_prototype) { symbols(T::PROTOTYPE, 1); }
HARNESS(sym_instance) { symbols(T::INSTANCE, 1); }
HARNESS(sym_long) {
	zk_opt("hash_len");
	Dat d;
	uint32_t n = zk_choice(2, "which") ? 4095 : 256;
	d.var("X", T::INT, n);
	for (auto& v : d.syms[0].ints) v = zk_any_i32("int");
	d.var("Y", T::INT);
	auto s = d.script();
	zk_assert(s.symbols()[0].count() == n, "symbol.count");
	for (uint32_t i = 0; i < n; ++i) zk_assert(s.symbols()[0].get_int((uint16_t) i) == d.syms[0].ints[i], "symbol.int");
	zk_cover("end");
}
// values of members are not stored, however many elements they have; symbols may have no name
HARNESS(unnamed) {
	zk_opt("hash_len");
	Dat d;
	auto t = (T) zk_choice(8, "type");
	d.add(any_symbol(t, 0));
	d.syms[0].named = false;
	d.var("TAIL", T::INT);
	auto s = d.script();
	for (uint32_t i = 0; i < 2; ++i) check_symbol(s.symbols()[i], d.syms[i], i);
	zk_cover("end");
}
HARNESS(generated) {
	zk_opt("hash_len");
	Dat d;
	d.var("X", T::INT);
	d.syms[0].name = "\xFF" + zk_str(3, "name");
	auto s = d.script();
	zk_assert(s.symbols()[0].is_generated(), "generated");
	zk_assert(s.symbols()[0].name() == "$" + d.syms[0].name.substr(1), "generated.name");
	zk_cover("end");
}
// \n and \t become the characters they stand for, every other backslash stays
HARNESS(escapes) {
	zk_opt("hash_len");
	Dat d;
	uint32_t n = zk_choice(ZK_Q(5, 6), "length");
	std::string text = zk_str(n, "text"), want;
	for (size_t i = 0; i < n; ++i) {
		char c = text[i];
		if (c == '\\' && i + 1 < n && (text[i + 1] == 'n' || text[i + 1] == 't')) c = text[++i] == 'n' ? '\n' : '\t';
		want += c;
	}
	d.var("X", T::STRING, 2);
	d.syms[0].strings = {text, "Z"};
	auto s = d.script();
	zk_assert(s.symbols()[0].get_string(0) == want, "escapes");
	zk_assert(s.symbols()[0].get_string(1) == "Z", "next.string");
	zk_cover("end");
}
// text that is not terminated properly: up to four blanks may stand between the text and the parent of a constant
HARNESS(stray_blanks) {
	zk_opt("hash_len");
	Dat d;
	d.var("X", T::STRING, 1, CONST);
	d.var("Y", T::INT);
	d.syms[1].ints = {zk_any_i32("next")};
	static char const blanks[] = " \t\n\v\f\r";
	auto n = zk_choice(5, "blanks");
	std::string stray;
	for (uint32_t i = 0; i < n; ++i) {
		auto c = zk_any_u8("blank");
		zk_assume(c == ' ' || (c >= 9 && c <= 13));
		stray += (char) c;
	}
	auto text = zk_str(2, "text", "\r\n\\");
	d.syms[0].strings = {text};
	auto b = d.bytes();
	// header, table, first symbol up to the end of its text
	size_t at = 1 + 4 + 8 + 4 + 2 + 4 + 4 + 20 + 3;
	for (uint32_t i = 0; i < n; ++i) b.insert(b.begin() + (ptrdiff_t) at, std::byte {(uint8_t) stray[n - 1 - i]});
	auto r = Read::from(&b);
	DaedalusScript s;
	s.load(r.get());
	zk_assert(s.symbols()[0].get_string() == text && s.symbols()[0].parent() == 0xFFFFFFFFu, "stray.string");
	zk_assert(s.symbols()[1].name() == "Y" && s.symbols()[1].get_int() == d.syms[1].ints[0], "stray.next");
	zk_assert(r->eof(), "stray.consumed");
	zk_cover("end");
}
static char up(char c) { return c >= 'a' && c <= 'z' ? (char) (c - 32) : c; }
HARNESS(by_name) {
	zk_opt("hash_len");
	Dat d;
	std::string names[3];
	static uint32_t const len[3] = {2, 2, 1};
	for (int i = 0; i < 3; ++i) {
		names[i] = zk_str(len[i], "name", "\r\n\xFF");
		for (char& c : names[i]) c = up(c);
		for (int k = 0; k < i; ++k) zk_assume(names[i] != names[k]);
		d.var("", T::INT);
		d.syms.back().name = names[i];
	}
	auto s = d.script();
	std::string q = zk_str(1 + zk_choice(3, "query length"), "query");
	std::string u = q;
	for (char& c : u) c = up(c);
	int want = -1;
	for (int i = 0; i < 3; ++i) if (names[i] == u) want = i;
	auto* f = s.find_symbol_by_name(q);
	auto const* cf = const_cast<DaedalusScript const&>(s).find_symbol_by_name(q);
	zk_assert(f == cf, "by.name.const");
	zk_assert(want < 0 ? f == nullptr : f == s.find_symbol_by_index((uint32_t) want), "by.name");
	zk_cover("end");
}
HARNESS(by_index) {
	zk_opt("hash_len");
	Dat d;
	for (int i = 0; i < 5; ++i) d.var("X", T::INT);
	auto s = d.script();
	auto i = zk_any_u32("index");
	auto* f = s.find_symbol_by_index(i);
	zk_assert((f != nullptr) == (i < 5), "by.index");
	zk_assert(f == const_cast<DaedalusScript const&>(s).find_symbol_by_index(i), "by.index.const");
	if (f) zk_assert(f->index() == i && f == &s.symbols()[zk_split(i)], "by.index.symbol");
	zk_cover("end");
}
// instances, prototypes and functions that are constants and no members have code
HARNESS(by_address) {
	zk_opt("hash_len");
	Dat d;
	static T const types[] = {T::FUNCTION, T::INSTANCE, T::PROTOTYPE, T::INT, T::CLASS};
	int32_t addr[3];
	bool code[3];
	for (int i = 0; i < 3; ++i) {
		auto t = types[zk_choice(i == 0 ? 5 : 3, "type")];
		auto f = zk_choice(2, "const") ? CONST : 0u;
		if (i == 0 && t == T::FUNCTION && zk_choice(2, "member")) f |= MEMBER;
		addr[i] = zk_any_i32("address");
		Sym s {"X", t, f};
		s.name += (char) ('0' + i);
		s.ints = {addr[i]};
		s.address = addr[i];
		d.add(s);
		code[i] = t == T::INSTANCE || t == T::PROTOTYPE || (t == T::FUNCTION && f == CONST);
		for (int k = 0; k < i; ++k) zk_assume(addr[i] != addr[k]);
	}
	auto s = d.script();
	auto q = zk_any_u32("query");
	int want = -1;
	for (int i = 0; i < 3; ++i) if (code[i] && (uint32_t) addr[i] == q) want = i;
	auto* f = s.find_symbol_by_address(q);
	zk_assert(f == const_cast<DaedalusScript const&>(s).find_symbol_by_address(q), "by.address.const");
	zk_assert(want < 0 ? f == nullptr : f == s.find_symbol_by_index((uint32_t) want), "by.address");
	zk_cover("end");
}
HARNESS(instructions) {
	zk_opt("hash_len");
	Dat d;
	uint32_t pad = zk_choice(3, "pad");
	for (uint32_t i = 0; i < pad; ++i) d.code.u8(zk_any_u8("before"));
	static Op const ops[] = {Op::BL, Op::BZ, Op::B, Op::PUSHI, Op::BE, Op::PUSHV, Op::PUSHVI, Op::GMOVI, Op::PUSHVV};
	auto k = zk_choice(10, "kind");
	auto v = zk_any_u32("operand");
	auto i = zk_any_u8("index");
	auto o = k < 9 ? ops[k] : (Op) zk_any_u8("op");
	if (k == 9) for (auto x : ops) zk_assume(o != x);
	d.code.u8((uint8_t) o).u32(v).u8(i).u8(9);
	auto s = d.script();
	zk_assert(s.size() == pad + 7, "code.size");
	auto in = s.instruction_at(pad);
	zk_assert(in.op == o, "instruction.op");
	zk_assert(in.size == (k < 8 ? 5 : k == 8 ? 6 : 1), "instruction.size");
	zk_assert(in.address == (k < 3 ? v : 0), "instruction.address");
	zk_assert(in.immediate == (k == 3 ? (int32_t) v : 0), "instruction.immediate");
	zk_assert(in.symbol == (k > 3 && k < 9 ? v : 0), "instruction.symbol");
	zk_assert(in.index == (k == 8 ? i : 0), "instruction.index");
	zk_assert(s.size() == pad + 7, "code.size.again");
	zk_cover("end");
}
// a function is followed by its parameters and these by its local variables, which carry its name
HARNESS(functions) {
	zk_opt("hash_len");
	Dat d;
	uint32_t before = zk_choice(3, "before"), params = zk_choice(3, "parameters"), locals = zk_choice(4, "locals"), after = zk_choice(3, "after");
	for (uint32_t i = 0; i < before; ++i) d.var("A", T::INT);
	auto f = d.func("FN", params);
	for (uint32_t i = 0; i < params; ++i) d.var("FN.P", T::INT);
	for (uint32_t i = 0; i < locals; ++i) d.var("FN.L", T::INT);
	if (after) d.var(after == 1 ? "FNX" : "Z.FN.L", T::INT), d.var("FN.L", T::INT);
	auto s = d.script();
	auto* fn = s.find_symbol_by_index(f);
	auto p = s.find_parameters_for_function(fn);
	auto cp = const_cast<DaedalusScript const&>(s).find_parameters_for_function(fn);
	auto l = s.find_locals_for_function(fn);
	zk_assert(p.size() == params && cp.size() == params, "parameters.count");
	for (uint32_t i = 0; i < params; ++i) zk_assert(&p[i] == s.find_symbol_by_index(f + 1 + i) && &cp[i] == &p[i], "parameters");
	zk_assert(l.size() == locals, "locals.count");
	for (uint32_t i = 0; i < locals; ++i) zk_assert(&l[i] == s.find_symbol_by_index(f + 1 + params + i), "locals");
	zk_cover("end");
}
// the members of a class and the constant instances made from it or from its prototypes
HARNESS(classes) {
	zk_opt("hash_len");
	Dat d;
	auto c = d.add({"CLS", T::CLASS}), o = d.add({"OTHER", T::CLASS});
	std::vector<uint32_t> members, insts;
	std::vector<uint32_t> protos;
	for (int i = 0; i < 3; ++i) {
		auto kind = zk_choice(5, "kind");
		uint32_t at = (uint32_t) d.syms.size();
		// parent: the class, the other class or the first prototype of the class
		auto par = zk_choice(protos.empty() ? 2 : 3, "parent");
		uint32_t p = par == 0 ? c : par == 1 ? o : protos[0];
		if (kind == 0) { d.var("M", T::INT, 1, MEMBER); if (p == c) members.push_back(at); }
		if (kind == 1) { d.var("V", T::INT); }
		if (kind == 2) { d.add({"P", T::PROTOTYPE}); if (p == c) protos.push_back(at); }
		if (kind == 3) { d.var("I", T::INSTANCE, 1, CONST); if (p != o) insts.push_back(at); }
		if (kind == 4) { d.var("W", T::INSTANCE, 1, 0); }
		d.syms.back().parent = (int32_t) p;
	}
	auto s = d.script();
	auto ms = s.find_class_members(*s.find_symbol_by_index(c));
	zk_assert(ms.size() == members.size(), "members.count");
	for (size_t i = 0; i < members.size(); ++i) zk_assert(ms[i] == s.find_symbol_by_index(members[i]), "members");
	size_t n = 0;
	s.enumerate_instances_by_class_name("cls", [&](DaedalusSymbol& x) {
		zk_assert(n < insts.size() && x.index() == insts[n], "instances");
		++n;
	});
	zk_assert(n == insts.size(), "instances.count");
	s.enumerate_instances_by_class_name("nothing", [&](DaedalusSymbol&) { zk_assert(false, "instances.unknown.class"); });
	zk_cover("end");
}

// hundreds of symbols, long names and texts, more code than 16 bits address
HARNESS(large) {
	zk_opt("hash_len");
	Dat d;
	uint32_t const n = 270;
	for (uint32_t i = 0; i < n; ++i) {
		Sym s {"SYM_" + std::string(1 + i % 2 * 260, 'N') + std::string(1, (char) ('A' + i / 20)) + std::string(1, (char) ('A' + i % 20)), i % 3 == 0 ? T::FUNCTION : i % 3 == 1 ? T::INT : T::STRING};
		if (i % 3 == 0) s.address = (int32_t) (60000 + 40 * i), s.flags = CONST, s.count = 0;
		if (i % 3 == 1) s.ints = {i % 50 ? (int32_t) i : zk_any_i32("value")};
		if (i % 3 == 2) s.strings = {std::string(i % 2 * 500 + i % 7, 't')};
		s.parent = (int32_t) i - 1;
		d.add(std::move(s));
	}
	d.code.b.resize(70000, std::byte {(uint8_t) Op::RSR});
	auto v = zk_any_u32("immediate");
	for (int i = 0; i < 4; ++i) d.code.b[66001 + (size_t) i] = std::byte {(uint8_t) (v >> 8 * i)};
	d.code.b[66000] = std::byte {(uint8_t) Op::PUSHI};
	auto s = d.script();
	zk_assert(s.symbols().size() == n, "symbols");
	for (uint32_t i = 0; i < n; ++i) {
		check_symbol(s.symbols()[i], d.syms[i], i);
		zk_assert(s.find_symbol_by_index(i) == &s.symbols()[i], "by.index");
		if (i % 3 == 0) zk_assert(s.find_symbol_by_address((uint32_t) d.syms[i].address) == &s.symbols()[i], "by.address");
		if (i % 27 == 0) zk_assert(s.find_symbol_by_name(d.syms[i].name) == &s.symbols()[i], "by.name");
	}
	zk_assert(s.size() == 70000, "code.size");
	auto in = s.instruction_at(66000);
	zk_assert(in.op == Op::PUSHI && (uint32_t) in.immediate == v && in.size == 5, "code.far");
	zk_assert(s.instruction_at(69999).op == Op::RSR, "code.far");
	zk_cover("end");
}
