// Calls in and out of scripts: arguments, results, externals, overrides, failures, recursion and instance initialization.
#include "dat.hh"
struct Inst : DaedalusInstance {
	int32_t a = 0, b = 0;
};
struct Other : DaedalusInstance { int32_t a = 0; };
// a function and its parameters; the code takes the arguments from the stack, last one first, as compiled code does
struct Fn {
	uint32_t sym;
	std::vector<T> types;
};
static Fn fn(Dat& d, char const* name, std::vector<T> types, T ret, uint32_t flags = CONST) {
	Fn f {d.func(name, (uint32_t) types.size(), ret, flags), types};
	for (size_t i = 0; i < types.size(); ++i) {
		std::string n = name;
		n += ".P";
		n += (char) ('0' + i);
		d.var(n.c_str(), types[i]);
	}
	return f;
}
static Op mov(T t) { return t == T::INT ? Op::MOVI : t == T::FUNCTION ? Op::MOVVF : t == T::FLOAT ? Op::MOVF : t == T::STRING ? Op::MOVS : Op::MOVVI; }
static void enter(Dat& d, Fn const& f) {
	d.syms[f.sym].address = (int32_t) d.code.here();
	for (size_t i = f.types.size(); i-- > 0;) d.code.op(f.types[i] == T::INSTANCE ? Op::PUSHVI : Op::PUSHV, f.sym + 1 + (uint32_t) i).op(mov(f.types[i]));
}
static void quiet(Vm& v) {
	v.register_exception_handler([](DaedalusVm&, DaedalusScriptError const&, DaedalusInstruction const&) { return DaedalusVmExceptionStrategy::FAIL; });
}
static bool fails(auto f) {
	try {
		f();
		return false;
	} catch (DaedalusScriptError&) {
		return true;
	}
}
struct Base {
	Dat d;
	uint32_t self, cls, ma, mb, other, oa, inst, oinst, r;
	Base() {
		zk_opt("hash_len");
		self = d.var("SELF", T::INSTANCE);
		cls = d.add({"CLS", T::CLASS, 0, 2});
		ma = member("CLS.A", cls), mb = member("CLS.B", cls);
		other = d.add({"OCLS", T::CLASS, 0, 1});
		oa = member("OCLS.A", other);
		inst = d.var("INST", T::INSTANCE, 1, CONST);
		d.syms[inst].parent = (int32_t) cls, d.syms[inst].address = 0x10000;
		oinst = d.var("OINST", T::INSTANCE, 1, CONST);
		d.syms[oinst].parent = (int32_t) other, d.syms[oinst].address = 0x10001;
		r = d.var("R", T::INT);
	}
	uint32_t member(char const* n, uint32_t parent) {
		Sym s {n, T::INT, MEMBER, 1, 0};
		s.parent = (int32_t) parent;
		return d.add(s);
	}
	Vm& vm() {
		auto& v = vm_for(d);
		v.register_member("CLS.A", &Inst::a);
		v.register_member("CLS.B", &Inst::b);
		v.register_member("OCLS.A", &Other::a);
		quiet(v);
		return v;
	}
};
// ---- calls from the host
HARNESS(call_arguments) {
	Base b;
	auto f = fn(b.d, "FN", {T::INT, T::FLOAT, T::STRING, T::INSTANCE, T::INT}, T::INT);
	auto what = zk_choice(5, "result");
	T const rt[] = {T::INT, T::FLOAT, T::STRING, T::INSTANCE, T::INT};
	b.d.syms[f.sym].vary = (uint32_t) rt[what];
	enter(b.d, f);
	b.d.code.op(what == 3 ? Op::PUSHVI : Op::PUSHV, f.sym + 1 + what).op(Op::RSR);
	auto& v = b.vm();
	auto i = std::make_shared<Inst>();
	v.allocate_instance(i, "INST");
	auto a = zk_any_i32("a"), below = zk_any_i32("below");
	auto fl = zk_any_f32("f");
	bool bo = zk_any_bool("b");
	auto s = zk_str(2, "s");
	std::string_view sv = s;
	v.push_int(below);
	if (what == 0) zk_assert(v.call_function<int32_t>("fn", a, fl, sv, i, bo) == a, "result.int");
	if (what == 1) zk_assert(zk_bits(v.call_function<float>("FN", a, fl, sv, i, bo)) == zk_bits(fl), "result.float");
	if (what == 2) zk_assert(v.call_function<std::string>("FN", a, fl, sv, i, bo) == s, "result.string");
	if (what == 3) zk_assert(v.call_function<std::shared_ptr<Inst>>("FN", a, fl, sv, i, bo) == i, "result.instance");
	if (what == 4) v.call_function("FN", a, fl, sv, i, bo);
	zk_assert(v.at(f.sym + 1)->get_int() == a, "argument.int");
	zk_assert(zk_bits(v.at(f.sym + 2)->get_float()) == zk_bits(fl), "argument.float");
	zk_assert(v.at(f.sym + 3)->get_string() == s, "argument.string");
	zk_assert(v.at(f.sym + 4)->get_instance() == i, "argument.instance");
	zk_assert(v.at(f.sym + 5)->get_int() == bo, "argument.bool");
	zk_assert(v.pc() == 0 && v.unsafe_get_gi() == nullptr, "machine.position");
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	zk_cover("end");
}
HARNESS(call_refused) {
	Base b;
	auto f = fn(b.d, "FN", {T::INT, T::STRING}, zk_choice(2, "returns") ? T::INT : T::VOID);
	bool ret = b.d.syms[f.sym].vary != 0;
	enter(b.d, f);
	b.d.code.op(Op::PUSHI, 1).op(Op::PUSHV, b.r).op(Op::MOVI).op(Op::RSR);
	auto& v = b.vm();
	auto below = zk_any_i32("below");
	v.push_int(below);
	std::string_view s = "x";
	auto k = zk_choice(11, "case");
	bool refused = fails([&] {
		if (k == 0) v.call_function("NOTHING");
		if (k == 1) v.call_function("R");
		if (k == 2) v.call_function("FN", 1);
		if (k == 3) v.call_function("FN", 1, s, 3);
		if (k == 4) v.call_function("FN", s, s);
		if (k == 5) v.call_function("FN", 1, 2);
		if (k == 6) v.call_function("FN", 1, std::make_shared<Inst>());
		if (k == 7) v.call_function("FN", 1.5f, s);
		if (k == 8) ret ? (void) v.call_function<std::string>("FN", 1, s) : (void) v.call_function<int32_t>("FN", 1, s);
		if (k == 9) ret ? (void) v.call_function<float>("FN", 1, s) : (void) v.call_function<float>("FN", 1, s);
		if (k == 10) ret ? (void) v.call_function<void>("FN", 1, s) : (void) v.call_function<std::shared_ptr<Inst>>("FN", 1, s);
	});
	zk_assert(refused, "call.refused");
	zk_assert(v.at(b.r)->get_int() == 0, "call.not.run");
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	zk_cover("end");
}
// ---- what a function leaves on the stack
static void balance(T rt, uint32_t below, uint32_t params, uint32_t taken, uint32_t left, uint32_t given) {
	Base b;
	auto f = fn(b.d, "FN", std::vector<T>(params, T::INT), rt);
	b.d.syms[f.sym].address = 0;
	for (uint32_t i = 0; i < taken; ++i) b.d.code.op(Op::PUSHV, b.r).op(Op::MOVI);
	auto x = zk_any_i32("x");
	for (uint32_t i = 0; i < left; ++i) b.d.code.op(Op::PUSHI, (uint32_t) x + i);
	b.d.code.op(Op::RSR);
	auto call = b.d.code.here();
	b.d.code.op(Op::BL, 0).op(Op::RSR);
	auto& v = b.vm();
	std::vector<int32_t> vals;
	for (uint32_t i = 0; i < below + given; ++i) {
		vals.push_back(zk_any_i32("value"));
		v.push_int(vals.back());
	}
	v.jump(call);
	zk_assert(outcome(v) == RAN && v.pc() == call + 5, "call.returns");
	// the entries below the arguments stay; a result is there exactly if one is declared
	uint32_t total = below + given, keep = total > params ? total - params : 0;
	bool eaten = taken > total || total - taken < keep; // the function took more than its arguments
	if (rt != T::VOID) {
		// what is on top when the function ends is its result; if nothing is left it is a default value
		bool any = left > 0 || (!eaten && total - taken > keep);
		int32_t top = left > 0 ? (int32_t) ((uint32_t) x + left - 1) : any ? vals[total - taken - 1] : 0;
		if (eaten && left > 0) {
			v.drop(); // how much of it is the result depends on what has been taken from the caller
		} else if (rt == T::INT || rt == T::FUNCTION || any) {
			zk_assert(!v.top_is_reference() && v.pop_int() == top, "result");
		} else if (rt == T::FLOAT) {
			zk_assert(v.pop_float() == 0, "result.default.float");
		} else if (rt == T::STRING) {
			zk_assert(v.pop_string().empty(), "result.default.string");
		} else {
			zk_assert(v.pop_instance() == nullptr, "result.default.instance");
		}
	}
	if (!eaten) {
		for (uint32_t i = keep; i-- > 0;) zk_assert(v.pop_int() == vals[i], "stack.below");
		zk_assert(v.empty(), "stack.depth");
	} else {
		zk_assert(v.depth() == keep, "stack.depth.eaten");
	}
	zk_cover("end");
}
static void balance(T rt, uint32_t params) {
	balance(rt, zk_choice(2, "below"), params, zk_choice(3, "taken"), zk_choice(3, "left"), zk_choice(3, "given"));
}
HARNESS(balance_void_0) { balance(T::VOID, 0); }
HARNESS(balance_void_1) { balance(T::VOID, 1); }
HARNESS(balance_void_2) { balance(T::VOID, 2); }
HARNESS(balance_int_0) { balance(T::INT, 0); }
HARNESS(balance_int_1) { balance(T::INT, 1); }
HARNESS(balance_int_2) { balance(T::INT, 2); }
HARNESS(balance_types) {
	static T const rts[] = {T::FLOAT, T::STRING, T::INSTANCE, T::FUNCTION};
	auto rt = rts[zk_choice(4, "returns")];
	balance(rt, 1, 1, zk_choice(3, "taken"), zk_choice(3, "left"), 1);
}
// nested calls: results, return addresses and the current instance
HARNESS(nested) {
	Base b;
	auto g = fn(b.d, "G", {T::INT}, T::INT);
	auto f = fn(b.d, "F", {T::INT, T::INT}, T::INT);
	auto m = b.d.func("M", 0, T::INT);
	// G(x): current instance = OINST; OCLS.A = x; return x * 3
	enter(b.d, g);
	b.d.code.op(Op::PUSHV, g.sym + 1).op(Op::GMOVI, b.oinst).op(Op::PUSHV, b.oa).op(Op::MOVI).op(Op::PUSHI, 3).op(Op::PUSHV, g.sym + 1).op(Op::MUL).op(Op::RSR);
	// F(x, y): CLS.B = G(x); return CLS.B - G(y)
	enter(b.d, f);
	b.d.code.op(Op::PUSHV, f.sym + 1).op(Op::BL, (uint32_t) b.d.syms[g.sym].address).op(Op::PUSHV, b.mb).op(Op::MOVI);
	b.d.code.op(Op::PUSHV, f.sym + 2).op(Op::BL, (uint32_t) b.d.syms[g.sym].address).op(Op::PUSHV, b.mb).op(Op::SUB).op(Op::RSR);
	// M(): current instance = INST; CLS.A = F(CLS.A, CLS.B); return CLS.B
	b.d.syms[m].address = (int32_t) b.d.code.here();
	b.d.code.op(Op::GMOVI, b.inst).op(Op::PUSHV, b.ma).op(Op::PUSHV, b.mb).op(Op::BL, (uint32_t) b.d.syms[f.sym].address).op(Op::PUSHV, b.ma).op(Op::MOVI).op(Op::PUSHV, b.mb).op(Op::RSR);
	auto& v = b.vm();
	auto i = std::make_shared<Inst>();
	auto o = std::make_shared<Other>();
	v.allocate_instance(i, "INST");
	v.allocate_instance(o, "OINST");
	auto x = zk_any_i32("x"), y = zk_any_i32("y");
	i->a = x, i->b = y;
	v.unsafe_set_gi(zk_choice(2, "context") ? o : nullptr);
	auto ctx = v.unsafe_get_gi();
	auto res = v.call_function<int32_t>("M");
	uint32_t gx = (uint32_t) x * 3, gy = (uint32_t) y * 3;
	zk_assert((uint32_t) res == gx && (uint32_t) i->b == gx, "nested.result");
	zk_assert((uint32_t) i->a == gx - gy, "nested.member");
	zk_assert(o->a == y, "nested.other.instance");
	zk_assert(v.unsafe_get_gi() == ctx && v.pc() == 0, "nested.restored");
	zk_assert(v.empty(), "stack.depth");
	zk_cover("end");
}
// ---- externals
struct Got {
	int32_t i = 0;
	uint32_t f = 0;
	std::string s;
	std::shared_ptr<Inst> inst;
	DaedalusSymbol *sym = nullptr, *fnc = nullptr;
	bool b = false;
	int calls = 0;
};
HARNESS(external_arguments) {
	Base b;
	auto e = fn(b.d, "EXT", {T::INT, T::FLOAT, T::STRING, T::INSTANCE, T::INSTANCE, T::FUNCTION, T::INT}, T::VOID, CONST | EXTERN);
	auto lf = b.d.var("LF", T::FLOAT), li = b.d.var("LI", T::INT), ls = b.d.var("LS", T::STRING), lfn = b.d.var("LFN", T::FUNCTION);
	bool ref = zk_choice(2, "by reference"), vfn = zk_choice(2, "function variable");
	auto a = zk_any_i32("a"), bo = zk_any_i32("b"), below = zk_any_i32("below");
	auto f = zk_any_u32("f");
	if (ref) b.d.code.op(Op::PUSHV, li).op(Op::PUSHV, lf);
	else b.d.code.op(Op::PUSHI, (uint32_t) a).op(Op::PUSHI, f);
	b.d.code.op(Op::PUSHV, ls).op(Op::PUSHVI, b.inst).op(Op::PUSHVI, b.oinst).op(Op::PUSHI, vfn ? lfn : e.sym).op(Op::PUSHI, (uint32_t) bo).op(Op::BE, e.sym).op(Op::RSR);
	b.d.func("MAIN", 0);
	auto& v = b.vm();
	auto s = zk_str(2, "s");
	v.at(li)->set_int(a), v.at(lf)->set_float(zk_f32(f)), v.at(ls)->set_string(s), v.at(lfn)->set_int((int32_t) e.sym);
	auto i = std::make_shared<Inst>();
	v.allocate_instance(i, "INST");
	Got g;
	v.register_external("ext", [&g](int32_t a, float f, std::string_view s, std::shared_ptr<Inst> i, DaedalusSymbol* y, DaedalusFunction fn, bool b) {
		g.i = a, g.f = zk_bits(f), g.s = std::string(s), g.inst = i, g.sym = y, g.fnc = fn.value, g.b = b, g.calls++;
	});
	v.push_int(below);
	v.call_function("MAIN");
	zk_assert(g.calls == 1, "external.called");
	zk_assert(g.i == a && g.f == f && g.s == s, "external.values");
	zk_assert(g.inst == i && g.sym == v.at(b.oinst), "external.instances");
	zk_assert(g.fnc == v.at(e.sym), "external.function");
	zk_assert(g.b == (bo != 0), "external.bool");
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	zk_cover("end");
}
HARNESS(external_result) {
	Base b;
	auto k = zk_choice(4, "result");
	T const rt[] = {T::INT, T::FLOAT, T::STRING, T::INSTANCE};
	auto e = fn(b.d, "EXT", {T::INT}, rt[k], CONST | EXTERN);
	auto x = zk_any_i32("x"), below = zk_any_i32("below");
	auto m = b.d.func("MAIN", 0, rt[k]);
	b.d.syms[m].address = 0;
	// with an unused result in between
	b.d.code.op(Op::PUSHI, 7).op(Op::BE, e.sym).op(Op::PUSHI, (uint32_t) x).op(Op::BE, e.sym).op(Op::RSR);
	auto& v = b.vm();
	auto i = std::make_shared<Inst>();
	v.allocate_instance(i, "INST");
	auto f = zk_any_u32("f");
	auto s = zk_str(2, "s");
	int32_t seen = 0;
	if (k == 0) v.register_external("EXT", [&](int32_t a) -> int32_t { seen = a; return (int32_t) ~(uint32_t) a; });
	if (k == 1) v.register_external("EXT", [&](int32_t a) -> float { seen = a; return zk_f32(f); });
	if (k == 2) v.register_external("EXT", [&](int32_t a) -> std::string { seen = a; return a == 7 && x != 7 ? "?" : s; });
	if (k == 3) v.register_external("EXT", [&](int32_t a) -> std::shared_ptr<Inst> { seen = a; return i; });
	v.push_int(below);
	if (k == 0) zk_assert(v.call_function<int32_t>("MAIN") == (int32_t) ~(uint32_t) x, "external.int");
	if (k == 1) zk_assert(zk_bits(v.call_function<float>("MAIN")) == f, "external.float");
	if (k == 2) zk_assert(v.call_function<std::string>("MAIN") == s, "external.string");
	if (k == 3) zk_assert(v.call_function<std::shared_ptr<Inst>>("MAIN") == i, "external.instance");
	zk_assert(seen == x, "external.argument");
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	zk_cover("end");
}
HARNESS(external_registration) {
	Base b;
	fn(b.d, "EXT", {T::INT, T::STRING}, T::INT, CONST | EXTERN);
	fn(b.d, "VEXT", {T::FLOAT, T::INSTANCE}, T::VOID, CONST | EXTERN);
	fn(b.d, "SCR", {T::INT, T::STRING}, T::INT);
	b.d.code.op(Op::RSR);
	auto& v = b.vm();
	using I = int32_t;
	using S = std::string_view;
	auto k = zk_choice(14, "case");
	bool refused = fails([&] {
		if (k == 0) v.register_external("EXT", [](I, S) {});
		if (k == 1) v.register_external("EXT", [](I, S) -> float { return 0; });
		if (k == 2) v.register_external("EXT", [](I, S) -> std::string { return ""; });
		if (k == 3) v.register_external("EXT", [](I) -> I { return 0; });
		if (k == 4) v.register_external("EXT", [](I, S, I) -> I { return 0; });
		if (k == 5) v.register_external("EXT", [](S, S) -> I { return 0; });
		if (k == 6) v.register_external("EXT", [](I, float) -> I { return 0; });
		if (k == 7) v.register_external("VEXT", [](float, std::shared_ptr<Inst>) -> I { return 0; });
		if (k == 8) v.register_external("VEXT", [](float, I) {});
		if (k == 9) v.register_external("SCR", [](I, S) -> I { return 0; });
		if (k == 10) v.override_function("EXT", [](I, S) -> I { return 0; });
		if (k == 11) v.override_function("NOTHING", [](I, S) -> I { return 0; });
		if (k == 12) v.override_function("SCR", [](I, I) -> I { return 0; });
		if (k == 13) v.override_function("SCR", [](I, S) {});
	});
	zk_assert(refused, "registration.refused");
	zk_assert(!fails([&] {
		v.register_external("EXT", [](I, S) -> I { return 0; });
		v.register_external("VEXT", [](float, std::shared_ptr<Inst>) {});
		v.register_external("NOTHING", [](I) {});
		v.override_function("SCR", [](I, S) -> I { return 0; });
	}), "registration.accepted");
	zk_cover("end");
}
HARNESS(default_external) {
	Base b;
	static T const types[] = {T::INT, T::FLOAT, T::STRING, T::INSTANCE, T::FUNCTION};
	auto p0 = types[zk_choice(5, "parameter")], p1 = types[zk_choice(5, "parameter")];
	static T const rts[] = {T::VOID, T::INT, T::FLOAT, T::STRING, T::INSTANCE, T::FUNCTION};
	auto rt = rts[zk_choice(6, "returns")];
	auto e = fn(b.d, "EXT", {p0, p1}, rt, CONST | EXTERN);
	auto lf = b.d.var("LF", T::FLOAT), ls = b.d.var("LS", T::STRING);
	bool imm = zk_choice(2, "immediate");
	b.d.code.op(Op::BE, e.sym).op(Op::RSR);
	auto& v = b.vm();
	auto below = zk_any_i32("below");
	v.push_int(below);
	for (auto p : {p0, p1}) {
		if (p == T::INT || p == T::FUNCTION) imm ? v.push_int(zk_any_i32("arg")) : v.push_reference(v.at(b.r));
		if (p == T::FLOAT) imm ? v.push_float(1) : v.push_reference(v.at(lf));
		if (p == T::STRING) imm ? v.push_string("x") : v.push_reference(v.at(ls));
		if (p == T::INSTANCE) imm ? v.push_instance(nullptr) : v.push_reference(v.at(b.inst));
	}
	DaedalusSymbol const* asked = nullptr;
	std::string name;
	bool byname = zk_choice(2, "by name");
	if (byname) v.register_default_external([&](std::string_view n) { name = std::string(n); });
	else v.register_default_external([&](DaedalusSymbol const& s) { asked = &s; });
	zk_assert(outcome(v) == RAN && v.pc() == 5, "default.runs");
	zk_assert(byname ? name == "EXT" : asked == v.at(e.sym), "default.asked");
	if (rt == T::INT || rt == T::FUNCTION) zk_assert(v.pop_int() == 0, "default.int");
	if (rt == T::FLOAT) zk_assert(v.pop_float() == 0, "default.float");
	if (rt == T::STRING) zk_assert(v.pop_string().empty(), "default.string");
	if (rt == T::INSTANCE) zk_assert(v.pop_instance() == nullptr, "default.instance");
	zk_assert(!v.empty() && v.pop_int() == below && v.empty(), "stack.below");
	zk_cover("end");
}
HARNESS(overrides) {
	Base b;
	auto f = fn(b.d, "FN", {T::INT, T::STRING}, T::INT);
	auto g = fn(b.d, "G", {T::INT}, T::INT);
	auto ls = b.d.var("LS", T::STRING);
	enter(b.d, f);
	b.d.code.op(Op::PUSHI, 1111).op(Op::RSR);
	enter(b.d, g);
	b.d.code.op(Op::PUSHI, 2222).op(Op::RSR);
	auto m = b.d.func("MAIN", 0, T::INT);
	auto x = zk_any_i32("x"), y = zk_any_i32("y"), below = zk_any_i32("below");
	b.d.syms[m].address = (int32_t) b.d.code.here();
	b.d.code.op(Op::PUSHI, (uint32_t) y).op(Op::BL, (uint32_t) b.d.syms[g.sym].address).op(Op::PUSHI, (uint32_t) x).op(Op::PUSHV, ls).op(Op::BL, (uint32_t) b.d.syms[f.sym].address).op(Op::SUB).op(Op::RSR);
	auto& v = b.vm();
	auto s = zk_str(2, "s");
	v.at(ls)->set_string(s);
	int32_t gi = 0;
	std::string gs;
	auto k = zk_choice(3, "kind");
	if (k == 0) v.override_function("fn", [&](int32_t a, std::string_view t) -> int32_t { gi = a, gs = std::string(t); return 5; });
	if (k == 1) v.override_function("FN", [&](DaedalusVm& m) -> DaedalusNakedCall {
		gs = m.pop_string();
		gi = m.pop_int();
		m.push_int(5);
		return {};
	});
	if (k == 2) gi = x, gs = s;
	v.push_int(below);
	auto r = v.call_function<int32_t>("MAIN");
	zk_assert(r == (k == 2 ? 1111 : 5) - 2222, "override.result");
	zk_assert(gi == x && gs == s, "override.arguments");
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	zk_cover("end");
}
// ---- failures
struct Boom : std::exception {};
enum Kindf { SCRIPT, FOREIGN };
HARNESS(failing_external) {
	Base b;
	auto params = zk_choice(3, "parameters");
	static T const rts[] = {T::VOID, T::INT, T::FLOAT, T::STRING, T::INSTANCE};
	auto rt = rts[zk_choice(5, "returns")];
	auto how = zk_choice(4, "failure"); // missing, while running, wrong instance, override while running
	std::vector<T> types(params, T::INT);
	if (how == 2) types.push_back(T::INSTANCE);
	auto e = fn(b.d, "EXT", types, rt, how == 3 ? CONST : CONST | EXTERN);
	auto inner = b.d.func("INNER", 0), m = b.d.func("MAIN", 0, T::INT);
	b.d.code.op(Op::RSR); // address 0 belongs to the unset instance variables
	b.d.syms[e.sym].address = (int32_t) b.d.code.here();
	b.d.code.op(Op::RSR);
	auto x = zk_any_i32("x"), below = zk_any_i32("below");
	b.d.syms[inner].address = (int32_t) b.d.code.here();
	b.d.code.op(Op::GMOVI, b.inst).op(Op::PUSHI, (uint32_t) x); // stays below the arguments
	for (uint32_t i = 0; i < params; ++i) b.d.code.op(Op::PUSHI, 40 + i);
	if (how == 2) b.d.code.op(Op::PUSHVI, b.oinst);
	auto at = b.d.code.here();
	how == 3 ? b.d.code.op(Op::BL, (uint32_t) b.d.syms[e.sym].address) : b.d.code.op(Op::BE, e.sym);
	auto after = b.d.code.here();
	if (rt == T::FLOAT) b.d.code.op(Op::PUSHV, b.d.var("F", T::FLOAT)).op(Op::MOVF);
	if (rt == T::STRING) b.d.code.op(Op::PUSHV, b.d.var("S", T::STRING)).op(Op::MOVS);
	if (rt == T::INSTANCE) b.d.code.op(Op::PUSHVI, b.d.var("I", T::INSTANCE)).op(Op::MOVVI);
	if (rt == T::INT) b.d.code.op(Op::PUSHV, b.d.var("N", T::INT)).op(Op::MOVI);
	// what is left is the value pushed first
	b.d.code.op(Op::PUSHV, b.ma).op(Op::MOVI).op(Op::RSR);
	b.d.syms[m].address = (int32_t) b.d.code.here();
	b.d.code.op(Op::BL, (uint32_t) b.d.syms[inner].address).op(Op::PUSHI, 9).op(Op::RSR);
	auto& v = b.vm();
	auto i = std::make_shared<Inst>();
	auto o = std::make_shared<Other>();
	v.allocate_instance(i, "INST");
	v.allocate_instance(o, "OINST");
	int runs = 0, handled = 0;
	auto reg = [&](auto ret) {
		using R = decltype(ret);
		if (how == 1 && params == 0) v.register_external("EXT", std::function<R()>([&]() -> R { ++runs; throw DaedalusVmException {"boom"}; }));
		if (how == 1 && params == 1) v.register_external("EXT", std::function<R(int32_t)>([&](int32_t) -> R { ++runs; throw DaedalusVmException {"boom"}; }));
		if (how == 1 && params == 2) v.register_external("EXT", std::function<R(int32_t, int32_t)>([&](int32_t, int32_t) -> R { ++runs; throw DaedalusVmException {"boom"}; }));
		if (how == 2 && params == 0) v.register_external("EXT", std::function<R(std::shared_ptr<Inst>)>([&](std::shared_ptr<Inst>) -> R { ++runs; return R {}; }));
		if (how == 2 && params == 1) v.register_external("EXT", std::function<R(int32_t, std::shared_ptr<Inst>)>([&](int32_t, std::shared_ptr<Inst>) -> R { ++runs; return R {}; }));
		if (how == 2 && params == 2) v.register_external("EXT", std::function<R(int32_t, int32_t, std::shared_ptr<Inst>)>([&](int32_t, int32_t, std::shared_ptr<Inst>) -> R { ++runs; return R {}; }));
		if (how == 3 && params == 0) v.override_function("EXT", std::function<R()>([&]() -> R { ++runs; throw DaedalusVmException {"boom"}; }));
		if (how == 3 && params == 1) v.override_function("EXT", std::function<R(int32_t)>([&](int32_t) -> R { ++runs; throw DaedalusVmException {"boom"}; }));
		if (how == 3 && params == 2) v.override_function("EXT", std::function<R(int32_t, int32_t)>([&](int32_t, int32_t) -> R { ++runs; throw DaedalusVmException {"boom"}; }));
	};
	if (rt == T::INT) reg(int32_t {});
	if (rt == T::FLOAT) reg(float {});
	if (rt == T::STRING) reg(std::string {});
	if (rt == T::INSTANCE) reg(std::shared_ptr<Inst> {});
	if (rt == T::VOID) {
		if (how == 1 && params == 0) v.register_external("EXT", std::function<void()>([&]() { ++runs; throw DaedalusVmException {"boom"}; }));
		if (how == 1 && params == 1) v.register_external("EXT", std::function<void(int32_t)>([&](int32_t) { ++runs; throw DaedalusVmException {"boom"}; }));
		if (how == 1 && params == 2) v.register_external("EXT", std::function<void(int32_t, int32_t)>([&](int32_t, int32_t) { ++runs; throw DaedalusVmException {"boom"}; }));
		if (how == 2 && params == 0) v.register_external("EXT", std::function<void(std::shared_ptr<Inst>)>([&](std::shared_ptr<Inst>) { ++runs; }));
		if (how == 2 && params == 1) v.register_external("EXT", std::function<void(int32_t, std::shared_ptr<Inst>)>([&](int32_t, std::shared_ptr<Inst>) { ++runs; }));
		if (how == 2 && params == 2) v.register_external("EXT", std::function<void(int32_t, int32_t, std::shared_ptr<Inst>)>([&](int32_t, int32_t, std::shared_ptr<Inst>) { ++runs; }));
		if (how == 3 && params == 0) v.override_function("EXT", std::function<void()>([&]() { ++runs; throw DaedalusVmException {"boom"}; }));
		if (how == 3 && params == 1) v.override_function("EXT", std::function<void(int32_t)>([&](int32_t) { ++runs; throw DaedalusVmException {"boom"}; }));
		if (how == 3 && params == 2) v.override_function("EXT", std::function<void(int32_t, int32_t)>([&](int32_t, int32_t) { ++runs; throw DaedalusVmException {"boom"}; }));
	}
	auto st = (DaedalusVmExceptionStrategy) zk_choice(3, "strategy");
	v.register_exception_handler([&](DaedalusVm& m, DaedalusScriptError const&, DaedalusInstruction const& in) {
		++handled;
		if (handled == 1) zk_assert(m.pc() == at && in.op == (how == 3 ? Op::BL : Op::BE), "handler.position");
		return st;
	});
	v.push_int(below);
	i->a = 77;
	int32_t r = 0;
	bool failed = fails([&] { r = v.call_function<int32_t>("MAIN"); });
	zk_assert(runs == (how == 1 || how == 3), "external.run");
	zk_assert(failed == (st == DaedalusVmExceptionStrategy::FAIL), "failure.passed.on");
	zk_assert(handled == (failed ? 2 : 1), "handler.asked");
	if (!failed) {
		zk_assert(r == 9, "execution.continues");
		zk_assert(i->a == (st == DaedalusVmExceptionStrategy::CONTINUE ? x : 77), "execution.continues.behind");
	}
	(void) after;
	zk_assert(v.pc() == 0 && v.unsafe_get_gi() == nullptr, "machine.position");
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	// the machine is good for another call
	st = DaedalusVmExceptionStrategy::CONTINUE;
	handled = 1;
	i->a = 78;
	zk_assert(v.call_function<int32_t>("MAIN") == 9 && i->a == x && v.empty(), "machine.usable");
	zk_cover("end");
}
HARNESS(errors_without_handler) {
	Base b;
	auto m = b.d.func("MAIN", 0, T::INT), inner = b.d.func("INNER", 0, T::INT);
	auto lf = b.d.var("LF", T::FUNCTION);
	b.d.code.op(Op::PUSHI, 5).op(Op::PUSHV, b.ma).op(Op::PUSHVV, b.r, 9).op(Op::PUSHVI, b.inst).op(Op::PUSHV, lf).op(Op::PUSHI, 0).op(Op::PUSHI, 1).op(Op::DIV).op(Op::RSR);
	b.d.syms[m].address = (int32_t) b.d.code.here();
	b.d.syms[inner].address = 0;
	b.d.code.op(Op::BL, 0).op(Op::RSR);
	auto& v = vm_for(b.d);
	v.at(lf)->set_int(zk_choice(2, "function") ? -1 : (int32_t) m);
	auto below = zk_any_i32("below");
	v.push_int(below);
	bool refused = false;
	try {
		(void) v.call_function<int32_t>("MAIN");
	} catch (DaedalusVmException&) {
		refused = true;
	}
	zk_assert(refused, "error.is.the.original");
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	zk_cover("end");
}
HARNESS(lenient) {
	Base b;
	auto m = b.d.func("MAIN", 0, T::INT);
	b.d.syms[m].address = 0;
	auto x = zk_any_i32("x");
	auto mod = zk_choice(2, "mod");
	b.d.code.op(Op::PUSHI, (uint32_t) x).op(Op::PUSHI, 0).op(Op::PUSHI, 1).op(mod ? Op::MOD : Op::DIV).op(Op::PUSHV, 999).op(Op::ADD).op(Op::ADD).op(Op::RSR);
	auto& v = b.vm();
	v.register_exception_handler(lenient_vm_exception_handler);
	zk_assert(v.call_function<int32_t>("MAIN") == x, "lenient.zero");
	zk_assert(v.empty(), "stack.depth");
	zk_cover("end");
}
HARNESS(full_stack) {
	Base b;
	auto e = fn(b.d, "EXT", {}, T::INT, CONST | EXTERN);
	b.d.code.op(Op::BE, e.sym).op(Op::RSR);
	auto& v = b.vm();
	v.register_external("EXT", []() -> int32_t { return 3; });
	auto n = 2047 + zk_choice(2, "full");
	for (uint32_t i = 0; i < n; ++i) v.push_int((int32_t) i);
	zk_assert(outcome(v) == (n == 2048 ? FAILED : RAN), "full.outcome");
	if (n < 2048) zk_assert(v.pop_int() == 3, "full.result");
	for (uint32_t i = n; i-- > 0;) zk_assert(v.pop_int() == (int32_t) i, "full.below");
	zk_assert(v.empty(), "stack.depth");
	zk_cover("end");
}
// ---- recursion
HARNESS(recursion) {
	Base b;
	auto params = 1 + zk_choice(3, "parameters");
	auto locals = zk_choice(3, "locals");
	bool ret = zk_choice(2, "returns"), end = zk_choice(2, "last in the table");
	auto f = fn(b.d, "FN", std::vector<T>(params, T::INT), ret ? T::INT : T::VOID);
	std::vector<uint32_t> l;
	for (uint32_t i = 0; i < locals; ++i) {
		std::string n = "FN.L";
		n += (char) ('0' + i);
		l.push_back(b.d.var(n.c_str(), i == 1 ? T::STRING : T::INT, 1 + i % 2));
	}
	if (!end) b.d.var("ZZ", T::INT);
	auto sum = b.r;
	// FN(n, p, q): locals = p, q + text; if n: FN(n - 1, p + 1, q + 2); R = R * 10 + L0 (+ L1 as seen by the host)
	enter(b.d, f);
	auto& c = b.d.code;
	auto np = f.sym + 1;
	auto last = f.sym + params;
	if (locals > 0) c.op(Op::PUSHV, last).op(Op::PUSHV, l[0]).op(Op::MOVI);
	c.op(Op::PUSHV, np);
	auto jz = c.here();
	c.op(Op::BZ, 0);
	c.op(Op::PUSHI, 1).op(Op::PUSHV, np).op(Op::SUB);
	for (uint32_t i = 1; i < params; ++i) c.op(Op::PUSHI, i).op(Op::PUSHV, np + i).op(Op::ADD);
	c.op(Op::BL, (uint32_t) b.d.syms[f.sym].address);
	if (ret) c.op(Op::PUSHV, sum).op(Op::ADDMOVI); // R += FN(...)
	auto to = c.here();
	for (int i = 0; i < 4; ++i) c.b[jz + 1 + (size_t) i] = std::byte {(uint8_t) (to >> 8 * i)};
	if (locals > 0) c.op(Op::PUSHV, l[0]).op(Op::PUSHV, sum).op(Op::ADDMOVI);
	if (ret) c.op(Op::PUSHI, 1000);
	c.op(Op::RSR);
	auto& v = b.vm();
	v.at(f.sym)->set_local_variables_enable(true);
	int32_t arg[3] = {2, zk_any_i32("p"), zk_any_i32("q")};
	if (params == 1) v.call_function("FN", arg[0]);
	if (params == 2) v.call_function("FN", arg[0], arg[1]);
	if (params == 3) v.call_function("FN", arg[0], arg[1], arg[2]);
	// every level sees its own value of the local variable after the inner call
	uint32_t want = 0;
	for (int lvl = 0; lvl < 3; ++lvl)
		if (locals > 0) want += params == 1 ? (uint32_t) (2 - lvl) : (uint32_t) arg[params - 1] + (uint32_t) lvl * (params - 1);
	if (ret) want += 2000;
	zk_assert((uint32_t) v.at(sum)->get_int() == want, "recursion.locals");
	zk_assert(v.empty(), "stack.depth");
	zk_cover("end");
}
// local variables of every type, arrays included, have their own value at every level
HARNESS(recursion_types) {
	Base b;
	auto set = fn(b.d, "SET", {T::INT}, T::VOID, EXTERN | CONST);
	auto seen = fn(b.d, "SEEN", {T::INT}, T::VOID, EXTERN | CONST);
	auto f = fn(b.d, "FN", {T::INT}, T::VOID);
	auto li = b.d.var("FN.I", T::INT, 3), lf = b.d.var("FN.F", T::FLOAT, 2), ls = b.d.var("FN.S", T::STRING, 2), lfn = b.d.var("FN.FN", T::FUNCTION), lo = b.d.var("FN.O", T::INSTANCE);
	auto& c = b.d.code;
	c.op(Op::RSR); // function variables may carry the address 0
	enter(b.d, f);
	auto np = f.sym + 1;
	c.op(Op::PUSHV, np).op(Op::BE, set.sym);
	c.op(Op::PUSHV, np);
	auto jz = c.here();
	c.op(Op::BZ, 0);
	c.op(Op::PUSHI, 1).op(Op::PUSHV, np).op(Op::SUB).op(Op::BL, (uint32_t) b.d.syms[f.sym].address);
	auto to = c.here();
	for (int i = 0; i < 4; ++i) c.b[jz + 1 + (size_t) i] = std::byte {(uint8_t) (to >> 8 * i)};
	c.op(Op::PUSHV, np).op(Op::BE, seen.sym).op(Op::RSR);
	auto& v = b.vm();
	v.at(f.sym)->set_local_variables_enable(true);
	struct Lvl {
		int32_t i[3];
		float f[2];
		std::string s[2];
		int32_t fn;
		std::shared_ptr<DaedalusInstance> o;
	} lv[3];
	for (auto& l : lv) {
		for (auto& x : l.i) x = zk_any_i32("int");
		for (auto& x : l.f) x = zk_any_f32("float");
		for (auto& x : l.s) x = zk_str(1, "text");
		l.fn = zk_any_i32("function");
		l.o = std::make_shared<Inst>();
	}
	lv[1].o = nullptr;
	v.register_external("SET", [&](int n) {
		auto& l = lv[n];
		for (uint16_t i = 0; i < 3; ++i) v.at(li)->set_int(l.i[i], i);
		for (uint16_t i = 0; i < 2; ++i) v.at(lf)->set_float(l.f[i], i), v.at(ls)->set_string(l.s[i], i);
		v.at(lfn)->set_int(l.fn, 0);
		v.at(lo)->set_instance(l.o);
	});
	int count = 0;
	v.register_external("SEEN", [&](int) { // parameters are not saved, local variables are
		zk_assert(count < 3, "recursion.order");
		auto& l = lv[count++];
		for (uint16_t i = 0; i < 3; ++i) zk_assert(v.at(li)->get_int(i) == l.i[i], "recursion.int");
		for (uint16_t i = 0; i < 2; ++i) {
			zk_assert(zk_bits(v.at(lf)->get_float(i)) == zk_bits(l.f[i]), "recursion.float");
			zk_assert(v.at(ls)->get_string(i) == l.s[i], "recursion.string");
		}
		zk_assert(v.at(lfn)->get_int(0) == l.fn, "recursion.function");
		zk_assert(v.at(lo)->get_instance() == l.o, "recursion.instance");
	});
	v.call_function("FN", 2);
	zk_assert(count == 3, "recursion.levels");
	zk_assert(v.empty(), "stack.depth");
	zk_cover("end");
}
// ---- instances
HARNESS(initialize) {
	Base b;
	auto proto = b.d.add({"PROTO", T::PROTOTYPE});
	b.d.syms[proto].parent = (int32_t) b.cls;
	auto it = b.d.var("I2", T::INSTANCE, 1, CONST);
	auto lost = b.d.var("LOST", T::INSTANCE, 1, CONST), lostp = b.d.add({"LOSTP", T::PROTOTYPE});
	b.d.syms[lost].parent = (int32_t) (zk_choice(2, "lost") ? -1 : (int32_t) lostp), b.d.syms[lost].address = 0x20000;
	b.d.syms[lostp].address = 0x20001;
	auto ucls = b.d.add({"UCLS", T::CLASS});
	auto un = b.d.var("UNREG", T::INSTANCE, 1, CONST);
	b.d.syms[un].parent = (int32_t) ucls, b.d.syms[un].address = 0x20002;
	auto x = zk_any_i32("x"), y = zk_any_i32("y");
	bool fail = zk_choice(2, "fails");
	auto& c = b.d.code;
	c.op(Op::RSR);
	b.d.syms[proto].address = (int32_t) c.here();
	c.op(Op::PUSHI, (uint32_t) x).op(Op::PUSHV, b.ma).op(Op::MOVI).op(Op::RSR);
	b.d.syms[it].parent = (int32_t) proto, b.d.syms[it].address = (int32_t) c.here();
	c.op(Op::BL, (uint32_t) b.d.syms[proto].address).op(Op::PUSHI, (uint32_t) y).op(Op::GMOVI, b.self).op(Op::PUSHV, b.mb).op(Op::MOVI);
	if (fail) c.op(Op::PUSHV, 999);
	c.op(Op::RSR);
	auto& v = b.vm();
	auto old = std::make_shared<Inst>();
	auto oo = std::make_shared<Other>();
	v.allocate_instance(old, "INST");
	v.at(b.self)->set_instance(old);
	v.unsafe_set_gi(oo);
	auto below = zk_any_i32("below");
	v.push_int(below);
	auto n = std::make_shared<Inst>();
	bool failed = fails([&] { v.init_instance(n, "i2"); });
	zk_assert(failed == fail, "initialize.outcome");
	zk_assert(n->a == x && n->b == y, "initialize.members");
	zk_assert(old->a == 0 && old->b == 0, "initialize.other");
	zk_assert(n->symbol_index() == it && v.at(it)->get_instance() == n, "initialize.symbol");
	zk_assert(v.at(b.self)->get_instance() == old && v.unsafe_get_gi() == oo, "initialize.restored");
	auto k = zk_choice(6, "refused");
	bool refused = fails([&] {
		if (k == 0) v.init_instance<Inst>("NOTHING");
		if (k == 1) v.init_instance<Inst>("R");
		if (k == 2) v.init_instance<Inst>("LOST");
		if (k == 3) v.init_instance<Other>("I2");
		if (k == 4) v.init_instance<Inst>("UNREG");
		if (k == 5) v.init_opaque_instance(v.at(lost));
	});
	zk_assert(refused, "initialize.refused");
	zk_assert(v.at(it)->get_instance() == n && v.at(b.self)->get_instance() == old, "initialize.refused.unchanged");
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	zk_cover("end");
}
HARNESS(access_trap) {
	Base b;
	b.d.code.op(Op::PUSHV, b.r).op(Op::PUSHV, b.r);
	auto& v = b.vm();
	DaedalusSymbol* seen = nullptr;
	auto x = zk_any_i32("x");
	v.register_access_trap([&](DaedalusSymbol& s) { seen = &s; v.push_int(x); });
	bool on = zk_choice(2, "on");
	v.at(b.r)->set_access_trap_enable(on);
	zk_assert(outcome(v) == RAN && (seen == v.at(b.r)) == on, "trap.asked");
	zk_assert(v.pop_int() == (on ? x : 0) && v.empty(), "trap.value");
	v.at(b.r)->set_access_trap_enable(false);
	seen = nullptr;
	zk_assert(outcome(v) == RAN && seen == nullptr, "trap.off");
	zk_cover("end");
}
// instances whose type is unknown or other than expected do not reach the host
HARNESS(instance_types) {
	Base b;
	auto e = fn(b.d, "EXT", {T::INSTANCE}, T::VOID, CONST | EXTERN);
	auto f = fn(b.d, "FN", {}, T::INSTANCE);
	b.d.code.op(Op::BE, e.sym).op(Op::RSR);
	b.d.syms[f.sym].address = (int32_t) b.d.code.here();
	b.d.code.op(Op::PUSHVI, b.inst).op(Op::RSR);
	auto& v = b.vm();
	auto k = zk_choice(4, "instance");
	std::shared_ptr<DaedalusInstance> in;
	auto i = std::make_shared<Inst>();
	auto o = std::make_shared<Other>();
	if (k == 0) v.allocate_instance(i, "INST"), in = i;
	if (k == 1) v.allocate_instance(o, "OINST"), in = o;
	if (k == 2) in = i; // never allocated
	auto how = zk_choice(4, "as");
	DaedalusInstance* got = nullptr;
	int calls = 0;
	if (how == 0) v.register_external("EXT", [&](std::shared_ptr<Inst> x) { got = x.get(); ++calls; });
	if (how == 1) v.register_external("EXT", [&](Inst* x) { got = x; ++calls; });
	if (how == 2) v.register_external("EXT", [&](std::shared_ptr<DaedalusInstance> x) { got = x.get(); ++calls; });
	bool ok = k == 0 || k == 3 || how == 2;
	if (how == 3) {
		v.at(b.inst)->set_instance(in);
		bool failed = fails([&] { got = v.call_function<std::shared_ptr<Inst>>("FN").get(); });
		zk_assert(failed == !ok, "result.outcome");
	} else {
		v.push_instance(in);
		zk_assert(outcome(v) == (ok ? RAN : FAILED), "external.outcome");
		zk_assert(calls == ok, "external.called");
	}
	zk_assert(got == (ok ? in.get() : nullptr), "instance.given");
	zk_assert(v.empty(), "stack.depth");
	zk_cover("end");
}
// strings do not pile up, whether their values are used or not
HARNESS(string_pool) {
	Base b;
	auto e = fn(b.d, "EXT", {}, T::STRING, CONST | EXTERN);
	auto f = fn(b.d, "FN", {}, T::STRING), g = fn(b.d, "G", {}, T::VOID), h = fn(b.d, "H", {T::STRING}, T::INT);
	b.d.syms[f.sym].address = 0;
	b.d.code.op(Op::BE, e.sym).op(Op::BE, e.sym).op(Op::RSR);
	b.d.syms[g.sym].address = (int32_t) b.d.code.here();
	b.d.code.op(Op::BE, e.sym).op(Op::BE, e.sym).op(Op::RSR);
	b.d.syms[h.sym].address = (int32_t) b.d.code.here();
	b.d.code.op(Op::PUSHI, 1).op(Op::RSR); // never takes its argument
	auto& v = b.vm();
	v.register_external("EXT", []() -> std::string { return "x"; });
	auto* pool = v.at((uint32_t) v.symbols().size() - 1);
	auto k = zk_choice(5, "use");
	uint32_t after = 0;
	for (int n = 0; n < 8; ++n) {
		if (k == 0) v.call_function("FN");
		if (k == 1) v.call_function("G");
		if (k == 2) v.call_function("H", std::string_view("y"));
		if (k == 3) zk_assert(v.call_function<std::string>("FN") == "x", "string.result");
		if (k == 4) {
			v.push_string("q");
			(void) v.pop_string();
		}
		if (n == 0) after = pool->count();
	}
	zk_assert(pool->count() == after, "string.pool.stable");
	zk_assert(v.empty(), "stack.depth");
	zk_cover("end");
}
