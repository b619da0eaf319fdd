// Script variables: access to the elements of global symbols and of members of instances, directly and by instructions.
#include "dat.hh"
struct Inst : DaedalusInstance {
	int32_t a[3] {};
	float f[2] {};
	std::string s[2];
	int32_t fn = 0;
	int32_t e = 0;
};
struct Other : DaedalusInstance { int32_t a[3] {}; };
struct World {
	Dat d;
	uint32_t self, cls, mi, mf, ms, mfn, unbound, other, oi, gi, gf, gs, gfn, cst, cfn, insv, tpl, inst, oinst;
	explicit World(bool proto = false) {
		self = d.var("SELF", T::INSTANCE);
		cls = d.add({"CLS", T::CLASS, 0, 5});
		mi = member("CLS.I", T::INT, 3, cls), mf = member("CLS.F", T::FLOAT, 2, cls), ms = member("CLS.S", T::STRING, 2, cls), mfn = member("CLS.FN", T::FUNCTION, 1, cls);
		unbound = member("CLS.U", T::INT, 1, cls);
		other = d.add({"OCLS", T::CLASS, 0, 1});
		oi = member("OCLS.I", T::INT, 3, other);
		gi = d.var("GI", T::INT, 3), gf = d.var("GF", T::FLOAT, 3), gs = d.var("GS", T::STRING, 3), gfn = d.var("GFN", T::FUNCTION, 2);
		cst = d.var("CI", T::INT, 2, CONST);
		cfn = d.func("CFN", 2);
		d.var("CFN.A", T::INT), d.var("CFN.B", T::INT);
		insv = d.var("V", T::INSTANCE);
		d.syms[insv].parent = (int32_t) cls;
		tpl = d.add({"PROTO", T::PROTOTYPE});
		d.syms[tpl].parent = (int32_t) cls, d.syms[tpl].address = 3;
		inst = d.var("INST", T::INSTANCE, 1, CONST);
		d.syms[inst].parent = (int32_t) (proto ? tpl : cls);
		oinst = d.var("OINST", T::INSTANCE, 1, CONST);
		d.syms[oinst].parent = (int32_t) other, d.syms[oinst].address = 1;
	}
	uint32_t member(char const* n, T t, uint32_t count, uint32_t parent) {
		Sym s {n, t, MEMBER, count, 77};
		s.parent = (int32_t) parent;
		return d.add(s);
	}
	void code() { d.code.op(Op::RSR).op(Op::RSR).op(Op::RSR).op(Op::RSR).op(Op::RSR).op(Op::RSR).op(Op::RSR).op(Op::RSR); }
	static void bind(DaedalusScript& v) {
		v.register_member("CLS.I", &Inst::a);
		v.register_member("CLS.F", &Inst::f);
		v.register_member("CLS.S", &Inst::s);
		v.register_member("CLS.FN", &Inst::fn);
		v.register_member("OCLS.I", &Other::a);
	}
};
static std::string const any_text(char const* l) { return zk_str(2, l); }
// every value a script can see, to show that nothing but the addressed element changes
struct State {
	int32_t gi[3], gfn[2], a[3], fn, oa[3], cst[2];
	uint32_t gf[3], f[2];
	std::string gs[3], s[2];
	void fill(Vm& v, World const& w, Inst& i, Other& o) {
		for (int k = 0; k < 3; ++k) {
			gi[k] = zk_any_i32("gi"), gf[k] = zk_any_u32("gf"), gs[k] = any_text("gs"), a[k] = zk_any_i32("a"), oa[k] = zk_any_i32("oa");
			v.at(w.gi)->set_int(gi[k], (uint16_t) k), v.at(w.gf)->set_float(zk_f32(gf[k]), (uint16_t) k), v.at(w.gs)->set_string(gs[k], (uint16_t) k);
			i.a[k] = a[k], o.a[k] = oa[k];
		}
		for (int k = 0; k < 2; ++k) {
			gfn[k] = zk_any_i32("gfn"), f[k] = zk_any_u32("f"), s[k] = any_text("s"), cst[k] = zk_any_i32("cst");
			v.at(w.gfn)->set_int(gfn[k], (uint16_t) k), i.f[k] = zk_f32(f[k]), i.s[k] = s[k], v.at(w.cst)->set_int(cst[k], (uint16_t) k);
		}
		fn = zk_any_i32("fn"), i.fn = fn;
	}
	void check(Vm& v, World const& w, Inst const& i, Other const& o) {
		for (int k = 0; k < 3; ++k) {
			zk_assert(v.at(w.gi)->get_int((uint16_t) k) == gi[k], "global.int");
			zk_assert(zk_bits(v.at(w.gf)->get_float((uint16_t) k)) == gf[k], "global.float");
			zk_assert(v.at(w.gs)->get_string((uint16_t) k) == gs[k], "global.string");
			zk_assert(i.a[k] == a[k], "member.int");
			zk_assert(o.a[k] == oa[k], "other.instance");
		}
		for (int k = 0; k < 2; ++k) {
			zk_assert(v.at(w.gfn)->get_int((uint16_t) k) == gfn[k], "global.function");
			zk_assert(v.at(w.cst)->get_int((uint16_t) k) == cst[k], "constant");
			zk_assert(zk_bits(i.f[k]) == f[k], "member.float");
			zk_assert(i.s[k] == s[k], "member.string");
		}
		zk_assert(i.fn == fn, "member.function");
	}
};
template <class F>
static Out attempt(F const& f) {
	try {
		f();
		return RAN;
	} catch (DaedalusIllegalConstAccess&) {
		return CONSTANT;
	} catch (DaedalusIllegalTypeAccess&) {
		return TYPE;
	} catch (DaedalusIllegalIndexAccess&) {
		return INDEX;
	} catch (DaedalusNoContextError&) {
		return NOCONTEXT;
	} catch (DaedalusIllegalContextType&) {
		return CONTEXT;
	} catch (DaedalusUnboundMemberAccess&) {
		return UNBOUND;
	} catch (DaedalusScriptError&) {
		return FAILED;
	} catch (std::exception&) {
		return OTHER;
	}
}
struct Setup {
	World w;
	Vm& v;
	std::shared_ptr<Inst> i;
	std::shared_ptr<Other> o;
	State st;
	Setup(uint8_t flags = 0, Code const* code = nullptr, bool proto = false) : w(proto), v(make(w, flags, code)), i(std::make_shared<Inst>()), o(std::make_shared<Other>()) {
		World::bind(v);
		v.allocate_instance(i, "INST");
		v.allocate_instance(o, "OINST");
		st.fill(v, w, *i, *o);
	}
	static Vm& make(World& w, uint8_t flags, Code const* code) {
		zk_opt("hash_len");
		if (code) w.d.code = *code;
		else w.code();
		return vm_for(w.d, flags);
	}
	~Setup() { st.check(v, w, *i, *o); }
};
// which access to which symbol is allowed
enum Kind { INT_, FLOAT_, STRING_ };
static Out expected(World const& w, uint32_t sym, Kind k, uint16_t index, int ctx) {
	bool ok, member = sym == w.mi || sym == w.mf || sym == w.ms || sym == w.mfn || sym == w.unbound || sym == w.oi;
	uint32_t count = sym == w.mi || sym == w.oi || sym == w.gi || sym == w.gf || sym == w.gs ? 3 : sym == w.mf || sym == w.ms || sym == w.gfn || sym == w.cst ? 2 : 1;
	if (k == INT_) ok = sym == w.mi || sym == w.mfn || sym == w.unbound || sym == w.oi || sym == w.gi || sym == w.gfn || sym == w.cst;
	else if (k == FLOAT_) ok = sym == w.mf || sym == w.gf;
	else ok = sym == w.ms || sym == w.gs;
	if (!ok) return TYPE;
	if (index >= count) return INDEX;
	if (!member) return RAN;
	if (ctx == 0) return NOCONTEXT;
	if (sym == w.unbound) return UNBOUND;
	return (sym == w.oi) == (ctx == 2) ? RAN : CONTEXT;
}
static uint32_t pick(World const& w, uint32_t part) {
	uint32_t const all[] = {w.gi, w.gf, w.gs, w.gfn, w.cst, w.cfn, w.insv, w.cls, w.tpl, w.mi, w.mf, w.ms, w.mfn, w.unbound, w.oi};
	return part == 0 ? all[zk_choice(9, "symbol")] : all[9 + zk_choice(6, "symbol")];
}
static void access(uint32_t part) {
	Setup s;
	auto sym = pick(s.w, part);
	int ctx = (int) zk_choice(3, "context");
	DaedalusInstance* c = ctx == 0 ? nullptr : ctx == 1 ? (DaedalusInstance*) s.i.get() : s.o.get();
	auto k = (Kind) zk_choice(3, "kind");
	bool set = zk_choice(2, "set");
	auto index = zk_any_u16("index");
	auto want = expected(s.w, sym, k, index, ctx);
	auto val = zk_any_i32("value");
	auto txt = any_text("value");
	int32_t got = 0;
	std::string gott;
	auto* y = s.v.at(sym);
	auto r = attempt([&] {
		if (k == INT_) set ? y->set_int(val, index, c) : (void) (got = y->get_int(index, c));
		if (k == FLOAT_) set ? y->set_float(zk_f32((uint32_t) val), index, c) : (void) (got = (int32_t) zk_bits(y->get_float(index, c)));
		if (k == STRING_) set ? y->set_string(txt, index, c) : (void) (gott = y->get_string(index, c));
	});
	zk_assert(r == want, "access.outcome");
	if (want == RAN) {
		auto e = zk_split(index);
		int32_t* in = sym == s.w.gi ? s.st.gi : sym == s.w.gfn ? s.st.gfn : sym == s.w.cst ? s.st.cst : sym == s.w.mi ? s.st.a : sym == s.w.mfn ? &s.st.fn : s.st.oa;
		uint32_t* fl = sym == s.w.gf ? s.st.gf : s.st.f;
		std::string* tx = sym == s.w.gs ? s.st.gs : s.st.s;
		if (set && k == INT_) in[e] = val;
		if (set && k == FLOAT_) fl[e] = (uint32_t) val;
		if (set && k == STRING_) tx[e] = txt;
		if (!set && k == INT_) zk_assert(got == in[e], "access.int");
		if (!set && k == FLOAT_) zk_assert((uint32_t) got == fl[e], "access.float");
		if (!set && k == STRING_) zk_assert(gott == tx[e], "access.string");
	}
	zk_cover("end");
}
HARNESS(access_globals) { access(0); }
HARNESS(access_members) { access(1); }
HARNESS(instances) {
	Setup s(0, nullptr, zk_choice(2, "instance of a prototype"));
	auto* y = s.v.at(s.w.insv);
	zk_assert(y->get_instance() == nullptr, "instance.initially.none");
	zk_assert(s.v.at(s.w.inst)->get_instance() == s.i && s.v.at(s.w.oinst)->get_instance() == s.o, "instance.allocated");
	zk_assert(s.v.find_symbol_by_instance(s.i) == s.v.at(s.w.inst) && s.i->symbol_index() == s.w.inst, "instance.symbol");
	y->set_instance(s.i);
	zk_assert(y->get_instance() == s.i && y->is_instance_of<Inst>() && !y->is_instance_of<Other>(), "instance.set");
	zk_assert(s.v.at(s.w.oinst)->get_instance() == s.o, "instance.other");
	uint32_t const no[] = {s.w.gi, s.w.gf, s.w.gs, s.w.gfn, s.w.cls, s.w.tpl, s.w.mi};
	auto* x = s.v.at(no[zk_choice(7, "symbol")]);
	zk_assert(attempt([&] { (void) x->get_instance(); }) == TYPE, "instance.get.refused");
	zk_assert(attempt([&] { x->set_instance(s.o); }) == TYPE, "instance.set.refused");
	zk_cover("end");
}
// arrays with more elements than fit a byte, as members and as globals
struct Large : DaedalusInstance {
	int32_t a[300] {};
	float f[300] {};
};
HARNESS(large_arrays) {
	zk_opt("hash_len");
	Dat d;
	auto cls = d.add({"CLS", T::CLASS, 0, 2});
	uint32_t m[2];
	for (int k = 0; k < 2; ++k) {
		Sym s {k ? "CLS.F" : "CLS.I", k ? T::FLOAT : T::INT, MEMBER, 300, 0};
		s.parent = (int32_t) cls;
		m[k] = d.add(s);
	}
	auto gi = d.var("GI", T::INT, 300), gf = d.var("GF", T::FLOAT, 300);
	auto in = d.var("INST", T::INSTANCE, 1, CONST);
	d.syms[in].parent = (int32_t) cls;
	d.code.op(Op::MOVI).op(Op::MOVF).op(Op::MOVI).op(Op::MOVF);
	auto& v = vm_for(d);
	v.register_member("CLS.I", &Large::a);
	v.register_member("CLS.F", &Large::f);
	auto i = std::make_shared<Large>();
	v.allocate_instance(i, "INST");
	v.unsafe_set_gi(i);
	static uint16_t const places[] = {0, 43, 255, 256, 299};
	auto at = places[zk_choice(5, "element")];
	auto x = zk_any_i32("x"), y = zk_any_i32("y");
	auto f = zk_any_u32("f"), g = zk_any_u32("g");
	bool code = zk_choice(2, "by instruction");
	if (code) {
		v.push_int(x), v.push_reference(v.at(m[0]), at), v.exec();
		v.push_float(zk_f32(f)), v.push_reference(v.at(m[1]), at), v.exec();
		v.push_int(y), v.push_reference(v.at(gi), at), v.exec();
		v.push_float(zk_f32(g)), v.push_reference(v.at(gf), at), v.exec();
	} else {
		v.at(m[0])->set_int(x, at, i.get()), v.at(m[1])->set_float(zk_f32(f), at, i.get());
		v.at(gi)->set_int(y, at), v.at(gf)->set_float(zk_f32(g), at);
	}
	for (auto k : places) {
		bool hit = k == at;
		zk_assert(i->a[k] == (hit ? x : 0) && zk_bits(i->f[k]) == (hit ? f : 0), "large.members");
		zk_assert(v.at(m[0])->get_int(k, i.get()) == (hit ? x : 0) && zk_bits(v.at(m[1])->get_float(k, i.get())) == (hit ? f : 0), "large.member.read");
		zk_assert(v.at(gi)->get_int(k) == (hit ? y : 0) && zk_bits(v.at(gf)->get_float(k)) == (hit ? g : 0), "large.globals");
		v.push_reference(v.at(m[0]), k);
		v.push_reference(v.at(m[1]), k);
		v.push_reference(v.at(gi), k);
		v.push_reference(v.at(gf), k);
		zk_assert(zk_bits(v.pop_float()) == (hit ? g : 0) && v.pop_int() == (hit ? y : 0), "large.global.reference");
		zk_assert(zk_bits(v.pop_float()) == (hit ? f : 0) && v.pop_int() == (hit ? x : 0), "large.member.reference");
	}
	zk_cover("end");
}
// the assignment instructions, from every kind of place, with and without an instance, under every execution flag
static void assign(Kind k, int first = 0, int count = 1) {
	static Op const ops[3][6] = {{Op::MOVI, Op::MOVVF, Op::ADDMOVI, Op::SUBMOVI, Op::MULMOVI, Op::DIVMOVI}, {Op::MOVF}, {Op::MOVS}};
	uint8_t flags = (uint8_t) (zk_choice(4, "flags") << 1);
	bool lenient = flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS, writable = flags & DaedalusVmExecutionFlag::IGNORE_CONST_SPECIFIER;
	auto o = ops[k][first + (count > 1 ? (int) zk_choice((uint32_t) count, "op") : 0)];
	Code code;
	for (int n = 0; n < 4; ++n) code.op(o);
	Setup s(flags, &code);
	auto& w = s.w;
	uint32_t const targets[3][6] = {{w.gi, w.mi, w.oi, w.gfn, w.cst, w.gf}, {w.gf, w.mf, w.gi}, {w.gs, w.ms, w.gi}};
	auto sym = targets[k][zk_choice(k == INT_ ? 6 : 3, "target")];
	int ctx = (int) zk_choice(3, "context");
	auto below = zk_any_i32("below");
	auto val = zk_any_i32("value");
	zk_assume(val != 0);
	auto txt = any_text("value");
	auto index = (uint8_t) zk_choice(4, "index");
	s.v.push_int(below);
	if (k == INT_) s.v.push_int(val);
	if (k == FLOAT_) zk_choice(2, "literal") ? s.v.push_int(val) : s.v.push_float(zk_f32((uint32_t) val));
	if (k == STRING_) s.v.push_string(txt);
	if (ctx) s.v.unsafe_set_gi(ctx == 1 ? std::shared_ptr<DaedalusInstance>(s.i) : std::shared_ptr<DaedalusInstance>(s.o));
	s.v.push_reference(s.v.at(sym), index);
	// the place is fixed when the reference is made
	s.v.unsafe_set_gi(zk_choice(2, "later context") ? s.o : nullptr);
	auto r = outcome(s.v);
	bool member = sym == w.mi || sym == w.oi || sym == w.mf || sym == w.ms;
	bool skipped = member && ctx == 0 && lenient;
	auto want = sym == w.cst && !writable ? CONSTANT : skipped ? RAN : expected(w, sym, k, index, ctx);
	zk_assert(r == want, "assign.outcome");
	if (want == RAN && !skipped) {
		if (k == INT_) {
			auto& t = (sym == w.gi ? s.st.gi : sym == w.mi ? s.st.a : sym == w.oi ? s.st.oa : sym == w.gfn ? s.st.gfn : s.st.cst)[index];
			if (o == Op::ADDMOVI) t = (int32_t) ((uint32_t) t + (uint32_t) val);
			else if (o == Op::SUBMOVI) t = (int32_t) ((uint32_t) t - (uint32_t) val);
			else if (o == Op::MULMOVI) t = (int32_t) ((uint32_t) t * (uint32_t) val);
			else if (o == Op::DIVMOVI) t = (int32_t) ((int64_t) t / val);
			else t = val;
		}
		if (k == FLOAT_) (sym == w.gf ? s.st.gf : s.st.f)[index] = (uint32_t) val;
		if (k == STRING_) (sym == w.gs ? s.st.gs : s.st.s)[index] = txt;
	}
	zk_assert(s.v.pop_int() == below && s.v.empty(), "stack.below");
	zk_cover("end");
}
HARNESS(assign_int) { assign(INT_, 0, 2); }
HARNESS(add_sub_int) { assign(INT_, 2, 2); }
HARNESS(mul_div_int) { assign(INT_, 4, 2); }
HARNESS(assign_float) { assign(FLOAT_); }
HARNESS(assign_string) { assign(STRING_); }
// reading through references
HARNESS(read_reference) {
	uint8_t flags = (uint8_t) (zk_choice(2, "flags") << 1);
	Setup s(flags);
	auto& w = s.w;
	auto k = (Kind) zk_choice(3, "kind");
	uint32_t const all[] = {w.gi, w.mi, w.oi, w.cst, w.gf, w.mf, w.gs, w.ms};
	auto sym = all[zk_choice(8, "symbol")];
	int ctx = (int) zk_choice(3, "context");
	auto index = (uint8_t) zk_choice(4, "index");
	if (ctx) s.v.unsafe_set_gi(ctx == 1 ? std::shared_ptr<DaedalusInstance>(s.i) : std::shared_ptr<DaedalusInstance>(s.o));
	s.v.push_reference(s.v.at(sym), index);
	s.v.unsafe_set_gi(nullptr);
	int32_t got = 0;
	std::string txt;
	auto r = attempt([&] {
		if (k == INT_) got = s.v.pop_int();
		if (k == FLOAT_) got = (int32_t) zk_bits(s.v.pop_float());
		if (k == STRING_) txt = s.v.pop_string();
	});
	bool member = sym == w.mi || sym == w.oi || sym == w.mf || sym == w.ms;
	bool skipped = member && ctx == 0;
	auto want = skipped ? flags ? RAN : NOCONTEXT : expected(w, sym, k, index, ctx);
	zk_assert(r == want, "read.outcome");
	if (want == RAN) {
		if (k == INT_) zk_assert(got == (skipped ? 0 : (sym == w.gi ? s.st.gi : sym == w.mi ? s.st.a : sym == w.oi ? s.st.oa : s.st.cst)[index]), "read.int");
		if (k == FLOAT_) zk_assert((uint32_t) got == (skipped ? 0 : (sym == w.gf ? s.st.gf : s.st.f)[index]), "read.float");
		if (k == STRING_) zk_assert(txt == (skipped ? "" : (sym == w.gs ? s.st.gs : s.st.s)[index]), "read.string");
	}
	zk_assert(s.v.empty(), "stack.depth");
	zk_cover("end");
}
// setting instance variables and the current instance
HARNESS(assign_instance) {
	Code code;
	World tmp;
	auto vi = tmp.insv, ii = tmp.inst, oi = tmp.oinst, gi = tmp.gi;
	uint32_t const targets[] = {vi, ii, gi};
	auto t = targets[zk_choice(3, "target")];
	uint32_t const sources[] = {ii, oi, vi};
	auto src = sources[zk_choice(3, "source")];
	code.op(Op::PUSHVI, src).op(Op::PUSHVI, t).op(Op::MOVVI).op(Op::GMOVI, t);
	Setup s(0, &code);
	auto want = s.v.at(src)->get_instance();
	zk_assert(outcome(s.v) == RAN && outcome(s.v) == RAN, "push");
	auto r = outcome(s.v);
	zk_assert(r == (t == gi ? TYPE : RAN), "assign.outcome");
	zk_assert(s.v.empty(), "stack.depth");
	if (t != gi) {
		zk_assert(s.v.at(t)->get_instance() == want, "assign.instance");
		zk_assert(s.v.at(oi)->get_instance() == s.o, "assign.other");
		zk_assert(outcome(s.v) == RAN && s.v.unsafe_get_gi() == want, "current.instance");
	} else {
		s.v.unsafe_jump(11);
		zk_assert(outcome(s.v) == TYPE && s.v.unsafe_get_gi() == nullptr, "current.instance.refused");
	}
	zk_cover("end");
}
// the stack keeps what is pushed
HARNESS(stack_values) {
	zk_opt("hash_len");
	Setup s;
	auto a = zk_any_i32("a");
	auto f = zk_any_u32("f");
	auto t = any_text("t"), u = any_text("u");
	s.v.push_int(a);
	s.v.push_string(t);
	s.v.push_float(zk_f32(f));
	s.v.push_instance(s.i);
	s.v.push_string(u);
	zk_assert(s.v.top_is_reference() && s.v.pop_string() == u, "stack.string");
	zk_assert(!s.v.top_is_reference() && s.v.pop_instance() == s.i, "stack.instance");
	zk_assert(zk_bits(s.v.pop_float()) == f, "stack.float");
	s.v.push_string(u);
	zk_assert(s.v.pop_string() == u, "stack.string.again");
	zk_assert(s.v.pop_string() == t, "stack.string.below");
	zk_assert(s.v.pop_int() == a, "stack.int");
	zk_assert(s.v.empty(), "stack.depth");
	zk_assert(attempt([&] { (void) s.v.pop_reference(); }) == FAILED && attempt([&] { (void) s.v.pop_instance(); }) == FAILED, "stack.empty.refused");
	zk_assert(s.v.pop_int() == 0 && s.v.pop_float() == 0, "stack.empty.zero");
	auto w = zk_choice(3, "kind");
	if (w == 0) s.v.push_float(zk_f32(f));
	if (w == 1) s.v.push_instance(s.i);
	if (w == 2) s.v.push_int(a);
	if (w == 0) zk_assert(attempt([&] { (void) s.v.pop_int(); }) == FAILED, "stack.float.as.int");
	if (w == 1) zk_assert(attempt([&] { (void) (zk_choice(2, "as") ? (void) s.v.pop_int() : (void) s.v.pop_float()); }) == FAILED, "stack.instance.as.number");
	if (w == 2) zk_assert(attempt([&] { zk_choice(2, "as") ? (void) s.v.pop_instance() : (void) s.v.pop_reference(); }) == FAILED, "stack.int.as.other");
	zk_assert(s.v.empty(), "stack.depth.after");
	zk_cover("end");
}
static Vm& small() {
	zk_opt("hash_len");
	Dat d;
	d.var("X", T::INT);
	d.code.op(Op::RSR);
	return vm_for(d);
}
HARNESS(many_strings) {
	auto& v = small();
	uint32_t n = 300;
	std::vector<std::string> t;
	for (uint32_t i = 0; i < n; ++i) {
		t.push_back(std::string(1, (char) zk_any_char("", "text")));
		v.push_string(t.back());
	}
	for (uint32_t i = n; i-- > 0;) zk_assert(v.pop_string() == t[i], "stack.strings");
	zk_assert(v.empty(), "stack.depth");
	zk_cover("end");
}
HARNESS(stack_full) {
	auto& v = small();
	auto a = zk_any_i32("a");
	v.push_int(a);
	for (int i = 0; i < 2046; ++i) v.push_int(i);
	v.push_int(a);
	auto w = zk_choice(5, "kind");
	auto r = attempt([&] {
		if (w == 0) v.push_int(1);
		if (w == 1) v.push_float(1);
		if (w == 2) v.push_string("x");
		if (w == 3) v.push_instance(nullptr);
		if (w == 4) v.push_reference(v.at(0));
	});
	zk_assert(r == FAILED, "stack.full.refused");
	zk_assert(v.pop_int() == a, "stack.top");
	for (int i = 2046; i-- > 0;) zk_assert(v.pop_int() == i, "stack.order");
	zk_assert(v.pop_int() == a && v.empty(), "stack.bottom");
	zk_cover("end");
}
// instances of classes the host does not know: members do not overlap, strings are strings
HARNESS(opaque) {
	zk_opt("hash_len");
	Dat d;
	d.var("SELF", T::INSTANCE);
	auto c = d.add({"CLS", T::CLASS, 0, 3, 0});
	static T const types[] = {T::INT, T::FLOAT, T::STRING, T::FUNCTION};
	T t[3];
	uint32_t n[3];
	auto lengths = zk_choice(2, "counts");
	for (int i = 0; i < 3; ++i) {
		t[i] = types[zk_choice(4, "type")];
		n[i] = 1 + (lengths + (uint32_t) i) % ZK_Q(2, 3);
		Sym s {"CLS.M", t[i], MEMBER, n[i], 12};
		s.name += (char) ('0' + i);
		s.parent = (int32_t) c;
		d.add(s);
	}
	auto in = d.var("I", T::INSTANCE, 1, CONST);
	d.syms[in].parent = (int32_t) c;
	d.code.op(Op::RSR);
	auto& v = vm_for(d);
	v.register_as_opaque("CLS");
	auto x = v.init_opaque_instance(v.at(in)), y = v.init_opaque_instance(v.at(in));
	zk_assert(v.at(in)->get_instance() == y, "opaque.instance");
	std::vector<int32_t> want[2];
	std::vector<std::string> text[2];
	for (int pass = 0; pass < 4; ++pass) {
		auto* inst = (pass & 1 ? y : x).get();
		size_t at = 0;
		for (int i = 0; i < 3; ++i) {
			auto* m = v.at(c + 1 + (uint32_t) i);
			for (uint16_t k = 0; k < n[i]; ++k, ++at) {
				if (pass < 2) {
					auto val = zk_any_i32("value");
					auto s = zk_str(1, "text");
					if (t[i] == T::STRING) zk_assert(m->get_string(k, inst).empty(), "opaque.string.initial");
					else if (t[i] == T::FLOAT) zk_assert(m->get_float(k, inst) == 0, "opaque.float.initial");
					else zk_assert(m->get_int(k, inst) == 0, "opaque.int.initial");
					want[pass].push_back(val), text[pass].push_back(s);
					if (t[i] == T::STRING) m->set_string(s, k, inst);
					else if (t[i] == T::FLOAT) m->set_float(zk_f32((uint32_t) val), k, inst);
					else m->set_int(val, k, inst);
				} else {
					if (t[i] == T::STRING) zk_assert(m->get_string(k, inst) == text[pass & 1][at], "opaque.string");
					else if (t[i] == T::FLOAT) zk_assert((int32_t) zk_bits(m->get_float(k, inst)) == want[pass & 1][at], "opaque.float");
					else zk_assert(m->get_int(k, inst) == want[pass & 1][at], "opaque.int");
				}
			}
		}
	}
	zk_cover("end");
}
// instances that answer for themselves
struct Transient : DaedalusTransientInstance {
	DaedalusSymbol const* sym = nullptr;
	uint16_t index = 0;
	int32_t i = 0;
	uint32_t f = 0;
	std::string s;
	int what = 0;
	void set_int(DaedalusSymbol const& y, uint16_t x, int32_t v) override { sym = &y, index = x, i = v, what = 1; }
	int32_t get_int(DaedalusSymbol const& y, uint16_t x) const override { note(y, x, 2); return i; }
	void set_float(DaedalusSymbol const& y, uint16_t x, float v) override { sym = &y, index = x, f = zk_bits(v), what = 3; }
	float get_float(DaedalusSymbol const& y, uint16_t x) const override { note(y, x, 4); return zk_f32(f); }
	void set_string(DaedalusSymbol const& y, uint16_t x, std::string_view v) override { sym = &y, index = x, s = std::string(v), what = 5; }
	std::string const& get_string(DaedalusSymbol const& y, uint16_t x) const override { note(y, x, 6); return s; }
	void note(DaedalusSymbol const& y, uint16_t x, int w) const {
		auto* t = const_cast<Transient*>(this);
		t->sym = &y, t->index = x, t->what = w;
	}
};
HARNESS(transient) {
	Setup s;
	Transient t;
	t.i = zk_any_i32("i"), t.f = zk_any_u32("f"), t.s = any_text("s");
	auto k = (Kind) zk_choice(3, "kind");
	bool set = zk_choice(2, "set");
	auto* y = s.v.at(k == INT_ ? s.w.mi : k == FLOAT_ ? s.w.mf : s.w.ms);
	auto index = zk_any_u16("index");
	auto val = zk_any_i32("value");
	auto txt = any_text("value");
	uint32_t count = k == INT_ ? 3 : 2;
	int32_t got = 0;
	std::string gott;
	auto i0 = t.i;
	auto f0 = t.f;
	auto s0 = t.s;
	auto r = attempt([&] {
		if (k == INT_) set ? y->set_int(val, index, &t) : (void) (got = y->get_int(index, &t));
		if (k == FLOAT_) set ? y->set_float(zk_f32((uint32_t) val), index, &t) : (void) (got = (int32_t) zk_bits(y->get_float(index, &t)));
		if (k == STRING_) set ? y->set_string(txt, index, &t) : (void) (gott = y->get_string(index, &t));
	});
	zk_assert(r == (index < count ? RAN : INDEX), "transient.outcome");
	zk_assert(t.what == (r == RAN ? (int) k * 2 + (set ? 1 : 2) : 0), "transient.asked");
	if (r == RAN) {
		zk_assert(t.sym == y && t.index == index, "transient.place");
		if (set) zk_assert(k == INT_ ? t.i == val : k == FLOAT_ ? t.f == (uint32_t) val : t.s == txt, "transient.value");
		else zk_assert(k == INT_ ? got == i0 : k == FLOAT_ ? (uint32_t) got == f0 : gott == s0, "transient.answer");
	}
	zk_cover("end");
}
// binding members: existence, kind, type, size and class are checked
HARNESS(binding) {
	zk_opt("hash_len");
	World w;
	w.code();
	auto s = w.d.script();
	auto k = zk_choice(9, "case");
	auto fails = [&](auto f) {
		try {
			f();
			return 0;
		} catch (DaedalusSymbolNotFound&) {
			return 1;
		} catch (DaedalusInvalidRegistrationDataType&) {
			return 2;
		} catch (DaedalusMemberRegistrationError&) {
			return 3;
		}
	};
	if (k == 0) zk_assert(fails([&] { s.register_member("CLS.X", &Inst::a); }) == 1, "binding.missing");
	if (k == 1) zk_assert(fails([&] { s.register_member("GI", &Inst::a); }) == 3, "binding.global");
	if (k == 2) zk_assert(fails([&] { s.register_member("CLS.I", &Inst::fn); }) == 3, "binding.too.short");
	if (k == 3) zk_assert(fails([&] { s.register_member("CLS.U", &Inst::a); }) == 0, "binding.longer");
	if (k == 4) zk_assert(fails([&] { s.register_member("CLS.F", &Inst::a); }) == 2, "binding.int.for.float");
	if (k == 5) zk_assert(fails([&] { s.register_member("CLS.S", &Inst::f); }) == 2, "binding.float.for.string");
	if (k == 6) zk_assert(fails([&] { s.register_member("CLS.F", &Inst::s); }) == 2, "binding.string.for.float");
	if (k == 7) zk_assert(fails([&] { s.register_member("cls.i", &Inst::a); s.register_member("CLS.FN", &Other::a); }) == 3, "binding.two.classes");
	if (k == 8) zk_assert(fails([&] { World::bind(s); World::bind(s); }) == 0, "binding");
	zk_cover("end");
}
// arrays grow in place: all their elements stay, the new ones are empty, and nothing but arrays of values grows
HARNESS(grow) {
	World w;
	w.code();
	auto& v = vm_for(w.d);
	World::bind(v);
	auto i = std::make_shared<Inst>();
	auto o = std::make_shared<Other>();
	v.allocate_instance(i, "INST");
	v.allocate_instance(o, "OINST");
	State s;
	s.fill(v, w, *i, *o);
	static uint32_t const by[] = {0, 1, 5};
	auto n = by[zk_choice(3, "by")];
	auto what = zk_choice(4, "which");
	uint32_t const sym[] = {w.gi, w.gf, w.gs, w.insv};
	auto* y = v.at(sym[what]);
	bool refused = false;
	try {
		y->grow(n);
	} catch (DaedalusScriptError const&) {
		refused = true;
	}
	zk_assert(refused == (what == 3), "grow.refused");
	if (!refused) zk_assert(y->count() == 3 + n, "grow.count");
	for (uint16_t k = 0; k < 3; ++k) {
		zk_assert(v.at(w.gi)->get_int(k) == s.gi[k], "grow.elements.kept");
		zk_assert(zk_bits(v.at(w.gf)->get_float(k)) == s.gf[k], "grow.elements.kept");
		zk_assert(v.at(w.gs)->get_string(k) == s.gs[k], "grow.elements.kept");
	}
	for (uint16_t k = 3; !refused && k < 3 + n; ++k) {
		if (what == 0) zk_assert(y->get_int(k) == 0, "grow.new.elements");
		if (what == 1) zk_assert(zk_bits(y->get_float(k)) == 0, "grow.new.elements");
		if (what == 2) zk_assert(y->get_string(k).empty(), "grow.new.elements");
		auto x = zk_any_i32("x");
		if (what == 0) {
			y->set_int(x, k);
			zk_assert(y->get_int(k) == x, "grow.new.elements.set");
		}
	}
	zk_cover("end");
}
