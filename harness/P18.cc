// Arithmetic, logic, comparisons, shifts, compound assignments and jumps of the script machine, one instruction from an
// arbitrary machine state.
#include "dat.hh"
static int32_t wrap(int64_t v) { return (int32_t) (uint32_t) (uint64_t) v; }
struct Case {
	Dat d;
	uint32_t x, y;
	Case() { x = d.var("X", T::INT, 3); y = d.var("Y", T::INT, 2); }
};
static Op const BINARY[] = {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::MOD, Op::OR, Op::ANDB, Op::LT, Op::GT, Op::LTE, Op::EQ, Op::NEQ, Op::GTE, Op::ORR, Op::AND, Op::LSL, Op::LSR};
static bool binary(Op o, int32_t a, int32_t b, int32_t& r) {
	switch (o) {
	case Op::ADD: r = wrap((int64_t) a + b); return true;
	case Op::SUB: r = wrap((int64_t) a - b); return true;
	case Op::MUL: r = (int32_t) ((uint32_t) a * (uint32_t) b); return true;
	case Op::DIV: if (b == 0) return false; r = b == -1 ? wrap(-(int64_t) a) : a / b; return true;
	case Op::MOD: if (b == 0) return false; r = b == -1 ? 0 : a % b; return true;
	case Op::OR: r = a | b; return true;
	case Op::ANDB: r = a & b; return true;
	case Op::LT: r = a < b; return true;
	case Op::GT: r = a > b; return true;
	case Op::LTE: r = a <= b; return true;
	case Op::GTE: r = a >= b; return true;
	case Op::EQ: r = a == b; return true;
	case Op::NEQ: r = a != b; return true;
	case Op::ORR: r = a != 0 || b != 0; return true;
	case Op::AND: r = a != 0 && b != 0; return true;
	case Op::LSL: r = (int32_t) ((uint32_t) a << ((uint32_t) b & 31)); return true;
	case Op::LSR: r = a >> ((uint32_t) b & 31); return true;
	default: return false;
	}
}
static void run_binary(size_t from, size_t to) {
	zk_opt("hash_len");
	auto o = BINARY[from + zk_choice((uint32_t) (to - from), "op")];
	Case c;
	uint32_t pad = zk_choice(3, "pad");
	for (uint32_t i = 0; i < pad; ++i) c.d.code.op(Op::NOP);
	c.d.code.op(o).op(Op::RSR);
	auto& v = vm_for(c.d);
	v.jump(pad);
	auto a = zk_any_i32("a"), b = zk_any_i32("b"), below = zk_any_i32("below");
	v.push_int(below);
	bool ref = zk_choice(2, "operand in a variable");
	if (ref) {
		v.at(c.x)->set_int(a, 2);
		v.push_int(b);
		v.push_reference(v.at(c.x), 2);
	} else {
		v.push_int(b);
		v.push_int(a);
	}
	auto r = outcome(v);
	int32_t want;
	if (!binary(o, a, b, want)) {
		zk_assert(r == FAILED, "division.by.zero.refused");
	} else {
		zk_assert(r == RAN, "step.runs");
		zk_assert(v.pc() == pad + 1, "step.next");
		zk_assert(!v.top_is_reference() && v.pop_int() == want, "result");
	}
	zk_assert(v.pop_int() == below, "stack.below");
	zk_assert(v.empty(), "stack.depth");
	if (ref) zk_assert(v.at(c.x)->get_int(2) == a, "operand.untouched");
	zk_cover("end");
}
HARNESS(arithmetic) { run_binary(0, 5); }
HARNESS(logic) { run_binary(5, 15); }
HARNESS(shifts) { run_binary(15, 17); }
HARNESS(unary) {
	zk_opt("hash_len");
	static Op const ops[] = {Op::PLUS, Op::NEGATE, Op::NOT, Op::CMPL};
	auto o = ops[zk_choice(4, "op")];
	Case c;
	c.d.code.op(o).op(Op::RSR);
	auto& v = vm_for(c.d);
	auto a = zk_any_i32("a"), below = zk_any_i32("below");
	v.push_int(below);
	v.push_int(a);
	zk_assert(outcome(v) == RAN, "step.runs");
	int32_t want = o == Op::PLUS ? a : o == Op::NEGATE ? wrap(-(int64_t) a) : o == Op::NOT ? a == 0 : (int32_t) ~(uint32_t) a;
	zk_assert(v.pop_int() == want, "result");
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	zk_assert(v.pc() == 1, "step.next");
	zk_cover("end");
}
static void run_assign(size_t which) {
	zk_opt("hash_len");
	static Op const ops[] = {Op::MOVI, Op::MOVVF, Op::ADDMOVI, Op::SUBMOVI, Op::MULMOVI, Op::DIVMOVI};
	static Op const arith[] = {Op::NOP, Op::NOP, Op::ADD, Op::SUB, Op::MUL, Op::DIV};
	Case c;
	c.d.code.op(ops[which]).op(Op::RSR);
	auto& v = vm_for(c.d);
	int32_t x[3], y[2];
	for (auto& e : x) e = zk_any_i32("x");
	for (auto& e : y) e = zk_any_i32("y");
	for (int i = 0; i < 3; ++i) v.at(c.x)->set_int(x[i], (uint16_t) i);
	for (int i = 0; i < 2; ++i) v.at(c.y)->set_int(y[i], (uint16_t) i);
	auto val = zk_any_i32("value"), below = zk_any_i32("below");
	auto i = zk_choice(3, "element");
	v.push_int(below);
	v.push_int(val);
	v.push_reference(v.at(c.x), (uint8_t) i);
	auto r = outcome(v);
	int32_t want = val;
	bool ok = arith[which] == Op::NOP || binary(arith[which], x[i], val, want);
	zk_assert(r == (ok ? RAN : FAILED), "step.outcome");
	if (ok) x[i] = want;
	for (int k = 0; k < 3; ++k) zk_assert(v.at(c.x)->get_int((uint16_t) k) == x[k], "variable");
	for (int k = 0; k < 2; ++k) zk_assert(v.at(c.y)->get_int((uint16_t) k) == y[k], "other.variable");
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	zk_cover("end");
}
HARNESS(assign) { run_assign(zk_choice(2, "op")); }
HARNESS(assign_arith) { run_assign(2 + zk_choice(3, "op")); }
HARNESS(assign_divide) { run_assign(5); }
HARNESS(jumps) {
	zk_opt("hash_len");
	Case c;
	auto target = zk_any_u32("target");
	bool cond = zk_choice(2, "conditional");
	c.d.code.op(cond ? Op::BZ : Op::B, target).op(Op::NOP).op(Op::NOP).op(Op::RSR);
	auto& v = vm_for(c.d);
	auto a = zk_any_i32("a"), below = zk_any_i32("below");
	v.push_int(below);
	if (cond) v.push_int(a);
	auto r = outcome(v);
	bool jump = !cond || a == 0;
	if (jump && target >= 8) {
		zk_assert(r == FAILED, "jump.outside.refused");
	} else {
		zk_assert(r == RAN, "step.runs");
		zk_assert(v.pc() == (jump ? target : 5), "jump.target");
	}
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	zk_cover("end");
}
HARNESS(push) {
	zk_opt("hash_len");
	Case c;
	auto imm = zk_any_i32("immediate");
	static Op const ops[] = {Op::PUSHI, Op::PUSHV, Op::PUSHVI, Op::PUSHVV, Op::NOP, Op::RSR};
	auto o = ops[zk_choice(6, "op")];
	auto s = zk_range(6, "symbol");
	auto i = zk_any_u8("element");
	if (o == Op::PUSHI) c.d.code.op(o, (uint32_t) imm);
	else if (o == Op::PUSHVV) c.d.code.op(o, s, i);
	else if (o == Op::NOP || o == Op::RSR) c.d.code.op(o);
	else c.d.code.op(o, s);
	auto size = c.d.code.here();
	c.d.code.op(Op::RSR);
	auto& v = vm_for(c.d);
	auto below = zk_any_i32("below");
	v.push_int(below);
	auto r = outcome(v);
	bool byref = o == Op::PUSHV || o == Op::PUSHVI || o == Op::PUSHVV;
	uint32_t symbols = 3; // the two variables and the temporary strings
	if (byref && s >= symbols) {
		zk_assert(r == FAILED, "unknown.symbol.refused");
	} else if (o == Op::RSR) {
		zk_assert(r == RETURNED, "return");
	} else {
		zk_assert(r == RAN && v.pc() == size, "step.next");
		if (o == Op::PUSHI) zk_assert(!v.top_is_reference() && v.pop_int() == imm, "immediate");
		if (byref) {
			zk_assert(v.top_is_reference(), "reference");
			auto [sym, idx, ctx] = v.pop_reference();
			zk_assert(sym == v.at(s) && ctx == nullptr, "reference.symbol");
			zk_assert(idx == (o == Op::PUSHVV ? i : 0), "reference.element");
		}
	}
	zk_assert(v.pop_int() == below && v.empty(), "stack.below");
	zk_cover("end");
}
