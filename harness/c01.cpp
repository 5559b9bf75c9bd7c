// C01: sequences of operations on residues modulo 2^LOGQ, against GMP integers.
#include "ref.h"
#include <utility>
#include <array>
#include <memory>
using namespace pbt; using namespace ref;

// Type-erased operations, one table per LOGQ, so that the generators are compiled once.
struct Ops {
	int logq, len;
	void* (*make)(); void (*drop)(void*);
	void (*get)(const void*, uint64_t*); void (*set)(void*, const uint64_t*);
	void (*add)(void*, const void*); void (*sub)(void*, const void*); void (*mul)(void*, const void*); void (*mulu)(void*, uint64_t);
	void (*neg)(void*); void (*zero)(void*); void (*copy)(void*, const void*); void (*ctor)(void*, const void*); void (*clean)(void*);
	int (*length)(const void*);
};
template <int L> struct W {
	using Z = Z_Q<L>;
	static Z& z(void* p) { return *(Z*)p; }
	static const Z& c(const void* p) { return *(const Z*)p; }
	static void* make() { return new Z; }
	static void drop(void* p) { delete (Z*)p; }
	static void get(const void* p, uint64_t* o) { for (int i = 0; i < limbs<L>(); i++) o[i] = c(p)[i]; }
	static void set(void* p, const uint64_t* o) { for (int i = 0; i < limbs<L>(); i++) z(p)[i] = o[i]; }
	static void add(void* a, const void* b) { z(a) += c(b); }
	static void sub(void* a, const void* b) { z(a) -= c(b); }
	static void mul(void* a, const void* b) { z(a) *= c(b); }
	static void mulu(void* a, uint64_t b) { z(a) *= b; }
	static void neg(void* a) { z(a).negate(); }
	static void zero(void* a) { z(a).setzero(); }
	static void copy(void* a, const void* b) { z(a) = c(b); }
	static void ctor(void* a, const void* b) { Z t(c(b)); get(&t, tmp()); set(a, tmp()); }
	static void clean(void* a) { z(a).remove_clutter(); }
	static int length(const void* a) { return c(a).get_length(); }
	static uint64_t* tmp() { static uint64_t t[limbs<L>()]; return t; }
	static constexpr Ops ops() { return {L, limbs<L>(), make, drop, get, set, add, sub, mul, mulu, neg, zero, copy, ctor, clean, length}; }
};

static constexpr int EXTRA[] = {255,256,257,258,300,319,320,321,360,383,384,385,447,448,449,510,512,513,576,640,641,700,767,768,769,
	900,960,1000,1023,1024,1025,1230,1270,1280,1290,1300,1330,1390,1450,1451,1472,1500,1536,1600,1920,2047,2048,2049,2460,2780,2900,3072,
	202,216,232,240};
static constexpr int NEXTRA = sizeof EXTRA / sizeof *EXTRA, NSMALL = 200, NC = NSMALL + NEXTRA;
static constexpr int at(int i) { return i < NSMALL ? i + 1 : EXTRA[i - NSMALL]; }
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr Ops entry() { if constexpr (IN_PART(I)) return W<at(I)>::ops(); else return Ops{}; }
template <size_t... I> constexpr std::array<Ops, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<const Ops*> TAB = [] { std::vector<const Ops*> t; for (auto& o : ALL) if (o.logq) t.push_back(&o); return t; }();

struct Reg {
	const Ops& o; void* p; std::vector<uint64_t> buf;
	explicit Reg(const Ops& o_) : o(o_), p(o_.make()), buf(o_.len) {}
	Reg(const Reg&) = delete;
	~Reg() { o.drop(p); }
	void put(const mpz_class& v) { mpz_class r = mod2(v, o.logq); std::fill(buf.begin(), buf.end(), 0); mpz_export(buf.data(), nullptr, -1, 8, 0, 0, r.get_mpz_t()); o.set(p, buf.data()); }
	mpz_class val() { o.get(p, buf.data()); mpz_class r; mpz_import(r.get_mpz_t(), o.len, -1, 8, 0, 0, buf.data()); return r; }
};

static void ops_prop(Gen& g) {
	const Ops& o = *TAB[g.below(TAB.size())];
	const int R = 3, LOGQ = o.logq;
	Reg r0(o), r1(o), r2(o); Reg* reg[R] = {&r0, &r1, &r2}; mpz_class m[R];
	for (int i = 0; i < R; i++) { m[i] = interesting(g, LOGQ); reg[i]->put(m[i]); }
	PBT_CHECK(o.length(r0.p) == o.len, "LOGQ=%d get_length %d", LOGQ, o.length(r0.p));
	int n = 1 + (int)g.below(10); bool carry = false, alias = false;
	g.note(fmt("LOGQ=%d r0=%s r1=%s r2=%s", LOGQ, str(m[0]).c_str(), str(m[1]).c_str(), str(m[2]).c_str()));
	const mpz_class Q = pow2(LOGQ);
	for (int k = 0; k < n; k++) {
		int op = (int)g.below(9), i = (int)g.below(R), j = (int)g.below(R); const char* what = "";
		void *a = reg[i]->p, *b = reg[j]->p;
		switch (op) {
		case 0: what = "+="; if (m[i] + m[j] >= Q) carry = true; o.add(a, b); m[i] = m[i] + m[j]; break;
		case 1: what = "-="; if (m[i] < m[j]) carry = true; o.sub(a, b); m[i] = m[i] - m[j]; break;
		case 2: what = "*="; o.mul(a, b); m[i] = m[i] * m[j]; break;
		case 3: { what = "*=u64"; mpz_class v = interesting(g, 64); g.note(str(v)); o.mulu(a, zu64(v)); m[i] *= v; break; }
		case 4: what = "negate"; o.neg(a); m[i] = -m[i]; break;
		case 5: what = "="; o.copy(a, b); m[i] = m[j]; break;
		case 6: what = "copy-construct"; o.ctor(a, b); m[i] = m[j]; break;
		case 7: { what = "set to a near-complement, then +="; // forces long carry chains
			mpz_class d = (long)g.below(5) - 2; m[j] = mod2(-m[i] + d, LOGQ); reg[j]->put(m[j]); o.add(a, b); m[i] = i == j ? mod2(2 * m[j], LOGQ) : m[i] + m[j]; break; }
		case 8: { // bits above 2^LOGQ, then remove_clutter
			what = "remove_clutter"; int r = LOGQ % 64;
			if (r) { reg[i]->val(); reg[i]->buf[o.len - 1] |= g.u64() << r; o.set(a, reg[i]->buf.data()); }
			o.clean(a); break; }
		}
		if (op < 3 && i == j) { alias = true; g.label("self-operand"); }
		g.label(std::string("op ") + what);
		g.note(fmt("r%d %s r%d", i, what, j));
		for (auto& x : m) x = mod2(x, LOGQ);
		for (int q = 0; q < R; q++) {
			mpz_class v = reg[q]->val();
			PBT_CHECK(v == m[q], "LOGQ=%d r%d after r%d %s r%d: got %s want %s", LOGQ, q, i, what, j, str(v).c_str(), str(m[q]).c_str());
			g.count();
		}
	}
	if (carry) g.label("wraps modulo Q");
	if (carry || alias || n > 3) g.nontrivial();
}

// ring laws, checked on the implementation alone
static void laws_prop(Gen& g) {
	const Ops& o = *TAB[g.below(TAB.size())]; const int LOGQ = o.logq;
	Reg a(o), b(o), c(o), x(o), y(o), z(o);
	a.put(interesting(g, LOGQ)); b.put(interesting(g, LOGQ)); c.put(interesting(g, LOGQ));
	g.note(fmt("LOGQ=%d a=%s b=%s c=%s", LOGQ, str(a.val()).c_str(), str(b.val()).c_str(), str(c.val()).c_str()));
	o.copy(x.p, a.p); o.add(x.p, b.p); o.copy(y.p, b.p); o.add(y.p, a.p); PBT_CHECK(x.val() == y.val(), "LOGQ=%d a+b != b+a", LOGQ);
	o.copy(x.p, a.p); o.mul(x.p, b.p); o.copy(y.p, b.p); o.mul(y.p, a.p); PBT_CHECK(x.val() == y.val(), "LOGQ=%d ab != ba", LOGQ);
	o.copy(x.p, b.p); o.add(x.p, c.p); o.mul(x.p, a.p);
	o.copy(y.p, a.p); o.mul(y.p, b.p); o.copy(z.p, a.p); o.mul(z.p, c.p); o.add(y.p, z.p); PBT_CHECK(x.val() == y.val(), "LOGQ=%d a(b+c) != ab+ac", LOGQ);
	o.copy(x.p, a.p); o.sub(x.p, b.p); o.add(x.p, b.p); PBT_CHECK(x.val() == a.val(), "LOGQ=%d a-b+b != a", LOGQ);
	o.copy(x.p, a.p); o.neg(x.p); o.add(x.p, a.p); PBT_CHECK(x.val() == 0, "LOGQ=%d a + -a != 0", LOGQ);
	o.copy(x.p, a.p); o.mul(x.p, b.p); o.mul(x.p, c.p); o.copy(y.p, b.p); o.mul(y.p, c.p); o.mul(y.p, a.p); PBT_CHECK(x.val() == y.val(), "LOGQ=%d (ab)c != a(bc)", LOGQ);
	o.copy(x.p, a.p); o.sub(x.p, a.p); PBT_CHECK(x.val() == 0, "LOGQ=%d a - a != 0", LOGQ);
	g.count(7); g.nontrivial();
}

static int p1 = add("zq_ops", NC / PARTS * 3000, NC / PARTS * 60000, (int)TAB.size(), ops_prop);
static int p2 = add("zq_laws", NC / PARTS * 600, NC / PARTS * 12000, (int)TAB.size(), laws_prop);
PBT_MAIN
