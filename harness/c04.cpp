// C04: 64-bit modular arithmetic and the small integer helpers, against GMP.
#include "ref.h"
#include "HEAAN/arith/conv/mod.h"
using namespace pbt; using namespace ref;

static uint64_t word(Gen& g) { return zu64(interesting(g, 64)); }
static uint64_t modulus(Gen& g) {
	uint64_t q;
	switch (g.below(6)) {
	case 0: q = 2 + g.below(30); break;
	case 1: q = ~0ull - g.below(30); break;
	case 2: { int b = 1 + (int)g.below(64); q = b == 64 ? ~0ull - g.below(3) : (1ull << b) + g.below(3); break; }
	case 3: { static const uint64_t p[] = {0xffffffffffc0001ULL, 0x1000000000980001ULL, 0xfffffffffe00001ULL, 0xffffffff00000001ULL, 18446744073709551557ULL, 9223372036854775783ULL, 4294967291ULL, 65537, 1152921504606847009ULL}; q = p[g.below(9)]; break; }
	case 4: q = word(g); break;
	default: q = g.u64() >> g.below(63);
	}
	return q < 2 ? 2 : q;
}
static uint64_t operand(Gen& g, uint64_t q) { // often near a multiple of q
	switch (g.below(4)) {
	case 0: return q * g.below(3) + g.below(3) - 1;
	case 1: return q - 1 - g.below(2);
	case 2: return word(g) % q;
	default: return word(g);
	}
}
static void mod_prop(Gen& g) {
	uint64_t q = modulus(g), a = operand(g, q), b = operand(g, q); mpz_class Q = u64z(q), A = u64z(a), B = u64z(b);
	g.note(fmt("q=%llx a=%llx b=%llx", (unsigned long long)q, (unsigned long long)a, (unsigned long long)b));
#define EQ(got, want, what) do { uint64_t g_ = (got), w_ = zu64(want); PBT_CHECK(g_ == w_, what "(%llx, %llx) mod %llx = %llx, want %llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)q, (unsigned long long)g_, (unsigned long long)w_); g.count(); } while (0)
	EQ(mod(a, b, q), floormod((B << 64) + A, Q), "mod");
	EQ(add_mod(a, b, q), floormod(A + B, Q), "add_mod");
	EQ(sub_mod(a, b, q), floormod(A - B, Q), "sub_mod");
	EQ(mul_mod(a, b, q), floormod(A * B, Q), "mul_mod");
	uint64_t lo = 1, hi = 2; mul_(a, b, lo, hi);
	EQ(lo, mod2(A * B, 64), "mul_ low"); EQ(hi, fdiv2(A * B, 64), "mul_ high");
	lo = a; hi = b; mul_(lo, hi, lo, hi); // outputs over the inputs
	EQ(lo, mod2(A * B, 64), "mul_ in place, low"); EQ(hi, fdiv2(A * B, 64), "mul_ in place, high");
	if (a >= q || b >= q) g.label("unreduced operand"); if (A + B >= pow2(64)) g.label("sum carries out");
	if (a > 1 && b > 1) g.nontrivial();
}
static void pow_prop(Gen& g) {
	uint64_t q = modulus(g), a = operand(g, q), n = g.below(3) ? (g.below(2) ? g.below(70) : q - 1 - g.below(3)) : word(g), b = n; mpz_class Q = u64z(q), A = u64z(a), r;
	g.note(fmt("pow q=%llx a=%llx n=%llx", (unsigned long long)q, (unsigned long long)a, (unsigned long long)n));
	mpz_powm(r.get_mpz_t(), A.get_mpz_t(), u64z(n).get_mpz_t(), Q.get_mpz_t());
	EQ(pow_mod(a, n, q), r, "pow_mod");
	if (n > 1 && a % q > 1) g.nontrivial();
}
static void inv_prop(Gen& g) {
	mpz_class Q; { mpz_class s = u64z(modulus(g)); mpz_nextprime(Q.get_mpz_t(), s.get_mpz_t()); if (Q >= pow2(64)) Q = u64z(18446744073709551557ULL); }
	uint64_t q = zu64(Q), a = operand(g, q), b = 0;
	if (a % q == 0) a = 1 + a % 7 < q ? 1 + a % 7 : 1;
	g.note(fmt("inverse of %llx mod %llx", (unsigned long long)a, (unsigned long long)q));
	mpz_class r; mpz_invert(r.get_mpz_t(), u64z(a).get_mpz_t(), Q.get_mpz_t());
	EQ(inv_mod(a, q), r, "inv_mod");
	if (a % q > 1) g.nontrivial();
}
// every residue of a small modulus
static void small_prop(Gen& g) {
	uint64_t q = 2 + g.below(60); g.note(fmt("all pairs below 2*%d", (int)q));
	for (uint64_t a = 0; a < 2 * q; a++) for (uint64_t b = 0; b < 2 * q; b++) {
		PBT_CHECK(add_mod(a, b, q) == (a + b) % q, "add_mod(%d,%d) mod %d", (int)a, (int)b, (int)q);
		PBT_CHECK(sub_mod(a, b, q) == (a + 2 * q - b) % q, "sub_mod(%d,%d) mod %d", (int)a, (int)b, (int)q);
		PBT_CHECK(mul_mod(a, b, q) == a * b % q, "mul_mod(%d,%d) mod %d", (int)a, (int)b, (int)q);
		uint64_t r = 1 % q; for (uint64_t i = 0; i < b; i++) r = r * (a % q) % q;
		PBT_CHECK(pow_mod(a, b, q) == r, "pow_mod(%d,%d) mod %d", (int)a, (int)b, (int)q); g.count(4);
	}
	g.nontrivial();
}
static void bits_prop(Gen& g) {
	int d = 1 + (int)g.below(32); uint32_t x = (uint32_t)(word(g) & ((1ull << d) - 1)), want = 0;
	for (int i = 0; i < d; i++) if (x >> i & 1) want |= 1u << (d - 1 - i);
	g.note(fmt("bitReverse(%x, %d)", x, d));
	PBT_CHECK(bitReverse(x, d) == want, "bitReverse(%x, %d) = %x, want %x", x, d, bitReverse(x, d), want);
	PBT_CHECK(bitReverse(bitReverse(x, d), d) == x, "bitReverse is not an involution on %x, %d", x, d);
	int e = (int)g.below(30), n = 1 << e; PBT_CHECK(log(n) == e, "log(%d) = %d", n, log(n));
	if (e > 1) PBT_CHECK(log(n - 1) == e && log(n + 1) == e + 1 || e == 29, "log around %d", n);
	g.count(3); if (x != want) g.nontrivial();
}
static int p1 = add("mod_ops", 900000, 40000000, 0, mod_prop);
static int p2 = add("pow_mod", 100000, 4000000, 0, pow_prop);
static int p3 = add("inv_mod", 40000, 1000000, 0, inv_prop);
static int p4 = add("small_moduli", 60, 60, 60, small_prop);
static int p5 = add("bit_helpers", 200000, 4000000, 32, bits_prop);
PBT_MAIN
