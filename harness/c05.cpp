// C05: residue number system: icrt gives the residues of the signed value, crt the centred value.
#include "ref.h"
#include "HEAAN/arith/conv/crt.h"
#include <utility>
#include <array>
#include <memory>
using namespace pbt; using namespace ref;

static mpz_class prime_near(mpz_class s) { mpz_class p; mpz_nextprime(p.get_mpz_t(), s.get_mpz_t()); return p; }
// L distinct primes below 2^64
static std::vector<uint64_t> primes(Gen& g, int L, int cap) {
	std::vector<uint64_t> q;
	int style = (int)g.below(4), bits = 12 + (int)g.below(cap - 12 + 1); g.label(fmt("prime style %d", style));
	mpz_class cur = pow2(bits - 1) + (long)g.below(200);
	if (style == 3) cur = pow2(64) - 200000 + (long)g.below(1000);
	if (style == 2) cur = pow2(59) + pow2(58) + (long)g.below(1 << 20);
	while ((int)q.size() < L) {
		if (style == 1) cur = pow2(11 + (int)g.below(cap - 11)) + (long)g.below(1000); // sizes mixed
		mpz_class p = prime_near(cur);
		while (std::find(q.begin(), q.end(), zu64(p)) != q.end()) p = prime_near(p);
		if (p >= pow2(64)) { cur = pow2(40); continue; }
		q.push_back(zu64(p)); cur = p;
	}
	return q;
}

template <int L, int LOGQ> void crt_prop(Gen& g) {
	static std::unique_ptr<CRT<L, LOGQ>> last; static std::vector<uint64_t> lastq;
	std::vector<uint64_t> q = primes(g, L, 64); if (q != lastq || !last) { last.reset(new CRT<L, LOGQ>(q.data())); lastq = q; }
	CRT<L, LOGQ>& crt = *last;
	mpz_class Q = 1; for (auto x : q) Q *= u64z(x);
	g.note(fmt("L=%d LOGQ=%d q0=%llx", L, LOGQ, (unsigned long long)q[0]));
	for (int rep = 0; rep < 3; rep++) {
		// residues of a number
		mpz_class a = interesting(g, LOGQ);
		if (g.below(3) == 2) { // a small multiple of one modulus, of either sign
			mpz_class m = u64z(q[g.below(L)]) * (long)(1 + g.below(4)); if (m < pow2(LOGQ - 1)) { a = mod2(g.below(2) ? mpz_class(-m) : m, LOGQ); g.label("multiple of a modulus"); } }
		Z_Q<LOGQ> A, B; set(A, a); uint64_t r[L]; for (auto& x : r) x = 0xdeadbeefdeadbeefULL;
		crt.icrt(A, r);
		g.note("a=" + str(a));
		for (int i = 0; i < L; i++) {
			mpz_class m = u64z(q[i]), R = u64z(r[i]);
			PBT_CHECK(floormod(R - centered2(a, LOGQ), m) == 0 && R <= m, "CRT<%d,%d>::icrt of %s modulo %llx gives %llx", L, LOGQ, str(centered2(a, LOGQ)).c_str(), (unsigned long long)q[i], (unsigned long long)r[i]);
		}
		PBT_CHECK(raw(A) == a, "icrt changed its operand");
		// back again: the centred value modulo the product of the moduli
		auto centre = [&](mpz_class v) { v = floormod(v, Q); if (v * 2 > Q) v -= Q; return v; };
		crt.crt(r, B); mpz_class want = mod2(centre(centered2(a, LOGQ)), LOGQ);
		PBT_CHECK(raw(B) == want, "CRT<%d,%d>::crt(icrt(%s)) = %s, want %s", L, LOGQ, str(a).c_str(), str(raw(B)).c_str(), str(want).c_str());
		// residues of any kind, also unreduced
		mpz_class v = 0; uint64_t s[L]; int kind = (int)g.below(5);
		if (kind == 0) { v = Q / 2 + (long)g.below(4) - 1; for (int i = 0; i < L; i++) s[i] = zu64(floormod(v, u64z(q[i]))); g.label("around half"); }
		else if (kind == 1) { v = (long)g.below(5) - 2; for (int i = 0; i < L; i++) s[i] = zu64(floormod(v, u64z(q[i]))); g.label("around zero"); }
		else {
			Rng rr = g.bulk();
			for (int i = 0; i < L; i++) s[i] = kind == 2 ? (rr.below(2) ? q[i] : q[i] - 1) : kind == 3 ? rr.u64() : rr.below(q[i]);
			for (int i = 0; i < L; i++) { mpz_class m = u64z(q[i]), rest = Q / m, inv; mpz_invert(inv.get_mpz_t(), mpz_class(floormod(rest, m)).get_mpz_t(), m.get_mpz_t()); v += rest * floormod(u64z(s[i]) * inv, m); }
			if (kind == 3) g.label("unreduced residues"); if (kind == 2) g.label("residues q and q-1");
		}
		crt.crt(s, B); want = mod2(centre(v), LOGQ);
		PBT_CHECK(raw(B) == want, "CRT<%d,%d>::crt gives %s, want %s (value %s)", L, LOGQ, str(raw(B)).c_str(), str(want).c_str(), str(centre(v)).c_str());
		g.count(L + 2); if (centered2(a, LOGQ) < 0 || centre(v) < 0) g.label("negative");
		if (a != 0 && v != 0) g.nontrivial();
	}
}
using F = void (*)(Gen&);
struct Conf { int L, Q; };
static constexpr Conf C[] = {{1,20},{1,60},{1,64},{2,1},{2,21},{2,50},{2,60},{2,61},{2,62},{2,63},{2,64},{2,65},{3,40},{3,64},{3,65},{3,90},{3,128},{4,59},{4,63},{4,64},{4,100},{4,120},{4,128},{4,129},
	{5,64},{5,127},{5,128},{5,192},{5,256},{5,320},{6,150},{7,192},{7,193},{8,200},{8,256},{9,250},{9,256},{10,300},{12,320},{13,384},{16,448},{18,512},{20,600},{22,640},{25,700},{33,960},{45,1330},{49,1450},{49,1472},{97,2900}};
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &crt_prop<C[I].L, C[I].Q>; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].L <= 10 ? SMALL : LARGE).push_back(ALL[i]); return true; }();

static int p1 = add("crt", (int)SMALL.size() * 1200, (int)SMALL.size() * 25000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = add("crt_long", (int)LARGE.size() * 40, (int)LARGE.size() * 700, (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
