// C12: rotations and conjugation as ring automorphisms X -> X^(5^r) and X -> X^-1, and what they do to slots.
#include "slots.h"
#include "HEAAN/linear_transform.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

// coefficient list of p(X^e) modulo X^N + 1; e odd
template <class V> V subst(const V& p, int N, long e) {
	V q(N); for (int i = 0; i < N; i++) { long j = (long)i * e % (2L * N); if (j < N) q[j] = p[i]; else q[j - N] = -p[i]; } return q;
}
static long five(long r, long N) { long p = 1; r %= std::max(1L, N / 2); for (long i = 0; i < r; i++) p = p * 5 % (2 * N); return p; } // 5 has order N/2
static int amount(Gen& g, int N) { switch (g.below(5)) { case 0: return (int)g.below(3); case 1: return N / 2 - (int)g.below(std::min(3, N / 2 + 1)); case 2: return N / 2 + (int)g.below(N); case 3: return N + (int)g.below(4 * N); default: return (int)g.below(std::max(1, N / 2)); } }
template <int L, int LOGN> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2; using P = R_Q<L, N>;
	static void put(P& x, const Poly& a) { for (int i = 0; i < N; i++) set(x[i], a[i]); }
	static void dirt(P& x) { for (int i = 0; i < N; i++) for (int j = 0; j < limbs<L>(); j++) x[i][j] = 0x5555555555555555ull + i; }
	static void same(const P& x, const Poly& a, const char* what, int r) { for (int i = 0; i < N; i++) PBT_CHECK(raw(x[i]) == mod2(a[i], L), "LOGQ=%d N=%d %s %d: coefficient %d is %s, want %s", L, N, what, r, i, str(raw(x[i])).c_str(), str(mod2(a[i], L)).c_str()); }
	static void ring(Gen& g) {
		static std::unique_ptr<P[]> x(new P[4]); Poly a = gen_poly(g, N, L); put(x[0], a); int r = amount(g, N), t = amount(g, N);
		g.note(fmt("LOGQ=%d N=%d r=%d t=%d a0=%s a1=%s", L, N, r, t, str(a[0]).c_str(), str(a[1]).c_str())); if (r >= H) g.label("full turn and more");
		dirt(x[1]); rot<L, N>(x[0], x[1], r); same(x[1], subst(a, N, five(r, N)), "rotation by", r); same(x[0], a, "operand of the rotation by", r);
		dirt(x[2]); rot<L, N>(x[1], x[2], t); same(x[2], subst(a, N, five((long)r + t, N)), "second rotation by", t);
		dirt(x[3]); rot<L, N>(x[0], x[3]); same(x[3], subst(a, N, 5), "rotation without an amount", 1);
		dirt(x[1]); conj<L, N>(x[0], x[1]); same(x[1], subst(a, N, 2L * N - 1), "conjugation", 0); same(x[0], a, "operand of the conjugation", 0);
		dirt(x[2]); rot<L, N>(x[1], x[2], r); same(x[2], subst(a, N, five(r, N) * (2L * N - 1) % (2 * N)), "conjugation, then rotation by", r);
		g.count(5 * N); int nz = 0; for (auto& v : a) nz += v != 0; if (nz && r % std::max(1, H)) g.nontrivial();
	}
	static void key(Gen& g) { // the same on integer vectors (secret keys)
		std::vector<int> s(N), o(N, 99), s0; Rng rr = g.bulk(); int wide = g.below(3) == 2; for (auto& v : s) v = wide ? (int)rr.below(2001) - 1000 : (int)rr.below(3) - 1; s0 = s;
		int r = amount(g, N), t = amount(g, N); g.note(fmt("key N=%d r=%d t=%d", N, r, t));
		rot<N>(s.data(), o.data(), r); PBT_CHECK(o == subst(s, N, five(r, N)), "N=%d key rotation by %d", N, r); PBT_CHECK(s == s0, "key rotation changed its operand");
		std::vector<int> o2(N, 99); rot<N>(o.data(), o2.data(), t); PBT_CHECK(o2 == subst(s, N, five((long)r + t, N)), "N=%d key rotation by %d, then %d", N, r, t);
		std::vector<int> o1(N, 99); rot<N>(s.data(), o1.data()); PBT_CHECK(o1 == subst(s, N, 5), "N=%d key rotation without an amount", N);
		std::vector<int> c(N, 99); conj<N>(s.data(), c.data()); PBT_CHECK(c == subst(s, N, 2L * N - 1), "N=%d key conjugation", N); PBT_CHECK(s == s0, "key operation changed its operand");
		g.count(4 * N); if (r % std::max(1, H)) g.nontrivial();
	}
	static void slots(Gen& g) { // the decoded vector rotates to the left, or is conjugated
		static std::unique_ptr<P[]> x(new P[3]); int bits = std::min(L, 900); Poly a = gen_poly(g, N, bits); for (auto& v : a) { v = centered2(v, bits); if (v == -pow2(bits - 1)) v += bits > 1; if (L == 1) v = 0; } put(x[0], a); // Q/2 is its own negative
		int r = amount(g, N); g.note(fmt("slots LOGQ=%d N=%d r=%d", L, N, r)); std::vector<double> zr(H), zi(H), yr(H), yi(H), cr(H), ci(H);
		decode<L, LOGN>(x[0], 1, zr.data(), zi.data()); rot<L, N>(x[0], x[1], r); decode<L, LOGN>(x[1], 1, yr.data(), yi.data()); conj<L, N>(x[0], x[2]); decode<L, LOGN>(x[2], 1, cr.data(), ci.data());
		ld S = 0; for (auto& v : a) S += fabsl((ld)v.get_d()); ld tol = S * EPS * (16 * LOGN + 48);
		for (int i = 0; i < H; i++) { int j = (int)(((long)i + r) % H); PBT_CHECK(fabsl((ld)yr[i] - zr[j]) <= tol && fabsl((ld)yi[i] - zi[j]) <= tol, "N=%d rotation by %d: slot %d is not the former slot %d", N, r, i, j);
			PBT_CHECK(fabsl((ld)cr[i] - zr[i]) <= tol && fabsl((ld)ci[i] + zi[i]) <= tol, "N=%d slot %d is not conjugated", N, i); }
		g.count(2 * H); if (r % H && S > 0) g.nontrivial();
	}
	static void hom(Gen& g) { // products go to products
		static std::unique_ptr<P[]> x(new P[6]); Poly a = gen_poly(g, N, L), b = gen_poly(g, N, L); put(x[0], a); put(x[1], b); int r = amount(g, N);
		g.note(fmt("products LOGQ=%d N=%d r=%d", L, N, r)); conv<L, N>(x[0], x[1], x[2]);
		bool c = g.below(3) == 2; auto f = [&](const P& u, P& v) { if (c) conj<L, N>(u, v); else rot<L, N>(u, v, r); };
		f(x[0], x[3]); f(x[1], x[4]); conv<L, N>(x[3], x[4], x[5]); f(x[2], x[3]);
		for (int i = 0; i < N; i++) PBT_CHECK(raw(x[5][i]) == raw(x[3][i]), "LOGQ=%d N=%d %s of a product, coefficient %d", L, N, c ? "conjugate" : "rotation", i);
		g.count(N); g.nontrivial();
	}
	static void run(Gen& g) { switch (g.below(8)) { case 0: case 1: case 2: ring(g); break; case 3: case 4: key(g); break; case 5: case 6: if (LOGN >= 2) { slots(g); break; } ring(g); break; default: hom(g); } }
};
using F = void (*)(Gen&);
struct Conf { int Q, LOGN; };
static constexpr Conf C[] = {{1,2},{20,3},{33,4},{60,2},{60,5},{63,6},{64,3},{65,7},{127,4},{128,5},{129,2},{192,8},{193,3},{300,4},{384,2},{640,5},{850,3},{1450,4},{2900,2},{60,8},
	{60,10},{110,12},{128,13},{850,9},{60,16}};
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].Q, C[I].LOGN>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].LOGN <= 8 ? SMALL : LARGE).push_back(ALL[i]); return true; }();
static int p1 = add("automorphism", (int)SMALL.size() * 2500, (int)SMALL.size() * 15000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add("automorphism_large", (int)LARGE.size() * 25, (int)LARGE.size() * 500, (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
