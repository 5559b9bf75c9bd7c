// C07: products modulo X^N + 1 and 2^LOGQ against exact integer convolution.
#include "ref.h"
#include "HEAAN/arith/R_Q_square.h"
#include <utility>
#include <array>
#include <memory>
using namespace pbt; using namespace ref;

template <int L, int N> void put(R_Q<L, N>& x, const Poly& a) { for (int i = 0; i < N; i++) set(x[i], a[i]); }
template <int L, int N> void dirt(R_Q<L, N>& x, Gen& g) { Rng r(g.below(3)); for (int i = 0; i < N; i++) for (int j = 0; j < limbs<L>(); j++) x[i][j] = r.u64(); }
static Poly centred(const Poly& a, int L) { Poly r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = centered2(a[i], L); return r; }
static Poly operand(Gen& g, int N, int L) {
	if (g.below(5) == 4) { // largest magnitudes, so that one product coefficient reaches N Q^2 / 4
		g.label("largest magnitude"); bool neg = g.below(2); Poly p(N); for (auto& c : p) c = neg || L == 1 ? pow2(L - 1) : pow2(L - 1) - 1; return p; }
	return gen_poly(g, N, L);
}
static std::vector<int> which(Gen& g, int N) { // the coefficients compared: all, or a sample with the two ends
	std::vector<int> k; if (N <= 64) for (int i = 0; i < N; i++) k.push_back(i);
	else { k = {0, N - 1, N / 2}; for (int i = 0; i < (N > 4096 ? 5 : 12); i++) k.push_back((int)g.below(N)); }
	return k;
}
template <int L, int N> struct T {
	using P = R_Q<L, N>;
	static void run(Gen& g) {
		static std::unique_ptr<P> xa(new P), xb(new P), xc(new P);
		P &A = *xa, &B = *xb, &C = *xc;
		switch (g.below(4)) {
		case 0: case 1: { // R_Q x R_Q
			bool same = g.below(6) == 5; Poly a = operand(g, N, L), b = same ? a : operand(g, N, L), ca = centred(a, L), cb = centred(b, L);
			put(A, a); put(B, b); dirt(C, g); g.note(fmt("LOGQ=%d N=%d a0=%s b0=%s%s", L, N, str(a[0]).c_str(), str(b[0]).c_str(), same ? " squared" : ""));
			if (same) { conv<L, N>(A, A, C); g.label("same operand twice"); } else conv<L, N>(A, B, C);
			for (int k : which(g, N)) { mpz_class w = mod2(negacyclic_at(ca, cb, k), L); PBT_CHECK(raw(C[k]) == w, "LOGQ=%d N=%d product coefficient %d = %s, want %s", L, N, k, str(raw(C[k])).c_str(), str(w).c_str()); g.count(); }
			for (int i = 0; i < N; i++) PBT_CHECK(raw(A[i]) == a[i] && (same || raw(B[i]) == b[i]), "LOGQ=%d N=%d the product changed an operand", L, N);
			for (int i = 0; i < N; i++) PBT_CHECK(canonical(C[i]), "LOGQ=%d N=%d product coefficient %d not below 2^LOGQ", L, N, i);
			int nz = 0, nzb = 0; for (auto& v : a) nz += v != 0; for (auto& v : b) nzb += v != 0; if (nz && nzb && nz + nzb > 2) g.nontrivial();
			break; }
		case 2: { // ternary x R_Q
			g.label("ternary"); std::vector<int> s(N); Poly sp(N), a = operand(g, N, L), ca = centred(a, L); int style = (int)g.below(4);
			if (style == 0) s[g.below(N)] = g.below(2) ? 1 : -1; else if (style == 1) { int h = 1 + (int)g.below(std::min(N, 40)); for (int i = 0; i < h; i++) s[g.below(N)] = g.below(2) ? 1 : -1; }
			else { Rng r = g.bulk(); if (N <= 4096) for (auto& v : s) v = (int)r.below(3) - 1; else for (int i = 0; i < 64; i++) s[r.below(N)] = r.below(2) ? 1 : -1; if (style == 3) s[0] = 0; }
			int w = 0; for (int i = 0; i < N; i++) { sp[i] = s[i]; w += s[i] != 0; }
			put(A, a); dirt(C, g); g.note(fmt("ternary LOGQ=%d N=%d weight %d a0=%s", L, N, w, str(a[0]).c_str()));
			std::vector<int> s0 = s; conv<L, N>(s.data(), A, C);
			for (int k : which(g, N)) { mpz_class v = mod2(negacyclic_at(sp, ca, k), L); PBT_CHECK(raw(C[k]) == v, "ternary LOGQ=%d N=%d coefficient %d = %s, want %s", L, N, k, str(raw(C[k])).c_str(), str(v).c_str()); g.count(); }
			for (int i = 0; i < N; i++) PBT_CHECK(raw(A[i]) == a[i] && s[i] == s0[i], "ternary LOGQ=%d N=%d: an operand changed", L, N);
			// the two ways to multiply by s agree everywhere
			for (int i = 0; i < N; i++) set(B[i], mpz_class(s[i]));
			static std::unique_ptr<P> xd(new P); P& D = *xd; conv<L, N>(B, A, D);
			for (int i = 0; i < N; i++) PBT_CHECK(raw(C[i]) == raw(D[i]), "LOGQ=%d N=%d ternary product and ring product differ at %d", L, N, i);
			if (w > 1) g.nontrivial();
			break; }
		case 3: { // a pair of polynomials times a polynomial
			g.label("pair"); static std::unique_ptr<R_Q_square<L, N>> xp(new R_Q_square<L, N>); auto& X = *xp;
			Poly a0 = operand(g, N, L), a1 = operand(g, N, L), b = operand(g, N, L), c0 = centred(a0, L), c1 = centred(a1, L), cb = centred(b, L);
			put(X[0], a0); put(X[1], a1); put(B, b); g.note(fmt("pair LOGQ=%d N=%d", L, N)); X *= B;
			for (int k : which(g, N)) {
				PBT_CHECK(raw(X[0][k]) == mod2(negacyclic_at(c0, cb, k), L), "pair LOGQ=%d N=%d first component, coefficient %d", L, N, k);
				PBT_CHECK(raw(X[1][k]) == mod2(negacyclic_at(c1, cb, k), L), "pair LOGQ=%d N=%d second component, coefficient %d", L, N, k); g.count(2); }
			for (int i = 0; i < N; i++) PBT_CHECK(raw(B[i]) == b[i], "pair *= changed its operand");
			if (a0 != a1) g.nontrivial();
			break; }
		}
	}
};
template <int N> void int_prop(Gen& g) {
	static int a[N], b[N], c[N]; Rng r = g.bulk(); int m = 1 + (int)g.below(5), spread = (int)g.below(3);
	Poly pa(N), pb(N); for (int i = 0; i < N; i++) { a[i] = spread && r.below(4) ? 0 : (int)r.below(2 * m + 1) - m; b[i] = spread == 2 && r.below(8) ? 0 : (int)r.below(2 * m + 1) - m; c[i] = 12345; pa[i] = a[i]; pb[i] = b[i]; }
	g.note(fmt("integer N=%d |c|<=%d", N, m));
	bool same = g.below(3) == 2; if (same) conv<N>(a, a, c); else conv<N>(a, b, c);
	for (int k = 0; k < N; k++) { mpz_class w = negacyclic_at(pa, same ? pa : pb, k); PBT_CHECK(w == c[k], "integer N=%d coefficient %d = %d, want %s", N, k, c[k], w.get_str().c_str()); g.count(); }
	g.nontrivial();
}
using F = void (*)(Gen&);
struct Conf { int Q, N; };
static constexpr Conf C[] = {{1,2},{2,8},{3,4},{7,16},{20,4},{21,8},{22,16},{31,32},{32,8},{33,4},{50,16},{51,8},{52,64},{59,4},{60,16},{61,8},{62,8},{63,16},{64,32},{65,4},{81,8},{96,16},{111,8},{120,64},{127,4},{128,8},{129,16},
	{141,8},{171,16},{191,4},{192,32},{193,8},{200,16},{250,8},{256,64},{257,4},{300,32},{320,16},{384,8},{449,4},{512,16},{513,8},{640,8},{730,16},{790,8},{850,4},{1024,8},{1280,16},{1330,8},{1390,4},{1450,32},{1460,4},{1500,4},{2560,4},{2780,4},{2900,8},
	// large rings: the bound on the product is tightest where 2 LOGQ + 17 is just below a multiple of 60
	{21,1<<17},{22,1<<17},{51,1<<16},{52,1<<16},{20,1<<15},{50,1<<17},{82,1<<15},{112,1<<13},{60,1<<12},{120,1<<11},{64,1<<10},{300,512},{600,256},{1450,512},{1450,128},{1280,1<<10},{2900,256}};
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].Q, C[I].N>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].N <= 64 ? SMALL : LARGE).push_back(ALL[i]); return true; }();
static const F IT[] = {int_prop<2>, int_prop<8>, int_prop<16>, int_prop<64>, int_prop<512>};

static int p1 = add("product", (int)SMALL.size() * 160, (int)SMALL.size() * 12000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = add("product_large", (int)LARGE.size() * 8, (int)LARGE.size() * 300, (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
static int p3 = add("product_int", 5 * 100 / PARTS, 5 * 2000 / PARTS, 5, [](Gen& g) { IT[g.below(5)](g); });
PBT_MAIN
