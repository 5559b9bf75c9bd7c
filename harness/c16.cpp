// C16: switching keys; key switching of arbitrary ciphertexts; rotation and conjugation of ciphertexts.
#include "he.h"
#include <array>
#include <utility>
using namespace pbt; using namespace ref;

template <int L, int LOGN> struct T {
	static constexpr int N = 1 << LOGN, H = N / 2;
	using K = R_Q_square<2 * L, N>; using S = R_Q_square<L, N>;
	// keys of small weight, of any weight, and with equal or alternating entries, whose squares have large coefficients
	static std::vector<int> any_key(Gen& g) { int k = (int)g.below(8); if (k < 6) return gen_key(g, N, (int)g.below(std::min(N, 64) + 1)); g.label("dense key"); if (k == 6) return gen_key(g, N, (int)g.below(N + 1)); std::vector<int> s(N); int kind = (int)g.below(3), n = 1 + (int)g.below(N); for (int i = 0; i < n; i++) s[i] = kind == 1 || (kind == 2 && i % 2) ? -1 : 1; return s; }
	static std::vector<int> source(Gen& g, int wide) {
		std::vector<int> s(N); if (!wide) return any_key(g); Rng r = g.bulk();
		if (wide == 3) { int k = 1 + (int)g.below(4); for (int i = 0; i < k; i++) s[r.below(N)] = (int)(r.below(2) ? r.below(20000) : 1 + (1 << r.below(15)) - r.below(3)) * (r.below(2) ? 1 : -1); g.label("source up to 20000"); return s; } // a few large coefficients
		int b = wide == 1 ? 1 + (int)g.below(40) : 1 + (int)g.below(600); for (auto& v : s) v = r.below(3) ? (int)r.below(2 * b + 1) - b : 0; return s; }
	// the switching key decrypts to 2^LOGQ s_fr with noise at most 8; returns the noise
	static Poly key_noise(const K& k, const std::vector<int>& fr, const std::vector<int>& to, const char* what) {
		reduced(k, what); Poly d = rdec(k, to.data()), e(N);
		for (int i = 0; i < N; i++) { e[i] = centered2(d[i] - (mpz_class(fr[i]) << L), 2 * L); PBT_CHECK(abs(e[i]) <= 8, "LOGQ=%d N=%d %s: noise of coefficient %d is %s", L, N, what, i, str(e[i]).c_str()); }
		return e;
	}
	// got - want = (e c1) / 2^LOGQ up to one rounding per component, for one of the two integer lifts of c1
	static void switched(const Poly& got, const Poly& want, const Poly& e, const Poly& c1, int h, const char* what) {
		mpz_class half = h + 1; // twice the rounding bound
		bool ok = false; std::string first;
		for (int lift = 0; lift < 2 && !ok; lift++) {
			Poly c = c1; if (lift) c = pcent(c, L); Poly x = pmul(e, c); ok = true;
			for (int i = 0; i < N && ok; i++) { mpz_class d = centered2(got[i] - want[i], L), twice = 2 * ((d << L) - x[i]); // |2 (d - x/2^L)| <= h + 1
				if (abs(twice) > (half << L)) { ok = false; if (first.empty()) first = fmt("coefficient %d is off by %s, key noise explains %s", i, str(d).c_str(), str(mpz_class(x[i] >> L)).c_str()); } }
		}
		PBT_CHECK(ok, "LOGQ=%d N=%d h=%d %s: %s", L, N, h, what, first.c_str());
	}
	static Poly component(Gen& g) { int k = (int)g.below(12); if (k == 10) { g.label("zero component"); return Poly(N); } Poly p = gen_poly(g, N, L); if (k == 11) for (auto& v : p) v &= 0xffff; return p; }
	static void ks(Gen& g) {
		static std::unique_ptr<K> k(new K); static std::unique_ptr<S> ct(new S); int wide = (int)g.below(6); if (wide > 3) wide = 0;
		auto fr = source(g, wide), to = any_key(g), fr0 = fr, to0 = to; garbage(*k, g); srand((unsigned)g.u64());
		HEAAN<L, N>::swkgen(fr.data(), to.data(), *k); PBT_CHECK(fr == fr0 && to == to0, "swkgen changed its input"); Poly e = key_noise(*k, fr, to, "switching key");
		int n = 1 + (int)g.below(3); g.note(fmt("ks LOGQ=%d N=%d weight %d%s, %d ciphertexts", L, N, weight(to), wide ? ", wide source" : "", n)); if (wide) g.label("wide source");
		for (int t = 0; t < n; t++) {
			Poly a = component(g), b = component(g); put(*ct, a, b); Poly want = padd(a, pmul(b, ipoly(fr.data(), N)));
			auto k0 = get((*k)[0]), k1 = get((*k)[1]); HEAAN<L, N>::ks(*k, *ct); reduced(*ct, "key switching"); PBT_CHECK(get((*k)[0]) == k0 && get((*k)[1]) == k1, "ks changed the switching key");
			switched(rdec(*ct, to.data()), want, e, b, weight(to), "key switching"); g.count(N); if (weight(to) && psum(b) != 0) g.nontrivial();
		}
	}
	static void rotate(Gen& g) {
		static std::unique_ptr<K> k(new K); static std::unique_ptr<S> ct(new S), out(new S); auto s = any_key(g); std::vector<int> sr(N, 99);
		bool c = g.below(3) == 2; int r = (int)g.below(g.below(3) ? std::max(1, H) : 4 * N); garbage(*out, g); srand((unsigned)g.u64());
		long x = c ? 2L * N - 1 : five_pow(r, N); if (c) conj<N>(s.data(), sr.data()); else rot<N>(s.data(), sr.data(), r);
		HEAAN<L, N>::swkgen(sr.data(), s.data(), *k); Poly e = key_noise(*k, sr, s, c ? "conjugation key" : "rotation key");
		Poly a = component(g), b = component(g); put(*ct, a, b); g.note(fmt("%s LOGQ=%d N=%d r=%d h=%d", c ? "conjugate" : "rotate", L, N, r, weight(s)));
		if (c) conj<L, N>(*ct, *k, *out); else rot_ct<L, N>(*ct, r, *k, *out);
		reduced(*out, "rotated ciphertext"); PBT_CHECK(get((*ct)[0]) == a && get((*ct)[1]) == b, "rotation changed its input");
		Poly want = psubst(rdec(*ct, s.data()), x), b1 = psubst(b, x); for (auto& v : b1) v = mod2(v, L);
		switched(rdec(*out, s.data()), want, e, b1, weight(s), c ? "conjugation" : "rotation"); g.count(N); if (weight(s) && psum(b) != 0 && (c || r % std::max(1, H))) g.nontrivial();
	}
	static void product(Gen& g) { // Mul of arbitrary ciphertexts
		static std::unique_ptr<K> k(new K); static std::unique_ptr<S> x(new S), y(new S), out(new S); auto s = any_key(g); std::vector<int> sq(N, 99);
		Poly sp = ipoly(s.data(), N), s2 = pmul(sp, sp); conv<N>(s.data(), s.data(), sq.data()); for (int i = 0; i < N; i++) PBT_CHECK(s2[i] == sq[i], "N=%d square of the key, coefficient %d", N, i);
		srand((unsigned)g.u64()); HEAAN<L, N>::swkgen(sq.data(), s.data(), *k); Poly e = key_noise(*k, sq, s, "relinearisation key");
		bool same = g.below(5) == 4; Poly a = component(g), b = component(g), c = same ? a : component(g), d = same ? b : component(g); put(*x, a, b); put(*y, c, d); garbage(*out, g);
		g.note(fmt("Mul LOGQ=%d N=%d h=%d%s", L, N, weight(s), same ? " square" : "")); if (same) g.label("square");
		if (same) Mul<L, N>(*x, *x, *k, *out); else Mul<L, N>(*x, *y, *k, *out);
		reduced(*out, "product"); PBT_CHECK(get((*x)[0]) == a && get((*x)[1]) == b && (same || (get((*y)[0]) == c && get((*y)[1]) == d)), "Mul changed an operand");
		Poly want = pmul(rdec(*x, s.data()), rdec(same ? *x : *y, s.data())), d2 = pmul(b, d); for (auto& v : d2) v = mod2(v, L);
		switched(rdec(*out, s.data()), want, e, d2, weight(s), "product"); g.count(N); if (weight(s) && psum(b) != 0 && psum(d) != 0) g.nontrivial();
	}
	static void run(Gen& g) { switch (g.below(4)) { case 0: ks(g); break; case 1: case 2: rotate(g); break; default: product(g); } }
};
using F = void (*)(Gen&);
struct Conf { int Q, LOGN; };
#ifdef BIG
#define BIGN(x) ((x) / 7)
static constexpr Conf C[] = {{60,11},{120,12},{64,13}};
#else
#define BIGN(x) (x)
static constexpr Conf C[] = {{20,2},{30,3},{31,4},{32,3},{33,2},{52,4},{60,5},{63,3},{64,5},{65,4},{96,4},{110,5},{127,3},{128,4},{129,2},{160,5},{192,4},{250,6},{300,5},{320,3},{384,4},{513,3},{640,4},{850,4},{1450,4},{60,7},{200,8},{850,7}};
#endif
static constexpr int NC = sizeof C / sizeof *C;
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <int I> constexpr F entry() { if constexpr (IN_PART(I)) return &T<C[I].Q, C[I].LOGN>::run; else return nullptr; }
template <size_t... I> constexpr std::array<F, sizeof...(I)> mk(std::index_sequence<I...>) { return {entry<(int)I>()...}; }
static const auto ALL = mk(std::make_index_sequence<NC>());
static std::vector<F> SMALL, LARGE;
static const bool init = [] { for (int i = 0; i < NC; i++) if (ALL[i]) (C[i].LOGN <= 6 ? SMALL : LARGE).push_back(ALL[i]); return true; }();
static int p1 = SMALL.empty() ? 0 : add("switching", (int)SMALL.size() * 200, (int)SMALL.size() * 4000, (int)SMALL.size(), [](Gen& g) { SMALL[g.below(SMALL.size())](g); });
static int p2 = LARGE.empty() ? 0 : add("switching_large", (int)LARGE.size() * BIGN(15), (int)LARGE.size() * BIGN(200), (int)LARGE.size(), [](Gen& g) { LARGE[g.below(LARGE.size())](g); });
PBT_MAIN
